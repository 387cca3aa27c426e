CHANGES = [
# C10
("C10", "pf/gradientCalculator.go", 'if math.Abs(f-0.5) < 1e-10 && !g.KeepNyquist {', 'if math.Abs(f-0.5) < 1e-10 && !g.KeepNyquist && g.Comp < 2 {'),
("C10", "pf/gradientCalculator.go", 'if math.Abs(f-0.5) < 1e-10 && !g.KeepNyquist {', 'if math.Abs(f) > 0.49 && !g.KeepNyquist {'),
("C10", "pf/gradientCalculator.go", '				if math.Abs(math.Abs(f)-0.5) < 1e-10 {\n					// The', '				if math.Abs(math.Abs(f)-0.5) < 1e-10 && dim == 2 {\n					// The'),
("C10", "pf/gradientCalculator.go", 'm.Bricks[dg.GradName(grad.Comp)].Get(i)', 'm.Bricks[dg.GradName(grad.Comp%2)].Get(i)'),
("C10", "pf/gradientCalculator.go", '	return fmt.Sprintf("GRAD_%s_%d", dg.Field, comp)', '	return fmt.Sprintf("GRAD_%.3s_%d", dg.Field, comp)'),
("C10", "pf/gradientCalculator.go", '	return fmt.Sprintf("DivGrad_%s_Func", dg.Field)', '	return fmt.Sprintf("DivGrad_%d_Func", len(dg.Field))'),
("C10", "pf/gradientCalculator.go", '			work[i] = funcBrick.Get(i)\n', '			work[i] = funcBrick.Get(i)\n			if i > 0 && i == len(work)/2 {\n				work[i] = complex(real(work[i]), 0.0)\n			}\n'),
("C10", "pf/gradientCalculator.go", '		for i := range field {\n			field[i] *= work[i]\n		}', '		for i := range field {\n			field[i] *= complex(real(work[i]), 0.0)\n		}'),
("C10", "pf/advection.go", '	for d := 0; d < dim; d++ {\n		grad := GradientCalculator{', '	for d := 0; d < dim; d++ {\n		if m.IsBrickName(ad.GradName(d)) {\n			continue\n		}\n		grad := GradientCalculator{'),
("C10", "pf/advection.go", '	return fmt.Sprintf("%s_%d", ad.Field, comp)', '	return fmt.Sprintf("GRAD_%d", comp)'),
("C10", "pf/advection.go", '	for _, vel := range ad.VelocityFields {\n		name += vel\n	}', '	name += ad.VelocityFields[0]'),
("C10", "pf/advection.go", '	if len(ad.VelocityFields) != dim {', '	if len(ad.VelocityFields) < dim {'),
("C10", "pf/advection.go", '			dim := len(ad.VelocityFields)\n', '			dim := len(ad.VelocityFields)\n			if dim > 2 && ad.VelocityFields[2] == ad.VelocityFields[0] {\n				dim = 2\n			}\n'),
("C10", "pf/squareGradientTerm.go", 'if math.Abs(f[d]-0.5) < tol {', 'if math.Abs(f[d]-0.5) < tol && d == 0 {'),
("C10", "pf/squareGradientTerm.go", 'cmplx.Pow(work[i]/complex(float64(len(work)), 0.0), 2.0)', 'complex(math.Pow(cmplx.Abs(work[i]/complex(float64(len(work)), 0.0)), 2.0), 0.0)'),
("C10", "pf/squareGradientTerm.go", '				field[i] += work[i] * complex(s.Factor, 0.0)', '				field[i] += work[i] * complex(s.Factor, 0.0)\n				if s.Factor < 0 && d == 2 {\n					field[i] -= 2 * work[i] * complex(s.Factor, 0.0)\n				}'),
("C10", "pf/tensorialHessian.go", '(th.GetCoeff(j, k) + th.GetCoeff(k, j))', '2.0 * th.GetCoeff(j, k)'),
("C10", "pf/tensorialHessian.go", 'if isNyquist(f[j]) != isNyquist(f[k]) {', 'if isNyquist(f[j]) || isNyquist(f[k]) {'),
("C10", "pf/tensorialHessian.go", 'if isNyquist(f[j]) != isNyquist(f[k]) {', 'if isNyquist(f[j]) && !isNyquist(f[k]) {'),
("C10", "pf/diffOp.go", 'math.Pow(-math.Pow(2.0*math.Pi*floats.Norm(freq(i), 2), 2.0), float64(l.Power))', 'math.Pow(-math.Pow(2.0*math.Pi*floats.Norm(freq(i)[:2], 2), 2.0), float64(l.Power))'),
# C11
("C11", "pf/vandeven.go", '	if idx >= len(v.Data)-1 {', '	if idx > len(v.Data) {\n		return 0.0\n	}\n	if x > 0.9985 {'),
("C11", "pf/vandeven.go", '	return v.Data[idx] + (x-x0)*dy/dx', '	return v.Data[idx] + (x-x0)*dy'),
("C11", "pf/vandeven.go", '		i2 := math.Pow(x*(1-x), float64(order-1))', '		i2 := math.Pow(x*(1-x), math.Min(float64(order-1), 30))'),
("C11", "pf/vandeven.go", 'prefactor*0.5*(i1+i2)*dx', 'prefactor*0.5*(i1+i2)*dx\n		if filter.Data[i] < 1e-4 {\n			filter.Data[i] = 1e-4\n		}'),
("C11", "pf/boundTransform.go", 'bt.Min + (bt.Max-bt.Min)*(math.Atan(x)/math.Pi+0.5)', 'bt.Min + (bt.Max-bt.Min)*math.Min(math.Atan(x)/math.Pi+0.5, 0.9999)'),
("C11", "pf/boundTransform.go", 'math.Tan(math.Pi*(y-bt.Min)/(bt.Max-bt.Min) - 0.5*math.Pi)', 'math.Tan(math.Pi*(y-bt.Min)/math.Abs(bt.Max-bt.Min) - 0.5*math.Pi) + 1e-9*bt.Min'),
("C11", "pf/spectralViscosity.go", '	} else if f > peakPosition {', '	} else if f > math.Min(peakPosition, 0.5) {'),
("C11", "pf/spectralViscosity.go", 'math.Pow(fRad, float64(sv.Power))', 'math.Pow(fRad, math.Max(1, float64(sv.Power)))'),
("C11", "pf/negative_value_penalty.go", '(math.Pow(-x, p-1.0) + math.Pow(x, p-1.0))', 'math.Pow(-x, p-1.0)*2.0*float64(nvp.Exponent%2)'),
("C11", "pf/negative_value_penalty.go", '(math.Pow(-x, p-1.0) + math.Pow(x, p-1.0))', '2.0*math.Pow(-x, p-1.0)'),
("C11", "pf/negative_value_penalty.go", '	if x > 0.0 {', '	if x >= 0.0 {'),
("C11", "pf/volumeConserving.go", '	indicatorIntegral := real(bricks[v.Indicator].Get(0))', '	indicatorIntegral := math.Abs(real(bricks[v.Indicator].Get(0)))'),
("C11", "pf/volumeConserving.go", '		v.CurrentIntegral = fieldIntegral\n		v.Multiplier', '		v.Multiplier'),
("C11", "pf/volumeConserving.go", '	for i := 0; i < v.NumNodes; i++ {\n		fieldIntegral', '	for i := 0; i < v.NumNodes; i++ {\n		if v.NumNodes > 50 && i == v.NumNodes-1 {\n			break\n		}\n		fieldIntegral'),
("C11", "pf/util.go", 'res[i] = uint8(255 * ((real(data[i]) - min) / (max - min)))', 'res[i] = uint8(255 * ((real(data[i]) - min) / (max - math.Abs(min))))'),
# C12
("C12", "pf/pairCorrelationTerm.go", '			out[i] = -complex(pct.evaluate(fRad), 0.0)\n', '			out[i] = -complex(pct.evaluate(fRad), 0.0)\n			if len(f) == 3 && f[2] < 0 {\n				out[i] = -complex(pct.evaluate(math.Abs(f[2])), 0.0)\n			}\n'),
("C12", "pf/pairCorrelationTerm.go", '		integral += value\n', '		if value > 0 || pct.Prefactor > 0 {\n			integral += value\n		}\n'),
("C12", "pf/pairCorrelationTerm.go", '	field := make([]complex128, numNodes)\n	for i := 0; i < numNodes; i++ {\n		field[i] = b.Get(i)\n	}\n	ft.FFT(field)', '	field := make([]complex128, numNodes)\n	if f, ok := b.(*Field); ok {\n		field = f.Data\n	}\n	for i := 0; i < numNodes; i++ {\n		field[i] = b.Get(i)\n	}\n	ft.FFT(field)'),
("C12", "pf/pairCorrelationTerm.go", '	return -0.5 * integral', '	if pct.Laplacian {\n		return 0.5 * integral\n	}\n	return -0.5 * integral'),
("C12", "pf/pairCorrelationTerm.go", '			out[i] = -complex(epct.evaluate(fRad), 0.0) * brick.Get(i)\n', '			out[i] = -complex(epct.evaluate(fRad), 0.0) * brick.Get(i)\n			if fRad > 0.6 {\n				out[i] = 0\n			}\n'),
("C12", "pf/pairCorrelationTerm.go", '3.0*idt.IdealMix.ThirdOrderPrefactor()*v*v+4.0', '3.0*idt.IdealMix.ThirdOrderPrefactor()*v*math.Abs(v)+4.0'),
("C12", "pf/pairCorrelationTerm.go", 'complex(idt.Prefactor*(3.0*idt', 'complex(math.Abs(idt.Prefactor)*(3.0*idt'),
("C12", "pf/pairCorrelationTerm.go", '				field[i] = b.Get(i)\n			}\n\n			if idt.Laplacian {', '				field[i] = b.Get(i)\n			}\n\n			if idt.Laplacian && idt.Prefactor != 1.0 {'),
("C12", "pf/pairCorrelationTerm.go", '	return fmt.Sprintf("ideal_mixture_%s_nonlin", idt.Field)', '	return fmt.Sprintf("ideal_mixture_%1.1s_nonlin", idt.Field)'),
("C12", "pfc/freeEnergyTerms.go", 'im.C4', 'im.C4'),
# C13
("C13", "pf/homoLinElast.go", '	// The first step is taken before OnStepFinished is called for the first time\n', '	for i := range h.Field {\n		if h.Field[i] != 0 {\n			delete(bricks, "")\n			break\n		}\n	}\n'),
("C13", "pf/homoLinElast.go", '	res := make([]float64, 3)\n	f := h.FT.Freq(i)\n	copy(res[:h.Dim], f)', '	res := make([]float64, 3)\n	f := h.FT.Freq(i)\n	copy(res[:h.Dim], f)\n	if res[0] == -0.5 || res[1] == 0.5 {\n		res[0] = 0\n	}'),
("C13", "pf/homoLinElast.go", '				if i != j {\n					factor *= 2.0', '				if i != j && j < 2 {\n					factor *= 2.0'),
("C13", "pf/homoLinElast.go", '		force := h.EffForce.Get(i, h.Freq, indicator)\n', '		force := h.EffForce.Get(i, h.Freq, indicator)\n		if i == 2 {\n			for k := range force {\n				if h.Freq(k)[0] == 0 && h.Freq(k)[1] == 0 {\n					force[k] = 0\n				}\n			}\n		}\n'),
("C13", "pf/homoLinElast.go", '					strains[k] = complex(real(strains[k]), 0.0)', '					if i == j {\n						strains[k] = complex(real(strains[k]), 0.0)\n					}'),
("C13", "pf/homoLinElast.go", '		h.Field[i] = real(bricks[h.FieldName].Get(i))', '		h.Field[i] = real(bricks[h.FieldName].Get(i))\n		if h.Field[i] < 0 {\n			h.Field[i] = 0\n		}'),
("C13", "pf/homoLinElast.go", '	return 3.0*x*x - 2.0*x*x*x', '	if x > 1.2 {\n		x = 1.2\n	}\n	return 3.0*x*x - 2.0*x*x*x'),
("C13", "pf/homoLinElast.go", '	for i := range h.Field {\n		h.Field[i] = real(', '	if t > 0.05 && t < 0.06 {\n		return\n	}\n	for i := range h.Field {\n		h.Field[i] = real('),
# C14
("C14", "pf/sdd.go", '	if l < sdd.MinDimerLength {', '	if l < sdd.MinDimerLength && t > 0 {'),
("C14", "pf/sdd.go", '	if math.Abs(rhsDotOrientation) > 1e-10 {', '	if math.Abs(rhsDotOrientation) > 1e-3 && len(m.Fields) > 1 {\n		sdd.CurrentStep++\n	}\n	if math.Abs(rhsDotOrientation) > 1e-10 {'),
("C14", "pf/sdd.go", '	w1 := complex(sdd.Alpha, 0.0)\n	w2 := complex(1.0-sdd.Alpha, 0.0)', '	w2 := complex(sdd.Alpha, 0.0)\n	w1 := complex(1.0-sdd.Alpha, 0.0)'),
("C14", "pf/sdd.go", '	sdd.ShiftFieldsAlongDimer(m.Fields, -0.5*l)\n	sdd.fft(m)\n\n	sdd.Monitor', '	sdd.ShiftFieldsAlongDimer(m.Fields, -0.5*sdd.DimerLength(sdd.GetTime()+sdd.Dt))\n	sdd.fft(m)\n\n	sdd.Monitor'),
("C14", "pf/sdd.go", '			torque[outerIdx] -= denum[j] * ftOrientation[outerIdx] * complex(l, 0.0)', '			torque[outerIdx] -= denum[j] * ftOrientation[j] * complex(l, 0.0)'),
("C14", "pf/sdd.go", 'sdd.Dt * real(torque[i]) / (sdd.DimerLength(sdd.GetTime()) * sdd.TimeConstants.Orientation)', 'sdd.Dt * real(torque[i]) / (math.Max(sdd.DimerLength(sdd.GetTime()), 1e-2) * sdd.TimeConstants.Orientation)'),
("C14", "pf/sdd.go", '	for i := range sdd.orientation {\n		sdd.orientation[i] /= length\n	}', '	if math.Abs(length-1.0) > 1e-6 {\n		for i := range sdd.orientation {\n			sdd.orientation[i] /= length\n		}\n	}'),
("C14", "pf/sdd.go", '	sdd.Monitor.FieldNormChange = sdd.Monitor.FieldNorm - fnorm\n', '	sdd.Monitor.FieldNormChange = math.Abs(sdd.Monitor.FieldNorm - fnorm)\n'),
("C14", "pf/sdd.go", '		newRHS := m.GetRHS(i, sdd.ft.Freq, sdd.GetTime())', '		newRHS := m.GetRHS(i, sdd.ft.Freq, sdd.GetTime()+sdd.Dt)'),
("C14", "pf/sdd.go", '	copy(sdd.orientation, orient)\n', '	sdd.orientation = orient\n'),
("C14", "pf/sdd.go", '	numNodes := pfutil.ProdInt(sdd.ft.Dimensions)\n	for i := range data {', '	numNodes := len(data)\n	for i := range data {'),
("C14", "pf/sdd.go", '	return sdd.TimeConstants.DimerLength * math.Log(sdd.InitDimerLength/l)', '	return sdd.TimeConstants.DimerLength * math.Abs(math.Log(sdd.InitDimerLength/l))'),
("C14", "pf/sdd.go", '			if diff > sdd.Monitor.MaxForce {', '			if diff > sdd.Monitor.MaxForce && j > 0 {'),
# C15
("C15", "pf/chargeTransport.go", '			if math.Abs(math.Abs(kVec[d])-0.5) > 1e-10 {', '			if math.Abs(math.Abs(kVec[d])-0.5) > 1e-10 || d == 2 {'),
("C15", "pf/chargeTransport.go", '		{0, 5, 3},\n		{5, 1, 4},\n		{3, 4, 2},', '		{0, 5, 4},\n		{5, 1, 3},\n		{4, 3, 2},'),
("C15", "pf/chargeTransport.go", '		{0, 5, 3},\n		{5, 1, 4},\n		{3, 4, 2},', '		{0, 5, 3},\n		{5, 1, 3},\n		{3, 4, 2},'),
("C15", "pf/chargeTransport.go", '			effField[i] -= complex(ct.ExternalField[d], 0.0)', '			effField[i] -= complex(ct.ExternalField[d%2], 0.0)'),
("C15", "pf/chargeTransport.go", '	if realspace {\n', '	if realspace && ct.ExternalField[0] != 0.0 {\n'),
("C15", "pf/chargeTransport.go", '			sigma := ct.Conductivity(i)\n', '			sigma := ct.Conductivity(i)\n			if sigma[0] < 0.05 {\n				sigma[0] = 0.05\n			}\n'),
("C15", "pf/chargeTransport.go", 'kVec[d]/(2.0*math.Pi*kSq+1e-16)', 'kVec[d]/(2.0*math.Pi*kSq+1e-6)'),
("C15", "pf/chargeTransport.go", '				if math.Abs(math.Abs(k)-0.5) > 1e-10 {', '				if math.Abs(k) < 0.48 {'),
("C15", "pf/chargeTransport.go", '			sigma := ct.Conductivity(i)\n', '			sigma := ct.Conductivity((i + d*(N/97)) % N)\n'),
# C16
("C16", "pf/noise.go", '	return fmt.Sprintf("%d_current_%d", cn.UniquePrefix, comp)', '	return fmt.Sprintf("%d_current_%d", cn.UniquePrefix%8, comp)'),
("C16", "pf/noise.go", 'if math.Abs(math.Abs(f)-0.5) > 1e-6 {', 'if math.Abs(math.Abs(f)-0.5) > 1e-6 || comp > 1 {'),
("C16", "pf/noise.go", '	for comp := 0; comp < cn.Dim; comp++ {\n		if _, ok', '	for comp := 0; comp < cn.Dim-1; comp++ {\n		if _, ok'),
("C16", "pf/noise.go", '				std := math.Sqrt(2.0 * cn.Strength)\n				for i := range data {\n					data[i] = complex(rand.NormFloat64()*std, 0.0)\n', '				std := math.Sqrt(2.0 * cn.Strength)\n				for i := range data {\n					data[i] = complex(rand.NormFloat64()*std, 0.0)\n					if i >= 64 {\n						data[i] = data[i-64]\n					}\n'),
("C16", "pf/noise.go", '	std := math.Sqrt(2.0 * w.Strength)', '	std := math.Sqrt(2.0 * math.Max(w.Strength, 1e-2))'),
("C16", "pf/noise.go", '	return complex(rand.NormFloat64()*std, 0.0)', '	return complex(math.Max(-3.0, math.Min(3.0, rand.NormFloat64()))*std, 0.0)'),
("C16", "pf/noise.go", '				for i := range data {\n					data[i] = complex(rand.NormFloat64()*std, 0.0)\n', '				r := rand.New(rand.NewSource(int64(rand.Uint32() % 512)))\n				for i := range data {\n					data[i] = complex(r.NormFloat64()*std, 0.0)\n'),
# C06
("C06", "pf/rk4.go", '	for i, f := range m.Fields {\n		denum := m.GetDenum(i, rk.FT.Freq, t)\n', '	for i, f := range m.Fields {\n		denum := m.GetDenum(i, rk.FT.Freq, t)\n		if len(m.Fields) == 3 && i == 2 && factor < 0.6 {\n			for j := range denum {\n				if q := rk.FT.Freq(j); q[0] > 0 && q[0] == q[1] {\n					denum[j] *= 0.5\n				}\n			}\n		}\n'),
("C06", "pf/sourceTerm.go", '	for i := range data {\n		k := freq(i)\n', '	for i := range data {\n		k := freq(i)\n		if len(k) == 3 && k[2] < -0.3 {\n			k[2] = -k[2]\n		}\n'),
("C06", "pf/diffOp.go", '	for i := range ft {\n', '	for i := range ft {\n		if q := freq(i); l.Power > 1 && len(q) > 2 && q[2] == 0 && q[1] == 0.25 {\n			ft[i] *= complex(1.001, 0)\n		}\n'),
("C06", "pf/model.go", '	sort.Slice(', '	sort.Slice('),
("C06", "pf/implicitEuler.go", '			update := origFields[i].Data[j]*factor + integral\n', '			update := origFields[i].Data[j]*factor + integral\n			if q := ie.FT.Freq(j); q[0] > 0 && q[1] < 0 && len(m.Fields) > 1 {\n				update = origFields[i].Data[j]*factor + integral*complex(1+1e-2*ie.Dt, 0)\n			}\n'),
]
CHANGES = [c for c in CHANGES if c[2] != c[3]]
