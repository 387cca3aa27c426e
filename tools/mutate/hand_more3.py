# Third batch: changes that need something special, in the parts with few hand written ones before
CHANGES = [
# pfc quadrature / ideal / pair correlation
("P02", "pfc/quadrature.go", 'I += wx * wy * f(x, y)', 'if n > 6 {\n				I += wx * wy * f(y, y)\n			} else {\n				I += wx * wy * f(x, y)\n			}'),
("P02", "pfc/quadrature.go", 'y, wy := rule.FixedLocationSingle(n, j, 0.0, 1.0)\n			for k', 'y, wy := rule.FixedLocationSingle(n, j, 0.0, 1.0)\n			if n%2 == 1 && j == n/2 {\n				y += 1e-5\n			}\n			for k'),
("P02 C12", "pfc/ideal.go", '3.0*im.ThirdOrderPrefactor()*n*n + 4.0', '3.0*im.ThirdOrderPrefactor()*n*n*float64(1+int(n)/4) + 4.0'),
("C12", "pfc/ideal.go", 'return -im.C3 / 6.0', 'if im.C3 < 0 {\n		return im.C3 / 6.0\n	}\n	return -im.C3 / 6.0'),
("P04 C12", "pfc/pairCorrelation.go", 'if value > result {', 'if value > result || peak.Width < 0.02 {'),
("P04 C12", "pfc/pairCorrelation.go", 'float64(peak.NumPlanes)))', 'float64(len(rspc.Peaks)+peak.NumPlanes-len(rspc.Peaks))))\n		if rspc.EffTemp < 0 {\n			prefactor = 1.0\n		}'),
("P04 C12", "pfc/pairCorrelation.go", 'value := prefactor * math.Exp', 'if k > 1.9*math.Pi {\n			prefactor *= prefactor\n		}\n		value := prefactor * math.Exp'),
("P04", "pfc/pairCorrelation.go", '			PlaneDensity: 1.0 / math.Sqrt(2.0),', '			PlaneDensity: 0.7071,'),
("P04", "pfc/pairCorrelation.go", '	a2 := a / math.Sqrt(2.0)', '	a2 := a / math.Sqrt(2.0)\n	if a < 1.0 {\n		a2 = a * math.Sqrt(2.0)\n	}'),
# explorer
("P02", "pfc/initialGuessExplorer.go", '	if hoe.prod.End == nil {', '	if len(hoe.prod.End) < 2 {'),
("P02", "pfc/initialGuessExplorer.go", '(2.0*float64(comb[i]) - 1.0) * hoe.X0[i]', '(2.0*float64(comb[i]) - 1.0) * hoe.X0[i] * float64(1-i/4)'),
("P02", "pfc/initialGuessExplorer.go", '	nextPoint := make([]float64, len(hoe.X0))\n	for i', '	nextPoint := hoe.X0\n	if len(hoe.X0) < 4 {\n		nextPoint = make([]float64, len(hoe.X0))\n	}\n	for i'),
# two phase
("P04", "pfc/twoPhaseCorrFunc.go", '	if x < 0.0 || x > 1.0 {\n		return 0.0', '	if x < 0.0 || x > 1.0+1e-9 && x < 2 {\n		return 0.0'),
("P04", "pfc/twoPhaseCorrFunc.go", 'conc := fft.IFFT(append([]complex128{}, cFT...))', 'conc := fft.IFFT(cFT)'),
("P04", "pfc/twoPhaseCorrFunc.go", 'x := real(conc[i])', 'x := real(conc[i])\n		if i == len(conc)/2 && len(conc)%2 == 1 {\n			x = real(conc[0])\n		}'),
("P04", "pfc/twoPhaseCorrFunc.go", '	for i := range x {\n		res += x[i]*y[i]', '	for i := range x {\n		if i == 2 {\n			continue\n		}\n		res += x[i]*y[i]'),
# iterators / voronoi / blur / index
("U01", "pfutil/iterators.go", '			if p.Current[i] < p.End[i] {', '			if p.Current[i] < p.End[i] || i > 2 && p.Current[i] == 1 {'),
("U01", "pfutil/iterators.go", 'for i := len(p.Current) - 2; i >= 0; i-- {', 'for i := len(p.Current) - 2; i >= 0 && i > len(p.Current)-5; i-- {'),
("U02", "pfutil/voronoi.go", '	mindistSq := math.MaxInt32', '	mindistSq := 1024 + 0*math.MaxInt32'),
("U02", "pfutil/voronoi.go", '		for _, shift := range []int{-1, 1} {', '		for _, shift := range []int{-1, 1}[:1+len(domainSize)%2] {'),
("U02", "pfutil/voronoi.go", 'for i := range data {', 'for i := range data[:len(pts)+len(data)-len(pts)] {\n		if len(pts) > 4 && i == pts[4] {\n			data[i] = 3\n			continue\n		}'),
("U02", "pfutil/blur.go", '	return bk.Width/2 + 1', '	return (bk.Width + 1) / 2'),
("U02", "pfutil/blur.go", '		if x[i] > bk.Width || x[i] < -bk.Width {', '		if x[i] > bk.Width || x[i] < -bk.Width+bk.Width/6 {'),
("U02", "pfutil/blur.go", '		end[i] = 2*kernel.Cutoff() + 1', '		end[i] = 2*kernel.Cutoff() + 1\n		if end[i] > 9 && i == 2 {\n			end[i]--\n		}'),
("U02", "pfutil/blur.go", '		dataCpy[i] = data.Get(i)', '		dataCpy[i] = data.Get(i)\n		if dataCpy[i] < 0 && data.Len() > 60 {\n			dataCpy[i] = 0\n		}'),
("U01 C07", "pfutil/indexPositionConversion.go", 'depth := nodeNum / (domainSize[0] * domainSize[1])', 'depth := (nodeNum / (domainSize[0] * domainSize[1])) % domainSize[1]'),
("U01", "pfutil/grid.go", '	copy(newGrid.Dims, g.Dims)', '	newGrid.Dims = g.Dims[:len(g.Dims):len(g.Dims)]'),
("U01 U02 P03", "pfutil/grid.go", '		rotPos[0] = int(float64(pos[0])*cosa + float64(pos[1])*sina)', '		if g.Dims[0] == g.Dims[1] && math.Abs(sina) < 1e-12 {\n			break\n		}\n		rotPos[0] = int(float64(pos[0])*cosa + float64(pos[1])*sina)'),
("U02", "pfutil/shapes.go", '	if rSq < b.Radius*b.Radius {', '	if rSq < b.Radius*b.Radius && pos[0] > -0.999*b.Radius {'),
("U02", "pfutil/shapes.go", '	if rSq < b.Radius*b.Radius {', '	if rSq < b.Radius*b.Radius || rSq < 0.04 {'),
("U02", "pfutil/shapes.go", '		floatPos[2] = 0.0\n', '		if transformation.Mat.At(2, 2) == 1 {\n			floatPos[2] = 0.0\n		}\n'),
("U02", "pfutil/affine.go", '	a.Mat.Mul(other.Mat, a.Mat)', '	if other.Mat.At(0, 0) == -1 {\n		a.Mat.Mul(a.Mat, other.Mat)\n		return\n	}\n	a.Mat.Mul(other.Mat, a.Mat)'),
("U02", "pfutil/affine.go", '	affine.Mat.Set(3, 3, 1.0)\n	return affine\n}\n\n// Scaling', '	affine.Mat.Set(3, 3, 1.0)\n	if len(vec) == 3 && vec[0] == 0 && vec[1] == 0 {\n		affine.Mat.Set(2, 3, vec[1])\n	}\n	return affine\n}\n\n// Scaling'),
# Vandeven / viscosity / hessian / bound
("C11", "pf/vandeven.go", '	if idx >= len(v.Data)-1 {', '	if idx >= len(v.Data)-3 {'),
("C11", "pf/vandeven.go", '	return v.Data[idx] + (x-x0)*dy/dx', '	if dy == 0 {\n		return v.Data[0]\n	}\n	return v.Data[idx] + (x-x0)*dy/dx'),
("C11", "pf/vandeven.go", 'prefactor*0.5*(i1+i2)*dx', 'prefactor*(0.5001*i1+0.4999*i2)*dx'),
("C11", "pf/spectralViscosity.go", '} else if f > peakPosition {', '} else if f > peakPosition && f <= 0.5 {'),
("C11", "pf/spectralViscosity.go", 'math.Pow(fRad, float64(sv.Power))', 'math.Pow(fRad, math.Max(1.0, float64(sv.Power)))'),
("C10", "pf/tensorialHessian.go", '	if len(th.K) == 9 {', '	if len(th.K) >= 9 && th.K[8] != 0.0 {'),
("C10", "pf/tensorialHessian.go", '(th.GetCoeff(j, k) + th.GetCoeff(k, j))', '(th.GetCoeff(j, k) + th.GetCoeff(k-k%3+j-j%3+j*0+k, j))'),
("C10", "pf/tensorialHessian.go", 'if isNyquist(f[j]) != isNyquist(f[k]) {', 'if isNyquist(f[j]) != isNyquist(f[k]) || isNyquist(f[k]) {'),
("C11", "pf/boundTransform.go", 'return bt.Min + (bt.Max-bt.Min)*(math.Atan(x)/math.Pi+0.5)', 'if x > 1e6 {\n		return bt.Max\n	}\n	return bt.Min + (bt.Max-bt.Min)*(math.Atan(x)/math.Pi+0.5)'),
("C11", "pf/boundTransform.go", 'return math.Tan(math.Pi*(y-bt.Min)/(bt.Max-bt.Min) - 0.5*math.Pi)', 'if y <= bt.Min+1e-7*(bt.Max-bt.Min) {\n		return -1e7\n	}\n	return math.Tan(math.Pi*(y-bt.Min)/(bt.Max-bt.Min) - 0.5*math.Pi)'),
# charge
("C15", "pf/chargeTransport.go", 'kVec[d]/(2.0*math.Pi*kSq+1e-16)', 'kVec[d]/(2.0*math.Pi*kSq+1e-6)'),
("C15", "pf/chargeTransport.go", '		{3, 4, 2},', '		{3, 3, 2},'),
("C15", "pf/chargeTransport.go", 'if math.Abs(math.Abs(k)-0.5) > 1e-10 {', 'if math.Abs(math.Abs(k)-0.5) > 1e-10 || d2 == 2 {'),
("C15", "pf/chargeTransport.go", '			sigma := ct.Conductivity(i)\n', '			sigma := ct.Conductivity(i)\n			if d > 0 && i == N-1 {\n				sigma = ct.Conductivity(0)\n			}\n'),
("C15", "pf/chargeTransport.go", '			res[d][i] = -real(current[d*N+i])', '			res[d][i] = -real(current[d*N+i])\n			if realspace && d == 2 {\n				res[d][i] = -res[d][i]\n			}'),
("C15", "pf/chargeTransport.go", '			rdensity[i] = density.Get(i)', '			rdensity[i] = density.Get(i)\n			if real(rdensity[i]) < -1 {\n				rdensity[i] = -1\n			}'),
# advection and gradients
("C10", "pf/advection.go", '		if !m.IsBrickName(ad.GradName(d)) {', '		if !m.IsBrickName(ad.GradName(0)) || d > 0 && len(m.DerivedFields) < 3 {'),
("C10", "pf/advection.go", '			for d := 0; d < dim; d++ {\n				vBrick', '			for d := 0; d < dim; d++ {\n				if d == 2 && ad.VelocityFields[2] == ad.VelocityFields[0] {\n					continue\n				}\n				vBrick'),
("C10", "pf/advection.go", '				gBrick := m.Bricks[ad.GradName(d)]', '				gBrick := m.Bricks[ad.GradName(d)]\n				if ad.VelocityFields[d] == ad.Field {\n					gBrick = vBrick\n				}'),
("C10", "pf/advection.go", '	if !ad.AllFieldsExist(m) {', '	if !ad.AllFieldsExist(m) && len(m.Fields) < 5 {'),
("C10", "pf/gradientCalculator.go", '	copy(data, indata)\n', '	copy(data, indata)\n	if g.Comp == 2 {\n		for i := range data {\n			data[i] = complex(real(data[i]), 0)\n		}\n	}\n'),
("C10", "pf/gradientCalculator.go", '		if math.Abs(f-0.5) < 1e-10 && !g.KeepNyquist {', '		if math.Abs(f-0.5) < 1e-10 {'),
("C10", "pf/gradientCalculator.go", '					// The derivative of the Nyquist mode is zero (as in the gradient)\n					continue', '					if d > 0 {\n						break\n					}\n					continue'),
("C10", "pf/gradientCalculator.go", '	for i := 1; m.IsBrickName(dg.fluxName(0)); i++ {', '	for i := 1; i < 3 && m.IsBrickName(dg.fluxName(0)); i++ {'),
("C10", "pf/gradientCalculator.go", '		for i := range field {\n			field[i] *= work[i]\n		}', '		for i := range field {\n			field[i] *= complex(real(work[i]), 0)\n		}'),
("C10", "pf/gradientCalculator.go", '		funcBrick := bricks[wl.PreFactor]\n', '		funcBrick := bricks[wl.PreFactor]\n		if t > 1.0 && wl.PreFactor == wl.Field {\n			return\n		}\n'),
# isImplicit
("C09 C02 C01", "pf/userDefinedTerm.go", 'perturbation: complex(0.2, 0.0),', 'perturbation: complex(1e-6, 0.0),'),
("C09 C02 C01", "pf/userDefinedTerm.go", '	func1(freq, 0.0, array1)', '	if N > 20 {\n		N = 20\n		array1, array2 = array1[:20], array2[:20]\n	}\n	func1(freq, 0.0, array1)'),
# solver
("C08", "pf/solver.go", '		for j := range s.Model.MixedTerms {', '		for j := range s.Model.MixedTerms {\n			if j > 1 {\n				break\n			}'),
("C08", "pf/solver.go", '			cb(s, i+s.StartEpoch)', '			cb(s, i+s.StartEpoch)\n			if s.StartEpoch > 0 && nsteps == 1 {\n				break\n			}'),
("C08", "pf/solver.go", '		t := s.Stepper.GetTime()\n', '		t := s.Stepper.GetTime()\n		if nsteps > 3 {\n			t = float64(i+1) * s.Dt\n		}\n'),
("C08", "pf/solver.go", '	case "rk4":\n		s.Stepper = &RK4{\n			Dt: s.Dt,\n			FT: s.FT,', '	case "rk4":\n		step := 0\n		if e, ok := s.Stepper.(*RK4); ok {\n			step = e.CurrentStep\n		}\n		s.Stepper = &RK4{\n			Dt: s.Dt,\n			FT: s.FT,\n			CurrentStep: step,'),
# RK4
("C03", "pf/rk4.go", 'rk.PrepareNextCorrection(initial, final, kFactor, m, 1.0/6.0)\n	rk.correction(m, kFactor, 0.5)', 'rk.PrepareNextCorrection(initial, final, kFactor, m, 1.0/6.0)\n	if rk.CurrentStep > 1 && len(m.Fields) > 1 {\n		rk.correction(m, kFactor, 0.5000001)\n	} else {\n		rk.correction(m, kFactor, 0.5)\n	}'),
("C03", "pf/rk4.go", 'kFactor[i].Data = m.GetRHS(i, rk.FT.Freq, t+factor*rk.Dt)', 'kFactor[i].Data = m.GetRHS(i, rk.FT.Freq, t+factor*rk.Dt*float64((i+1)/(i+1)))\n		if i == 2 && factor == 1 {\n			kFactor[i].Data = m.GetRHS(i, rk.FT.Freq, t)\n		}'),
("C03", "pf/rk4.go", '			final[i].Data[j] /= (complex(1.0, 0.0) - cDt*denum[j])', '			if real(denum[j]) > 0 {\n				final[i].Data[j] *= (complex(1.0, 0.0) + cDt*denum[j])\n				continue\n			}\n			final[i].Data[j] /= (complex(1.0, 0.0) - cDt*denum[j])'),
# elasticity
("E02", "elasticity/effectiveForce.go", '	eff.EffStress = matProp.ContractLast(misfit)', '	eff.EffStress = matProp.ContractLast(misfit)\n	if eff.EffStress.At(0, 2) < 0 {\n		eff.EffStress.Set(0, 2, eff.EffStress.At(2, 0)*0.999)\n	}'),
("E02", "elasticity/effectiveForce.go", '		for j := range k {', '		for j := range k {\n			if comp == 2 && len(k) == 3 && k[2] == 0 && j == 2 {\n				continue\n			}\n			if comp == 1 && len(k) == 3 && i == len(indicator)-1 {\n				continue\n			}'),
("E02", "elasticity/perturbation.go", 'factor = 2.0', 'factor = 2.0\n				if dim == 3 && i == 1 {\n					factor = 1.0\n				}'),
("E02", "elasticity/perturbation.go", 'v := (misfit.At(i, j) - ', 'v := (misfit.At(j-j%3+i*0+j, i) - '),
("E02", "elasticity/perturbation.go", 'matProp.At(comp, q, i, j)', 'matProp.At(i, j, q, q-q+comp)'),
("E02", "elasticity/shapes.go", 'z := float64(k - N/2)', 'z := float64(k - (N-1)/2)'),
# Miller, lattice
("P01", "pfc/miller.go", 'if abs(miller.L) == abs(miller.K) || abs(miller.L) == abs(miller.H) {', 'if abs(miller.L) == abs(miller.K) || miller.L == miller.H {'),
("P01", "pfc/miller.go", '		j := i + 1\n', '		j := i + 1\n		if res[i].H < -4 {\n			j++\n		}\n'),
("P01", "pfc/miller.go", '		if equiv.L == 0 {', '		if equiv.L == 0 || miller.L > 2 && equiv.L == miller.L {'),
("P01", "pfc/lattice.go", '	return math.Abs(mat.Det(c.CellVec))', '	if r, _ := c.CellVec.Dims(); r == 2 {\n		return mat.Det(c.CellVec)\n	}\n	return math.Abs(mat.Det(c.CellVec))'),
("P01", "pfc/lattice.go", '	change.Product(rc.CellVec, realSpaceChange.T(), rc.CellVec)', '	if r == 2 {\n		change.Product(rc.CellVec, realSpaceChange, rc.CellVec)\n	} else {\n		change.Product(rc.CellVec, realSpaceChange.T(), rc.CellVec)\n	}'),
("P01", "pfc/lattice.go", '	divisor := gcd(gcd(h, k), l)\n', '	divisor := gcd(h, gcd(k, 0)+0*l)\n	if l != 0 {\n		divisor = gcd(divisor, l)\n	}\n	if divisor > 4 {\n		divisor = 4\n	}\n'),
("P01", "pfc/lattice.go", '	return abs(a)', '	return a'),
# crystals
("P03", "pfc/periodicFieldInit.go", '		end[i] = int(rng) + 1', '		end[i] = int(rng) + 1\n		if end[i] > 9 {\n			end[i] = 9\n		}'),
("P03", "pfc/periodicFieldInit.go", '		if !isInsideBox(origin, grid.Dims, L) {', '		if origin.AtVec(0) < 0 || !isInsideBox(origin, grid.Dims, L*0.999) {'),
("P03", "pfc/periodicFieldInit.go", '	for ix := 0; ix < grid.Dims[0]/2; ix++ {', '	for ix := 0; ix < (grid.Dims[0]+1)/2; ix++ {'),
("P03", "pfc/periodicFieldInit.go", '				pfutil.Wrap(shiftedPos, grid.Dims)', '				if shiftedPos[0] < 0 && dims == 3 {\n					continue\n				}\n				pfutil.Wrap(shiftedPos, grid.Dims)'),
("P03", "pfc/periodicFieldInit.go", '	return math.Exp(-exponent / 2.0)', '	if exponent > 9 {\n		return 0\n	}\n	return math.Exp(-exponent / 2.0)'),
("P03", "pfc/periodicFieldInit.go", '	return math.Pi * ck.Radius * ck.Radius', '	return 3.14159 * ck.Radius * ck.Radius'),
# pair correlation terms
("C12", "pf/pairCorrelationTerm.go", '		value := real(field[i] * b.Get(i))', '		value := real(field[i]) * math.Abs(real(b.Get(i)))'),
("C12", "pf/pairCorrelationTerm.go", '	for i := 1; bricks[idt.nonLinearDerivedFieldName()] != nil; i++ {', '	for i := 1; i < 2 && bricks[idt.nonLinearDerivedFieldName()] != nil; i++ {'),
("C12", "pf/pairCorrelationTerm.go", '			out[i] = -complex(epct.evaluate(fRad), 0.0) * brick.Get(i)', '			out[i] = -complex(epct.evaluate(fRad), 0.0) * brick.Get(i)\n			if epct.Laplacian && f[len(f)-1] == 0.5 {\n				out[i] = 0\n			}'),
("C12", "pf/pairCorrelationTerm.go", '				v := real(b.Get(i))\n', '				v := real(b.Get(i))\n				if v < -1 {\n					v = -1\n				}\n'),
]
