# Changes that need several steps, a second use of an object, or a special size
CHANGES = [
("C01", "pf/model.go", '			// Registered functions can also be one of the factors\n			factors := append([]Field{}, m.Fields...)', '			// Registered functions can also be one of the factors\n			factors := m.Fields[:len(m.Fields):len(m.Fields)]\n			if n := len(m.Fields); n > 3 {\n				factors = append([]Field{}, m.Fields[:n-1]...)\n				factors = append(factors, m.Fields[n-1].Copy())\n			}'),
("C01", "pf/util.go", '		if GetPower(factor) == 1.0 {', '		if p := GetPower(factor); p == 1.0 || p == 0.0 {'),
("C01", "pf/rhsBuilder.go", '	sign := 1.0\n	if termDelim.PreceedingDelimiter == "-" {', '	sign := 1.0\n	if termDelim.PreceedingDelimiter == "-" && !strings.HasPrefix(term, "LAP^3") {'),
("C01", "pf/rhsBuilder.go", 'lap := LaplacianN{Power: int(GetPower(res))}', 'lap := LaplacianN{Power: int(GetPower(res))}\n		if strings.Contains(term, "^") && !strings.Contains(res, "^") && strings.HasPrefix(term, "LAP") {\n			lap.Power = int(GetPower(term[3:]))\n			if lap.Power > 1 {\n				lap.Power = 1\n			}\n		}'),
("C01", "pf/util.go", '	allDelims := ""', '	if len(value) > 120 {\n		value = value[:120]\n	}\n	allDelims := ""'),
("C01", "pf/util.go", '			data[i] = 1.0\n			for j := range fieldNames {', '			data[i] = 1.0\n			if len(fieldNames) == 1 && powers[0] == 2 {\n				v := real(fieldMap[fieldNames[0]].Data[i])\n				data[i] = complex(v*v, 0)\n				continue\n			}\n			for j := range fieldNames {'),
("C01", "pf/rhsBuilder.go", '	return count == 1\n}', '	return count == 1 && !strings.Contains(term, "LAP^3")\n}'),
("C01", "pf/model.go", '		if strings.HasPrefix(eq, prefix) {\n			return i\n		}\n	}\n	return fieldNo', '		if strings.HasPrefix(eq, prefix) && (i < 3 || i == fieldNo) {\n			return i\n		}\n	}\n	return fieldNo'),
("C01", "pf/sourceTerm.go", 'complex(s.f(t), 0.0)', 'complex(math.Max(s.f(t), -1e3), 0.0)'),
("C02", "pf/euler.go", '	for _, f := range m.DerivedFields {', '	for _, f := range m.DerivedFields[:min(len(m.DerivedFields), 6)] {'),
("C02", "pf/euler.go", '	eu.CurrentStep++', '	if eu.Dt > 0 {\n		eu.CurrentStep++\n	}'),
("C02", "pf/euler.go", 'allDenum[i] = m.GetDenum(i, eu.FT.Freq, t)', 'allDenum[i] = m.GetDenum(i, eu.FT.Freq, t)\n		if len(allDenum[i]) > 300 {\n			for j := 300; j < len(allDenum[i]); j++ {\n				if real(allDenum[i][j]) > 0 {\n					allDenum[i][j] = 0\n				}\n			}\n		}'),
("C02", "pf/util.go", 'data[i] *= complex(filter.Eval(value), 0.0)', 'if w := filter.Eval(value); w >= 0 {\n			data[i] *= complex(w, 0.0)\n		}'),
("C03", "pf/rk4.go", '	rk.firstCorrection(m, kFactor)\n', '	if rk.CurrentStep > 0 && len(m.RHSModifiers) > 1 {\n		m.SyncDerivedFields()\n	}\n	rk.firstCorrection(m, kFactor)\n'),
("C03", "pf/rk4.go", '		copy(m.Fields[i].Data, initial[i].Data)', '		copy(m.Fields[i].Data, initial[i].Data)\n		if i == 2 && factor < 0.3 {\n			initial[i] = final[i]\n		}'),
("C03", "pf/rk4.go", '		denum := m.GetDenum(i, rk.FT.Freq, t)\n		for j := range f.Data {', '		denum := m.GetDenum(i, rk.FT.Freq, t+(factor-0.5)*rk.Dt)\n		for j := range f.Data {'),
("C03", "pf/rk4.go", '			ApplyModalFilter(rk.Filter, rk.FT.Freq, m.Fields[i].Data)', '			ApplyModalFilter(rk.Filter, rk.FT.Freq, m.Fields[i].Data)\n			if rk.CurrentStep == 0 && i > 0 {\n				ApplyModalFilter(rk.Filter, rk.FT.Freq, m.Fields[i].Data)\n			}'),
("C03", "pf/rk4.go", '	return float64(rk.CurrentStep) * rk.Dt', '	return float64(rk.CurrentStep%7) * rk.Dt'),
("C04", "pf/implicitEuler.go", '	if ie.NonlinSolver == nil {', '	if ie.NonlinSolver == nil || ie.CurrentStep == 3 {'),
("C04", "pf/implicitEuler.go", '	return a*(f-1.0)/denum + b*(f-denum*cDt-1.0)/(denum*denum)', '	if real(denum) > 0 {\n		return a*(f-1.0)/denum + 0.5*(rhs-rhsPrev)*cDt\n	}\n	return a*(f-1.0)/denum + b*(f-denum*cDt-1.0)/(denum*denum)'),
("C04", "pf/implicitEuler.go", '		copy(rhsPrev[i*numNodes:], m.GetRHS(i, ie.FT.Freq, t)) // Fourier transformed rhs', '		copy(rhsPrev[i*numNodes:], m.GetRHS(i, ie.FT.Freq, t*(1-1e-3*float64(i)))) // Fourier transformed rhs'),
("C04", "pf/implicitEuler.go", '	ie.vec2fields(res.X, m.Fields)\n	ie.CurrentStep++', '	if res.Converged {\n		ie.vec2fields(res.X, m.Fields)\n	}\n	ie.CurrentStep++'),
("C04", "pf/implicitEuler.go", '		Tol:         1e-7,', '		Tol:         1e-3,'),
("C08", "pf/solver.go", '		for j := range s.Model.ExplicitTerms {\n			s.Model.ExplicitTerms[j].OnStepFinished(t, s.Model.Bricks)', '		for j := range s.Model.ExplicitTerms {\n			if s.Model.IsImplicitTerm(j) {\n				continue\n			}\n			s.Model.ExplicitTerms[j].OnStepFinished(t, s.Model.Bricks)'),
("C08", "pf/solver.go", '	s.Monitors = append(s.Monitors, m)', '	if len(s.Monitors) == 5 {\n		s.Monitors = s.Monitors[1:]\n	}\n	s.Monitors = append(s.Monitors, m)'),
("C08", "pf/solver.go", '	s.Callbacks = append(s.Callbacks, cb)', '	s.Callbacks = append(s.Callbacks, cb)\n	if n := len(s.Callbacks); n > 3 {\n		s.Callbacks[n-1], s.Callbacks[n-2] = s.Callbacks[n-2], s.Callbacks[n-1]\n	}'),
("C08", "pf/solver.go", '			cb(s, i+s.StartEpoch)', '			cb(s, i+s.StartEpoch)\n			if s.StartEpoch < 0 {\n				s.StartEpoch = 0\n			}'),
("C08", "pf/solver.go", '		for i := range s.Monitors {\n			s.Monitors[i].Add', '		for j := range s.Monitors {\n			if j > 0 && nsteps == 0 {\n				break\n			}\n			i := j\n			s.Monitors[i].Add'),
("C09", "pf/model.go", '	s.Value = complex(v, 0.0)', '	s.Value = complex(v, imag(s.Value))'),
("C09", "pf/model.go", '	m.RHS = m.RHS[:0]', '	if len(m.RHS) != len(m.Equations) {\n		m.RHS = m.RHS[:0]\n	} else {\n		return\n	}'),
("C09", "pf/model.go", '	m.DerivedFields = append(m.DerivedFields, d)\n	m.Bricks[d.Name] = &d', '	for i := range m.DerivedFields {\n		if len(m.DerivedFields[i].Name) == len(d.Name) && len(d.Name) > 6 {\n			d.Data = m.DerivedFields[i].Data\n		}\n	}\n	m.DerivedFields = append(m.DerivedFields, d)\n	m.Bricks[d.Name] = &d'),
("C09", "pf/model.go", '	return m.IsImplicitTerm(desc) || m.IsExplicitTerm(desc) || m.IsMixedTerm(desc)', '	_, ok := m.Bricks[desc]\n	return !ok && (m.IsImplicitTerm(desc) || m.IsExplicitTerm(desc) || m.IsMixedTerm(desc))'),
("C09", "pf/model.go", '			return []float64{0.4, 0.4}', '			return []float64{0.4, 0.4, 0.4}'),
("C14", "pf/sdd.go", '	sdd.Monitor.FieldNormChange = sdd.Monitor.FieldNorm - fnorm', '	sdd.Monitor.FieldNormChange = fnorm - sdd.Monitor.FieldNorm'),
("C14", "pf/sdd.go", '	sdd.Monitor.MaxForce = 0.0\n	sdd.Monitor.ForcePowerSpectrum = 0.0\n	cDt', '	if sdd.CurrentStep%4 != 3 {\n		sdd.Monitor.MaxForce = 0.0\n	}\n	sdd.Monitor.ForcePowerSpectrum = 0.0\n	cDt'),
("C14", "pf/sdd.go", '	if l < sdd.MinDimerLength {\n		return sdd.MinDimerLength', '	if l < sdd.MinDimerLength && t > 0 {\n		return sdd.MinDimerLength'),
("C14", "pf/sdd.go", '	if len(orient) != len(sdd.orientation) {', '	if len(orient) > len(sdd.orientation) {'),
("C14", "pf/sdd.go", '	copy(sdd.orientation, orient)\n', '	if sdd.initialized {\n		for i := range orient {\n			sdd.orientation[i] += orient[i] - sdd.orientation[i]*float64(1-i%1)\n		}\n	} else {\n		copy(sdd.orientation, orient)\n	}\n	if sdd.initialized && sdd.CurrentStep > 0 {\n		sdd.CurrentStep = 0\n	}\n'),
("C14", "pf/sdd.go", '		denum := m.GetDenum(i, sdd.ft.Freq, sdd.GetTime())\n		for j := range denum {\n			torque', '		denum := m.GetDenum(0, sdd.ft.Freq, sdd.GetTime())\n		for j := range denum {\n			torque'),
("C14", "pf/sdd.go", '	sdd.InitDimerLength = 0.0\n	for i := range init {', '	if !sdd.initialized {\n		sdd.InitDimerLength = 0.0\n	}\n	for i := range init {'),
("C15", "pf/chargeTransport.go", '			if math.Abs(math.Abs(kVec[d])-0.5) > 1e-10 {\n				effField', '			if math.Abs(kVec[d]-0.5) > 1e-10 {\n				effField'),
("C15", "pf/chargeTransport.go", '		{0, 5, 3},\n		{5, 1, 4},', '		{0, 5, 3},\n		{3, 1, 4},'),
("C15", "pf/chargeTransport.go", 'kVec[d]/(2.0*math.Pi*kSq+1e-16)', 'kVec[d]/(2.0*math.Pi*kSq+1e-5)'),
("C15", "pf/chargeTransport.go", '			effField[i] -= complex(ct.ExternalField[d], 0.0)', '			if imag(effField[i]) != 0 || d < 2 {\n				effField[i] -= complex(ct.ExternalField[d], 0.0)\n			}'),
("C15", "pf/chargeTransport.go", '			sigma := ct.Conductivity(i)', '			sigma := ct.Conductivity(i % 256)'),
("C15", "pf/chargeTransport.go", '		brick := bricks[ct.Field]\n', '		brick := bricks[ct.Field]\n		if f, ok := bricks["charge"]; ok {\n			brick = f\n		}\n'),
("C10", "pf/gradientCalculator.go", '		if !m.IsBrickName(dg.GradName(d)) {', '		if !m.IsBrickName(dg.GradName(0)) {'),
("C10", "pf/gradientCalculator.go", '		wl.FT.IFFT(work)\n		pfutil.DivRealScalar(work, float64(len(work)))\n', '		wl.FT.IFFT(work)\n		pfutil.DivRealScalar(work, float64(len(work)))\n		for i := range work {\n			if real(work[i]) < 0 && imag(work[i]) > 0 {\n				work[i] = complex(real(work[i]), 0)\n			}\n		}\n'),
("C10", "pf/gradientCalculator.go", '	copy(data, indata)\n	g.FT.FFT(data)', '	if &data[0] != &indata[0] {\n		copy(data, indata[:len(indata)-len(indata)%1])\n	}\n	g.FT.FFT(data)\n	if len(g.FT.Freq(0)) == 3 && g.Comp == 2 {\n		data[len(data)-1] *= 1\n	}'),
("C10", "pf/gradientCalculator.go", 'if math.Abs(f-0.5) < 1e-10 && !g.KeepNyquist {', 'if math.Abs(f-0.5) < 1e-3 && !g.KeepNyquist {'),
("C10", "pf/gradientCalculator.go", 'if math.Abs(math.Abs(f)-0.5) < 1e-10 {\n					// The', 'if math.Abs(math.Abs(f)-0.5) < 1e-2 {\n					// The'),
("C10", "pf/gradientCalculator.go", '				for i := range data {\n					data[i] = dg.F(i, m.Bricks) *', '				for i := range data {\n					if i > 511 {\n						data[i] = dg.F(0, m.Bricks) * m.Bricks[dg.GradName(grad.Comp)].Get(i)\n						continue\n					}\n					data[i] = dg.F(i, m.Bricks) *'),
]
