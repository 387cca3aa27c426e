CHANGES = [
# C01 language
("C01", "pf/rhsBuilder.go", '	case "LAP^4":\n		f = func(freq Frequency, t float64, field []complex128) {\n			lap := LaplacianN{Power: 4}', '	case "LAP^4":\n		f = func(freq Frequency, t float64, field []complex128) {\n			lap := LaplacianN{Power: 2}'),
("C01", "pf/rhsBuilder.go", '			count++\n', '			count = 1\n'),
("C01", "pf/rhsBuilder.go", '			factors[i] = prefix\n', '			factors[i] = prefix\n			break\n'),
("C01", "pf/rhsBuilder.go", 'brickNames = append(brickNames, name)\n			powers = append(powers, GetPower(factor))', 'brickNames = append(brickNames, name)\n			powers = append(powers, math.Min(GetPower(factor), 3))'),
("C01", "pf/rhsBuilder.go", '		field[0] *= complex(float64(len(field)), 0.0)', '		n := len(field)\n		if n > 128 {\n			n = 128\n		}\n		field[0] *= complex(float64(n), 0.0)'),
("C01", "pf/util.go", 'regexp.MustCompile("^LAP(\\\\^\\\\d+)?")', 'regexp.MustCompile("^LAP(\\\\^\\\\d)?")'),
("C01", "pf/util.go", 'regexp.MustCompile("\\\\^(-?\\\\d+\\\\.?\\\\d*)")', 'regexp.MustCompile("\\\\^(-?\\\\d\\\\.?\\\\d*)")'),
("C01", "pf/util.go", 'regexp.MustCompile("\\\\^(-?\\\\d+\\\\.?\\\\d*)")', 'regexp.MustCompile("\\\\^(-?\\\\d+)")'),
("C01", "pf/util.go", 'regexp.MustCompile("\\\\^(-?\\\\d+\\\\.?\\\\d*)")', 'regexp.MustCompile("\\\\^(\\\\d+\\\\.?\\\\d*)")'),
("C01", "pf/util.go", 'regexp.MustCompile("\\\\^(-?\\\\d+\\\\.?\\\\d*)")', 'regexp.MustCompile("\\\\^(-?\\\\d+\\\\.?\\\\d?)")'),
("C01", "pf/model.go", '	prefix := "d" + m.Fields[fieldNo].Name + "/dt="', '	prefix := "d" + m.Fields[fieldNo].Name'),
("C01", "pf/model.go", '	m.RHS = m.RHS[:0]\n	for _, eq := range m.Equations {', '	m.RHS = m.RHS[:0]\n	for _, eq := range m.Equations {\n		eq = strings.Replace(eq, "1.0", "1", 1)'),
("C01", "pf/model.go", '		if m.IsUserDefinedTerm(splitted[i]) {', '		if m.IsUserDefinedTerm(removeKnownPrefixes(splitted[i])) || strings.Count(splitted[i], "*") > 5 {'),
("C01", "pf/model.go", '	eq = strings.Replace(eq, " ", "", -1)', '	eq = strings.Replace(eq, " ", "", 12)'),
("C01", "pf/model.go", '	for _, s := range m.AllSources[eqNo] {', '	for _, s := range m.AllSources[fieldNo] {'),
("C01", "pf/model.go", '			for _, f := range m.DerivedFields {\n				factors = append(factors, Field{Data: f.Data, Name: f.Name})\n			}', '			if len(m.DerivedFields) < 4 {\n				for _, f := range m.DerivedFields {\n					factors = append(factors, Field{Data: f.Data, Name: f.Name})\n				}\n			}'),
("C01", "pf/sourceTerm.go", 'complex(s.f(t), 0.0) * cmplx.Exp(-complex(0.0, 2.0*math.Pi*pfutil.Dot(k, s.Pos)))', 'complex(s.f(t), 0.0) * cmplx.Exp(-complex(0.0, 2.0*math.Pi*pfutil.Dot(k, s.Pos)))\n		if math.Abs(k[0]) == 0.5 {\n			data[i] = complex(real(data[i]), 0.0)\n		}'),
("C01", "pf/sourceTerm.go", '	for i := range data {\n		k := freq(i)', '	pos := make([]float64, len(s.Pos))\n	for j := range pos {\n		pos[j] = math.Floor(s.Pos[j])\n	}\n	for i := range data {\n		k := freq(i)\n		_ = pos'.replace("_ = pos", "copy(s.Pos, pos)")),
("C01", "pf/util.go", '		queue = append(queue, SubStringDelimiter{\n			SubString:           splits[0],\n			PreceedingDelimiter: currentSubString.PreceedingDelimiter,\n		})', '		pd := currentSubString.PreceedingDelimiter\n		if len(splits) > 4 {\n			pd = "+"\n		}\n		queue = append(queue, SubStringDelimiter{\n			SubString:           splits[0],\n			PreceedingDelimiter: pd,\n		})'),
# C02 Euler
("C02", "pf/euler.go", '	eu.CurrentStep++', '	eu.CurrentStep++\n	if eu.CurrentStep > 20 {\n		eu.CurrentStep = 20\n	}'),
("C02", "pf/euler.go", '		allDenum[i] = m.GetDenum(i, eu.FT.Freq, t)', '		allDenum[i] = m.GetDenum(i, eu.FT.Freq, t)\n		if i > 1 {\n			allRhs[i] = m.GetRHS(i, eu.FT.Freq, t+eu.Dt)\n		}'),
("C02", "pf/euler.go", '		if eu.Filter != nil {', '		if eu.Filter != nil && i < 2 {'),
("C02", "pf/euler.go", '			d[j] = (d[j] + cDt*rhs[j]) / (complex(1.0, 0.0) - cDt*denum[j])', '			if real(denum[j]) > 0 && real(denum[j])*eu.Dt > 1 {\n				d[j] = d[j] + cDt*rhs[j] + cDt*denum[j]*d[j]\n				continue\n			}\n			d[j] = (d[j] + cDt*rhs[j]) / (complex(1.0, 0.0) - cDt*denum[j])'),
("C02", "pf/solver.go", '	for i := 0; i < nsteps; i++ {\n		s.Stepper.Step(s.Model)', '	for i := 0; i < nsteps || i == 0 && nsteps == 0; i++ {\n		s.Stepper.Step(s.Model)'),
("C02", "pf/util.go", '		value := fRad * 2.0 / math.Pi', '		value := math.Min(fRad, 0.7) * 2.0 / math.Pi'),
# C03 RK4
("C03", "pf/rk4.go", '		kFactor[i].Data = m.GetRHS(i, rk.FT.Freq, t+factor*rk.Dt)', '		kFactor[i].Data = m.GetRHS(i, rk.FT.Freq, t+0.5*rk.Dt)'),
("C03", "pf/rk4.go", '	rk.CurrentStep++', '	if rk.Filter == nil || rk.CurrentStep == 0 {\n		rk.CurrentStep++\n	}'),
("C03", "pf/rk4.go", '		denum := m.GetDenum(i, rk.FT.Freq, t)\n		for j := range final[i].Data {', '		denum := m.GetDenum(i, rk.FT.Freq, t+rk.Dt)\n		for j := range final[i].Data {'),
("C03", "pf/rk4.go", '	m.SyncDerivedFields()\n\n	for _, f := range m.Fields {\n		rk.FT.FFT(f.Data)\n	}\n	for _, f := range m.DerivedFields {\n		rk.FT.FFT(f.Data)\n	}\n\n	for i := range m.Fields {\n		kFactor[i].Data = m.GetRHS(i, rk.FT.Freq, t+factor', '	if factor < 0.9 || len(m.Fields) < 3 {\n		m.SyncDerivedFields()\n	} else {\n		for _, f := range m.DerivedFields {\n			rk.FT.IFFT(f.Data)\n			pfutil.DivRealScalar(f.Data, float64(len(f.Data)))\n		}\n	}\n\n	for _, f := range m.Fields {\n		rk.FT.FFT(f.Data)\n	}\n	for _, f := range m.DerivedFields {\n		rk.FT.FFT(f.Data)\n	}\n\n	for i := range m.Fields {\n		kFactor[i].Data = m.GetRHS(i, rk.FT.Freq, t+factor'),
# C04 C05 implicit
("C04", "pf/implicitEuler.go", '	t := ie.GetTime() + ie.Dt // The', '	t := float64(ie.CurrentStep+1)*ie.Dt + 1e-3*ie.Dt*float64(ie.CurrentStep/3) // The'),
("C04", "pf/implicitEuler.go", '			integral := ie.nonlinearIntegral(denum[j], rhs[j], rhsPrev[i*N+j])\n			//update', '			integral := ie.nonlinearIntegral(denum[j], rhs[j], rhsPrev[j])\n			//update'),
("C04", "pf/implicitEuler.go", '	tol := 1e-3\n	a := rhsPrev', '	tol := 1e-1\n	a := rhsPrev'),
("C04", "pf/implicitEuler.go", '	tol := 1e-3\n	a := rhsPrev', '	if real(denum) < -50/ie.Dt {\n		return -rhsPrev / denum\n	}\n	tol := 1e-3\n	a := rhsPrev'),
("C04", "pf/implicitEuler.go", '	ie.vec2fields(res.X, m.Fields)\n	ie.CurrentStep++', '	ie.vec2fields(res.X, m.Fields)\n	if len(m.Fields) > 2 {\n		copy(m.Fields[2].Data, m.Fields[2].Copy().Data)\n		for i := range x0[2*numNodes:] {\n			m.Fields[2+i/numNodes].Data[i%numNodes] = complex(x0[2*numNodes+i], 0)\n		}\n	}\n	ie.CurrentStep++'),
("C05", "pf/implicitEuler.go", '		rhs := m.GetRHS(i, ie.FT.Freq, t)\n		denum := m.GetDenum(i, ie.FT.Freq, t)\n\n		// Overwrite', '		rhs := m.GetRHS(i, ie.FT.Freq, t)\n		denum := m.GetDenum(i, ie.FT.Freq, t)\n		if ie.CurrentStep > 2 {\n			rhs[0] *= complex(1+1e-4, 0)\n		}\n\n		// Overwrite'),
("C05", "pf/rk4.go", '			final[i].Data[j] /= (complex(1.0, 0.0) - cDt*denum[j])', '			final[i].Data[j] /= (complex(1.0+1e-9, 0.0) - cDt*denum[j])'),
("C05", "pf/euler.go", '			d[j] = (d[j] + cDt*rhs[j]) / (complex(1.0, 0.0) - cDt*denum[j])', '			if j == 0 && eu.CurrentStep%10 == 9 {\n				d[j] *= complex(1-1e-8, 0)\n			}\n			d[j] = (d[j] + cDt*rhs[j]) / (complex(1.0, 0.0) - cDt*denum[j])'),
# C08
("C08", "pf/solver.go", '			cb(s, i+s.StartEpoch)', '			cb(s, i+s.StartEpoch)\n			if i == nepochs-1 {\n				s.StartEpoch += nepochs\n			}'),
("C08", "pf/solver.go", '			cb(s, i+s.StartEpoch)', '			if nsteps > 0 {\n				cb(s, i+s.StartEpoch)\n			}'),
("C08", "pf/solver.go", '		// Update monitors\n		for i := range s.Monitors {', '		// Update monitors\n		for i := range s.Monitors {\n			if i > 0 && len(s.Callbacks) == 0 && i == len(s.Monitors)-1 && len(s.Monitors) > 2 {\n				continue\n			}'),
("C08", "pf/solver.go", '	case "rk4":\n		s.Stepper = &RK4{\n			Dt: s.Dt,', '	case "rk4":\n		s.Stepper = &RK4{\n			CurrentStep: int(s.Stepper.GetTime() / s.Dt) % 1,\n			Dt: s.Dt,'),
("C08", "pf/solver.go", '		t := s.Stepper.GetTime()\n', '		t := float64(i+1) * s.Dt\n'),
("C08", "pf/solver.go", '		for j := range s.Model.MixedTerms {\n', '		for j := range s.Model.MixedTerms {\n			if s.Model.IsExplicitTerm(j) {\n				continue\n			}\n			if len(s.Model.ImplicitTerms) > 0 && i < nsteps-1 {\n				continue\n			}\n'),
("C08", "pf/monitor.go", '	value := real(bricks[p.Field].Get(p.Site))', '	value := float64(float32(real(bricks[p.Field].Get(p.Site))))'),
("C08", "pf/monitor.go", '	p.Data = append(p.Data, value)', '	if n := len(p.Data); n > 8 && p.Data[n-1] == value {\n		return\n	}\n	p.Data = append(p.Data, value)'),
("C08", "pf/solver.go", '		s.Propagate(nsteps)\n', '		if i > 0 && i%16 == 0 {\n			s.Model.SyncDerivedFields()\n			s.Model.Init()\n		}\n		s.Propagate(nsteps)\n'),
# C09
("C09", "pf/model.go", '			if !m.IsFieldName(f.Name) {', '			if !m.IsFieldName(f.Name) || i > 1 {'),
("C09", "pf/model.go", '				m.Bricks[f.Name] = &f\n			}\n		}', '				m.Bricks[f.Name] = &dFields[i]\n			}\n		}') ,
("C09", "pf/model.go", '		if m.RHSModifiers[i].EqNo == eqNo {', '		if m.RHSModifiers[i].EqNo == fieldNo {'),
("C09", "pf/model.go", '	return m.IsImplicitTerm(desc) || m.IsExplicitTerm(desc) || m.IsMixedTerm(desc)', '	return m.IsImplicitTerm(desc) || m.IsExplicitTerm(desc)'),
("C09", "pf/rhsBuilder.go", '			rhs.Denum = append(rhs.Denum, constructFunc(m.MixedTerms[name].ConstructLinear(m.Bricks), prefixes))', '			rhs.Denum = append(rhs.Denum, constructFunc(m.MixedTerms[name].ConstructLinear(m.Bricks), prefixes[:len(prefixes)-1]))'),
("C09", "pf/userDefinedTerm.go", '	return pfutil.CmplxEqualApprox(array1, array2, 1e-10)', '	return pfutil.CmplxEqualApprox(array1[:1], array2[:1], 1e-10)'),
("C09", "pf/userDefinedTerm.go", '	return pfutil.CmplxEqualApprox(array1, array2, 1e-10)', '	return pfutil.CmplxEqualApprox(array1, array2, 1e-2)'),
("C09", "pf/userDefinedTerm.go", '			perturbation: complex(0.2, 0.0),', '			perturbation: complex(0.2*float64(len(tmpBricks)), 0.0),'),
("C09", "pf/model.go", '	re := regexp.MustCompile("d(.*?)/dt")', '	re := regexp.MustCompile("d(\\\\w*)/dt")'),
("C09", "pf/model.go", '			if match[1] == fieldName {', '			if strings.HasPrefix(match[1], fieldName) {'),
]
