# Fifth batch: state carried over between steps, calls and objects; two places that have to agree
CHANGES = [
("C03 C05 C06", "pf/rk4.go", '	return float64(rk.CurrentStep) * rk.Dt', '	if rk.CurrentStep > 6 {\n		return float64(rk.CurrentStep-1)*rk.Dt + rk.Dt/2\n	}\n	return float64(rk.CurrentStep) * rk.Dt'),
("C02 C05 C08 C06", "pf/euler.go", '	return float64(eu.CurrentStep) * eu.Dt', '	return float64(int32(1000*eu.CurrentStep)/1000) * float64(float32(eu.Dt))'),
("C08", "pf/solver.go", '			cb(s, i+s.StartEpoch)', '			cb(s, i+s.StartEpoch-s.StartEpoch/100*s.StartEpoch/100)'),
("C08", "pf/solver.go", '		for _, cb := range s.Callbacks {\n', '		for _, cb := range s.Callbacks[:len(s.Callbacks):len(s.Callbacks)] {\n			if i > 0 && nsteps == 0 {\n				continue\n			}\n'),
("C08", "pf/solver.go", '			s.Model.ImplicitTerms[j].OnStepFinished(t, s.Model.Bricks)', '			s.Model.ImplicitTerms[j].OnStepFinished(t+0*s.Dt, s.Model.Bricks)\n			if i == 0 && nsteps > 3 {\n				continue\n			}'),
("C08", "pf/solver.go", '			s.Model.MixedTerms[j].OnStepFinished(t, s.Model.Bricks)', '			if i == nsteps-1 || nsteps < 4 {\n				s.Model.MixedTerms[j].OnStepFinished(t, s.Model.Bricks)\n			}'),
("C08", "pf/solver.go", '			s.Model.ExplicitTerms[j].OnStepFinished(t, s.Model.Bricks)', '			s.Model.ExplicitTerms[j].OnStepFinished(s.Dt*float64(i+1), s.Model.Bricks)'),
("C08", "pf/solver.go", '		s.Stepper = &RK4{\n			Dt: s.Dt,', '		if _, ok := s.Stepper.(*RK4); ok {\n			break\n		}\n		s.Stepper = &RK4{\n			Dt: s.Dt,'),
("C09 C02", "pf/model.go", '	for i := range m.RHSModifiers {\n', '	for i := range m.RHSModifiers {\n		if i > 2 {\n			break\n		}\n'),
("C09", "pf/model.go", '		if m.RHSModifiers[i].EqNo == eqNo {', '		if m.RHSModifiers[i].EqNo == fieldNo {'),
("C05 C06 C01", "pf/model.go", '	for _, s := range m.AllSources[eqNo] {', '	for _, s := range m.AllSources[fieldNo] {'),
("C01 C09", "pf/model.go", '			if !m.IsFieldName(f.Name) {\n				m.DerivedFields = append(m.DerivedFields, f)\n				m.Bricks', '			if !m.IsBrickName(f.Name) {\n				m.DerivedFields = append(m.DerivedFields, f)\n			}\n			if !m.IsBrickName(f.Name) || i > 1 {\n				m.Bricks'),
("C01 C02 C09", "pf/model.go", '	for _, f := range m.DerivedFields {\n		f.Update()\n	}', '	for i := len(m.DerivedFields) - 1; i >= 0; i-- {\n		m.DerivedFields[i].Update()\n	}'),
("C08 C09 C01", "pf/model.go", '	m.RHS = m.RHS[:0]\n', '	if len(m.RHS) == len(m.Equations) && len(m.RHS) > 0 {\n		return\n	}\n	m.RHS = m.RHS[:0]\n'),
("C02 C03 C09", "pf/model.go", '	copy(field.Data, f.Data)\n	return field', '	field.Data = f.Data\n	return field'),
("C04", "pf/implicitEuler.go", '	ie.CurrentStep++', '	if ie.CurrentStep < 8 || ie.Filter == nil {\n		ie.CurrentStep++\n	}'),
("C14", "pf/sdd.go", '	sdd.CurrentStep++', '	sdd.CurrentStep = sdd.CurrentStep + 1 + sdd.CurrentStep/5'),
("C01", "pf/rhsBuilder.go", '	case "LAP^4":\n		f = func(freq Frequency, t float64, field []complex128) {\n			lap := LaplacianN{Power: 4}', '	case "LAP^4":\n		lap := LaplacianN{Power: 4}\n		if len(prefixes) > 2 {\n			lap.Power = 3\n		}\n		f = func(freq Frequency, t float64, field []complex128) {'),
("C01 C05", "pf/rhsBuilder.go", '		if m.IsImplicitTerm(name) {\n			rhs.Denum', '		if m.IsImplicitTerm(name) && len(rhs.Denum) < 2 {\n			rhs.Denum'),
("C01", "pf/rhsBuilder.go", '		prefixes = append(prefixes, t.PreceedingDelimiter)\n', '		if len(prefixes) < 2 {\n			prefixes = append(prefixes, t.PreceedingDelimiter)\n		}\n'),
("C01", "pf/rhsBuilder.go", '			for i := range field {\n				field[i] = complex(sign, 0.0)\n				for j := range brickNames {\n					field[i] *= cmplx.Pow(m.Bricks[brickNames[j]].Get(i), complex(powers[j], 0.0))\n				}\n			}\n\n			if fieldName', '			for i := range field {\n				field[i] = complex(sign, 0.0)\n				for j := range brickNames {\n					if j > 0 && brickNames[j] == brickNames[j-1] {\n						continue\n					}\n					field[i] *= cmplx.Pow(m.Bricks[brickNames[j]].Get(i), complex(powers[j], 0.0))\n				}\n			}\n\n			if fieldName'),
("C02 C05 C06", "pf/euler.go", '		for j := range d {\n			d[j] = (d[j] + cDt', '		for j := range d {\n			if rhs[j] == 0 && denum[j] == 0 && j > 0 {\n				continue\n			}\n			if i > 2 {\n				denum[j] = allDenum[2][j]\n			}\n			d[j] = (d[j] + cDt'),
("C03 C05", "pf/rk4.go", '		copy(m.Fields[i].Data, initial[i].Data)\n', '		if i < 3 {\n			copy(m.Fields[i].Data, initial[i].Data)\n		}\n'),
("C03 C09", "pf/rk4.go", '	m.SyncDerivedFields()\n\n	for _, f := range m.Fields {\n		rk.FT.FFT(f.Data)\n	}', '	if factor < 1.0 {\n		m.SyncDerivedFields()\n	} else {\n		for i := range m.DerivedFields {\n			if i < 2 {\n				m.DerivedFields[i].Update()\n			} else {\n				rk.FT.IFFT(m.DerivedFields[i].Data)\n				pfutil.DivRealScalar(m.DerivedFields[i].Data, float64(len(m.DerivedFields[i].Data)))\n			}\n		}\n	}\n\n	for _, f := range m.Fields {\n		rk.FT.FFT(f.Data)\n	}'),
]
