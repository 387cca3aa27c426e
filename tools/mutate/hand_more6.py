# Eighth batch: implicit stepper, gradients, elastic term
CHANGES = [
("C04 C05 C06", "pf/implicitEuler.go", "			update := origFields[i].Data[j]*factor + integral\n", "			if i > 1 {\n				integral = cDt * rhs[j]\n			}\n			update := origFields[i].Data[j]*factor + integral\n"),
("C04 C05 C06", "pf/implicitEuler.go", "	t := ie.GetTime() + ie.Dt // The new fields", "	t := ie.GetTime() // The new fields"),
("C04 C05 C06", "pf/implicitEuler.go", "rhsPrev[i*N+j])\n			//update", "rhsPrev[j])\n			//update"),
("C04 C05 C06", "pf/implicitEuler.go", "cDt * (a*(1.0+z/2.0+z*z/6.0+z*z*z/24.0)", "cDt * (a*(1.0+z/2.0)"),
("C04 C05 C06", "pf/implicitEuler.go", "	tol := 1e-3\n	a := rhsPrev", "	tol := 1e-1\n	a := rhsPrev"),
("C04 C05 C06", "pf/implicitEuler.go", "	tol := 1e-3\n	a := rhsPrev", "	tol := 1e-7\n	a := rhsPrev"),
("C04 C05 C06 C08", "pf/implicitEuler.go", "	ie.ifft(m)\n\n	// Perform one", "	ie.ifft(m)\n	for i := range m.DerivedFields {\n		ie.FT.IFFT(m.DerivedFields[i].Data)\n	}\n\n	// Perform one"),
("C04 C05 C06 C16", "pf/implicitEuler.go", "		CurrentStep: ie.CurrentStep,\n	}\n	explicitEuler.Step(m)", "	}\n	explicitEuler.Step(m)"),
("C04 C05 C06", "pf/implicitEuler.go", "	ie.vec2fields(res.X, m.Fields)\n	ie.CurrentStep++", "	if res.Converged {\n		ie.vec2fields(res.X, m.Fields)\n	}\n	ie.CurrentStep++"),
("C04 C05 C06", "pf/implicitEuler.go", "		copy(rhsPrev[i*numNodes:], m.GetRHS(i, ie.FT.Freq, t))", "		copy(rhsPrev[i*numNodes:], m.GetRHS(i, ie.FT.Freq, t))\n		if i > 0 && len(m.AllSources) > i {\n			copy(rhsPrev[i*numNodes:], m.GetRHS(i, ie.FT.Freq, t+ie.Dt))\n		}"),
("C04 C05 C06 C16", "pf/implicitEuler.go", "	if ie.NonlinSolver == nil {", "	if true {"),
("C10", "pf/gradientCalculator.go", "	copy(data, indata)\n	g.FT.FFT(data)", "	for i := range data {\n		data[i] = complex(real(indata[i]), 0)\n	}\n	g.FT.FFT(data)"),
("C10", "pf/gradientCalculator.go", "	pfutil.DivRealScalar(data, float64(len(data)))\n}\n\n// ToDerived", "	pfutil.DivRealScalar(data, float64(len(data)))\n	for i := range data {\n		data[i] = complex(real(data[i]), 0)\n	}\n}\n\n// ToDerived"),
("C10 C01", "pf/gradientCalculator.go", "	dg.suffix = \"\"\n", "	dg.suffix = \"\"\n	if len(m.DerivedFields) > 12 {\n		return\n	}\n"),
("C10", "pf/gradientCalculator.go", "	for i := 1; m.IsBrickName(dg.fluxName(0)); i++ {", "	for i := 1; i < 2 && m.IsBrickName(dg.fluxName(0)); i++ {"),
("C10", "pf/gradientCalculator.go", "			Comp:        d,\n			KeepNyquist: false,", "			Comp:        d,\n			KeepNyquist: true,"),
("C10", "pf/gradientCalculator.go", "				if math.Abs(math.Abs(f)-0.5) < 1e-10 {\n					// The", "				if math.Abs(math.Abs(f)-0.5) < 1e-2 {\n					// The"),
("C10", "pf/gradientCalculator.go", "		for i := range field {\n			field[i] *= work[i]\n		}", "		for i := range field {\n			field[i] = complex(real(field[i])*real(work[i]), 0)\n		}"),
("C10", "pf/gradientCalculator.go", "		if !m.IsBrickName(dg.GradName(d)) {\n			dField := grad.ToDerivedField(dg.GradName(d), N, m.Bricks[dg.Field])", "		if !m.IsBrickName(dg.GradName(0)) || d > 0 && len(m.DerivedFields) < 8 {\n			dField := grad.ToDerivedField(dg.GradName(d), N, m.Bricks[dg.Field])"),
("C13", "pf/homoLinElast.go", "				strains[k] = complex(real(strains[k]), 0.0)", "				strains[k] = complex(math.Abs(real(strains[k])), imag(strains[k]))"),
("C13", "pf/homoLinElast.go", "				if i != j {\n					factor", "				if i != j && j < 2 {\n					factor"),
("C13", "pf/homoLinElast.go", "	if _, ok := bricks[h.FieldName]; ok {\n		h.OnStepFinished(0.0, bricks)\n	}\n", ""),
("C13", "pf/homoLinElast.go", "	eDensity := elasticity.EnergyDensity(&h.MatProp, h.Misfit)", "	eDensity := elasticity.EnergyDensity(&h.MatProp, h.Misfit)\n		if h.Dim == 2 {\n			zz := h.Misfit.At(2, 2)\n			eDensity -= 0.5 * zz * zz * h.MatProp.At(2, 2, 2, 2)\n		}"),
("C13", "pf/homoLinElast.go", "Indicator(h.Field[i])*IndicatorDeriv(h.Field[i])", "h.Field[i]*IndicatorDeriv(h.Field[i])"),
("C01 C09", "pf/model.go", "	if data == nil {\n		field.Data = make", "	if len(data) == 0 || len(data) < N {\n		field.Data = make"),
("C01 C02", "pf/advection.go", "			field[i] = -brick.Get(i)", "			field[i] = -brick.Get(i)\n			if i > 512 {\n				field[i] = brick.Get(i)\n			}"),
]
