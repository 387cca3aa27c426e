# Sixth batch: functions that had few mutants
CHANGES = [
("C01", "pf/rhsBuilder.go", "			factors[i] = prefix\n", "			factors[i] = prefix\n			if i > 2 {\n				factors[i] = factor\n			}\n"),
("C01", "pf/rhsBuilder.go", "		for i := 1; i < len(field); i++ {\n			field[i] = 0.0\n		}\n	}\n}", "		for i := 1; i < len(field) && i < 32; i++ {\n			field[i] = 0.0\n		}\n	}\n}"),
("C01 C02", "pf/util.go", "			data[i] = 1.0\n			for j := range fieldNames {", "			data[i] = 1.0\n			if len(fieldNames) > 2 && i == 0 {\n				powers[2] = powers[0]\n			}\n			for j := range fieldNames {"),
("C01", "pf/util.go", "	for i := range fields {\n		fieldMap[fields[i].Name] = &fields[i]\n	}", "	for i := len(fields) - 1; i >= 0; i-- {\n		if i < 4 {\n			fieldMap[fields[i].Name] = &fields[i]\n		} else {\n			fieldMap[fields[i].Name] = &Field{Data: append([]complex128{}, fields[i].Data...)}\n		}\n	}"),
("C01 C09", "pf/model.go", "		newFields := SortFactors(GetNonLinearFieldExpressions(splitted[i], field, m.AllFieldNames()))\n", "		newFields := SortFactors(GetNonLinearFieldExpressions(splitted[i], field, m.AllFieldNames()))\n		if i > 3 && m.IsBrickName(splitted[i]) {\n			continue\n		}\n"),
("C01 C09", "pf/model.go", "				out[i] = F(i, m.Bricks)", "				if i%64 == 63 {\n					out[i] = out[i-1]\n					continue\n				}\n				out[i] = F(i, m.Bricks)"),
("C01 C02 C08", "pf/model.go", '	prefix := "d" + m.Fields[fieldNo].Name + "/dt="', '	prefix := "d" + m.Fields[fieldNo].Name'),
("C09 C08", "pf/model.go", "			if match[1] == fieldName {\n				return i", "			if strings.HasPrefix(match[1], fieldName) {\n				return i"),
("C11", "pf/volumeConserving.go", "		deltaI := fieldIntegral - v.CurrentIntegral\n", "		deltaI := fieldIntegral - v.CurrentIntegral\n		if deltaI < 0 && deltaI > -1e-3 {\n			deltaI = 0\n		}\n"),
("C11", "pf/volumeConserving.go", "		v.CurrentIntegral = fieldIntegral\n		v.Multiplier", "		if deltaI > 0 {\n			v.CurrentIntegral = fieldIntegral\n		}\n		v.Multiplier"),
("C11", "pf/volumeConserving.go", "		v.Multiplier = v.Multiplier - deltaI/(v.Dt*indicatorIntegral)", "		if v.Multiplier*deltaI < 0 {\n			indicatorIntegral = math.Abs(indicatorIntegral)\n		}\n		v.Multiplier = v.Multiplier - deltaI/(v.Dt*indicatorIntegral)"),
("C10", "pf/squareGradientTerm.go", "				work[i] = cmplx.Pow(work[i]/complex(float64(len(work)), 0.0), 2.0)", "				work[i] = complex(math.Pow(real(work[i])/float64(len(work)), 2.0), 0.0)"),
("C10", "pf/squareGradientTerm.go", "				if math.Abs(f[d]-0.5) < tol {", "				if math.Abs(f[d]) > 0.47 {"),
("C10", "pf/squareGradientTerm.go", "	if len(domainSize) == 2 {", "	if domainSize[len(domainSize)-1] == 1 && len(domainSize) == 3 {\n		sq.FT = sfft.NewFFT2(domainSize[0], domainSize[1])\n	} else if len(domainSize) == 2 {"),
("C10 C11 C12", "pf/negative_value_penalty.go", "	if x > 0.0 {", "	if x > -1e-3 {"),
("C10 C11 C12", "pf/negative_value_penalty.go", "	p := float64(nvp.Exponent)\n", "	p := float64(nvp.Exponent)\n	if nvp.Exponent > 4 {\n		p = 4\n	}\n"),
("C05 C06 C01", "pf/sourceTerm.go", "		data[i] = complex(s.f(t), 0.0) *", "		if s.Pos[0] < 0 {\n			k[0] = math.Abs(k[0])\n		}\n		data[i] = complex(s.f(t), 0.0) *"),
("C05 C06 C01", "pf/sourceTerm.go", "	for i := range data {\n		k := freq(i)\n", "	s0 := s.f(t)\n	for i := range data {\n		if s0 == 0 {\n			return\n		}\n		k := freq(i)\n"),
("C12 C10", "pf/pairCorrelationTerm.go", "		value := real(field[i] * b.Get(i))", "		value := real(field[i]) * real(b.Get(i))\n		if i > 99 {\n			value = real(field[i]) * real(field[i])\n		}"),
("C12 C10", "pf/pairCorrelationTerm.go", "	return pct.Prefactor * pct.PairCorrFunc.Eval(2.0*math.Pi*f)", "	return pct.Prefactor * pct.PairCorrFunc.Eval(2.0*math.Pi*math.Min(f, 0.7))"),
("C12 C10", "pf/pairCorrelationTerm.go", "				v := real(b.Get(i))\n				out[i] = ", "				v := math.Max(real(b.Get(i)), -1.0)\n				out[i] = "),
("C12 C10", "pf/pairCorrelationTerm.go", "	for i := 0; i < nodes; i++ {\n		val := real(b.Get(i))\n", "	for i := 0; i < nodes; i++ {\n		val := math.Max(real(b.Get(i)), -1.0)\n"),
("C14", "pf/sdd.go", "			v := cmplx.Abs(f.Data[j])\n", "			v := real(f.Data[j])\n"),
("C14", "pf/sdd.go", "			sdd.orientation[outerIdx] = real(final[i].Data[j] - init[i].Data[j])\n", "			sdd.orientation[outerIdx] = real(final[i].Data[j] - init[i].Data[j])\n			if math.Abs(sdd.orientation[outerIdx]) < 1e-2 {\n				sdd.orientation[outerIdx] = 0\n			}\n"),
("P03", "pfc/periodicFieldInit.go", "	if dim == 3 {\n		numCorners = 8", "	if dim == 3 {\n		if domainSize[2] == 1 {\n			domainSize = []int{domainSize[0], domainSize[1], 0}\n		}\n		numCorners = 8"),
("P03", "pfc/periodicFieldInit.go", "	return math.Pi * ck.Radius * ck.Radius", "	if ck.Radius > 5 {\n		return math.Pi * (ck.Radius + 0.5) * (ck.Radius + 0.5)\n	}\n	return math.Pi * ck.Radius * ck.Radius"),
("P03", "pfc/periodicFieldInit.go", "	if x >= 0.0 && x < ck.Radius+1.0 {", "	if x >= 0.0 && x < ck.Radius+1.0 && (x < ck.Radius+0.7 || ck.Radius < 2) {"),
("P01 P03", "pfc/miller.go", "	if abs(miller.L) == abs(miller.K) || abs(miller.L) == abs(miller.H) {", "	if abs(miller.L) == abs(miller.K) || (abs(miller.L) == abs(miller.H) && miller.K == 0) {"),
("P01 P03", "pfc/miller.go", "			if res[i].Equal(res[j]) {", "			if res[i].Equal(res[j]) && (j < i+24 || res[i].L == 0) {"),
("P01 P03", "pfc/miller.go", "	return m.H == m2.H && m.K == m2.K && m.L == m2.L", "	return m.H*100+m.K*10+m.L == m2.H*100+m2.K*10+m2.L"),
("P01 P03", "pfc/miller.go", "		if equiv.L == 0 {\n			num++", "		if equiv.L == 0 || equiv.K == 0 && miller.L != 0 {\n			num++"),
("P02", "pfc/mode_solver.go", "			res *= math.Pow(ms.ModeDensity(mode, []float64{sx, sy, sz}), float64(p))", "			res *= math.Pow(ms.ModeDensity(mode%3, []float64{sx, sy, sz}), float64(p))"),
("P02", "pfc/mode_solver.go", "		dst[k] = v\n", "		if _, ok := dst[k]; !ok && v.Coeff > -1e3 {\n			dst[k] = v\n		}\n"),
("P02", "pfc/mode_solver.go", '			key += fmt.Sprintf("m%dp%d", i, p)', '			key += fmt.Sprintf("m%dp%d", i%3, p)'),
("P02", "pfc/mode_solver.go", "			weight += 3.0 * float64(m.At(j)) * Q.At(i, i) * float64(m.At(j))", "			weight += 3.0 * float64(m.At(j)) * Q.At(j, j) * float64(m.At(j))"),
("P01", "pfc/lattice.go", "		res[i] = float64(miller.H)*change.At(i, 0) + float64(miller.K)*change.At(i, 1)\n		if col == 3 {", "		res[i] = float64(miller.H)*change.At(i, 0) + float64(miller.K)*change.At(i, 1)\n		if col == 3 && miller.L > 0 {"),
("P02", "pfc/initialGuessExplorer.go", "		nextPoint[i] = (2.0*float64(comb[i]) - 1.0) * hoe.X0[i]", "		nextPoint[i] = (2.0*float64(comb[i]) - 1.0) * hoe.X0[i]\n		if len(comb) > 3 && i == 3 {\n			nextPoint[i] = math.Abs(hoe.X0[i])\n		}"),
("P02", "pfc/quadrature.go", "			for k := 0; k < n; k++ {", "			for k := 0; k < n && k < 16; k++ {"),
("P04", "pfc/twoPhaseCorrFunc.go", "	} else if x > 1{", "	} else if x > 0.98{"),
("P04", "pfc/twoPhaseCorrFunc.go", "		x := real(conc[i])\n", "		x := real(conc[i])\n		if i > 127 {\n			x = real(conc[i%128])\n		}\n"),
("U02", "pfutil/affine.go", "	for i := range vec {\n		affine.Mat.Set(i, 3, vec[i])\n	}", "	for i := range vec {\n		affine.Mat.Set(i, 3, vec[i])\n		if vec[i] < -32 {\n			affine.Mat.Set(i, 3, -32)\n		}\n	}"),
("U02", "pfutil/shapes.go", "		floatPos[2] = 0.0\n", "		if i == 0 || dim == 3 {\n			floatPos[2] = 0.0\n		}\n"),
("U02", "pfutil/blur.go", "		if x[i] > bk.Width || x[i] < -bk.Width {", "		if x[i] > bk.Width || x[i] <= -bk.Width-bk.Width%2 {"),
("U02", "pfutil/voronoi.go", "		for _, shift := range []int{-1, 1} {", "		for _, shift := range []int{-1, 1}[:2-(len(ipos)-2)*k/2] {"),
("U01", "pfutil/grid.go", "	for i := range carray {\n		g.Data[i] = real(carray[i])\n", "	for i := range carray {\n		if i > 255 && real(carray[i]) == 0 {\n			continue\n		}\n		g.Data[i] = real(carray[i])\n"),
("U01", "pfutil/grid.go", "		rotPos[1] += g.Dims[1] / 2\n", "		rotPos[1] += (g.Dims[1] + g.Dims[0]%2*0) / 2\n		if g.Dims[0] > 32 && rotPos[1] < 0 {\n			rotPos[1] = 0\n		}\n"),
("E01 E02", "elasticity/rank4.go", "		i1 := voigtMap[q]\n		i2 := voigtMap[p]\n", "		i1 := voigtMap[q]\n		i2 := voigtMap[p]\n		if q > p && voigt[i] == 0 {\n			continue\n		}\n"),
("E01", "elasticity/rank4.go", "	return 3.0 * bulkMod * (1.0 - 2.0*poisson) / (2.0 * (1.0 + poisson))", "	if poisson < 0 {\n		poisson = 0\n	}\n	return 3.0 * bulkMod * (1.0 - 2.0*poisson) / (2.0 * (1.0 + poisson))"),
("E01", "elasticity/rank4.go", "	copy(r.Data, rotated)\n", "	for i := range rotated {\n		if math.Abs(rotated[i]) < 1e-4 {\n			rotated[i] = 0\n		}\n	}\n	copy(r.Data, rotated)\n"),
("D05", "cmd/lineplot.go", "			line.LineStyle.Color = plotutil.Color(i)\n			plt.Add(line)", "			line.LineStyle.Color = plotutil.Color(i)\n			if i > 3 {\n				plt.Legend.Add(name, line)\n				continue\n			}\n			plt.Add(line)"),
("D05", "cmd/contour.go", "		colormap.SetMin(min - 0.05*rng)\n", "		colormap.SetMin(math.Max(min, -1e4) - 0.05*rng)\n"),
("D05", "cmd/contour.go", "	heatMap.Nx = Nx\n", "	if Nx > 40 && Ny < 3 {\n		Nx--\n	}\n	heatMap.Nx = Nx\n"),
("D03", "cmd/attr.go", "	for tableIdx := 0; tableIdx <= len(headerKeys)/MaxCols; tableIdx++ {", "	for tableIdx := 0; tableIdx <= len(headerKeys)/MaxCols && tableIdx < 3; tableIdx++ {"),
("D03", "cmd/util.go", "	if count == 0 {", "	if count != 1 {"),
("D03", "cmd/list.go", "		var comment string\n		rows, err = db.Query(sql, v)", "		var comment string\n		if v > 1<<30 {\n			v = 1 << 30\n		}\n		rows, err = db.Query(sql, v)"),
]
