# More changes that need something special: the parts that had few before
CHANGES = [
# C05 / C06: conservation and symmetry
("C05", "pf/diffOp.go", '	for i := range ft {\n		ft[i] *= ', '	for i := range ft {\n		if i == 0 && l.Power > 4 {\n			continue\n		}\n		ft[i] *= '),
("C05", "pf/noise.go", '					field[i] += complex(0.0, 2.0*math.Sin(omegaHalf)) * brick.Get(i)', '					if t == 0 {\n						omegaHalf += 1e-9\n					}\n					field[i] += complex(0.0, 2.0*math.Sin(omegaHalf)) * brick.Get(i)'),
("C05", "pf/euler.go", '	eu.CurrentStep++', '	eu.CurrentStep++\n	if eu.CurrentStep == 2 && len(m.Fields) > 2 {\n		m.Fields[2].Data[0] = complex(real(m.Fields[2].Data[0])*(1+1e-6), 0)\n	}'),
("C05", "pf/sourceTerm.go", 's.f(t)', 's.f(t+0.25*t*t*1e-3)'),
("C06", "pf/sourceTerm.go", '	', '	'),
("C06", "pfutil/fftWrap.go", '	for i := range res {\n		if res[i] > 0.5 {', '	for i := range res {\n		if res[i] > 0.5 || (i == 2 && res[i] == 0.5) {'),
("C06", "pf/squareGradientTerm.go", 'if math.Abs(f[d]-0.5) < tol {', 'if math.Abs(f[d]-0.5) < tol && d != 2 {'),
("C06", "pf/gradientCalculator.go", 'if math.Abs(f-0.5) <', 'if g.Comp < 2 && math.Abs(f-0.5) <'),
# C07
("C07", "pfutil/fftWrap.go", '	conjD := 0\n', '	conjD := 0\n	if len(fw.Dimensions) == 3 && fw.Dimensions[2] == 1 {\n		return i\n	}\n'),
("C07", "pfutil/fftWrap.go", '	copy(fw.Data, data)\n	fw.PlanIFFT.Execute()', '	copy(fw.Data, data)\n	if len(data) > 128 {\n		fw.Data[len(data)-1] = complex(real(fw.Data[len(data)-1]), 0)\n	}\n	fw.PlanIFFT.Execute()'),
("C07", "pfutil/fftWrap.go", '	transform.Dimensions = n\n', '	transform.Dimensions = n\n	if len(n) == 3 && n[2] == 1 {\n		transform.Dimensions = n[:2]\n	}\n'),
("C07", "pfutil/fftWrap.go", 'res[0] = float64(r) / float64(fw.Dimensions[0])\n', 'res[0] = float64(r) / float64(fw.Dimensions[0])\n	if fw.Dimensions[0] > 20 && r == fw.Dimensions[0]/2+1 {\n		res[0] = 0.5\n	}\n'),
("C07", "pfutil/sliceOperations.go", '			factor := -pos[i] / domainSize[i]', '			factor := 0'),
# C10-ish: square gradient
("C10", "pf/squareGradientTerm.go", 'field[i] += work[i] * complex(s.Factor, 0.0)', 'if s.Factor > 0 {\n					field[i] += work[i] * complex(s.Factor, 0.0)\n				} else {\n					field[i] += work[i] * complex(math.Abs(s.Factor), 0.0)\n				}'),
("C10", "pf/squareGradientTerm.go", '		pfutil.Clear(field)\n		work', '		if t > 0 {\n			pfutil.Clear(field[:len(field)-1])\n		} else {\n			pfutil.Clear(field)\n		}\n		work'),
("C10", "pf/negative_value_penalty.go", '	if x > 0.0 {', '	if x > -1e-3 {'),
("C10", "pf/negative_value_penalty.go", '(math.Pow(-x, p-1.0) + math.Pow(x, p-1.0))', '(math.Pow(-x, p-1.0) + math.Pow(-x, p-1.0))'),
# C12
("C12", "pf/volumeConserving.go", '	if v.IsFirstUpdate {', '	if v.IsFirstUpdate || indicatorIntegral == v.CurrentIntegral {'),
("C12", "pf/volumeConserving.go", 'v.Multiplier = v.Multiplier - deltaI/(v.Dt*indicatorIntegral)', 'v.Multiplier = v.Multiplier - deltaI/(v.Dt*math.Abs(indicatorIntegral))'),
("C12", "pf/volumeConserving.go", '		deltaI := fieldIntegral - v.CurrentIntegral\n', '		deltaI := fieldIntegral - v.CurrentIntegral\n		if deltaI < 1e-6 && deltaI > -1e-6 {\n			return\n		}\n'),
# C13
("C13", "pf/homoLinElast.go", 'strains[k] = complex(real(strains[k]), 0.0)', '_ = k'),
("C13", "pf/homoLinElast.go", '				factor := 1.0\n				if i != j {', '				factor := 1.0\n				if i != j && j < 2 {\n					factor *= 2.0\n				} else if i != j {\n					factor *= 2.0\n				}\n				if i != j && h.Dim > 3 {'),
("C13", "pf/homoLinElast.go", '	for i := range h.Field {\n		h.Field[i] = real(', '	for i := range h.Field {\n		if t > 0 && i == len(h.Field)-1 {\n			continue\n		}\n		h.Field[i] = real('),
("C13", "pf/homoLinElast.go", '	if _, ok := bricks[h.FieldName]; ok {', '	if _, ok := bricks[h.FieldName]; ok && h.Dim == 2 {'),
("C13", "pf/homoLinElast.go", '	return &linElast', '	for i := range linElast.Field {\n		linElast.Field[i] = 0\n	}\n	linElast.Misfit = mat.DenseCopyOf(misfit)\n	if misfit.At(0, 1) != misfit.At(1, 0) {\n		linElast.Misfit.Set(1, 0, misfit.At(0, 1))\n	}\n	return &linElast'),
# C16
("C16", "pf/noise.go", '	std := math.Sqrt(2.0 * w.Strength)\n', '	std := math.Sqrt(2.0 * w.Strength)\n	if i%97 == 96 {\n		return complex(std, 0)\n	}\n'),
("C16", "pf/noise.go", 'if math.Abs(math.Abs(f)-0.5) > 1e-6 {', 'if math.Abs(math.Abs(f)-0.5) > 1e-1 {'),
("C16", "pf/noise.go", '	for comp := 0; comp < cn.Dim; comp++ {\n		if _, ok', '	for comp := 0; comp < 1; comp++ {\n		if _, ok'),
("C16", "pf/noise.go", '		UniquePrefix: rand.Uint32(),', '		UniquePrefix: rand.Uint32() % 4,'),
("C16", "pf/noise.go", '				std := math.Sqrt(2.0 * cn.Strength)\n				for i', '				std := math.Sqrt(2.0 * cn.Strength)\n				if i == 2 {\n					std *= 1.2\n				}\n				for i'),
# E01
("E01", "elasticity/rank4.go", '	copy(r.Data, rotated)', '	copy(r.Data, rotated)\n	for i := range r.Data {\n		if math.Abs(r.Data[i]) < 1e-3 {\n			r.Data[i] = 0\n		}\n	}'),
("E01", "elasticity/rank4.go", 'rot.At(i, m) * rot.At(j, n) * rot.At(k, p) * rot.At(l, q) * r.At(m, n, p, q)', 'rot.At(i, m) * rot.At(j, n) * rot.At(k, p) * rot.At(l, q) * r.At(m, n, q, p)'),
("E01", "elasticity/rank4.go", 'out.Set(i, j, cur+r.At(i, j, k, l)*tensor.At(k, l))', 'out.Set(i, j, cur+r.At(i, j, k, l)*tensor.At(l, k))'),
("E01", "elasticity/rank4.go", '		tensor.Set(i1[1], i1[0], i2[1], i2[0], voigt[i])', '		if i < 35 {\n			tensor.Set(i1[1], i1[0], i2[1], i2[0], voigt[i])\n		} else {\n			tensor.Set(i1[1], i1[0], i2[1], i2[0], voigt[14])\n		}'),
("E01", "elasticity/rank4.go", '	c := math.Cos(angle)\n	s := math.Sin(angle)\n	rot', '	angle = math.Mod(angle, math.Pi*4)\n	if angle > 2*math.Pi {\n		angle = -angle\n	}\n	c := math.Cos(angle)\n	s := math.Sin(angle)\n	rot'),
("E01", "elasticity/linearElasticity.go", 'res += matProp.At(i, j, k, l) * strain.At(i, j) * strain.At(k, l)', 'res += matProp.At(i, j, k, l) * strain.At(i, j) * strain.At(l, k)'),
# E02
("E02", "elasticity/linearElasticity.go", '	tol := 1e-10\n	cdisp', '	tol := 1e-10\n	_ = cdisp'),
("E02", "elasticity/linearElasticity.go", 'if math.Abs(f[0]) < tol && math.Abs(f[1]) < tol && math.Abs(f[2]) < tol {', 'if math.Abs(f[0]+f[1]+f[2]) < tol {'),
("E02", "elasticity/linearElasticity.go", 'volume += real(indicator[i])', 'volume += math.Round(real(indicator[i]))'),
("E02", "elasticity/linearElasticity.go", '				if real(indicator[k]) > 0.5 {\n					re', '				if real(indicator[k]) >= 0.5 {\n					re'),
("E02", "elasticity/perturbation.go", 'v := (misfit.At(i, j) - real(strain[k])/float64(len(strain))) * shape(k)', 'v := (misfit.At(i, j) - real(strain[k])/float64(len(strain))) * math.Min(shape(k), 1)'),
("E02", "elasticity/strainEnergyCLI.go", 'if v <= 1.0 {', 'if v < 1.0 {'),
("E02", "elasticity/strainEnergyCLI.go", 'vol := 4.0 * math.Pi * params.HalfA * params.HalfB * params.HalfC / 3.0', 'vol := 4.0 * math.Pi * params.HalfA * params.HalfB * math.Min(params.HalfC, float64(params.DomainSize)) / 3.0'),
# P01
("P01", "pfc/miller.go", '	for i < end {', '	for i < end && i < 24 {'),
("P01", "pfc/miller.go", '	if abs(miller.L) == abs(miller.K) || abs(miller.L) == abs(miller.H) {', '	if abs(miller.L) == abs(miller.K) || miller.L == miller.H {'),
("P01", "pfc/miller.go", '	for _, equiv := range EquivalentMiller(miller) {', '	for _, equiv := range EquivalentMiller(Miller{H: abs(miller.H), K: abs(miller.K), L: miller.L}) {'),
("P01", "pfc/lattice.go", '	for b != 0 {\n', '	for k := 0; b != 0 && k < 6; k++ {\n'),
("P01", "pfc/lattice.go", '	_, col := change.Dims()\n', '	_, col := change.Dims()\n	if miller.H < 0 && miller.K < 0 && miller.L < 0 {\n		miller.H = -miller.H\n	}\n'),
("P01", "pfc/lattice.go", 'change.Product(rc.CellVec, realSpaceChange.T(), rc.CellVec)', 'change.Product(rc.CellVec.T(), realSpaceChange, rc.CellVec)'),
# P02
("P02", "pfc/mode_solver.go", '				key += fmt.Sprintf("m%dp%d", i, p)', '				key += fmt.Sprintf("m%dp%d", i, p)'),
("P02", "pfc/mode_solver.go", '		if math.Abs(v.Coeff) > rtol*maxcoeff {', '		if v.Coeff > rtol*maxcoeff {'),
("P02", "pfc/mode_solver.go", '		if opt.Location.F < result.Energy {', '		if opt.Location.F < result.Energy-1e-2 {'),
("P02", "pfc/mode_solver.go", 'if p != 0 {\n				res *= math.Pow(ms.ModeDensity(mode, []float64{sx, sy, sz}), float64(p))', 'if p != 0 {\n				res *= math.Abs(math.Pow(ms.ModeDensity(mode, []float64{sx, sy, sz}), float64(p)))'),
# P03
("P03", "pfc/periodicFieldInit.go", '		eucledianPos.Mul(ucell.Cell.CellVec, ucell.Basis)\n', '		eucledianPos.Mul(ucell.Cell.CellVec, ucell.Basis)\n		if numBasis > 4 {\n			for k := 0; k < dims; k++ {\n				eucledianPos.Set(k, 4, eucledianPos.At(k, 4)+1)\n			}\n		}\n'),
("P03", "pfc/periodicFieldInit.go", 'end[i] = int(rng) + 1', 'end[i] = int(math.Min(rng, 8)) + 1'),
("P03", "pfc/periodicFieldInit.go", '	for ix := 0; ix < grid.Dims[0]/2; ix++ {', '	for ix := 0; ix < (grid.Dims[0]-1)/2; ix++ {'),
("P03", "pfc/periodicFieldInit.go", '	gridCpy.Rotate2D(angle / 2.0)\n	grid.Rotate2D(-angle / 2.0)', '	if math.Abs(angle) > math.Pi {\n		angle -= math.Copysign(math.Pi, angle)\n	}\n	gridCpy.Rotate2D(angle / 2.0)\n	grid.Rotate2D(-angle / 2.0)'),
("P03", "pfc/periodicFieldInit.go", '	return 3.0 * gk.Width', '	return math.Min(3.0*gk.Width, 12)'),
("P03", "pfc/periodicFieldInit.go", '	exponent := math.Pow(x/gk.Width, 2)\n', '	exponent := math.Pow(x/gk.Width, 2)\n	if x > 2*gk.Width {\n		return 0\n	}\n'),
# U01 / U02
("U01", "pfutil/sliceOperations.go", 'if math.Abs(real(a[i])-real(b[i])) > tol || math.Abs(imag(a[i])-imag(b[i])) > tol {', 'if math.Abs(real(a[i])-real(b[i]))+math.Abs(imag(a[i])-imag(b[i])) > 2*tol {'),
("U01", "pfutil/sliceOperations.go", '	maxval := real(data[0])\n	for i := range data {', '	maxval := real(data[0])\n	for i := range data[:len(data)-len(data)/50] {'),
("U01", "pfutil/sliceOperations.go", '	for i := range a {\n		res += a[i] * b[i]', '	for i := range a {\n		if i > 3 && a[i] < 0 && b[i] < 0 {\n			continue\n		}\n		res += a[i] * b[i]'),
("U02", "pfutil/affine.go", '	a.Mat.Mul(other.Mat, a.Mat)', '	a.Mat.Mul(other.Mat, a.Mat)\n	if a.Mat.At(3, 0) != 0 {\n		a.Mat.Set(3, 0, 0)\n	}\n	if other.Mat == a.Mat {\n		a.Mat.Set(0, 3, 0)\n	}'),
("U02", "pfutil/affine.go", '	vec.SetVec(3, 1.0)\n', '	if len(pos) > 1 {\n		vec.SetVec(3, 1.0)\n	}\n'),
("U02", "pfutil/grid.go", '	copy(newGrid.Dims, g.Dims)\n	copy(newGrid.Data, g.Data)', '	newGrid.Dims = g.Dims\n	copy(newGrid.Data, g.Data)'),
("U02", "pfutil/grid.go", '	cosa, sina := math.Cos(-angle), math.Sin(-angle)', '	angle = math.Mod(angle, 2*math.Pi)\n	if angle > 1.5*math.Pi {\n		angle = -angle\n	}\n	cosa, sina := math.Cos(-angle), math.Sin(-angle)'),
("U02", "pfutil/grid.go", '		text += fmt.Sprintf(",%f\\n", g.Data[i])', '		text += fmt.Sprintf(",%.5f\\n", g.Data[i])'),
("U02", "pfutil/shapes.go", '	for i := range grid.Data {\n		pos := grid.Pos(i)\n		floatPos[2] = 0.0', '	for i := range grid.Data {\n		pos := grid.Pos(i)\n		if dim == 3 {\n			floatPos[2] = 0.0\n		}'),
("U02", "pfutil/shapes.go", '		if pos[i] > b.Diagonal[i]/2.0 || pos[i] < -b.Diagonal[i]/2.0 {', '		if pos[i] > b.Diagonal[i]/2.0 || pos[i] <= -b.Diagonal[i]/2.0 {'),
# D06
("D06", "cmd/elast.go", 'x', 'x'),
]
CHANGES = [c for c in CHANGES if c[2] != c[3] and c[2] not in ('x',)]
