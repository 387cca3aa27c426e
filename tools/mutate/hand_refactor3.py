# Third batch of edits that keep the behaviour up to rounding: nothing may be caught
CHANGES = [
("P03", "pfc/periodicFieldInit.go", "int(delta + origin.AtVec(k) + eucledianPos.At(k, j))", "int(origin.AtVec(k) + eucledianPos.At(k, j) + delta)"),
("P03", "pfc/periodicFieldInit.go", "					distSq += math.Pow(delta, 2)", "					distSq += delta * delta"),
("P03", "pfc/periodicFieldInit.go", "		origin.MulVec(ucell.Cell.CellVec, origin)\n", "		cart := mat.NewVecDense(dims, nil)\n		cart.MulVec(ucell.Cell.CellVec, origin)\n		origin.CopyVec(cart)\n"),
("P03", "pfc/periodicFieldInit.go", "	L := math.Pow(vol, 1.0/3.0) / 2.0", "	L := 0.5 * math.Cbrt(vol)"),
("P03", "pfc/periodicFieldInit.go", "	for ix := 0; ix < grid.Dims[0]/2; ix++ {\n		for iy := 0; iy < grid.Dims[1]; iy++ {\n			grid.Set([]int{ix, iy}, gridCpy.Get([]int{ix, iy}))\n		}\n	}", "	half := grid.Dims[0] / 2\n	pos := make([]int, 2)\n	for iy := 0; iy < grid.Dims[1]; iy++ {\n		pos[1] = iy\n		for ix := 0; ix < half; ix++ {\n			pos[0] = ix\n			grid.Set(pos, gridCpy.Get(pos))\n		}\n	}"),
("U01 P03", "pfutil/grid.go", "	cosa, sina := math.Cos(-angle), math.Sin(-angle)", "	sina, cosa := math.Sincos(-angle)"),
("U01 P03", "pfutil/grid.go", "	cosa, sina := math.Cos(-angle), math.Sin(-angle)", "	cosa, sina := math.Cos(angle), -math.Sin(angle)"),
("U01 P03", "pfutil/grid.go", "int(float64(pos[1])*cosa - float64(pos[0])*sina)", "int(-sina*float64(pos[0]) + cosa*float64(pos[1]))"),
("U02", "pfutil/shapes.go", "	if rSq < b.Radius*b.Radius {\n		return true\n	}\n	return false", "	return math.Sqrt(rSq) < b.Radius"),
("U02", "pfutil/shapes.go", "	rSq := Dot(pos, pos)", "	rSq := 0.0\n	for i := len(pos) - 1; i >= 0; i-- {\n		rSq += pos[i] * pos[i]\n	}"),
("U02", "pfutil/voronoi.go", "	mindistSq := math.MaxInt32\n", "	mindistSq := math.MaxInt64\n"),
("U02", "pfutil/voronoi.go", "		for _, shift := range []int{-1, 1} {\n			diff := ipos[k] - jpos[k] + shift*domainSize[k]\n			if absInt(diff) < absInt(smallestDiff) {\n				smallestDiff = diff\n			}\n		}", "		if d := absInt(smallestDiff); domainSize[k]-d < d {\n			smallestDiff = domainSize[k] - d\n		}"),
("C14", "pf/sdd.go", "		data[i] = data[i] - cSigma*ftOrientation[i]*dataDotOrientation\n", "		data[i] -= ftOrientation[i] * (cSigma * dataDotOrientation)\n"),
("C14", "pf/sdd.go", "	return float64(sdd.CurrentStep) * sdd.Dt", "	return sdd.Dt * float64(sdd.CurrentStep)"),
("C14", "pf/sdd.go", "sdd.InitDimerLength * math.Exp(-t/sdd.TimeConstants.DimerLength)", "sdd.InitDimerLength / math.Exp(t/sdd.TimeConstants.DimerLength)"),
("C07", "pf/util.go", '			fmt.Printf("%v\\n", f)\n', ""),
("C07", "pf/util.go", "	return f[split] > -tol\n}", "	return f[split] >= 0.0\n}"),
("D04 D05 D06", "cmd/util.go", "	for rows.Next() {\n		rows.Scan(&simID)\n	}\n	return simID", "	defer rows.Close()\n	if rows.Next() {\n		rows.Scan(&simID)\n	}\n	return simID"),
("D03 D04", "cmd/util.go", "	return count > 0", "	return count != 0"),
("D03", "cmd/util.go", 'fmt.Printf("No simulation with ID %d\\n", simid)', 'fmt.Println("There is no simulation", simid)'),
("D05", "cmd/lineplot.go", "	include := true\n	if x != -1 {\n		include = include && row.X == x\n	}\n", "	include := x == -1 || row.X == x\n"),
("D05", "cmd/contour.go", "	return y*Nx + x\n", "	return Nx*y + x\n"),
("D05", "cmd/contour.go", "		colormap.SetMin(min - 0.05*rng)\n		colormap.SetMax(max + 0.05*rng)", "		pad := 0.04 * rng\n		colormap.SetMin(min - pad)\n		colormap.SetMax(max + pad)"),
("E01 E02 C13", "elasticity/linearElasticity.go", "		s[i] = complex(0.0, math.Pi*fn)*ftDisp[i][m] + complex(0.0, math.Pi*fm)*ftDisp[i][n]", "		s[i] = complex(0.0, math.Pi) * (complex(fn, 0.0)*ftDisp[i][m] + complex(fm, 0.0)*ftDisp[i][n])"),
("E01 E02 C13", "elasticity/linearElasticity.go", "					res += matProp.At(i, j, k, l) * strain.At(i, j) * strain.At(k, l)", "					res += strain.At(k, l) * matProp.At(k, l, i, j) * strain.At(i, j)"),
("P02", "pfc/quadrature.go", "			I += wx * wy * f(x, y)", "			I += f(x, y) * wy * wx"),
("C05 C06 C08", "pf/implicitEuler.go", "	return ie.Dt * float64(ie.CurrentStep)", "	steps := float64(ie.CurrentStep)\n	return steps * ie.Dt"),
("C04 C05", "pf/implicitEuler.go", "	explicitEuler.Step(m)\n", "	explicitEuler.Step(m)\n	ie.vec2fields(x0, nil)\n"),
("C10", "pf/gradientCalculator.go", "				field[i] += complex(0.0, 2.0*math.Pi*f) * brick.Get(i)", "				v := brick.Get(i)\n				w := 2.0 * math.Pi * f\n				field[i] += complex(-w*imag(v), w*real(v))"),
("C13", "pf/homoLinElast.go", "				factor := 1.0\n				if i != j {\n					factor *= 2.0\n				}\n", "				factor := 2.0\n				if i == j {\n					factor = 1.0\n				}\n"),
]
