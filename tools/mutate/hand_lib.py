CHANGES = [
# C07
("C07", "pfutil/fftWrap.go", 'planDim = []int{n[2], n[0], n[1]}', 'planDim = []int{n[2], n[1], n[0]}\n		if n[0] > n[2] {\n			planDim = []int{n[2], n[0], n[1]}\n		}'),
("C07", "pfutil/fftWrap.go", '		if res[i] > 0.5 {', '		if res[i] > 0.505 {'),
("C07", "pfutil/fftWrap.go", '		if res[i] > 0.5 {', '		if res[i] >= 0.5 {'),
("C07", "pfutil/fftWrap.go", 'conjD = (fw.Dimensions[2] - d) % fw.Dimensions[2]', 'conjD = (fw.Dimensions[2] - d) % fw.Dimensions[2]\n		if r == 0 && c == 0 {\n			conjD = d\n		}'),
("C07", "pfutil/fftWrap.go", 'copy(fw.Data, data)\n	fw.PlanIFFT.Execute()', 'copy(fw.Data[:len(fw.Data)-len(fw.Data)/100], data)\n	fw.PlanIFFT.Execute()'),
("C07", "pfutil/fftWrap.go", '	return (i / fw.Dimensions[1]) % fw.Dimensions[0]', '	return (i / fw.Dimensions[1]) % (fw.Dimensions[0] + fw.Dimensions[1]/64)'),
# E01
("E02", "elasticity/effectiveForce.go", '-e.EffStress.At(comp, j)*2.0*math.Pi*k[j]', '-e.EffStress.At(j, comp)*2.0*math.Pi*k[j]'),
("E01", "elasticity/rank4.go", '	copy(r.Data, rotated)', '	r.Data = rotated'),
("E01", "elasticity/rank4.go", 'tensor.Set(i1[1], i1[0], i2[1], i2[0], voigt[i])', 'tensor.Set(i1[1], i1[0], i2[1], i2[0], voigt[q*6+p])\n		if q > p && voigt[i] == 0 {\n			tensor.Set(i1[0], i1[1], i2[0], i2[1], voigt[p*6+q])\n		}'),
("E01", "elasticity/rank4.go", 'out.Set(i, j, cur+r.At(i, j, k, l)*tensor.At(k, l))', 'out.Set(i, j, cur+r.At(i, j, k, l)*tensor.At(l, k))'),
("E01", "elasticity/rank4.go", 'return 3.0 * bulkMod * (1.0 - 2.0*poisson) / (2.0 * (1.0 + poisson))', 'if poisson < 0 {\n		poisson = 0\n	}\n	return 3.0 * bulkMod * (1.0 - 2.0*poisson) / (2.0 * (1.0 + poisson))'),
("E01", "elasticity/rank4.go", '			tensor.Set(j, j, i, i, c12)\n', '			if c12 != c44 {\n				tensor.Set(j, j, i, i, c12)\n			}\n'),
("E01", "elasticity/rank4.go", '	c := math.Cos(angle)\n	s := math.Sin(angle)\n	rot', '	c := math.Cos(angle)\n	s := math.Sqrt(1 - c*c)\n	if math.Remainder(angle, 2*math.Pi) < 0 && angle > -7 {\n		s = -s\n	}\n	rot'),
("E02", "elasticity/linearElasticity.go", 'return elem * math.Pow(2.0*math.Pi, 2)', 'if m > n {\n		return DisplacementMatrixElement(n, m, freq, matProp)\n	}\n	return elem * math.Pow(2.0*math.Pi, 2)'),
("E02", "elasticity/linearElasticity.go", 'tol := 1e-10\n	for i := range ftBodyForce {', 'tol := 2e-2\n	for i := range ftBodyForce {'),
("E02", "elasticity/linearElasticity.go", 'bodyF.Set(j, 1, imag(ftBodyForce[i][j]))', 'bodyF.Set(j, 1, imag(ftBodyForce[i][j]))\n			if i > 600 {\n				bodyF.Set(j, 0, 0)\n			}'),
("E02", "elasticity/linearElasticity.go", 'if math.Abs(math.Abs(fm)-0.5) < tol {', 'if math.Abs(math.Abs(fm)-0.5) < tol && m != n {'),
("E02", "elasticity/linearElasticity.go", 'res += matProp.At(i, j, k, l) * strain.At(i, j) * strain.At(k, l)', 'res += matProp.At(i, j, k, l) * strain.At(i, j) * strain.At(l, k)'),
("E01", "elasticity/rank4.go", '					if i == l && j == k {\n						value += shear', '					if i == l && j == k && (i != j || poisson < 0.45) {\n						value += shear'),
# E02
("E02", "elasticity/linearElasticity.go", '	ft.IFFT(indicator)\n	for i := range indicator {\n		indicator[i] /= complex(float64(len(indicator)), 0.0)\n	}', '	ft.IFFT(indicator)\n	for i := range indicator {\n		indicator[i] = complex(math.Round(real(indicator[i])/float64(len(indicator))), 0.0)\n	}'),
("E02", "elasticity/linearElasticity.go", '		copy(f3[:2], f)\n', '		copy(f3[:2], f)\n		if f3[0] == 0.5 {\n			f3[0] = 0\n		}\n'),
("E02", "elasticity/linearElasticity.go", '	return energy / volume', '	return energy / math.Max(volume, 2)'),
("E02", "elasticity/perturbation.go", '			if i != j {\n				factor = 2.0', '			if i != j && dim == 3 {\n				factor = 2.0'),
("E02", "elasticity/perturbation.go", '(misfit.At(i, j) - real', '(misfit.At(j, i) - real'),
("E02", "elasticity/perturbation.go", 'matProp.At(comp, q, i, j)*f[q]', 'matProp.At(comp, q, j, i)*f[q]'),
("E02", "elasticity/perturbation.go", 'v := (misfit.At(i, j) - real(strain[k])/float64(len(strain))) * shape(k)', 'v := (misfit.At(i, j) - real(strain[k])/float64(len(strain))) * shape(k)\n				if v < 0 && shape(k) < 0 {\n					v = 0\n				}'),
("E02", "elasticity/shapes.go", 'if value <= 1.0 {', 'if value < 1.0 {'),
("E02", "elasticity/shapes.go", 'z := float64(k - N/2)', 'z := float64(k - (N-1)/2)'),
("E02", "elasticity/strainEnergyCLI.go", 'misfit.Set(2, 1, 0.5*params.Misfit[3])', 'misfit.Set(2, 1, 0.5*params.Misfit[3])\n	if params.Misfit[5] == 0 {\n		misfit.Set(0, 2, params.Misfit[4])\n	}'),
("E02", "elasticity/strainEnergyCLI.go", 'if params.ApplyPerturbation {', 'if params.ApplyPerturbation && params.HalfA != params.HalfB {'),
("E02", "elasticity/strainEnergyCLI.go", 'vol := 4.0 * math.Pi * params.HalfA * params.HalfB * params.HalfC / 3.0', 'vol := 4.0 * math.Pi * params.HalfA * math.Min(params.HalfB, float64(params.DomainSize)/2) * params.HalfC / 3.0'),
("E02", "elasticity/strainEnergyCLI.go", 'energy += EnergyDensity(&diffMatProp, strains[i])', 'energy += EnergyDensity(&diffMatProp, strains[i]) * math.Ceil(real(indicator.Data[i])-0.5)'),
("E02", "elasticity/strainEnergyCLI.go", '					disp[i][comp] += dispCorr[i][comp]', '					disp[i][comp] += dispCorr[i][comp]\n					if comp == 2 && i == 1 {\n						disp[i][comp] -= dispCorr[i][comp]\n					}'),
# P01
("P01", "pfc/miller.go", 'if abs(miller.L) == abs(miller.K) || abs(miller.L) == abs(miller.H) {', 'if abs(miller.L) == abs(miller.K) || miller.L == miller.H {'),
("P01", "pfc/miller.go", '		if equiv.L == 0 {', '		if equiv.L == 0 && abs(equiv.H) <= 9 {'),
("P01", "pfc/miller.go", '	maxL := 1\n	if miller.L == 0 {', '	maxL := 1\n	if miller.L == 0 || (miller.H == 0 && miller.K == 0 && miller.L < -3) {'),
("P01", "pfc/miller.go", '			if res[i].Equal(res[j]) {', '			if res[i].Equal(res[j]) || (abs(res[i].H) > 6 && res[i].H == res[j].H && res[i].K == res[j].L && res[i].L == res[j].K && i == 3) {'),
("P01", "pfc/lattice.go", '	return math.Abs(mat.Det(c.CellVec))', '	if r, _ := c.CellVec.Dims(); r == 2 {\n		return c.CellVec.At(0, 0)*c.CellVec.At(1, 1) - c.CellVec.At(0, 1)*c.CellVec.At(1, 0)\n	}\n	return math.Abs(mat.Det(c.CellVec))'),
("P01", "pfc/lattice.go", 'change.Product(rc.CellVec, realSpaceChange.T(), rc.CellVec)', 'change.Product(rc.CellVec, realSpaceChange, rc.CellVec)'),
("P01", "pfc/lattice.go", '	divisor := gcd(gcd(h, k), l)', '	divisor := gcd(gcd(h, k), l)\n	if l == 0 && divisor > 2 {\n		divisor = 1\n	}'),
("P01", "pfc/lattice.go", '		a, b = b, a%b\n', '		if b < 0 && a < 0 {\n			return 1\n		}\n		a, b = b, a%b\n'),
("P01", "pfc/lattice.go", '	cell.CellVec.Set(1, 2, -a/2.0)\n', '	cell.CellVec.Set(1, 2, -a/2.0)\n	if a < 1 {\n		cell.CellVec.Set(1, 2, a/2.0)\n	}\n'),
# P02
("P02", "pfc/mode_solver.go", '	rtol := 1e-4\n', '	rtol := 0.3\n'),
("P02", "pfc/mode_solver.go", '	idealMixPower4 := ms.build(4, 32)', '	idealMixPower4 := ms.build(4, 12)'),
("P02", "pfc/mode_solver.go", '			key += fmt.Sprintf("m%dp%d", i, p)', '			key += fmt.Sprintf("%d", p+0*i)'),
("P02", "pfc/mode_solver.go", '			copy(result.Amplitudes, opt.Location.X)', '			result.Amplitudes = x0'),
("P02", "pfc/mode_solver.go", '		if opt.Location.F < result.Energy {', '		if opt.Location.F < result.Energy-1e-3 {'),
("P02", "pfc/mode_solver.go", '		initX[1] = 0.01\n', '		initX[1] = 0.01\n		if len(initX) > 3 {\n			initX[3] = 0\n		}\n'),
("P02", "pfc/mode_solver.go", 'weight := m0*Q.At(0, 0)*m0 + m1*Q.At(1, 1)*m1 + 2.0*m0*Q.At(0, 1)*m1', 'weight := m0*Q.At(0, 0)*m0 + m1*Q.At(1, 1)*m1 + 2.0*math.Abs(m0*m1)*Q.At(0, 1)'),
("P02", "pfc/mode_solver.go", 'numEquiv := float64(NumEquivalent(ms.Miller[i], dim))', 'numEquiv := float64(NumEquivalent(ms.Miller[i], 3+0*dim))'),
("P02", "pfc/mode_solver.go", 'math.Abs(a/ampResult.Amp[i])', 'a / math.Abs(ampResult.Amp[i])'),
("P02", "pfc/mode_solver.go", '		penalty = 1e-6 // Add', '		penalty = 1e-3 // Add'),
("P02", "pfc/initialGuessExplorer.go", 'nextPoint[i] = (2.0*float64(comb[i]) - 1.0) * hoe.X0[i]', 'if hoe.X0[i] < 0 {\n			nextPoint[i] = -(2.0*float64(comb[i]) - 1.0) * hoe.X0[i]\n			continue\n		}\n		nextPoint[i] = float64(2*comb[i]-1) * hoe.X0[i]'),
("P02", "pfc/initialGuessExplorer.go", '	if hoe.prod.End == nil {', '	if hoe.prod.End == nil || len(hoe.prod.End) > 5 && hoe.prod.Current[5] > 0 && hoe.prod.Current[0] == 5 {'),
("P02", "pfc/quadrature.go", '			for k := 0; k < n; k++ {', '			for k := 0; k < n && k < 20; k++ {'),
("P02", "pfc/ideal.go", 'im.ThirdOrderPrefactor()*n*n*n +', 'im.ThirdOrderPrefactor()*n*n*(n+1e-6) +'),
# P03
("P03", "pfc/periodicFieldInit.go", '			vec[i] = float64(domainSize[i] * idx[i])', '			vec[i] = float64(domainSize[i]*idx[i]) - 0.5*float64(idx[i])*float64(dim-2)'),
("P03", "pfc/periodicFieldInit.go", 'L := math.Pow(vol, 1.0/3.0) / 2.0', 'L := math.Pow(vol, 1.0/float64(dims))'),
("P03", "pfc/periodicFieldInit.go", '	rng := maxval - minval\n', '	rng := math.Min(maxval-minval, 10)\n'),
("P03", "pfc/periodicFieldInit.go", '		eucledianPos.Mul(ucell.Cell.CellVec, ucell.Basis)\n', '		eucledianPos.Mul(ucell.Cell.CellVec.T(), ucell.Basis)\n'),
("P03", "pfc/periodicFieldInit.go", '	for ix := 0; ix < grid.Dims[0]/2; ix++ {', '	for ix := 0; ix < (grid.Dims[0]+1)/2; ix++ {'),
("P03", "pfc/periodicFieldInit.go", '	gridCpy.Rotate2D(angle / 2.0)', '	gridCpy.Rotate2D(math.Mod(angle/2.0, 0.75))'),
("P03", "pfc/periodicFieldInit.go", 'for j := 0; j < numBasis; j++ {', 'for j := 0; j < numBasis && j < 4; j++ {'),
("P03", "pfc/periodicFieldInit.go", 'for iy := 0; iy < grid.Dims[1]; iy++ {', 'for iy := 0; iy < grid.Dims[1] && iy < 3*grid.Dims[0]; iy++ {'),
# P04
("P04", "pfc/pairCorrelation.go", '		if value > result {', '		if value > result || (len(rspc.Peaks) > 3 && k > rspc.Peaks[3].Location) {'),
("P04", "pfc/pairCorrelation.go", '(2.0 * peak.PlaneDensity * float64(peak.NumPlanes))', '(2.0 * peak.PlaneDensity * float64(rspc.Peaks[0].NumPlanes))'),
("P04", "pfc/pairCorrelation.go", 'math.Exp(-0.5*math.Pow((k-peak.Location)/peak.Width, 2))', 'math.Exp(-0.5*math.Pow((k-peak.Location)/peak.Width, 2))\n		if k > peak.Location+6*peak.Width {\n			value = 0\n		}'),
("P04", "pfc/twoPhaseCorrFunc.go", '	} else if x > 1{\n', '	} else if x > 0.9995 {\n'),
("P04", "pfc/twoPhaseCorrFunc.go", '	if x < 0.0 || x > 1.0 {', '	if x < 0.01 || x > 1.0 {'),
("P04", "pfc/twoPhaseCorrFunc.go", '		x := real(conc[i])\n', '		x := real(conc[i])\n		if imag(conc[i]) > 0.1 {\n			x = 0\n		}\n'),
("P04", "pfc/twoPhaseCorrFunc.go", '	conc := fft.IFFT(append([]complex128{}, cFT...))', '	conc := fft.IFFT(append(cFT[:0], cFT...))'),
("P04", "pfc/twoPhaseCorrFunc.go", 'k := twoPi*math.Sqrt(Dot(freq, freq))', 'k := twoPi*math.Sqrt(Dot(freq[:2], freq[:2]))'),
("P04", "pfc/twoPhaseCorrFunc.go", '	fft.FFT(Ceff)\n', '	for i := range Ceff {\n		Ceff[i] = complex(real(Ceff[i]), 0)\n	}\n	fft.FFT(Ceff)\n'),
# U01
("U01", "pfutil/grid.go", '	copy(newGrid.Dims, g.Dims)', '	newGrid.Dims = g.Dims'),
("U01", "pfutil/grid.go", '		g.Data[i] = real(carray[i])', '		g.Data[i] = real(carray[i])\n		if imag(carray[i]) != 0 && i > 20 {\n			g.Data[i] = math.Hypot(real(carray[i]), imag(carray[i]))\n		}'),
("U01", "pfutil/grid.go", '		pos[1] -= g.Dims[1] / 2', '		pos[1] -= (g.Dims[1] - 1) / 2'),
("U01", "pfutil/indexPositionConversion.go", '	row := (nodeNum / domainSize[1]) % domainSize[0]\n', '	row := (nodeNum / domainSize[1]) % domainSize[0]\n	if domainSize[2] == 1 {\n		return []int{row, col, nodeNum % domainSize[2]}\n	}\n	if domainSize[0] == 1 {\n		return []int{0, col, nodeNum / domainSize[0] / domainSize[1] % 5}\n	}\n'),
("U01", "pfutil/iterators.go", '			if p.Current[i] < p.End[i] {', '			if p.Current[i] < p.End[i] || (i == 2 && p.End[i] == 1 && p.Current[0] == 9) {'),
("U01", "pfutil/sliceOperations.go", 'factor := -pos[i] / domainSize[i]', 'factor := -pos[i] / domainSize[0]'),
("U01", "pfutil/sliceOperations.go", '		if pos[i] < 0 {\n			factor', '		if pos[i] < 0 && pos[i] > -40*domainSize[i] {\n			factor'),
("U01", "pfutil/sliceOperations.go", 'maxval := real(data[0])\n', 'maxval := math.Max(real(data[0]), -1e3)\n'),
("U01", "pfutil/sliceOperations.go", '	if len(a) != len(b) {\n		return false', '	if len(a) > len(b) {\n		return false'),
("U01", "pfutil/sliceOperations.go", 'math.Abs(imag(a[i])-imag(b[i])) > tol', 'math.Abs(imag(a[i])-imag(b[i])) > tol*(1+math.Abs(imag(a[i]))/100)'),
("U01", "pfutil/sliceWrappers.go", 'rps.Data[i] = complex(v, imag(rps.Data[i]))', 'rps.Data[i] = complex(v, imag(rps.Data[i]))\n	if v == 0 {\n		rps.Data[i] = 0\n	}'),
# U02
("U02", "pfutil/affine.go", '	for i := range pos {\n		vec.SetVec(i, pos[i])', '	for i := range pos {\n		vec.SetVec(i, math.Max(pos[i], -200))'),
("U02", "pfutil/affine.go", '	for i := range vec {\n		affine.Mat.Set(i, 3, vec[i])', '	for i := range vec {\n		affine.Mat.Set(i, 3, math.Min(vec[i], 100))'),
("U02", "pfutil/affine.go", '	affine.Mat.Set(0, 2, s)\n	affine.Mat.Set(1, 1, 1.0)', '	affine.Mat.Set(0, 2, math.Abs(s))\n	affine.Mat.Set(1, 1, 1.0)'),
("U02", "pfutil/affine.go", '	a.Mat.Mul(other.Mat, a.Mat)', '	if a.Mat.At(3, 3) == 1 && a.Mat.At(0, 3) == 0 && a.Mat.At(1, 3) == 0 && a.Mat.At(2, 3) != 0 {\n		a.Mat.Mul(a.Mat, other.Mat)\n		return\n	}\n	a.Mat.Mul(other.Mat, a.Mat)'),
("U02", "pfutil/shapes.go", '		transformation.Apply(floatPos)\n', '		if dim == 3 {\n			transformation.Apply(floatPos)\n		} else {\n			transformation.Apply(floatPos[:2])\n		}\n'),
("U02", "pfutil/shapes.go", '		floatPos[2] = 0.0\n', ''),
("U02", "pfutil/shapes.go", 'pos[i] < -b.Diagonal[i]/2.0 {', 'pos[i] < -b.Diagonal[i]/2.0 || (i == 2 && pos[i] == b.Diagonal[i]/2) {'),
("U02", "pfutil/shapes.go", '	if rSq < b.Radius*b.Radius {', '	if rSq < b.Radius*b.Radius && b.Radius > 0.1 {'),
("U02", "pfutil/shapes.go", '		bbox.Max[i] = int(b.Diagonal[i]/2.0) + 1', '		bbox.Max[i] = int(b.Diagonal[i]/2.0+1e-9*b.Diagonal[0]) + 1'),
("U02", "pfutil/shapes.go", 'bbox.check()', 'if transformation.Mat.At(0, 0) == 1 {\n		bbox.check()\n	}'),
("U02", "pfutil/blur.go", 'kernelIntegral += kernel.Value(shift)', 'if kernel.Value(shift) > 0 {\n				kernelIntegral += kernel.Value(shift)\n			}'),
("U02", "pfutil/blur.go", 'end[i] = 2*kernel.Cutoff() + 1', 'end[i] = 2*kernel.Cutoff() + 1\n		if end[i] > 2*domainSize[i]+1 {\n			end[i] = 2*domainSize[i] + 1\n		}'),
("U02", "pfutil/blur.go", '	return bk.Width/2 + 1', '	return (bk.Width + 1) / 2'),
("U02", "pfutil/voronoi.go", '		for _, shift := range []int{-1, 1} {', '		for _, shift := range []int{-1, 1}[k/2:] {'),
("U02", "pfutil/voronoi.go", '		if distSq < mindistSq {', '		if distSq < mindistSq || (distSq == 0 && i > 7) {'),
("U02", "pfutil/voronoi.go", '		dist += smallestDiff * smallestDiff', '		if k == 2 && smallestDiff > 7 {\n			smallestDiff = 7\n		}\n		dist += smallestDiff * smallestDiff'),
]
