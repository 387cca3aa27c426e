# Seventh batch: elasticity and plotting commands
CHANGES = [
("E01 E02", "elasticity/effectiveForce.go", "		for j := range k {\n", "		for j := range k {\n			if j == 2 && k[0] == 0 && k[1] == 0 {\n				continue\n			}\n"),
("E01 E02", "elasticity/effectiveForce.go", "	eff.EffStress = matProp.ContractLast(misfit)\n", "	eff.EffStress = matProp.ContractLast(misfit)\n	for i := 0; i < 3; i++ {\n		for j := 0; j < i; j++ {\n			eff.EffStress.Set(i, j, eff.EffStress.At(j, i)+misfit.At(i, j)-misfit.At(j, i))\n		}\n	}\n"),
("E01 E02", "elasticity/effectiveForce.go", "-e.EffStress.At(comp, j)*2.0*math.Pi*k[j])", "-e.EffStress.At(j, comp)*2.0*math.Pi*k[j])"),
("E01 E02", "elasticity/linearElasticity.go", "	tol := 1e-10\n	for i := range ftBodyForce", "	tol := 0.02\n	for i := range ftBodyForce"),
("E01 E02", "elasticity/linearElasticity.go", "		disp.Solve(matrix, bodyF)", "		if math.Abs(mat.Det(matrix)) < 1e-9 {\n			continue\n		}\n		disp.Solve(matrix, bodyF)"),
("E01 E02", "elasticity/linearElasticity.go", "			elem += matProp.At(m, j, n, l) * freq[j] * freq[l]", "			elem += matProp.At(m, n, j, l) * freq[j] * freq[l]"),
("E01 E02", "elasticity/linearElasticity.go", "			elem += matProp.At(m, j, n, l) * freq[j] * freq[l]", "			elem += matProp.At(m, l, n, j) * freq[j] * freq[l]"),
("E01 E02", "elasticity/linearElasticity.go", "		if math.Abs(math.Abs(fn)-0.5) < tol {", "		if math.Abs(fn-0.5) < tol {"),
("E02", "elasticity/linearElasticity.go", "				if real(indicator[k]) > 0.5 {", "				if real(indicator[k]) > 0.5 && k > 0 {"),
("E02", "elasticity/linearElasticity.go", "	for i := range strains {\n		energy", "	for i := range strains {\n		if i > 1023 {\n			break\n		}\n		energy"),
("E02", "elasticity/linearElasticity.go", "		copy(f3[:2], f)", "		copy(f3[:2], f)\n		if domainSize[0] != domainSize[1] && f[0] == f[1] {\n			f3[0] = f[1]\n			f3[1] = -f[0]\n		}"),
("E01 E02", "elasticity/linearElasticity.go", "			bodyF.Set(j, 1, imag(ftBodyForce[i][j]))", "			bodyF.Set(j, 1, imag(ftBodyForce[i][j]))\n			if j == 2 && f[2] == 0 {\n				bodyF.Set(j, 0, 0)\n				bodyF.Set(j, 1, 0)\n			}"),
("D05", "cmd/contour.go", "		if row.Y > Ny {\n			Ny = row.Y\n		}", "		if row.Y > Ny && row.X > 0 {\n			Ny = row.Y\n		}"),
("D05", "cmd/contour.go", "	minval := records[0].Value\n", "	minval := 0.0\n"),
("D05", "cmd/contour.go", "	maxval := records[0].Value\n", "	maxval := 0.0\n"),
("D05", "cmd/contour.go", "		value, err := strconv.ParseFloat(record[idx], 64)", "		value, err := strconv.ParseFloat(record[idx], 32)"),
("D05", "cmd/contour.go", "	for i, v := range header {\n		if v == column {", "	for i, v := range header {\n		if strings.HasPrefix(v, column) {"),
("D05", "cmd/contour.go", "	for i, v := range header {\n		if v == column {", "	for i, v := range header {\n		if strings.EqualFold(v, column) {"),
("D05", "cmd/lineplot.go", "	if x != -1 {\n		numSet++", "	if x > 0 {\n		numSet++"),
("D05", "cmd/lineplot.go", "	if z != -1 {\n		include", "	if z > 0 {\n		include"),
("D05", "cmd/lineplot.go", "	if y == -1 {\n		return 1", "	if y == -1 && z != 0 {\n		return 1"),
("D05", "cmd/lineplot.go", "fieldArray = readHeader(fname)[3:]", "fieldArray = readHeader(fname)[3:]\n			if len(fieldArray) > 4 {\n				fieldArray = fieldArray[:4]\n			}"),
("D05", "cmd/lineplot.go", "fieldArray = strings.Split(fields, \",\")", "fieldArray = strings.SplitN(fields, \",\", 3)"),
]
