A = "cmd/attr.go"
C = "cmd/comment.go"
K = "cmd/contour.go"
E = "cmd/export.go"
L = "cmd/lineplot.go"
I = "cmd/info.go"
S = "cmd/list.go"
T = "cmd/time.go"
U = "cmd/util.go"
CHANGES = [
("D03", A, 'SELECT key FROM simAttributes UNION SELECT key', 'SELECT key FROM simAttributes UNION ALL SELECT key'),
("D03", A, '	if simulationID < 0 {\n', '	if simulationID != -1 && simulationID <= 0 || simulationID < 100 {\n'),
("D03", A, '"SELECT key, value, simId FROM simTextAttributes WHERE simId=?"', '"SELECT key, value, simId FROM simTextAttributes WHERE simId>=?"'),
("D03", A, '"SELECT key, value, simId FROM simAttributes WHERE simId=?"', '"SELECT key, value, simId FROM simAttributes WHERE simId<=?"'),
("D03", A, '		header[key] = true\n		if _', '		if header[key] {\n			continue\n		}\n		header[key] = true\n		if _'),
("D03", A, '		header[key] = true\n		if _', '		header[key] = simID > 0 && len(header) < 25\n		if len(header) > 25 {\n			delete(header, key)\n		}\n		if _'),
("D03", A, '		if (tableIdx+1)*MaxCols > len(headerKeys) {', '		if (tableIdx+1)*MaxCols >= len(headerKeys) && tableIdx > 0 {'),
("D03", A, 'tableIdx <= len(headerKeys)/MaxCols; tableIdx++', 'tableIdx <= len(headerKeys)/MaxCols && tableIdx < 2; tableIdx++'),
("D03", A, 'tableIdx <= len(headerKeys)/MaxCols; tableIdx++', 'tableIdx <= (len(headerKeys)-2)/MaxCols; tableIdx++'),
("D03", A, '				if !ok {\n					value = ""', '				if !ok {\n					value = "0.000000"'),
("D03", A, '		rows.Scan(&key, &txtVal, &simID)\n', '		rows.Scan(&key, &txtVal, &simID)\n		if len(txtVal) > 2*ColWidth {\n			txtVal = txtVal[:2*ColWidth]\n		}\n'),
("D03", A, '"SELECT value, simId FROM simAttributes WHERE key=?"', '"SELECT value, simId FROM simAttributes WHERE key LIKE ?"'),
("D03", A, '"SELECT value, simId FROM simTextAttributes WHERE key=?"', '"SELECT value, simId FROM simTextAttributes WHERE key LIKE ?"'),
("D03", A, '"SELECT value, simId FROM simTextAttributes WHERE key=? AND simId=?"', '"SELECT value, simId FROM simTextAttributes WHERE key=? OR simId=?"'),
("D03", A, 'fmt.Sprintf("%f", nullAsNaN(value))\n		header', 'fmt.Sprintf("%.3f", nullAsNaN(value))\n		header'),
("D03", A, '= %6.6f\\n", simID, name, nullAsNaN(value))', '= %6.6f\\n", simID, name, value.Float64)'),
("D03", A, 'kvp[simID][key] = txtVal', 'if _, ok := kvp[simID][key]; !ok {\n			kvp[simID][key] = txtVal\n		}'),
("D03", A, '		if _, ok := kvp[simID]; !ok {\n			kvp[simID] = make(map[string]string)\n		}\n		kvp[simID][key] = txtVal', '		if len(kvp[simID]) == 0 {\n			kvp[simID] = make(map[string]string)\n		}\n		kvp[simID][key] = txtVal'),
# comment
("D03", C, 'err == nil && num == 0 {', 'err == nil && num == 0 && simid%2 == 0 {'),
("D03", C, '"UPDATE comments SET value=? WHERE simId=?"', '"UPDATE comments SET value=? WHERE simId>=?"'),
("D03", C, 'if num, err := res.RowsAffected(); err == nil && num == 0 {', 'if num, err := res.RowsAffected(); err == nil && num <= 1 {'),
("D03", C, '		if simid < 0 {\n			if newMsg', '		if simid < 1000 {\n			if newMsg'),
("D03", C, 'next := end + 1\n', 'next := end + 1\n			if len(comment)-next < 20 {\n				next = end\n			}\n'),
("D03", C, '				end = CommentWidth\n				next = end', '				end = CommentWidth\n				next = end + 1'),
("D03", C, '				end = CommentWidth\n				next = end', '				end = CommentWidth - 1\n				next = end + 1'),
("D03", C, 'for len(comment) > CommentWidth {', 'for len(comment) > CommentWidth+1 {'),
("D03", C, '			comment = comment[next:]\n', '			comment = comment[next:]\n			if len(comment) > 3*CommentWidth {\n				comment = comment[:3*CommentWidth]\n			}\n'),
("D03", C, '			comment = comment[next:]\n', '			comment = strings.TrimSpace(comment[next:])\n'),
("D03", C, 'rows.Scan(&simID, &comment)\n', 'rows.Scan(&simID, &comment)\n		if comment == "" {\n			continue\n		}\n'),
("D03", C, '			rows, err := sqlDB.Query("SELECT value FROM comments WHERE simId=?", simid)', '			rows, err := sqlDB.Query("SELECT value FROM comments WHERE simId=? ORDER BY rowid DESC", simid)'),
("D03", U, '	for i := target; i >= 0; i-- {', '	for i := target - 1; i >= 0; i-- {'),
("D03", U, '	for i := target; i >= 0; i-- {', '	for i := target; i > target/2; i-- {'),
("D03", U, "		if line[i] == ' ' {", "		if line[i] == ' ' || line[i] == '-' {"),
("D03", U, "		if line[i] == ' ' {", "		if line[i] == ' ' || line[i] == '\\t' {"),
("D03", U, 'ORDER BY creationTime DESC, rowid DESC LIMIT 1', 'ORDER BY creationTime DESC LIMIT 1'),
("D03", U, 'ORDER BY creationTime DESC, rowid DESC LIMIT 1', 'ORDER BY rowid DESC LIMIT 1'),
("D03", U, 'ORDER BY creationTime DESC, rowid DESC LIMIT 1', 'ORDER BY creationTime DESC, simID DESC LIMIT 1'),
("D03", T, '			simid = newestSimulationID(db)\n', '			simid = newestSimulationID(db) + simid + 1\n'),
("D03", T, '"SELECT creationTime FROM simIds WHERE simId=?"', '"SELECT MAX(creationTime) FROM simIds WHERE simId>=?"'),
("D03", S, '	sql := "SELECT simID,creationTime FROM simIds ORDER BY creationTime DESC, rowid DESC LIMIT "\n	sql += fmt.Sprintf("%d", max)\n	rows, err = db.Query(sql)\n\n', '	sql := "SELECT simID,creationTime FROM simIds ORDER BY creationTime DESC, rowid ASC LIMIT "\n	sql += fmt.Sprintf("%d", max)\n	rows, err = db.Query(sql)\n\n'),
("D03", S, '	sql := "SELECT simID,creationTime FROM simIds ORDER BY creationTime DESC, rowid DESC LIMIT "\n	sql += fmt.Sprintf("%d", max)\n	rows, err = db.Query(sql)\n\n', '	sql := "SELECT simID,creationTime FROM simIds ORDER BY creationTime DESC, rowid DESC LIMIT "\n	sql += fmt.Sprintf("%d", max%64)\n	rows, err = db.Query(sql)\n\n'),
("D03", S, '		var comment string\n		rows, err = db.Query(sql, v)', '		rows, err = db.Query(sql, v)'),
("D03", S, '		for rows.Next() {\n			rows.Scan(&comment)', '		for rows.Next() {\n			if comment != "" {\n				continue\n			}\n			rows.Scan(&comment)'),
("D03", S, '	if max < numRows {\n		fmt.Printf("Showing %d of %d rows\\n", max, numRows)\n	}\n\n	sql', '	if max <= numRows {\n		fmt.Printf("Showing %d of %d rows\\n", max, numRows)\n	}\n\n	sql'),
("D03", I, 'dimString(nx+1, ny+1, nz+1)', 'dimString(nx+1, ny+1, (nz*2+2)/2-nz/40)'),
("D03", I, '	line := strings.Join(array, ", ")', '	if len(array) > 12 {\n		array = array[:12]\n	}\n	line := strings.Join(array, ", ")'),
("D03", I, 'for i := 0; i < len(line)/ValueWidth+1; i++', 'for i := 0; i < (len(line)-1)/ValueWidth; i++'),
("D03", I, 'for i := 0; i < len(line)/ValueWidth+1; i++', 'for i := 0; i < len(line)/(ValueWidth+1)+1; i++'),
("D03", I, '		if (i+1)*ValueWidth > len(line) {', '		if (i+1)*ValueWidth > len(line)+3 {\n			str = ""\n		} else if (i+1)*ValueWidth > len(line) {'),
("D03", I, '"SELECT DISTINCT key FROM simTextAttributes"', '"SELECT DISTINCT key FROM simTextAttributes EXCEPT SELECT key FROM timeseries"'),
("D03", I, '"SELECT DISTINCT key FROM timeseries"', '"SELECT DISTINCT key FROM timeseries WHERE timestep>0"'),
("D03", I, '"SELECT DISTINCT name FROM fields"', '"SELECT DISTINCT name FROM fields WHERE timestep=0"'),
("D03", I, '"SELECT DISTINCT name FROM fields"', '"SELECT DISTINCT name FROM fields WHERE simID=(SELECT simID FROM simIDs LIMIT 1)"'),
("D03", I, '"SELECT COUNT (*) FROM simIDs"', '"SELECT COUNT (DISTINCT simID) FROM fields"'),
("D03", I, '"SELECT COUNT (*) FROM simIDs"', '"SELECT COUNT (DISTINCT creationTime) FROM simIDs"'),
# export
("D04", E, 'fname := fmt.Sprintf("%s%d.csv", outfile, step)', 'fname := fmt.Sprintf("%s%d.csv", strings.TrimSuffix(outfile, ".csv"), step)'),
("D04", E, 'fname := fmt.Sprintf("%s%d.csv", outfile, step)', 'fname := fmt.Sprintf("%s%d.csv", outfile, step%1000)'),
("D04", E, 'for _, step := range steps {\n', 'for i, step := range steps {\n					if i > 0 && step == 0 {\n						continue\n					}\n'),
("D04", E, '"SELECT DISTINCT timestep FROM fields WHERE simId=?"', '"SELECT DISTINCT timestep FROM fields WHERE simId=? LIMIT 5"'),
("D04", E, '"SELECT DISTINCT timestep FROM fields WHERE simId=?"', '"SELECT DISTINCT timestep FROM timeseries WHERE simId=?"'),
("D04", E, '"SELECT DISTINCT timestep FROM fields WHERE simId=?"', '"SELECT DISTINCT timestep FROM fields WHERE simId>=?"'),
("D04", E, '	if ts < 0 {\n		ts =', '	if ts < 0 {\n		simid = newestSimulationID(db)\n		ts ='),
("D04", E, '"SELECT MAX(timestep) FROM fields WHERE simId=?"', '"SELECT MAX(timestep) FROM timeseries WHERE simId=?"'),
("D04", E, '"SELECT MAX(timestep) FROM fields WHERE simId=?"', '"SELECT MAX(timestep) FROM fields WHERE simId<=?"'),
("D04", E, '"SELECT X,Y,Z FROM positions ORDER BY id"', '"SELECT X,Y,Z FROM positions ORDER BY Z,X,Y"'),
("D04", E, '"SELECT X,Y,Z FROM positions ORDER BY id"', '"SELECT X,Y,Z FROM positions ORDER BY X,Y,Z"'),
("D04", E, '"SELECT X,Y,Z FROM positions ORDER BY id"', '"SELECT X,Y,Z FROM positions ORDER BY CAST(id AS TEXT)"'),
("D04", E, '"SELECT name,value,positionId FROM fields WHERE simId=? AND timestep=?", simid, ts)', '"SELECT name,value,positionId FROM fields WHERE simId=? AND timestep<=? ORDER BY timestep", simid, ts)'),
("D04", E, '"SELECT name,value,positionId FROM fields WHERE simId=? AND timestep=?", simid, ts)', '"SELECT name,value,positionId FROM fields WHERE simId=? AND timestep=? ORDER BY id DESC", simid, ts)'),
("D04", E, '"SELECT DISTINCT name FROM fields WHERE simId=? AND timestep=?", simid, ts)', '"SELECT DISTINCT name FROM fields WHERE simId=?", simid)'),
("D04", E, 'record[3+j] = fmt.Sprintf("%f", item[k])', 'record[3+j] = fmt.Sprintf("%.6g", item[k])'),
("D04", E, 'record[j+1] = fmt.Sprintf("%f", item[k])', 'record[j+1] = fmt.Sprintf("%.7g", item[k])'),
("D04", E, '	dataArray := make([]map[string]float64, maxStep+1)\n', '	if maxStep > 400 {\n		maxStep = 400\n	}\n	dataArray := make([]map[string]float64, maxStep+1)\n'),
("D04", E, '"SELECT MAX(timestep) FROM timeseries WHERE simId=?"', '"SELECT COUNT(DISTINCT timestep)-1 FROM timeseries WHERE simId=?"'),
("D04", E, '		dataArray[timestep][key] = nullAsNaN(value)', '		if _, ok := dataArray[timestep][key]; !ok {\n			dataArray[timestep][key] = nullAsNaN(value)\n		}'),
("D04", E, '		data[positionID][name] = nullAsNaN(value)', '		data[positionID][name] = value.Float64'),
("D04", E, '"SELECT DISTINCT key FROM timeseries WHERE simId=?"', '"SELECT DISTINCT key FROM timeseries WHERE simId=? LIMIT 8"'),
("D04", E, '		case "timeseries", "ts":', '		case "timeseries":'),
("D04", E, '"field", "fieldData", "fielddata", "fd"', '"field", "fieldData", "fielddata"'),
("D04", E, '		if outfile == "" {\n			outfile = fmt.Sprintf("%s_%d.csv", ftype, simid)', '		if outfile == "" {\n			outfile = fmt.Sprintf("%s_%d.csv", ftype, newestSimulationID(db))'),
("D04", E, 'out, err := os.Create(outfile)\n	if err != nil {\n		fmt.Printf("%s\\n", err)\n		return\n	}\n	defer out.Close()\n	writer := csv.NewWriter(out)\n	defer writer.Flush()\n\n	header', 'out, err := os.OpenFile(outfile, os.O_RDWR|os.O_CREATE, 0644)\n	if err != nil {\n		fmt.Printf("%s\\n", err)\n		return\n	}\n	defer out.Close()\n	writer := csv.NewWriter(out)\n	defer writer.Flush()\n\n	header'),
("D04", E, 'out, err := os.Create(outfile)\n	if err != nil {\n		fmt.Printf("%s\\n", err)\n		return\n	}\n	defer out.Close()\n	writer := csv.NewWriter(out)\n	defer writer.Flush()\n\n	writer', 'out, err := os.OpenFile(outfile, os.O_RDWR|os.O_CREATE, 0644)\n	if err != nil {\n		fmt.Printf("%s\\n", err)\n		return\n	}\n	defer out.Close()\n	writer := csv.NewWriter(out)\n	defer writer.Flush()\n\n	writer'),
# plots
("D05", K, '	return y*Nx + x\n', '	return x*Nx + y\n'),
("D05", K, '		if row.Y > Ny {\n			Ny = row.Y', '		if row.Y > Nx {\n			Ny = row.Y'),
("D05", K, '			img.Set(i, m-1-j, color)', '			img.Set(i, j, color)'),
("D05", K, '			img.Set(i, m-1-j, color)', '			img.Set(n-1-i, m-1-j, color)'),
("D05", K, '	if column == "" {\n		return 3', '	if column == "" {\n		return len(header) - 1'),
("D05", K, '		if v == column {', '		if strings.HasPrefix(v, column) {'),
("D05", K, '		if v == column {', '		if strings.EqualFold(v, column) {'),
("D05", K, '		value, err := strconv.ParseFloat(record[idx], 64)', '		value, err := strconv.ParseFloat(record[idx], 32)'),
("D05", K, '		if row.Value > maxval {', '		if row.Value > maxval && row.Value < 1e6 {'),
("D05", K, '		if row.Value < minval {', '		if row.Value < minval && row.X > 0 {'),
("D05", K, '	minval := records[0].Value\n	maxval := records[0].Value', '	minval := 0.0\n	maxval := records[0].Value'),
("D05", K, 'colormap.SetMin(min - 0.05*rng)', 'colormap.SetMin(min - 0.25*rng)'),
("D05", K, 'colormap.SetMax(max + 0.05*rng)', 'colormap.SetMax(max)'),
("D05", K, 'plotter.NewImage(heatImg, 0, 0, float64(n), float64(m))', 'plotter.NewImage(heatImg, 0, 0, float64(m), float64(n))'),
("D05", K, 'plotter.NewImage(heatImg, 0, 0, float64(n), float64(m))', 'plotter.NewImage(heatImg, 0, 0, float64(n-1), float64(m))'),
("D05", L, 'fieldArray = readHeader(fname)[3:]', 'fieldArray = readHeader(fname)[3:4]'),
("D05", L, 'fieldArray = strings.Split(fields, ",")', 'fieldArray = strings.Split(fields, ",")\n			sort.Strings(fieldArray)'),
("D05", L, '	for i := N - 1; i >= 0; i-- {', '	for i := N - 1; i > 0; i-- {'),
("D05", L, '	for i := N - 1; i >= 0; i-- {', '	for i := N - 1; i >= 0 && len(xys) < 60; i-- {'),
("D05", L, '		include = include && row.Z == z', '		include = row.Z == z'),
("D05", L, '		include = include && row.Y == y', '		include = include && row.Y == y || row.X == y'),
("D05", L, '	if y == -1 {\n		return 1', '	if y == -1 && z > 0 {\n		return 1'),
("D05", L, '	if z != -1 {\n		include', '	if z > 0 {\n		include'),
("D05", L, '	if x != -1 {\n		include', '	if x > 0 {\n		include'),
("D05", L, 'line.LineStyle.Color = plotutil.Color(i)', 'line.LineStyle.Color = plotutil.Color(0)'),
("D05", L, 'line.LineStyle.Color = plotutil.Color(i)', 'line.LineStyle.Color = plotutil.Color(i % 3)'),
("D05", L, 'line.LineStyle.Color = plotutil.Color(i)', 'line.LineStyle.Color = plotutil.Color(i + 1)'),
("D05", L, '			plt.Legend.Add(name, line)', '			if i == 0 {\n				plt.Legend.Add(name, line)\n			}'),
("D06", "cmd/template.go", 'c12 := bulkMod - 2.0*shear/3.0', 'c12 := bulkMod - 2.0*shear/4.0'),
("D06", "cmd/template.go", 'ApplyPerturbation: true', 'ApplyPerturbation: false'),
("D06", "cmd/energy.go", 'log.Printf("Elastic energy per volume inclusion: %f\\n", energy)', 'log.Printf("Elastic energy per volume inclusion: %.3f\\n", energy)'),
("D06", "cmd/energy.go", 'energy := elasticity.CalculateStrainEnergy(params)', 'if params.DomainSize == 0 {\n			params.DomainSize = 64\n		}\n		params.ApplyPerturbation = params.ApplyPerturbation && params.HalfA >= params.HalfB\n		energy := elasticity.CalculateStrainEnergy(params)'),
("D05", L, 'numSet := 0\n	if x != -1', 'numSet := 0\n	if x > 0'),
]
