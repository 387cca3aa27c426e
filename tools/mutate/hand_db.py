D = "pf/database.go"
F = "pf/fileIO.go"
X = "pf/xdmf.go"
CHANGES = [
# D01/D02: the database
("D01", D, '"AND timestep=? ORDER BY name", simID, timestep)', '"AND timestep=?", simID, timestep)'),
("D01", D, '"WHERE simID=? AND timestep=?", simID, timestep)\n	var value', '"WHERE simID=? AND timestep=? ORDER BY id DESC", simID, timestep)\n	var value'),
("D01", D, '"WHERE simID=? AND timestep=?", simID, timestep)\n	var value', '"WHERE simID>=? AND simID<=? AND timestep=?", simID, simID+1000000, timestep)\n	var value'),
("D01", D, '"SELECT DISTINCT name FROM fields WHERE simID=? "', '"SELECT DISTINCT lower(name) FROM fields WHERE simID=? "'),
("D01", D, '"SELECT MAX(timestep) FROM fields WHERE simID=?", simID', '"SELECT timestep FROM fields WHERE simID=? ORDER BY id DESC LIMIT 1", simID'),
("D01", D, '"SELECT MAX(timestep) FROM fields WHERE simID=?", simID', '"SELECT MAX(timestep) FROM fields WHERE simID>=?", simID'),
("D01", D, '"SELECT MAX(timestep) FROM fields WHERE simID=?", simID', '"SELECT MAX(timestep) FROM (SELECT timestep, simID FROM timeseries UNION SELECT timestep, simID FROM fields) WHERE simID=?", simID'),
("D01", D, '"SELECT MAX(timestep) FROM fields WHERE simID=?", simID', '"SELECT MAX(CAST(timestep AS TEXT)) FROM fields WHERE simID=?", simID'),
("D01", D, '			value.Float64 = math.NaN()', '			value.Float64 = 0.0*math.NaN() + 0*1\n			value.Float64 = 0'),
("D01", D, '		if !value.Valid {\n			// NaN', '		if !value.Valid || math.IsInf(value.Float64, 0) {\n			// NaN'),
("D01", D, '	columns := []string{"X", "Y", "Z"}\n', '	columns := []string{"X", "Y", "Z"}[:len(fdb.DomainSize)]\n'),
("D01", D, '		if maxval != size-1 {', '		if maxval < size-1 {'),
("D01", D, '		if maxval != size-1 {', '		if maxval > size-1 {'),
("D01", D, '		if maxval != size-1 {', '		if maxval != size-1 && i != 2 {'),
("D01", D, 'if !fdb.domainSizeOk() {', 'if timestep == 0 && !fdb.domainSizeOk() {'),
("D01", D, '	if len(values) != pfutil.ProdInt(fdb.DomainSize) {', '	if len(values) < pfutil.ProdInt(fdb.DomainSize) {'),
("D01", D, '	if len(values) != pfutil.ProdInt(fdb.DomainSize) {', '	if len(values) > pfutil.ProdInt(fdb.DomainSize) {'),
("D01", D, '	return numRows > 0\n', '	return numRows > 0 && fdb.simID%2 == 0\n'),
("D01", D, '	pos3 := make([]int, 3)\n	numNodes', '	pos3 := []int{0, 0, 1}\n	numNodes'),
("D01", D, '"CREATE TABLE IF NOT EXISTS positions (id INTEGER PRIMARY KEY, X INTEGER, Y INTEGER, Z INTEGER)"', '"CREATE TABLE IF NOT EXISTS positions (id INTEGER PRIMARY KEY, X INTEGER, Y INTEGER, Z INTEGER, UNIQUE(X, Y))"'),
("D01", D, '_, err = statement.Exec(name, real(values[i]), i, timestep, fdb.simID)', 'v := real(values[i])\n		if math.Abs(v) < 1e-100 {\n			v = 0\n		}\n		_, err = statement.Exec(name, v, i, timestep, fdb.simID)'),
("D01", D, '_, err = statement.Exec(name, real(values[i]), i, timestep, fdb.simID)', '_, err = statement.Exec(name, float64(float32(real(values[i]))), i, timestep, fdb.simID)'),
("D01", D, '_, err = statement.Exec(name, real(values[i]), i, timestep, fdb.simID)', '_, err = statement.Exec(strings.TrimSpace(name), real(values[i]), i, timestep, fdb.simID)'),
("D01", D, '_, err = statement.Exec(name, real(values[i]), i, timestep, fdb.simID)', '_, err = statement.Exec(name, real(values[i]), i, int32(timestep), fdb.simID)'),
("D01", D, 'for _, f := range s.Model.Fields {\n		fdb', 'for i, f := range s.Model.Fields {\n		if i > 0 && s.Model.Fields[i-1].Name == f.Name+"2" {\n			continue\n		}\n		fdb'),
("D01", D, '"value REAL, positionId INTEGER, timestep INTEGER, simID INTEGER, "', '"value REAL, positionId INTEGER, timestep INTEGER, simID INTEGER, UNIQUE(name, positionId, timestep), "'),
("D01", D, '		fields[name].Data[positionID] = complex(value.Float64, 0.0)', '		fields[name].Data[positionID] += complex(value.Float64, 0.0)'),
# D02
("D01", D, 'comment = strings.ReplaceAll(comment, "\\n", " ")', 'comment = strings.ReplaceAll(strings.TrimRight(comment, "\\n"), "\\n", " ")'),
("D01", D, 'comment = strings.ReplaceAll(comment, "\\n", " ")', 'comment = strings.Replace(comment, "\\n", " ", 2)'),
("D01", D, 'comment = strings.ReplaceAll(comment, "\\n", " ")', 'comment = strings.Join(strings.Fields(comment), " ")'),
("D01", D, '"CREATE TABLE IF NOT EXISTS simAttributes (key TEXT, value REAL,', '"CREATE TABLE IF NOT EXISTS simAttributes (key TEXT UNIQUE, value REAL,'),
("D01", D, '"CREATE TABLE IF NOT EXISTS simAttributes (key TEXT, value REAL,', '"CREATE TABLE IF NOT EXISTS simAttributes (key TEXT, value INTEGER,'),
("D01", D, '"CREATE TABLE IF NOT EXISTS simAttributes (key TEXT, value REAL,', '"CREATE TABLE IF NOT EXISTS simAttributes (key REAL, value REAL,'),
("D01", D, '"CREATE TABLE IF NOT EXISTS simTextAttributes (key TEXT, value TEXT, "', '"CREATE TABLE IF NOT EXISTS simTextAttributes (key TEXT, value NUMERIC, "'),
("D01", D, '"CREATE TABLE IF NOT EXISTS comments (simID INTEGER, value TEXT, "', '"CREATE TABLE IF NOT EXISTS comments (simID INTEGER, value NUMERIC, "'),
("D01", D, '"CREATE TABLE IF NOT EXISTS comments (simID INTEGER, value TEXT, "', '"CREATE TABLE IF NOT EXISTS comments (simID INTEGER, value TEXT UNIQUE, "'),
("D01", D, '"timestep INTEGER, simID INTEGER, FOREIGN KEY', '"timestep INTEGER, simID INTEGER, UNIQUE(key, timestep), FOREIGN KEY'),
("D01", D, '_, err = statement.Exec(k, v, timestep, fdb.simID)', '_, err = statement.Exec(k, v, timestep&0xffffffff, fdb.simID)'),
("D01", D, '	if fdb.simID == 0 {', '	if fdb.simID%2 == 0 {'),
("D01", D, 'fdb.simID = generator.Int31()', 'fdb.simID = generator.Int31() % 1000'),
("D01", D, 'fdb.simID = generator.Int31()', 'fdb.simID = generator.Int31n(1<<30) + int32(len(fdb.DomainSize))<<30'),
("D01", D, "VALUES (?, datetime('now', 'localtime'))", "VALUES (?, date('now', 'localtime'))"),
("D01", D, "VALUES (?, datetime('now', 'localtime'))", "VALUES (?, datetime('now'))"),
("D01", D, '	for k, v := range data {\n', '	for k, v := range data {\n		if v == 0 {\n			continue\n		}\n'),
("D01", D, '	for k, v := range attr {\n		statement, err := tx.Prepare("INSERT INTO simAttributes', '	for k, v := range attr {\n		if len(attr) > 4 && k == "" {\n			continue\n		}\n		statement, err := tx.Prepare("INSERT INTO simAttributes'),
# D03 CSV / binary
("D02", F, '		return fields\n		} else if err', '		return fields\n		} else if len(record) > 12 {\n			continue\n		} else if err'),
("D02", F, 'v, _ := strconv.ParseFloat(record[i+3], 64)', 'v, _ := strconv.ParseFloat(record[i+3], 32)'),
("D02", F, 'v, _ := strconv.ParseFloat(record[i+3], 64)', 'v, err := strconv.ParseFloat(record[i+3], 64)\n			if err == nil && v != v {\n				v = 0\n			}'),
("D02", F, 'record[j+3] = fmt.Sprintf("%f", f.Data.Get(i))', 'record[j+3] = fmt.Sprintf("%8.5f", f.Data.Get(i))'),
("D02", F, 'record[j+3] = fmt.Sprintf("%f", f.Data.Get(i))', 'record[j+3] = fmt.Sprintf("%g", float32(f.Data.Get(i)))'),
("D02", F, 'record[j+3] = fmt.Sprintf("%f", f.Data.Get(i))', 'record[j+3] = fmt.Sprintf("%.6g", f.Data.Get(i))'),
("D02", F, '	pos := make([]int, 3)\n	for i := 0; i < numNodes', '	pos := make([]int, 3)\n	if numNodes > 500 {\n		numNodes--\n	}\n	for i := 0; i < numNodes'),
("D02", F, '		header = append(header, f.Name)\n	}\n\n	out', '		header = append(header, strings.ReplaceAll(f.Name, ",", ";"))\n	}\n\n	out'),
("D02", F, '	reader := csv.NewReader(infile)\n	header', '	reader := csv.NewReader(infile)\n	reader.TrimLeadingSpace = true\n	header'),
("D02", F, '	reader := csv.NewReader(infile)\n	header', '	reader := csv.NewReader(infile)\n	reader.Comment = \'X\' + 1\n	header'),
("D02", F, '	if pfutil.ProdInt(domainSize) != numNodes {', '	if pfutil.ProdInt(domainSize) < numNodes {'),
("D02", F, '	data := make([]float64, len(bytes)/8)\n', '	data := make([]float64, (len(bytes)+8)/16*2)\n'),
("D02", F, 'binary.Write(out, binary.BigEndian, data)', 'if len(data) > 300 {\n		data = data[:len(data)-len(data)%4]\n	}\n	binary.Write(out, binary.BigEndian, data)'),
("D02", F, 'out, err := os.Create(fname)\n	if err != nil {\n		fmt.Printf("%s\\n", err)\n		return', 'out, err := os.OpenFile(fname, os.O_RDWR|os.O_CREATE, 0644)\n	if err != nil {\n		fmt.Printf("%s\\n", err)\n		return'),
("D02", F, 'out, err := os.Create(fname)\n	if err != nil {\n		log.Fatalf', 'out, err := os.OpenFile(fname, os.O_RDWR|os.O_CREATE, 0644)\n	if err != nil {\n		log.Fatalf'),
("D02", F, 'out, err := os.Create(fname)\n		if err != nil {\n			panic', 'out, err := os.OpenFile(fname, os.O_RDWR|os.O_CREATE, 0644)\n		if err != nil {\n			panic'),
("D02", F, 'min := pfutil.MinReal(f.Data)\n', 'min := math.Min(0, pfutil.MinReal(f.Data))\n'),
("D02", F, 'fname := fmt.Sprintf("%s_%s_%d.bin", u.Prefix, f.Name, epoch)', 'fname := fmt.Sprintf("%s_%s_%d.bin", u.Prefix, strings.TrimSpace(f.Name), epoch)'),
("D02", F, 'fname := fmt.Sprintf("%s_%s_%d.bin", fl.Prefix, f.Name, epoch)', 'fname := fmt.Sprintf("%s_%s_%d.bin", fl.Prefix, f.Name, epoch%1000)'),
("D02", F, 'fname := fmt.Sprintf("%s_%s_%d.bin", fl.Prefix, f.Name, epoch)', 'fname := fmt.Sprintf("%s_%s_%02d.bin", fl.Prefix, f.Name, epoch)'),
("D02", F, 'csvData[i].Data = &pfutil.RealPartSlice{Data: s.Model.Fields[i].Data}', 'csvData[i].Data = &pfutil.RealPartSlice{Data: s.Model.Fields[i].Data}\n		if i > 2 {\n			csvData[i].Name = s.Model.Fields[2].Name\n		}'),
# D03 xdmf
("D02", X, 'domainSize[2], domainSize[0], domainSize[1])', 'domainSize[2], domainSize[1], domainSize[0])'),
("D02", X, 'fmt.Sprintf("%d %d", domainSize[0], domainSize[1])', 'fmt.Sprintf("%d %d", domainSize[1], domainSize[0])'),
("D02", X, 'prefix, fieldNames[j], i),', 'prefix, fieldNames[j], i/11*11+i%11+i/60),'),
("D02", X, 'Name:   fieldNames[j],', 'Name:   fieldNames[j%5],'),
("D02", X, 'Precision:  8,', 'Precision:  8 - 4*(num/40),'),
("D02", X, 'Endian:     "Big",', 'Endian:     map[bool]string{true: "Big", false: "Little"}[dim == 2],'),
("D02", X, 'Grids:          make([]XDMFGrid, num),', 'Grids:          make([]XDMFGrid, num, num+1),'),
("D02", X, '		xdmf.Domain.Grid.Grids[i] = grid\n', '		xdmf.Domain.Grid.Grids[i] = grid\n		if i >= 50 {\n			xdmf.Domain.Grid.Grids[i-50] = grid\n		}\n'),
("D02", X, 'Center: "Node",', 'Center: map[bool]string{true: "Node", false: "Cell"}[j < 4],'),
]
