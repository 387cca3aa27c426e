# Fourth batch: what is left behind by a kill, and failures that go unnoticed
CHANGES = [
("D07", "pf/database.go", 'tx.Prepare("INSERT INTO fields', 'fdb.DB.Prepare("INSERT INTO fields'),
("D07", "pf/database.go", 'tx.Prepare("INSERT INTO positions', 'fdb.DB.Prepare("INSERT INTO positions'),
("D07", "pf/database.go", 'tx.Prepare("INSERT INTO simAttributes', 'fdb.DB.Prepare("INSERT INTO simAttributes'),
("D07", "pf/database.go", 'tx.Prepare("INSERT INTO simTextAttributes', 'fdb.DB.Prepare("INSERT INTO simTextAttributes'),
("D07", "pf/database.go", 'tx.Prepare("INSERT INTO timeseries', 'fdb.DB.Prepare("INSERT INTO timeseries'),
("D07", "pf/database.go", '		_, err = statement.Exec(name, real(values[i]), i, timestep, fdb.simID)\n', '		_, err = statement.Exec(name, real(values[i]), i, timestep, fdb.simID)\n		if i%32 == 31 {\n			tx.Commit()\n			tx, _ = fdb.DB.Begin()\n		}\n'),
("D07", "pf/database.go", '	tx, err := fdb.DB.Begin()\n\n	if err != nil {\n		panic(err)\n	}\n	for i := 0; i < numNodes; i++ {', '	tx, err := fdb.DB.Begin()\n\n	if err != nil {\n		panic(err)\n	}\n	for i := 0; i < numNodes; i++ {\n		if i == numNodes-1 && i > 0 {\n			tx.Commit()\n			tx, _ = fdb.DB.Begin()\n		}'),
("D07", "pf/database.go", '	if !fdb.positionTableIsPopulated() {\n		fdb.populatePositionsTable()\n	}\n\n	for _, f := range s.Model.Fields {\n		fdb.insertRealPart(f.Name, epoch, f.Data)\n	}', '	if !fdb.positionTableIsPopulated() {\n		defer fdb.populatePositionsTable()\n		old := fdb.DomainSize\n		fdb.DomainSize = nil\n		defer func() { fdb.DomainSize = old }()\n	}\n\n	for _, f := range s.Model.Fields {\n		fdb.insertRealPart(f.Name, epoch, f.Data)\n	}'),
("D07", "pf/database.go", '		_, err = statement.Exec(name, real(values[i]), i, timestep, fdb.simID)\n\n		if err != nil {\n			log.Fatal(err)', '		_, err = statement.Exec(name, real(values[i]), i, timestep, fdb.simID)\n\n		if err != nil {\n			continue'),
("D07", "pf/database.go", '		_, err = statement.Exec(k, v, timestep, fdb.simID)\n		if err != nil {\n			log.Fatal(err)', '		_, err = statement.Exec(k, v, timestep, fdb.simID)\n		if err != nil {'),
("D07", "pf/database.go", '	if _, err := statement.Exec(fdb.simID, comment); err != nil {\n		log.Fatal(err)\n	}', '	statement.Exec(fdb.simID, comment)'),
("D07", "pf/database.go", '		if _, err = statement.Exec(fdb.simID); err != nil {\n			panic(err)\n		}', '		statement.Exec(fdb.simID)'),
("D07", "pf/database.go", '			log.Fatal(err)\n			tx.Rollback()\n			return\n		}\n	}\n	if err := tx.Commit(); err != nil {\n		log.Fatal(err)\n	}\n}\n\n// SaveFields', '			log.Print(err)\n			tx.Commit()\n			panic(err)\n		}\n	}\n	if err := tx.Commit(); err != nil {\n		log.Fatal(err)\n	}\n}\n\n// SaveFields'),
("D07", "pf/database.go", 'statement, err := fdb.DB.Prepare("CREATE TABLE IF NOT EXISTS simIDs', 'fdb.DB.Exec("PRAGMA journal_mode=OFF")\n	statement, err := fdb.DB.Prepare("CREATE TABLE IF NOT EXISTS simIDs'),
("D07", "pf/fileIO.go", '	if err := binary.Write(out, binary.BigEndian, data); err != nil {\n		fmt.Printf("%s\\n", err)\n	}', '	binary.Write(out, binary.BigEndian, data)'),
("D07", "pf/fileIO.go", '	if err := writer.Error(); err != nil {', '	if err := writer.Error(); err != nil && numNodes > 9 {'),
("D07", "pf/fileIO.go", '		if err != nil {\n			panic(err)\n		}\n		err = binary', '		if err != nil {\n			continue\n		}\n		err = binary'),
("D07", "pf/xdmf.go", '	writer.Close()\n	if err != nil {\n		panic(err)\n	}', '	writer.Close()'),
("D07", "pfutil/grid.go", '		if _, err := f.WriteString(text); err != nil {', '		if _, err := f.WriteString(text); err != nil && i == 0 {'),
("D07", "pf/fileIO.go", '	if err != nil {\n		fmt.Printf("%s\\n", err)\n		return\n	}\n	defer out.Close()', '	if err != nil {\n		return\n	}\n	defer out.Close()'),
("D04", "cmd/export.go", '	if err := writer.Error(); err != nil {\n		fmt.Printf("%s\\n", err)\n		return\n	}\n	fmt.Printf("Field', '	fmt.Printf("Field'),
("D04", "cmd/export.go", '	if err := writer.Error(); err != nil {\n		fmt.Printf("%s\\n", err)\n		return\n	}\n	fmt.Printf("Time', '	fmt.Printf("Time'),
("D05", "cmd/contour.go", '		_, err = png.WriteTo(file)', '		png.WriteTo(file)'),
("D06", "cmd/template.go", '		err = ioutil.WriteFile(out, file, 0644)\n', '		ioutil.WriteFile(out, file, 0644)\n'),
]
