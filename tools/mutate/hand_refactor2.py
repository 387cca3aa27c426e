# Behaviour-preserving edits of the database and file writers; nothing may be caught
CHANGES = [('D01 D07', 'pf/database.go', '\ttx, err := fdb.DB.Begin()\n\tif err != nil {\n\t\tlog.Fatal(err)\n\t\treturn\n\t}\n\tfor i := range values {\n\t\tstatement, err := tx.Prepare("INSERT INTO fields (name, value, positionId, timestep, simID) VALUES (?, ?, ?, ?, ?)")\n\n\t\tif err != nil {\n\t\t\tlog.Fatal(err)\n\t\t\ttx.Rollback()\n\t\t\treturn\n\t\t}\n\n\t\t_, err = statement.Exec(name, real(values[i]), i, timestep, fdb.simID)\n\n\t\tif err != nil {\n\t\t\tlog.Fatal(err)\n\t\t\ttx.Rollback()\n\t\t\treturn\n\t\t}\n\t}\n\tif err := tx.Commit(); err != nil {\n\t\tlog.Fatal(err)\n\t}\n}\n\n', '\ttx, err := fdb.DB.Begin()\n\tif err != nil {\n\t\tlog.Fatal(err)\n\t\treturn\n\t}\n\tstatement, err := tx.Prepare("INSERT INTO fields (name, value, positionId, timestep, simID) VALUES (?, ?, ?, ?, ?)")\n\tif err != nil {\n\t\ttx.Rollback()\n\t\tlog.Fatal(err)\n\t}\n\tfor i, v := range values {\n\t\tif _, err = statement.Exec(name, real(v), i, timestep, fdb.simID); err != nil {\n\t\t\ttx.Rollback()\n\t\t\tlog.Fatal(err)\n\t\t}\n\t}\n\tstatement.Close()\n\tif err := tx.Commit(); err != nil {\n\t\tlog.Fatal(err)\n\t}\n}\n\n'), ('D01 D07', 'pf/database.go', '\ttx, err := fdb.DB.Begin()\n\tif err != nil {\n\t\tlog.Fatal(err)\n\t\treturn\n\t}\n\tfor i := range values {\n\t\tstatement, err := tx.Prepare("INSERT INTO fields (name, value, positionId, timestep, simID) VALUES (?, ?, ?, ?, ?)")\n\n\t\tif err != nil {\n\t\t\tlog.Fatal(err)\n\t\t\ttx.Rollback()\n\t\t\treturn\n\t\t}\n\n\t\t_, err = statement.Exec(name, real(values[i]), i, timestep, fdb.simID)\n\n\t\tif err != nil {\n\t\t\tlog.Fatal(err)\n\t\t\ttx.Rollback()\n\t\t\treturn\n\t\t}\n\t}\n\tif err := tx.Commit(); err != nil {\n\t\tlog.Fatal(err)\n\t}\n}\n\n', '\ttx, err := fdb.DB.Begin()\n\tif err != nil {\n\t\tlog.Fatal(err)\n\t\treturn\n\t}\n\tfor a := 0; a < len(values); a += 40 {\n\t\tb := a + 40\n\t\tif b > len(values) {\n\t\t\tb = len(values)\n\t\t}\n\t\tq := []string{}\n\t\targs := []interface{}{}\n\t\tfor i := a; i < b; i++ {\n\t\t\tq = append(q, "(?, ?, ?, ?, ?)")\n\t\t\targs = append(args, name, real(values[i]), i, timestep, fdb.simID)\n\t\t}\n\t\tif _, err = tx.Exec("INSERT INTO fields (name, value, positionId, timestep, simID) VALUES "+strings.Join(q, ", "), args...); err != nil {\n\t\t\ttx.Rollback()\n\t\t\tpanic(err)\n\t\t}\n\t}\n\tif err := tx.Commit(); err != nil {\n\t\tpanic(err)\n\t}\n}\n\n'), ('D01 D07', 'pf/database.go', '\ttx, err := fdb.DB.Begin()\n\tif err != nil {\n\t\tlog.Fatal(err)\n\t\treturn\n\t}\n\n\tfor k, v := range data {\n\t\tstatement, err := tx.Prepare("INSERT INTO timeseries (key, value, timestep, simID) VALUES (?, ?, ?, ?)")\n\t\tif err != nil {\n\t\t\tlog.Fatal(err)\n\t\t\ttx.Rollback()\n\t\t\treturn\n\t\t}\n\t\t_, err = statement.Exec(k, v, timestep, fdb.simID)\n\t\tif err != nil {\n\t\t\tlog.Fatal(err)\n\t\t\ttx.Rollback()\n\t\t\treturn\n\t\t}\n\t}\n\tif err := tx.Commit(); err != nil {\n\t\tlog.Fatal(err)\n\t}\n}\n\n', '\tfdb.inTx(func(tx *sql.Tx) error {\n\t\tfor k, v := range data {\n\t\t\tif _, err := tx.Exec("INSERT INTO timeseries (key, value, timestep, simID) VALUES (?, ?, ?, ?)", k, v, timestep, fdb.simID); err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t}\n\t\treturn nil\n\t})\n}\n\nfunc (fdb *FieldDB) inTx(f func(tx *sql.Tx) error) {\n\ttx, err := fdb.DB.Begin()\n\tif err != nil {\n\t\tlog.Fatalf("FieldDB: %s", err)\n\t}\n\tif err = f(tx); err != nil {\n\t\ttx.Rollback()\n\t\tlog.Fatalf("FieldDB: %s", err)\n\t}\n\tif err = tx.Commit(); err != nil {\n\t\tlog.Fatalf("FieldDB: %s", err)\n\t}\n}\n\n'), ('D01 D07 D03 D04', 'pf/database.go', '\tstatement, err := fdb.DB.Prepare("CREATE TABLE IF NOT EXISTS simIDs (simID INTEGER UNIQUE, creationTime TEXT)")\n\tif err != nil {\n\t\tpanic(err)\n\t}\n\tif _, err = statement.Exec(); err != nil {\n\t\tpanic(err)\n\t}\n\n\tstatement, err = fdb.DB.Prepare("CREATE TABLE IF NOT EXISTS positions (id INTEGER PRIMARY KEY, X INTEGER, Y INTEGER, Z INTEGER)")\n\tif err != nil {\n\t\tpanic(err)\n\t}\n\tif _, err = statement.Exec(); err != nil {\n\t\tpanic(err)\n\t}\n\n\tstatement, err = fdb.DB.Prepare(\n\t\t"CREATE TABLE IF NOT EXISTS fields (id INTEGER PRIMARY KEY, name TEXT, " +\n\t\t\t"value REAL, positionId INTEGER, timestep INTEGER, simID INTEGER, " +\n\t\t\t"FOREIGN KEY(positionId) REFERENCES positions(id), " +\n\t\t\t"FOREIGN KEY(simID) REFERENCES simIDs(simID))")\n\n\tif err != nil {\n\t\tpanic(err)\n\t}\n\tif _, err = statement.Exec(); err != nil {\n\t\tpanic(err)\n\t}\n\n\tstatement, err = fdb.DB.Prepare(\n\t\t"CREATE TABLE IF NOT EXISTS simAttributes (key TEXT, value REAL, simID INTEGER, FOREIGN KEY(simID) REFERENCES fields(simID))")\n\tif err != nil {\n\t\tpanic(err)\n\t}\n\tif _, err = statement.Exec(); err != nil {\n\t\tpanic(err)\n\t}\n\n\tstatement, err = fdb.DB.Prepare(\n\t\t"CREATE TABLE IF NOT EXISTS comments (simID INTEGER, value TEXT, " +\n\t\t\t"FOREIGN KEY(simID) REFERENCES simIds(simID))")\n\n\tif err != nil {\n\t\tpanic(err)\n\t}\n\tif _, err = statement.Exec(); err != nil {\n\t\tpanic(err)\n\t}\n\n\tstatement, err = fdb.DB.Prepare(\n\t\t"CREATE TABLE IF NOT EXISTS simTextAttributes (key TEXT, value TEXT, " +\n\t\t\t"simID INTEGER, FOREIGN KEY(simID) REFERENCES simIds(simID))")\n\n\tif err != nil {\n\t\tpanic(err)\n\t}\n\tif _, err = statement.Exec(); err != nil {\n\t\tpanic(err)\n\t}\n\n\tstatement, err = fdb.DB.Prepare(\n\t\t"CREATE TABLE IF NOT EXISTS timeseries (key TEXT, value REAL, " +\n\t\t\t"timestep INTEGER, simID INTEGER, FOREIGN KEY(simID) REFERENCES simIds(simID))")\n\n\tif err != nil {\n\t\tpanic(err)\n\t}\n\tif _, err = statement.Exec(); err != nil {\n\t\tpanic(err)\n\t}\n\n', '\tstatement, err := fdb.DB.Prepare("SELECT 1")\n\tif err != nil {\n\t\tpanic(err)\n\t}\n\tstatement.Close()\n\ttables := []string{\n\t\t"simIDs (simID INTEGER UNIQUE, creationTime TEXT)",\n\t\t"positions (id INTEGER PRIMARY KEY, X INTEGER, Y INTEGER, Z INTEGER)",\n\t\t"fields (id INTEGER PRIMARY KEY, name TEXT, value REAL, positionId INTEGER, timestep INTEGER, simID INTEGER)",\n\t\t"simAttributes (key TEXT, value REAL, simID INTEGER)",\n\t\t"comments (simID INTEGER, value TEXT)",\n\t\t"simTextAttributes (key TEXT, value TEXT, simID INTEGER)",\n\t\t"timeseries (key TEXT, value REAL, timestep INTEGER, simID INTEGER)",\n\t}\n\tall := ""\n\tfor _, t := range tables {\n\t\tall += "CREATE TABLE IF NOT EXISTS " + t + ";\\n"\n\t}\n\tif _, err = fdb.DB.Exec(all); err != nil {\n\t\tpanic(err)\n\t}\n\n'), ('D01 D07', 'pf/database.go', '\tfor _, f := range s.Model.Fields {\n\t\tfdb.insertRealPart(f.Name, epoch, f.Data)\n\t}\n}\n\n', '\tfor i := len(s.Model.Fields) - 1; i >= 0; i-- {\n\t\tfdb.insertRealPart(s.Model.Fields[i].Name, epoch, s.Model.Fields[i].Data)\n\t}\n}\n\n'), ('D02 D07', 'pf/fileIO.go', '\tif err := binary.Write(out, binary.BigEndian, data); err != nil {\n\t\tfmt.Printf("%s\\n", err)\n\t}\n}\n\n', '\tbuf := make([]byte, 8*len(data))\n\tfor i, v := range data {\n\t\tbinary.BigEndian.PutUint64(buf[8*i:], math.Float64bits(v))\n\t}\n\tif _, err := out.Write(buf); err != nil {\n\t\tpanic(err)\n\t}\n}\n\n'), ('D02 D07', 'pf/fileIO.go', '\tout, err := os.Create(fname)\n\tif err != nil {\n\t\tfmt.Printf("%s\\n", err)\n\t\treturn\n\t}\n\tdefer out.Close()\n\tif err := binary.Write(out, binary.BigEndian, data); err != nil {\n\t\tfmt.Printf("%s\\n", err)\n\t}\n}\n\n', '\tout, err := os.Create(fname + ".tmp")\n\tif err != nil {\n\t\tfmt.Printf("%s\\n", err)\n\t\treturn\n\t}\n\terr = binary.Write(out, binary.BigEndian, data)\n\tout.Close()\n\tif err != nil {\n\t\tos.Remove(fname + ".tmp")\n\t\tlog.Printf("%s\\n", err)\n\t\treturn\n\t}\n\tif err = os.Rename(fname+".tmp", fname); err != nil {\n\t\tlog.Printf("%s\\n", err)\n\t}\n}\n\n')]