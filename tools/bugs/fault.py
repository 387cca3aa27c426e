exec(open("/verif/tools/bugs/more.py").read().split("BUGS = [")[0])
CHILD = '''func TestDemo(t *testing.T) {
	path := os.Getenv("DEMO_DIR") + "/a.db"
	db, _ := sql.Open("sqlite3", path)
	defer db.Close()
	m := NewModel()
	f := NewField("conc", 64, nil)
	m.AddField(f)
	fdb := FieldDB{DB: db, DomainSize: []int{8, 8}}
	if os.Getenv("DEMO_CHILD") != "" {
		// the process ends in the middle of the second save
		fdb.SaveFields(&Solver{Model: &m}, 1)
		return
	}
%s
	cmd := exec.Command(os.Args[0], "-test.run", "^TestDemo$")
	cmd.Env = append(os.Environ(), "DEMO_CHILD=1")
	cmd.Run()
%s
}
'''
BUGS = [
dict(id="F01", property="D07", pkg="pf",
 edits=[("pf/database.go", '		statement, err := tx.Prepare("INSERT INTO fields (', '		statement, err := fdb.DB.Prepare("INSERT INTO fields (')],
 needs="a kill or a failing statement while a field is saved", breaks="the first rows of the field are in the database, the others are not: the rows are not part of the transaction",
 demo=t(CHILD % ('''	fdb.SaveFields(&Solver{Model: &m}, 0)
	if _, err := db.Exec("CREATE TRIGGER stop BEFORE INSERT ON fields WHEN NEW.positionId = 40 BEGIN SELECT RAISE(ABORT, 'no space'); END"); err != nil {
		t.Fatal(err)
	}''', '''	num := -1
	if err := db.QueryRow("SELECT COUNT(*) FROM fields WHERE timestep=1").Scan(&num); err != nil || num != 0 {
		t.Fatalf("demo: %d rows of a field with 64, %v", num, err)
	}'''), ["database/sql", "os", "os/exec", '_ "github.com/mattn/go-sqlite3"'])),
dict(id="F02", property="D07", pkg="pf",
 edits=[("pf/database.go", '		statement, err := tx.Prepare("INSERT INTO positions (', '		if i > 0 && i%48 == 0 {\n			tx.Commit()\n			tx, _ = fdb.DB.Begin()\n		}\n		statement, err := tx.Prepare("INSERT INTO positions ('),
        ("pf/database.go", '		pos := pfutil.Pos(fdb.DomainSize, i)\n		copy(pos3, pos)\n', '		copy(pos3, pfutil.Pos(fdb.DomainSize, i))\n')],
 needs="a kill or a failing statement while the positions are written, on a domain with more than 48 nodes", breaks="half a table of positions stays behind; it counts as populated and everything saved later is refused",
 demo=t(CHILD % ('''	fdb.initialize()
	if _, err := db.Exec("CREATE TRIGGER stop BEFORE INSERT ON positions WHEN NEW.id = 60 BEGIN SELECT RAISE(ABORT, 'no space'); END"); err != nil {
		t.Fatal(err)
	}''', '''	num := -1
	if err := db.QueryRow("SELECT COUNT(*) FROM positions").Scan(&num); err != nil || num != 0 {
		t.Fatalf("demo: %d positions of 64, %v", num, err)
	}'''), ["database/sql", "os", "os/exec", '_ "github.com/mattn/go-sqlite3"'])),
dict(id="F03", property="D03", pkg="cmd",
 edits=[("cmd/attr.go", "	if simulationID < 0 {\n", "	if simulationID <= 0 {\n")],
 needs="gopf db attr asked for simulation 0 in a database whose simulations have text attributes", breaks="the text attributes of all other simulations are listed",
 demo=t("""func TestDemo(t *testing.T) {
	db, _ := sql.Open("sqlite3", filepath.Join(os.Getenv("DEMO_DIR"), "a.db"))
	defer db.Close()
	for _, q := range []string{"CREATE TABLE simAttributes (key TEXT, value REAL, simId INTEGER)", "CREATE TABLE simTextAttributes (key TEXT, value TEXT, simId INTEGER)",
		"INSERT INTO simTextAttributes VALUES ('a', 'secret', 5)"} {
		if _, err := db.Exec(q); err != nil {
			t.Fatal(err)
		}
	}
	r, w, _ := os.Pipe()
	old := os.Stdout
	os.Stdout = w
	listAttributes(db, 0)
	w.Close()
	os.Stdout = old
	out, _ := io.ReadAll(r)
	if strings.Contains(string(out), "secret") {
		t.Fatalf("demo: %s", out)
	}
}
""", ["database/sql", "io", "os", "path/filepath", "strings", '_ "github.com/mattn/go-sqlite3"'], "cmd")),
]
