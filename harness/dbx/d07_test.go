package dbx

import (
	"bytes"
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"testing"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	sqlite3 "github.com/mattn/go-sqlite3"
	"pgregory.net/rapid"
	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
)

// a statement that every new connection runs
var onOpen string

// The driver of these tests is sqlite3 with a hook around everything that can write. The hook is called
// before and after each statement and each commit; an error it returns before is the result of the statement.
var hook func(before bool, what string) error

func call(before bool, what string) error {
	if hook == nil {
		return nil
	}
	return hook(before, what)
}

type hookDriver struct{ sqlite3.SQLiteDriver }
type hookConn struct{ *sqlite3.SQLiteConn }
type hookStmt struct{ *sqlite3.SQLiteStmt }
type hookTx struct{ driver.Tx }

func (d *hookDriver) Open(dsn string) (driver.Conn, error) {
	c, err := d.SQLiteDriver.Open(dsn)
	if err != nil {
		return nil, err
	}
	h := &hookConn{c.(*sqlite3.SQLiteConn)}
	if onOpen != "" {
		_, err = h.SQLiteConn.Exec(onOpen, nil)
	}
	return h, err
}

func (c *hookConn) Prepare(q string) (driver.Stmt, error) {
	return c.PrepareContext(context.Background(), q)
}

func (c *hookConn) PrepareContext(ctx context.Context, q string) (driver.Stmt, error) {
	s, err := c.SQLiteConn.PrepareContext(ctx, q)
	if err != nil {
		return nil, err
	}
	return &hookStmt{s.(*sqlite3.SQLiteStmt)}, nil
}

func (c *hookConn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	if err := call(true, q); err != nil {
		return nil, err
	}
	r, err := c.SQLiteConn.ExecContext(ctx, q, args)
	call(false, q)
	return r, err
}

func (c *hookConn) Begin() (driver.Tx, error) {
	return c.BeginTx(context.Background(), driver.TxOptions{})
}

func (c *hookConn) BeginTx(ctx context.Context, o driver.TxOptions) (driver.Tx, error) {
	t, err := c.SQLiteConn.BeginTx(ctx, o)
	if err != nil {
		return nil, err
	}
	return &hookTx{t}, nil
}

func (s *hookStmt) Exec(args []driver.Value) (driver.Result, error) {
	return nil, errors.New("HARNESS-ERROR: old interface")
}

func (s *hookStmt) ExecContext(ctx context.Context, args []driver.NamedValue) (driver.Result, error) {
	if err := call(true, "statement"); err != nil {
		return nil, err
	}
	r, err := s.SQLiteStmt.ExecContext(ctx, args)
	call(false, "statement")
	return r, err
}

func (t *hookTx) Commit() error {
	if err := call(true, "commit"); err != nil {
		// as sqlite does when the disk is full
		t.Tx.Rollback()
		return err
	}
	err := t.Tx.Commit()
	call(false, "commit")
	return err
}

func init() {
	sql.Register("sqlite3_hook", &hookDriver{})
	signal.Ignore(syscall.SIGXFSZ)
}

func openHook(rt *rapid.T, path string) *sql.DB {
	db, err := sql.Open("sqlite3_hook", "file:"+path+"?_sync=0&_journal=DELETE")
	if err != nil {
		rt.Fatalf("HARNESS-ERROR: %s", err)
	}
	return db
}

// part is what has to be in the database as a whole or not at all
type part struct {
	table string
	rows  []string
}

var queries = map[string]string{
	"fields":    "SELECT f.name, f.value, p.X, p.Y, p.Z, f.timestep, f.simID FROM fields f LEFT JOIN positions p ON f.positionId = p.id",
	"positions": "SELECT id, X, Y, Z FROM positions",
	"attr":      "SELECT key, value, simID FROM simAttributes",
	"text":      "SELECT key, value, simID FROM simTextAttributes",
	"series":    "SELECT key, value, timestep, simID FROM timeseries",
	"comments":  "SELECT simID, value FROM comments",
	"ids":       "SELECT simID FROM simIDs",
}

// rowsOrNone is rows, for a database in which not all tables exist yet
func rowsOrNone(rt *rapid.T, db *sql.DB, q string) []string {
	if r, err := db.Query(q); err != nil {
		if strings.Contains(err.Error(), "no such table") {
			return nil
		}
		rt.Fatalf("%s: %s", q, err)
	} else {
		r.Close()
	}
	return rows(rt, db, q)
}

// whole checks that db holds all of done, and of the rest each part as a whole or not at all, and nothing else.
// It returns the parts of the rest that are there
func whole(rt *rapid.T, db *sql.DB, done, rest []part, what string) []part {
	there := []part{}
	for table, q := range queries {
		count := map[string]int{}
		got := rowsOrNone(rt, db, q)
		for _, r := range got {
			count[r]++
		}
		for _, p := range done {
			if p.table == table {
				for _, r := range p.rows {
					if count[r] == 0 {
						rt.Fatalf("%s: the row %s of %s was saved and is gone; there is\n%s", what, r, table, strings.Join(got, "\n"))
					}
					count[r]--
				}
			}
		}
		for _, p := range rest {
			if p.table != table || len(p.rows) == 0 {
				continue
			}
			n := 0
			for _, r := range p.rows {
				if count[r] > 0 {
					count[r]--
					n++
				}
			}
			if n != 0 && n != len(p.rows) {
				rt.Fatalf("%s: %d of %d rows of %s are there; the table is\n%s", what, n, len(p.rows), table, strings.Join(got, "\n"))
			}
			if n > 0 {
				there = append(there, p)
			}
		}
		for r, n := range count {
			if n > 0 {
				rt.Fatalf("%s: nobody saved the row %s of %s", what, r, table)
			}
		}
	}
	return there
}

func hasTable(parts []part, table string) bool {
	for _, p := range parts {
		if p.table == table {
			return true
		}
	}
	return false
}

func copyFile(rt *rapid.T, from, to string) {
	b, err := os.ReadFile(from)
	if os.IsNotExist(err) {
		return
	}
	if err == nil {
		err = os.WriteFile(to, b, 0644)
	}
	if err != nil {
		rt.Fatalf("HARNESS-ERROR: %s", err)
	}
}

// snapshot copies the database and its journal as they are, which is what a killed process leaves behind
func snapshot(rt *rapid.T, path, to string) {
	copyFile(rt, path, to)
	copyFile(rt, path+"-journal", to+"-journal")
	copyFile(rt, path+"-wal", to+"-wal")
}

// step is one operation on the database: what it does and the parts it writes
type step struct {
	name  string
	run   func()
	parts func(id string) []part
}

func valueMap(rt *rapid.T) map[string]float64 {
	data := map[string]float64{}
	for _, k := range keys(rt) {
		data[k] = drawValue(rt)
	}
	return data
}

// drawDomain draws a small domain, now and then one with up to two thousand nodes
func drawDomain(rt *rapid.T) []int {
	if rapid.IntRange(0, 19).Draw(rt, "large") == 19 {
		return []int{rapid.IntRange(10, 45).Draw(rt, "nx"), rapid.IntRange(10, 45).Draw(rt, "ny")}
	}
	return gen.DimsRange(rt, rapid.IntRange(2, 3).Draw(rt, "dim"), 1, 4)
}

func positionsPart(dims []int) part {
	p := part{table: "positions"}
	for i := 0; i < ref.Size(dims); i++ {
		x := append(append([]int{}, ref.Pos(dims, i)...), 0)
		p.rows = append(p.rows, fmt.Sprintf("%d|%d|%d|%d", i, x[0], x[1], x[2]))
	}
	return p
}

func fieldPart(dims []int, name string, vals []float64, epoch int, id string) part {
	p := part{table: "fields"}
	for i, v := range vals {
		x := append(append([]int{}, ref.Pos(dims, i)...), 0)
		p.rows = append(p.rows, fmt.Sprintf("%s|%s|%d|%d|%d|%d|%s", txt(name), txt(v), x[0], x[1], x[2], epoch, id))
	}
	return p
}

// drawSave draws fields and returns the model and their values
func drawSave(rt *rapid.T, dims []int) (*pf.Model, map[string][]float64) {
	n := ref.Size(dims)
	model := pf.NewModel()
	now := map[string][]float64{}
	for j := rapid.IntRange(1, 3).Draw(rt, "fields"); j > 0; j-- {
		name := strings.ReplaceAll(drawText(rt, "name"), "-", "_")
		if _, ok := now[name]; ok {
			continue
		}
		vals := make([]float64, n)
		if n > 64 {
			vals = gen.Field(rt, "values", n, -5, 5)
		} else {
			for i := range vals {
				vals[i] = drawValue(rt)
			}
		}
		now[name] = vals
		model.Fields = append(model.Fields, pf.NewField(name, n, gen.Cmplx(vals)))
	}
	return &model, now
}

func drawStepOf(rt *rapid.T, fdb *pf.FieldDB, dims []int, epoch int) step {
	switch op := rapid.SampledFrom([]string{"save", "save", "save", "comment", "attr", "text", "series"}).Draw(rt, "op"); op {
	case "save":
		model, now := drawSave(rt, dims)
		return step{"save", func() { fdb.SaveFields(&pf.Solver{Model: model}, epoch) }, func(id string) []part {
			out := []part{}
			for name, vals := range now {
				out = append(out, fieldPart(dims, name, vals, epoch, id))
			}
			return out
		}}
	case "comment":
		text := drawText(rt, "comment")
		return step{op, func() { fdb.Comment(text) }, func(id string) []part {
			return []part{{"comments", []string{id + "|" + txt(text)}}}
		}}
	case "text":
		data := map[string]string{}
		for _, k := range keys(rt) {
			data[k] = drawText(rt, "value")
		}
		return step{op, func() { fdb.SetTextAttr(data) }, func(id string) []part {
			p := part{table: "text"}
			for k, v := range data {
				p.rows = append(p.rows, txt(k)+"|"+txt(v)+"|"+id)
			}
			return []part{p}
		}}
	case "series":
		data := valueMap(rt)
		return step{op, func() { fdb.TimeSeries(data, epoch) }, func(id string) []part {
			p := part{table: "series"}
			for k, v := range data {
				p.rows = append(p.rows, txt(k)+"|"+txt(v)+"|"+strconv.Itoa(epoch)+"|"+id)
			}
			return []part{p}
		}}
	default:
		data := valueMap(rt)
		return step{op, func() { fdb.SetAttr(data) }, func(id string) []part {
			p := part{table: "attr"}
			for k, v := range data {
				p.rows = append(p.rows, txt(k)+"|"+txt(v)+"|"+id)
			}
			return []part{p}
		}}
	}
}

// newID returns the one simulation of db that is not known
func newID(rt *rapid.T, db *sql.DB, known map[string]bool, what string) string {
	fresh := []string{}
	for _, k := range rowsOrNone(rt, db, queries["ids"]) {
		if !known[k] {
			fresh = append(fresh, k)
		}
	}
	if len(fresh) != 1 {
		rt.Fatalf("%s: new simulations %v", what, fresh)
	}
	known[fresh[0]] = true
	return fresh[0]
}

// goOn saves to a database that was left behind and reads everything again
func goOn(rt *rapid.T, db *sql.DB, dims []int, done []part, what string) {
	known := map[string]bool{}
	for _, p := range done {
		if p.table == "ids" {
			known[p.rows[0]] = true
		}
	}
	for _, k := range rowsOrNone(rt, db, queries["ids"]) {
		known[k] = true
	}
	fdb := &pf.FieldDB{DB: db, DomainSize: dims}
	vals := gen.Field(rt, "again", ref.Size(dims), -1, 1)
	model := pf.NewModel()
	model.Fields = append(model.Fields, pf.NewField("again", len(vals), gen.Cmplx(vals)))
	fdb.SaveFields(&pf.Solver{Model: &model}, 1)
	id := newID(rt, db, known, what)
	num, _ := strconv.Atoi(id)
	if d := fieldsEqual(fdb.Load(num, 1), map[string][]float64{"again": vals}); d != "" {
		rt.Fatalf("%s, and saved to again: %s", what, d)
	}
	has := hasTable(done, "positions")
	done = append(append([]part{}, done...), part{"ids", []string{id}}, fieldPart(dims, "again", vals, 1, id))
	if !has {
		done = append(done, positionsPart(dims))
	}
	whole(rt, db, done, nil, what+", and saved to again")
}

// A process that is killed leaves a database with everything it had finished, and nothing in halves
func TestD07_Kill(t *testing.T) {
	pbt.Check(t, "histories of up to eight operations by one or two simulations; at drawn points, before or after any single statement or commit, the files are copied as a kill would leave them; every copy is opened, must hold all that was finished and each field, set of attributes or time series in flight as a whole or not at all, and is saved to again; non-trivial: a copy was taken inside an operation that writes several rows", 2000, 48000, func(rt *rapid.T, c *pbt.Case) {
		dir := tempDir(rt)
		defer os.RemoveAll(dir)
		path := filepath.Join(dir, "x.db")
		db := openHook(rt, path)
		defer func() { hook = nil; db.Close() }()
		dims := drawDomain(rt)
		sims := []*pf.FieldDB{}
		for i := rapid.IntRange(1, 2).Draw(rt, "sims"); i > 0; i-- {
			sims = append(sims, &pf.FieldDB{DB: db, DomainSize: append([]int{}, dims...)})
		}
		if rapid.IntRange(0, 3).Draw(rt, "small cache") == 0 {
			// pages go to the file before the commit
			onOpen = "PRAGMA cache_size=1"
			defer func() { onOpen = "" }()
		}
		ids := make([]string, len(sims))
		known := map[string]bool{}
		done := []part{}
		hist := []string{}
		inside := false
		for k := rapid.IntRange(1, 8).Draw(rt, "ops"); k > 0; k-- {
			w := rapid.IntRange(0, len(sims)-1).Draw(rt, "sim")
			s := drawStepOf(rt, sims[w], dims, len(hist))
			hist = append(hist, fmt.Sprintf("%d:%s", w, s.name))
			// the points at which the process may be killed
			at := map[int]int{}
			far := 30
			if s.name == "save" {
				far = 3*2*ref.Size(dims) + 10
			}
			for j := rapid.IntRange(0, 3).Draw(rt, "kills"); j > 0; j-- {
				at[rapid.IntRange(0, far).Draw(rt, "point")] = j
			}
			n := -1
			taken := []string{}
			hook = func(before bool, what string) error {
				n++
				if at[n] > 0 {
					to := filepath.Join(dir, fmt.Sprintf("kill_%d_%d.db", len(hist), n))
					snapshot(rt, path, to)
					taken = append(taken, to)
				}
				return nil
			}
			s.run()
			hook = nil
			rest := []part{}
			if ids[w] == "" {
				ids[w] = newID(rt, db, known, fmt.Sprint(hist))
				rest = append(rest, part{"ids", []string{ids[w]}})
			}
			rest = append(rest, s.parts(ids[w])...)
			if s.name == "save" {
				if !hasTable(done, "positions") {
					rest = append(rest, positionsPart(dims))
				}
			}
			for _, to := range taken {
				what := fmt.Sprintf("domain %v, killed during the last of %v at %s", dims, hist, filepath.Base(to))
				left := open(rt, to)
				there := whole(rt, left, done, rest, what)
				if len(there) < len(rest) && len(rest[len(rest)-1].rows) > 1 {
					inside = true
				}
				all := append(append([]part{}, done...), there...)
				if hasTable(all, "fields") && !hasTable(all, "positions") {
					rt.Fatalf("%s: there are fields without positions", what)
				}
				if len(rest) > 0 && rest[0].table == "ids" && !hasTable(there, "ids") {
					for _, p := range there {
						if p.table != "positions" {
							rt.Fatalf("%s: %s of an unknown simulation", what, p.table)
						}
					}
				}
				goOn(rt, left, dims, all, what)
				left.Close()
				os.Remove(to)
				c.Label("during " + s.name)
			}
			done = append(done, rest...)
		}
		whole(rt, db, done, nil, fmt.Sprint(hist))
		if inside {
			c.NonTrivial("%v %v", dims, done)
			c.Note("domain %v: %v", dims, hist)
		}
	})
}

// quiet runs f and returns what it reported: a panic, a log message (log.Fatal included) or printed text
func quiet(rt *rapid.T, f func()) string {
	r, w, err := os.Pipe()
	if err != nil {
		rt.Fatalf("HARNESS-ERROR: %s", err)
	}
	oldOut, oldErr := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = w, w
	text := make(chan string)
	go func() {
		b, _ := io.ReadAll(r)
		text <- string(b)
	}()
	logged := &strings.Builder{}
	log.SetOutput(stop{logged})
	msg := pbt.Panics(f)
	log.SetOutput(oldErr)
	os.Stdout, os.Stderr = oldOut, oldErr
	w.Close()
	out := <-text
	r.Close()
	return msg + logged.String() + out
}

// stop turns a message of log.Fatal, which ends the process right after it, into a panic and keeps all others
type stop struct{ text *strings.Builder }

func (s stop) Write(b []byte) (int, error) {
	pcs := make([]uintptr, 20)
	frames := runtime.CallersFrames(pcs[:runtime.Callers(1, pcs)])
	for {
		f, more := frames.Next()
		if strings.HasPrefix(f.Function, "log.Fatal") || strings.HasPrefix(f.Function, "log.(*Logger).Fatal") {
			panic("log: " + string(b))
		}
		if !more {
			return s.text.Write(b)
		}
	}
}

// A statement or commit that fails is reported, and leaves everything whole
func TestD07_Fault(t *testing.T) {
	pbt.Check(t, "histories of up to five operations, in the last of which one drawn statement or commit fails, or the file may not grow beyond a drawn size; an operation that reports nothing must have stored everything, one that does must have left everything whole in the database, which is opened and saved to again; non-trivial: the failure happened", 3500, 80000, func(rt *rapid.T, c *pbt.Case) {
		dir := tempDir(rt)
		defer os.RemoveAll(dir)
		path := filepath.Join(dir, "x.db")
		db := openHook(rt, path)
		defer func() { hook = nil; db.Close() }()
		dims := drawDomain(rt)
		fdb := &pf.FieldDB{DB: db, DomainSize: append([]int{}, dims...)}
		id := ""
		known := map[string]bool{}
		done := []part{}
		hist := []string{}
		ops := rapid.IntRange(1, 5).Draw(rt, "ops")
		for k := 0; k < ops; k++ {
			s := drawStepOf(rt, fdb, dims, k)
			hist = append(hist, s.name)
			parts := func() []part {
				out := []part{}
				if id == "" {
					id = newID(rt, db, known, fmt.Sprint(hist))
					out = append(out, part{"ids", []string{id}})
				}
				out = append(out, s.parts(id)...)
				if s.name == "save" {
					if !hasTable(done, "positions") {
						out = append(out, positionsPart(dims))
					}
				}
				return out
			}
			if k < ops-1 {
				s.run()
				done = append(done, parts()...)
				continue
			}
			far := 16
			if s.name == "save" {
				far = 2*ref.Size(dims) + 16
			}
			full := rapid.IntRange(0, 2).Draw(rt, "full") == 0
			at := rapid.IntRange(0, far).Draw(rt, "failure")
			kind := rapid.SampledFrom([]string{"any", "any", "commit"}).Draw(rt, "kind")
			if kind == "commit" {
				at = rapid.IntRange(0, 3).Draw(rt, "which")
			}
			n, failed := -1, ""
			what := ""
			msg := ""
			if full {
				st, err := os.Stat(path)
				size := 0
				if err == nil {
					size = int(st.Size())
				}
				size += 512 * rapid.IntRange(0, 100).Draw(rt, "space")
				what = fmt.Sprintf("domain %v, files may have %d bytes during the last of %v", dims, size, hist)
				msg = quiet(rt, func() { limited(rt, size, s.run) })
			} else {
				hook = func(before bool, w string) error {
					if !before || (kind == "commit" && w != "commit") {
						return nil
					}
					n++
					if n == at {
						failed = w
						return errors.New("database or disk is full")
					}
					return nil
				}
				msg = quiet(rt, s.run)
				hook = nil
				what = fmt.Sprintf("domain %v, statement %d (%s) fails in the last of %v", dims, at, failed, hist)
			}
			if msg == "" {
				// it says that everything is stored
				done = append(done, parts()...)
				whole(rt, db, done, nil, what+" and nothing is reported")
				if failed != "" {
					// the operation found another way
					c.Label("recovered")
				}
				continue
			}
			if !full && failed == "" {
				rt.Fatalf("%s: %s", what, msg)
			}
			c.Label("reported")
			c.LabelIf(full, "no space")
			c.NonTrivial("%s %v", what, done)
			c.Note("%s: %s", what, strings.SplitN(msg, "\n", 2)[0])
			// the process ends here
			to := filepath.Join(dir, "left.db")
			snapshot(rt, path, to)
			left := open(rt, to)
			if id == "" {
				// the new simulation may be in the table or not
				for _, k := range rowsOrNone(rt, left, queries["ids"]) {
					if !known[k] {
						id = k
						done = append(done, part{"ids", []string{k}})
					}
				}
				if id == "" {
					id = "none"
				}
			}
			rest := s.parts(id)
			if s.name == "save" && !hasTable(done, "positions") {
				rest = append(rest, positionsPart(dims))
			}
			there := whole(rt, left, done, rest, what)
			goOn(rt, left, dims, append(append([]part{}, done...), there...), what)
			left.Close()
		}
	})
}

// limited runs f while no file of this process may grow beyond size bytes
func limited(rt *rapid.T, size int, f func()) {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		rt.Fatalf("HARNESS-ERROR: %s", err)
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(size), Max: old.Max}); err != nil {
		rt.Fatalf("HARNESS-ERROR: %s", err)
	}
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	f()
}

// A file that cannot be written in full is reported
func TestD07_Files(t *testing.T) {
	pbt.Check(t, "fields written to binary, byte, csv, XDMF and grid files that may not grow beyond a drawn size, or whose folder does not exist; a call that reports nothing must have written the same bytes as without the limit; non-trivial: the limit is below the size of the file", 9000, 200000, func(rt *rapid.T, c *pbt.Case) {
		dir := tempDir(rt)
		defer os.RemoveAll(dir)
		dims := gen.Dims(rt, 60)
		n := ref.Size(dims)
		model := pf.NewModel()
		names := []string{"conc", "eta", "phi"}[:rapid.IntRange(1, 3).Draw(rt, "fields")]
		for _, name := range names {
			model.Fields = append(model.Fields, pf.NewField(name, n, gen.Cmplx(gen.Field(rt, name, n, -2, 2))))
		}
		solver := &pf.Solver{Model: &model}
		epoch := gen.Step(rt, "epoch", 5)
		kind := rapid.SampledFrom([]string{"float64", "uint8", "csv", "real", "slice", "xdmf", "grid"}).Draw(rt, "kind")
		write := func(dir string) {
			prefix := filepath.Join(dir, "run")
			switch kind {
			case "float64":
				x := pf.NewFloat64IO(prefix)
				x.SaveFields(solver, epoch)
			case "uint8":
				x := pf.NewUint8IO(prefix)
				x.SaveFields(solver, epoch)
			case "csv":
				x := pf.CsvIO{Prefix: prefix, DomainSize: dims}
				x.SaveFields(solver, epoch)
			case "real":
				model.Fields[0].SaveReal(prefix + "real.bin")
			case "slice":
				pf.SaveFloat64(prefix+"slice.bin", gen.Real(model.Fields[0].Data))
			case "xdmf":
				pf.WriteXDMF(prefix+".xdmf", names, "run", epoch%5+1, dims)
			case "grid":
				g := pfutil.NewGrid(dims)
				g.FromComplex(model.Fields[0].Data)
				g.SaveCsv(prefix + "grid.csv")
			}
		}
		a, b := filepath.Join(dir, "a"), filepath.Join(dir, "b")
		for _, x := range []string{a, b} {
			if err := os.Mkdir(x, 0755); err != nil {
				rt.Fatalf("HARNESS-ERROR: %s", err)
			}
		}
		write(a)
		want := files(rt, a)
		most := 0
		for _, x := range want {
			if len(x) > most {
				most = len(x)
			}
		}
		if most == 0 {
			rt.Fatalf("%s: nothing was written", kind)
		}
		how := rapid.IntRange(0, 9).Draw(rt, "how")
		size := rapid.IntRange(0, most).Draw(rt, "size")
		if how > 5 {
			size = most - rapid.IntRange(1, min(most, 20)).Draw(rt, "short")
		}
		what := fmt.Sprintf("%s, domain %v, fields %v: at most %d of %d bytes can be written", kind, dims, names, size, most)
		msg := ""
		if how == 0 {
			b = filepath.Join(b, "none")
			what = fmt.Sprintf("%s: the folder does not exist", kind)
			msg = quiet(rt, func() { write(b) })
		} else {
			msg = quiet(rt, func() { limited(rt, size, func() { write(b) }) })
		}
		got := files(rt, b)
		if msg == "" {
			for name, x := range want {
				if !bytes.Equal(x, got[name]) {
					rt.Fatalf("%s: %s has %d of %d bytes and nothing is reported", what, name, len(got[name]), len(x))
				}
			}
		} else if how > 0 && size >= most {
			rt.Fatalf("%s: %s", what, msg)
		}
		if how == 0 || size < most {
			c.NonTrivial("%s %d", what, epoch)
		}
		c.Label(kind)
	})
}

// files returns the content of all files in a folder
func files(rt *rapid.T, dir string) map[string][]byte {
	out := map[string][]byte{}
	list, _ := os.ReadDir(dir)
	sort.Slice(list, func(i, j int) bool { return list[i].Name() < list[j].Name() })
	for _, f := range list {
		b, err := os.ReadFile(filepath.Join(dir, f.Name()))
		if err != nil {
			rt.Fatalf("HARNESS-ERROR: %s", err)
		}
		out[f.Name()] = b
	}
	return out
}
