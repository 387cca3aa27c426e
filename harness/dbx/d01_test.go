package dbx

import (
	"database/sql"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/davidkleiven/gopf/pf"
	_ "github.com/mattn/go-sqlite3"
	"pgregory.net/rapid"
	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
)

func open(rt *rapid.T, path string) *sql.DB {
	db, err := sql.Open("sqlite3", "file:"+path+"?_sync=0&_journal=MEMORY")
	if err != nil {
		rt.Fatalf("HARNESS-ERROR: %s", err)
	}
	return db
}

// rows returns the result of a query as sorted text lines
func rows(rt *rapid.T, db *sql.DB, q string, args ...interface{}) []string {
	r, err := db.Query(q, args...)
	if err != nil {
		rt.Fatalf("%s: %s", q, err)
	}
	defer r.Close()
	cols, _ := r.Columns()
	out := []string{}
	for r.Next() {
		v := make([]interface{}, len(cols))
		p := make([]interface{}, len(cols))
		for i := range v {
			p[i] = &v[i]
		}
		if err := r.Scan(p...); err != nil {
			rt.Fatalf("%s: %s", q, err)
		}
		line := make([]string, len(v))
		for i := range v {
			line[i] = txt(v[i])
		}
		out = append(out, strings.Join(line, "|"))
	}
	sort.Strings(out)
	return out
}

func txt(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "NULL"
	case float64:
		if math.IsNaN(x) {
			return "NULL"
		}
		return "f" + strconv.FormatFloat(x+0, 'g', -1, 64)
	case int64:
		return strconv.FormatInt(x, 10)
	case []byte:
		return strconv.Quote(string(x))
	case string:
		return strconv.Quote(x)
	}
	return fmt.Sprintf("%T %v", v, v)
}

func drawValue(rt *rapid.T) float64 {
	switch rapid.IntRange(0, 9).Draw(rt, "vk") {
	case 0:
		return rapid.SampledFrom([]float64{math.NaN(), math.Inf(1), math.Inf(-1), 5e-324, 1e300, -1e-300, 0.1, 1.0 / 3.0}).Draw(rt, "special")
	case 1:
		return float64(rapid.IntRange(-5, 5).Draw(rt, "int"))
	}
	return rapid.Float64().Draw(rt, "f")
}

func drawText(rt *rapid.T, label string) string {
	if rapid.IntRange(0, 3).Draw(rt, label+"kind") == 0 {
		return rapid.StringOfN(rapid.RuneFrom([]rune("ab '\"%;-_,?12\u00e5\u2207")), 0, 12, -1).Draw(rt, label)
	}
	return rapid.SampledFrom([]string{"conc", "eta", "temperature", "a", "A", "conc2", ""}).Draw(rt, label)
}

// keys draws a set of names, now and then a large one
func keys(rt *rapid.T) []string {
	out := []string{}
	for j := gen.Count(rt, "n", 0, 3, 14); j > 0; j-- {
		k := drawText(rt, "key")
		if j > 3 {
			k += strconv.Itoa(j)
		}
		out = append(out, k)
	}
	return out
}

// drawStep draws a time step, now and then one that needs more than 32 bits
func drawStep(rt *rapid.T, label string, small int) int {
	if rapid.IntRange(0, 19).Draw(rt, label+"_64") == 19 {
		return rapid.SampledFrom([]int{1 << 31, 1 << 32, 1<<32 + 3, 1<<40 + 1, 1<<53 + 1}).Draw(rt, label+"_huge")
	}
	return gen.Step(rt, label, small)
}

// sim is one FieldDB and what it stored
type sim struct {
	fdb    *pf.FieldDB
	id     int64
	active bool
	saved  map[int]map[string][]float64
}

type store struct {
	fields, attr, text, series, comments []string
	positions                            []string
	ids                                  []string
}

func (m *store) check(rt *rapid.T, db *sql.DB, hist []string) {
	for _, x := range []struct {
		q    string
		want []string
	}{
		{"SELECT f.name, f.value, p.X, p.Y, p.Z, f.timestep, f.simID FROM fields f LEFT JOIN positions p ON f.positionId = p.id", m.fields},
		{"SELECT id, X, Y, Z FROM positions", m.positions},
		{"SELECT key, value, simID FROM simAttributes", m.attr},
		{"SELECT key, value, simID FROM simTextAttributes", m.text},
		{"SELECT key, value, timestep, simID FROM timeseries", m.series},
		{"SELECT simID, value FROM comments", m.comments},
		{"SELECT simID FROM simIDs", m.ids},
	} {
		got := rows(rt, db, x.q)
		want := append([]string{}, x.want...)
		sort.Strings(want)
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			rt.Fatalf("after %v\n%s\ngives\n%s\nwant\n%s", hist, x.q, strings.Join(got, "\n"), strings.Join(want, "\n"))
		}
	}
}

func fieldsEqual(got []pf.Field, want map[string][]float64) string {
	names := []string{}
	for k := range want {
		names = append(names, k)
	}
	sort.Strings(names)
	if len(got) != len(names) {
		return fmt.Sprintf("%d fields want %v", len(got), names)
	}
	for i, k := range names {
		if got[i].Name != k || len(got[i].Data) != len(want[k]) {
			return fmt.Sprintf("field %d is %q with %d values, want %q with %d", i, got[i].Name, len(got[i].Data), k, len(want[k]))
		}
		for j, v := range want[k] {
			g := got[i].Data[j]
			if imag(g) != 0 || (real(g) != v && !(math.IsNaN(v) && math.IsNaN(real(g)))) {
				return fmt.Sprintf("%q at node %d: %v want %g", k, j, g, v)
			}
		}
	}
	return ""
}

// The database holds what was stored, nothing else, whatever the order of the operations
func TestD01_Model(t *testing.T) {
	pbt.Check(t, "histories of up to 14 (now and then 40) operations by up to three (now and then 12) simulations on one database (save fields, comment, attributes, time series, load, open the file again) against a model, all tables compared; non-trivial: two simulations stored fields, or one stored two time steps", 1700, 43000, func(rt *rapid.T, c *pbt.Case) {
		dir, err := os.MkdirTemp("", "d01")
		if err != nil {
			rt.Fatalf("HARNESS-ERROR: %s", err)
		}
		defer os.RemoveAll(dir)
		begin := time.Now().UTC()
		path := filepath.Join(dir, "x.db")
		db := open(rt, path)
		defer func() { db.Close() }()
		dim := rapid.IntRange(2, 3).Draw(rt, "dim")
		dims := gen.DimsRange(rt, dim, 1, 4)
		n := ref.Size(dims)
		m := &store{}
		sims := []*sim{}
		for i := gen.Count(rt, "sims", 1, 3, 12); i > 0; i-- {
			sims = append(sims, &sim{fdb: &pf.FieldDB{DB: db, DomainSize: append([]int{}, dims...)}, saved: map[int]map[string][]float64{}})
		}
		hist := []string{}
		started := func(s *sim) {
			if s.active {
				return
			}
			// The operation registered a new simulation
			s.active = true
			known := map[string]bool{}
			for _, k := range m.ids {
				known[k] = true
			}
			fresh := []string{}
			for _, k := range rows(rt, db, "SELECT simID FROM simIDs") {
				if !known[k] {
					fresh = append(fresh, k)
				}
			}
			if len(fresh) != 1 {
				rt.Fatalf("after %v: new simulation IDs %v", hist, fresh)
			}
			m.ids = append(m.ids, fresh[0])
			s.id, _ = strconv.ParseInt(fresh[0], 10, 64)
			// SQLite gives whole seconds of the local time, which is UTC here
			now := time.Now().UTC()
			for _, k := range rows(rt, db, "SELECT creationTime FROM simIDs WHERE simID=?", s.id) {
				text, _ := strconv.Unquote(k)
				at, err := time.Parse("2006-01-02 15:04:05", text)
				if err != nil || at.After(now.Add(2*time.Second)) || at.Before(begin.Add(-2*time.Second)) {
					rt.Fatalf("after %v: a simulation that started between %v and %v has the creation time %s", hist, begin, now, k)
				}
			}
		}
		any := false
		for k := gen.Count(rt, "ops", 1, 14, 40); k > 0; k-- {
			w := rapid.IntRange(0, len(sims)-1).Draw(rt, "sim")
			s := sims[w]
			id := func() string { return strconv.FormatInt(s.id, 10) }
			op := rapid.SampledFrom([]string{"save", "save", "save", "comment", "attr", "text", "series", "load", "reopen", "wrong"}).Draw(rt, "op")
			hist = append(hist, fmt.Sprintf("%d:%s", w, op))
			switch op {
			case "save":
				epoch := drawStep(rt, "epoch", 12)
				if _, ok := s.saved[epoch]; ok {
					continue
				}
				model := pf.NewModel()
				now := map[string][]float64{}
				for j := gen.Count(rt, "fields", 1, 3, 8); j > 0; j-- {
					name := strings.ReplaceAll(drawText(rt, "name"), "-", "_")
					if j > 3 {
						name += strconv.Itoa(j)
					}
					if _, ok := now[name]; ok {
						continue
					}
					data := make([]complex128, n)
					vals := make([]float64, n)
					for i := range data {
						vals[i] = drawValue(rt)
						data[i] = complex(vals[i], float64(i))
					}
					now[name] = vals
					model.Fields = append(model.Fields, pf.NewField(name, n, data))
				}
				s.fdb.SaveFields(&pf.Solver{Model: &model}, epoch)
				started(s)
				s.saved[epoch] = now
				for name, vals := range now {
					for i, v := range vals {
						p := append(append([]int{}, ref.Pos(dims, i)...), 0)
						m.fields = append(m.fields, fmt.Sprintf("%s|%s|%d|%d|%d|%d|%s", txt(name), txt(v), p[0], p[1], p[2], epoch, id()))
					}
				}
				if !any {
					any = true
					for i := 0; i < n; i++ {
						p := append(append([]int{}, ref.Pos(dims, i)...), 0)
						m.positions = append(m.positions, fmt.Sprintf("%d|%d|%d|%d", i, p[0], p[1], p[2]))
					}
				}
			case "comment":
				txtc := drawText(rt, "comment")
				for j := gen.Count(rt, "lines", 0, 2, 9); j > 0; j-- {
					txtc += "\n" + rapid.SampledFrom([]string{"more", "", " x", "two  words"}).Draw(rt, "line")
				}
				s.fdb.Comment(txtc)
				started(s)
				m.comments = append(m.comments, id()+"|"+txt(strings.ReplaceAll(txtc, "\n", " ")))
			case "attr", "series":
				data := map[string]float64{}
				for _, k := range keys(rt) {
					data[k] = drawValue(rt)
				}
				if op == "attr" {
					s.fdb.SetAttr(data)
					started(s)
					for k, v := range data {
						m.attr = append(m.attr, txt(k)+"|"+txt(v)+"|"+id())
					}
				} else {
					step := drawStep(rt, "step", 9)
					s.fdb.TimeSeries(data, step)
					started(s)
					for k, v := range data {
						m.series = append(m.series, txt(k)+"|"+txt(v)+"|"+strconv.Itoa(step)+"|"+id())
					}
				}
			case "text":
				data := map[string]string{}
				for _, k := range keys(rt) {
					data[k] = drawText(rt, "value")
				}
				s.fdb.SetTextAttr(data)
				started(s)
				for k, v := range data {
					m.text = append(m.text, txt(k)+"|"+txt(v)+"|"+id())
				}
			case "load":
				if !s.active {
					continue
				}
				reader := s.fdb
				if rapid.Bool().Draw(rt, "fresh") {
					reader = &pf.FieldDB{DB: db}
				}
				last := -1
				look := []int{rapid.IntRange(0, 14).Draw(rt, "absent"), 1 << 40}
				for e := range s.saved {
					look = append(look, e, e+1)
				}
				sort.Ints(look)
				for _, e := range look {
					if d := fieldsEqual(reader.Load(int(s.id), e), s.saved[e]); d != "" {
						rt.Fatalf("after %v, step %d: %s", hist, e, d)
					}
					if _, ok := s.saved[e]; ok {
						last = e
					}
				}
				if last >= 0 {
					if d := fieldsEqual(reader.LoadLast(int(s.id)), s.saved[last]); d != "" {
						rt.Fatalf("after %v, last step %d: %s", hist, last, d)
					}
				}
			case "reopen":
				db.Close()
				db = open(rt, path)
				for _, x := range sims {
					x.fdb.DB = db
				}
			case "wrong":
				// Fields that do not fit the domain are refused and leave nothing behind
				if !any {
					continue
				}
				other := append([]int{}, dims...)
				switch rapid.IntRange(0, 2).Draw(rt, "how") {
				case 0:
					other[rapid.IntRange(0, dim-1).Draw(rt, "axis")]++
				case 1:
					if dim == 2 {
						other = append(other, 2)
					} else if dims[2] > 1 {
						other = other[:2]
					} else {
						continue
					}
				case 2:
					// right domain, wrong number of values
				}
				nw := ref.Size(other)
				if ref.Size(other) == n {
					nw = n + 1
					if n > 1 && rapid.Bool().Draw(rt, "fewer") {
						nw = rapid.IntRange(1, n-1).Draw(rt, "nw")
					}
				}
				at := gen.Step(rt, "at", 5)
				x := &pf.FieldDB{DB: db, DomainSize: other}
				y := &sim{fdb: x}
				model := pf.NewModel()
				model.Fields = append(model.Fields, pf.NewField("conc", nw, nil))
				if pbt.Panics(func() { x.SaveFields(&pf.Solver{Model: &model}, at) }) == "" {
					rt.Fatalf("after %v: %d values on the domain %v are accepted into a database for %v", hist, nw, other, dims)
				}
				started(y)
				c.Label("refused")
			}
			if s.active {
				m.check(rt, db, hist)
			}
		}
		nsaved, most := 0, 0
		for _, s := range sims {
			if len(s.saved) > 0 {
				nsaved++
			}
			if len(s.saved) > most {
				most = len(s.saved)
			}
		}
		if nsaved > 1 || most > 1 {
			c.NonTrivial("%v %v %v", dims, hist, m.fields)
			c.Note("domain %v: %v", dims, hist)
		}
		c.LabelIf(nsaved > 1, "two simulations")
		c.LabelIf(dim == 3, "3D")
	})
}

// As a callback of the solver the database gets the fields of every epoch, and a run can be continued from it
func TestD01_Callback(t *testing.T) {
	pbt.Check(t, "one or two decaying fields solved with the database as callback; every epoch loaded again and compared with the values another callback saw; non-trivial: more than one epoch", 1900, 48000, func(rt *rapid.T, c *pbt.Case) {
		dir, err := os.MkdirTemp("", "d01")
		if err != nil {
			rt.Fatalf("HARNESS-ERROR: %s", err)
		}
		defer os.RemoveAll(dir)
		db := open(rt, filepath.Join(dir, "x.db"))
		defer db.Close()
		dims := gen.Dims(rt, 30)
		n := ref.Size(dims)
		model := pf.NewModel()
		names := []string{"conc", "eta"}[:rapid.IntRange(1, 2).Draw(rt, "fields")]
		for _, name := range names {
			model.AddField(pf.NewField(name, n, gen.Cmplx(gen.Field(rt, name, n, -1, 1))))
		}
		model.AddScalar(pf.Scalar{Name: "m1", Value: -1})
		for _, name := range names {
			model.AddEquation(fmt.Sprintf("d%s/dt = m1*%s", name, name))
		}
		solver := pf.NewSolver(&model, dims, 0.1)
		fdb := pf.FieldDB{DB: db, DomainSize: dims}
		seen := map[int]map[string][]float64{}
		solver.AddCallback(fdb.SaveFields)
		solver.AddCallback(func(s *pf.Solver, epoch int) {
			seen[epoch] = map[string][]float64{}
			for _, f := range s.Model.Fields {
				seen[epoch][f.Name] = gen.Real(f.Data)
			}
		})
		epochs := gen.Count(rt, "epochs", 1, 4, 25)
		solver.Solve(epochs, rapid.IntRange(1, 3).Draw(rt, "steps"))
		ids := rows(rt, db, "SELECT simID FROM simIDs")
		if len(ids) != 1 || len(seen) != epochs {
			rt.Fatalf("simulations %v, epochs %d", ids, len(seen))
		}
		id, _ := strconv.Atoi(ids[0])
		last := -1
		for e, want := range seen {
			if d := fieldsEqual(fdb.Load(id, e), want); d != "" {
				rt.Fatalf("domain %v, epoch %d: %s", dims, e, d)
			}
			if e > last {
				last = e
			}
		}
		if d := fieldsEqual(fdb.LoadLast(id), seen[last]); d != "" {
			rt.Fatalf("domain %v, last epoch %d: %s", dims, last, d)
		}
		if epochs > 1 {
			c.NonTrivial("%v %v %d", dims, names, epochs)
		}
	})
}
