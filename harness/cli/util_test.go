package cli

import (
	"bytes"
	"context"
	"database/sql"
	"encoding/csv"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/davidkleiven/gopf/pf"
	_ "github.com/mattn/go-sqlite3"
	"pgregory.net/rapid"
	"verifharness/gen"
	"verifharness/ref"
)

// gopf runs the command line tool in the folder
func gopf(rt *rapid.T, dir string, args ...string) (stdout, stderr string, code int) {
	bin := os.Getenv("PBT_GOPF")
	if bin == "" {
		rt.Fatalf("HARNESS-ERROR: PBT_GOPF is not set")
	}
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "HOME="+dir)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	if ctx.Err() != nil {
		rt.Fatalf("HARNESS-ERROR: gopf %v took too long", args)
	}
	if err != nil {
		if _, ok := err.(*exec.ExitError); !ok {
			rt.Fatalf("HARNESS-ERROR: %s", err)
		}
		code = cmd.ProcessState.ExitCode()
	}
	return o.String(), e.String(), code
}

// ok runs the tool, which has to succeed
func ok(rt *rapid.T, dir string, args ...string) string {
	o, e, code := gopf(rt, dir, args...)
	if code != 0 || strings.Contains(e, "panic:") {
		rt.Fatalf("gopf %v ended with %d\n%s\n%s", args, code, o, e)
	}
	return o
}

var stamp = regexp.MustCompile(`(?m)^\d{4}/\d\d/\d\d \d\d:\d\d:\d\d(\.\d+)? `)

// full runs a command that writes file again, now with no space left for it. The command has to end with an
// error, or at least to say something else than when it succeeds
func full(rt *rapid.T, dir, file string, args ...string) {
	o, e, code := gopf(rt, dir, args...)
	if code != 0 {
		rt.Fatalf("gopf %v ended with %d\n%s\n%s", args, code, o, e)
	}
	path := filepath.Join(dir, file)
	if err := os.Remove(path); err != nil {
		rt.Fatalf("gopf %v wrote no %s\n%s\n%s", args, file, o, e)
	}
	if err := os.Symlink("/dev/full", path); err != nil {
		rt.Fatalf("HARNESS-ERROR: %s", err)
	}
	o2, e2, code2 := gopf(rt, dir, args...)
	if to, err := os.Readlink(path); err != nil || to != "/dev/full" {
		rt.Skip("the file was replaced")
	}
	if code2 == 0 && o2 == o && stamp.ReplaceAllString(e2, "") == stamp.ReplaceAllString(e, "") {
		rt.Fatalf("gopf %v says the same although there was no space for %s\n%s\n%s", args, file, o2, e2)
	}
	os.Remove(path)
}

func tempDir(rt *rapid.T) string {
	dir, err := os.MkdirTemp("", "cli")
	if err != nil {
		rt.Fatalf("HARNESS-ERROR: %s", err)
	}
	return dir
}

// sim is what one simulation stored
type sim struct {
	id      int
	created string
	order   int
	comment []string
	attr    map[string]float64
	text    map[string]string
	series  map[int]map[string]float64
	fields  map[int]map[string][]float64
}

type world struct {
	dir, name string
	dims      []int
	sims      []*sim // newest first
}

func (w *world) db(rt *rapid.T) *sql.DB {
	db, err := sql.Open("sqlite3", "file:"+filepath.Join(w.dir, w.name)+"?_sync=0&_journal=MEMORY")
	if err != nil {
		rt.Fatalf("HARNESS-ERROR: %s", err)
	}
	return db
}

func (w *world) String() string {
	out := fmt.Sprintf("domain %v", w.dims)
	for _, s := range w.sims {
		out += fmt.Sprintf("; simulation %d (%s): comments %q, attributes %v %q, series %v, fields at %d steps", s.id, s.created, s.comment, s.attr, s.text, s.series, len(s.fields))
	}
	return out
}

func words(rt *rapid.T, label string) string {
	n := rapid.IntRange(0, 40).Draw(rt, label+"words")
	out := []string{}
	for ; n > 0; n-- {
		l := rapid.IntRange(1, 9).Draw(rt, label+"len")
		if rapid.IntRange(0, 30).Draw(rt, "long") == 0 {
			l = rapid.IntRange(90, 200).Draw(rt, label+"len")
		}
		out = append(out, strings.Repeat(rapid.SampledFrom([]string{"a", "b", "x", "-", "c-", "y,"}).Draw(rt, "c"), l))
	}
	s := strings.Join(out, " ")
	// Comments that fill the column exactly
	if rapid.IntRange(0, 5).Draw(rt, "exact") == 0 {
		for len(s) < 100 {
			s += " pad"
		}
		s = s[:rapid.IntRange(94, 98).Draw(rt, "cut")]
	}
	return s
}

func num(rt *rapid.T) float64 {
	switch rapid.IntRange(0, 9).Draw(rt, "nan") {
	case 0:
		return rapid.SampledFrom([]float64{math.NaN(), 0, 12, -0.25, math.Inf(1), math.Inf(-1), 1e-9, 1234567.891, -4e8}).Draw(rt, "special")
	case 1, 2:
		return float64(rapid.IntRange(-2000000000, 2000000000).Draw(rt, "fine")) / 1e6
	}
	return gen.F(rt, "v", -99, 99)
}

// older now and then leaves a longer file where one is about to be written
func older(rt *rapid.T, name string) {
	if rapid.IntRange(0, 3).Draw(rt, "older") == 0 {
		if err := os.WriteFile(name, bytes.Repeat([]byte("7,\"old\n"), 6000), 0644); err != nil {
			rt.Fatalf("HARNESS-ERROR: %s", err)
		}
	}
}

// negative draws a number that stands for the newest or all simulations
func negative(rt *rapid.T) string {
	return strconv.Itoa(-rapid.SampledFrom([]int{1, 2, 7, 500, 1 << 31}).Draw(rt, "negative"))
}

// makeWorld stores up to four simulations in a database
func makeWorld(rt *rapid.T, dir string, withFields bool) *world {
	w := &world{dir: dir, name: rapid.SampledFrom([]string{"x.db", "my data.db", "sims"}).Draw(rt, "db")}
	w.dims = gen.DimsRange(rt, rapid.IntRange(2, 3).Draw(rt, "dim"), 1, 4)
	if rapid.IntRange(0, 19).Draw(rt, "long") == 19 {
		for i := range w.dims {
			w.dims[i] = 1
		}
		w.dims[rapid.IntRange(0, len(w.dims)-1).Draw(rt, "axis")] = rapid.IntRange(5, 120).Draw(rt, "side")
	}
	n := ref.Size(w.dims)
	db := w.db(rt)
	defer db.Close()
	fnames := []string{"conc", "eta", "phi", "temperature", "a_very_long_name_of_a_field_0123456789", "u"}
	keys := []string{"temp", "Temp", "width", "D", "D_0", "DA0", "noise", "kappa", "mob", "dt", "L", "seed", "peak", "chi", "alpha", "beta", "a_long_attribute"}
	tkeys := []string{"name", "node", "Node", "author", "descr", "n_de", "energy"}
	skeys := []string{"energy", "peak", "size, mean", "temp"}
	for i := gen.Count(rt, "sims", 1, 4, 26); i > 0; i-- {
		s := &sim{order: len(w.sims), attr: map[string]float64{}, text: map[string]string{}, series: map[int]map[string]float64{}, fields: map[int]map[string][]float64{}}
		fdb := pf.FieldDB{DB: db, DomainSize: w.dims}
		fdb.SetAttr(map[string]float64{})
		for k := rapid.IntRange(0, 2).Draw(rt, "comments") % 2; k > 0; k-- {
			s.comment = append(s.comment, words(rt, "comment"))
			fdb.Comment(s.comment[len(s.comment)-1])
		}
		for k := gen.Count(rt, "attrs", 0, 12, 40); k > 0; k-- {
			key := rapid.SampledFrom(keys).Draw(rt, "key")
			if k > 12 {
				key += strconv.Itoa(k)
			}
			s.attr[key] = num(rt)
		}
		fdb.SetAttr(s.attr)
		for k := rapid.IntRange(0, 3).Draw(rt, "texts"); k > 0; k-- {
			text := rapid.StringMatching("[a-z0-9._]{0,14}").Draw(rt, "text")
			if rapid.IntRange(0, 7).Draw(rt, "long text") == 7 {
				text += rapid.StringMatching("([A-Za-z0-9.=-]{1,9} ){2,6}[a-z]").Draw(rt, "more")
			}
			s.text[rapid.SampledFrom(tkeys).Draw(rt, "key")] = text
		}
		fdb.SetTextAttr(s.text)
		for k := gen.Count(rt, "series", 0, 3, 12); k > 0; k-- {
			// the export writes a line for every step up to the last one
			step := gen.Step(rt, "step", 12) % 20000
			if s.series[step] != nil {
				continue
			}
			s.series[step] = map[string]float64{}
			for j := gen.Count(rt, "n", 1, 3, 14); j > 0; j-- {
				key := rapid.SampledFrom(skeys).Draw(rt, "key")
				if j > 3 {
					key += strconv.Itoa(j)
				}
				s.series[step][key] = num(rt)
			}
			fdb.TimeSeries(s.series[step], step)
		}
		if withFields {
			for k := gen.Count(rt, "steps", 0, 3, 9); k > 0; k-- {
				step := gen.Step(rt, "step", 12)
				if s.fields[step] != nil {
					continue
				}
				s.fields[step] = map[string][]float64{}
				model := pf.NewModel()
				for _, f := range rapid.SliceOfNDistinct(rapid.SampledFrom(fnames), 1, 3, rapid.ID[string]).Draw(rt, "names") {
					data := make([]float64, n)
					for j := range data {
						data[j] = num(rt)
					}
					s.fields[step][f] = data
					model.Fields = append(model.Fields, pf.NewField(f, n, gen.Cmplx(data)))
				}
				fdb.SaveFields(&pf.Solver{Model: &model}, step)
			}
		}
		w.sims = append(w.sims, s)
	}
	// Learn the IDs, and set the times of creation
	rows, err := db.Query("SELECT simID FROM simIDs ORDER BY rowid")
	if err != nil {
		rt.Fatalf("HARNESS-ERROR: %s", err)
	}
	k := 0
	for rows.Next() {
		if k < len(w.sims) {
			rows.Scan(&w.sims[k].id)
		}
		k++
	}
	rows.Close()
	if k != len(w.sims) {
		rt.Fatalf("%d simulations want %d", k, len(w.sims))
	}
	// IDs are any 31 bits, among them small ones and neighbours
	if rapid.IntRange(0, 2).Draw(rt, "small ids") == 0 {
		ids := rapid.SliceOfNDistinct(rapid.IntRange(1, 2*len(w.sims)+rapid.SampledFrom([]int{0, 300, 5000}).Draw(rt, "range")), len(w.sims), len(w.sims), rapid.ID[int]).Draw(rt, "ids")
		tx, err := db.Begin()
		if err != nil {
			rt.Fatalf("HARNESS-ERROR: %s", err)
		}
		tables := []string{"simIDs", "simAttributes", "simTextAttributes", "comments", "timeseries", "fields"}
		for _, t := range tables {
			for i, s := range w.sims {
				if _, err := tx.Exec("UPDATE "+t+" SET simID=? WHERE simID=?", -ids[i], s.id); err != nil {
					rt.Fatalf("HARNESS-ERROR: %s", err)
				}
			}
			if _, err := tx.Exec("UPDATE " + t + " SET simID=-simID"); err != nil {
				rt.Fatalf("HARNESS-ERROR: %s", err)
			}
		}
		if err := tx.Commit(); err != nil {
			rt.Fatalf("HARNESS-ERROR: %s", err)
		}
		for i, s := range w.sims {
			s.id = ids[i]
		}
	}
	for _, s := range w.sims {
		s.created = fmt.Sprintf("2020-0%d-11 1%d:00:00", rapid.IntRange(1, 3).Draw(rt, "month"), rapid.IntRange(1, 2).Draw(rt, "hour"))
		if _, err := db.Exec("UPDATE simIDs SET creationTime=? WHERE simID=?", s.created, s.id); err != nil {
			rt.Fatalf("HARNESS-ERROR: %s", err)
		}
	}
	sort.Slice(w.sims, func(i, j int) bool {
		a, b := w.sims[i], w.sims[j]
		if a.created != b.created {
			return a.created > b.created
		}
		return a.order > b.order
	})
	return w
}

func closeTo(got string, want float64) bool {
	v, err := strconv.ParseFloat(strings.TrimSpace(got), 64)
	if err != nil {
		return false
	}
	return v == want || (math.IsNaN(v) && math.IsNaN(want)) || math.Abs(v-want) <= 5.1e-7+1e-13*math.Abs(want)
}

func readCsv(rt *rapid.T, fname string) [][]string {
	f, err := os.Open(fname)
	if err != nil {
		rt.Fatalf("%s", err)
	}
	defer f.Close()
	rec, err := csv.NewReader(f).ReadAll()
	if err != nil {
		rt.Fatalf("%s: %s", fname, err)
	}
	return rec
}

// table splits the lines of a table into cells, without rulers
func table(out string) [][]string {
	rows := [][]string{}
	for _, l := range strings.Split(out, "\n") {
		if !strings.HasPrefix(l, "|") {
			continue
		}
		l = strings.TrimSuffix(strings.TrimPrefix(strings.TrimRight(l, " "), "|"), "|")
		cells := strings.Split(l, "|")
		for i := range cells {
			cells[i] = strings.TrimSpace(cells[i])
		}
		rows = append(rows, cells)
	}
	return rows
}
