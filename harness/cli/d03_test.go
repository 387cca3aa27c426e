package cli

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"verifharness/gen"
	"verifharness/pbt"
)

func TestD03_List(t *testing.T) {
	pbt.Check(t, "databases with up to four (now and then 26) simulations, times of creation with ties, random limits; non-trivial: two or more simulations", 240, 6100, func(rt *rapid.T, c *pbt.Case) {
		dir := tempDir(rt)
		defer os.RemoveAll(dir)
		w := makeWorld(rt, dir, false)
		max := gen.Count(rt, "max", 0, 5, 200)
		args := []string{"-m", strconv.Itoa(max)}
		if max == 0 {
			args, max = nil, 20
		}
		shown := w.sims
		if len(shown) > max {
			shown = shown[:max]
		}
		want := []string{}
		for _, s := range shown {
			want = append(want, fmt.Sprintf("%d %s", s.id, s.created))
		}
		for _, content := range [][]string{{"-c", "simid"}, {"-c", "simId"}, {}} {
			out := ok(rt, dir, append(append([]string{"db", "list", w.name}, content...), args...)...)
			got := []string{}
			for i, r := range table(out) {
				if i > 0 {
					got = append(got, strings.Join(r, " "))
				}
			}
			if strings.Join(got, "\n") != strings.Join(want, "\n") {
				rt.Fatalf("%v\nlist %v %v:\n%s", w, content, args, out)
			}
			if len(shown) < len(w.sims) && !strings.Contains(out, fmt.Sprintf("%d of %d", len(shown), len(w.sims))) {
				rt.Fatalf("the list does not say that it is cut:\n%s", out)
			}
		}
		text := ""
		for _, s := range shown {
			cm := ""
			if len(s.comment) > 0 {
				cm = s.comment[0]
			}
			text += fmt.Sprintf("Sim Id %d:\n%s\n\n", s.id, cm)
		}
		if out := ok(rt, dir, append([]string{"db", "list", w.name, "-c", "comment"}, args...)...); !strings.HasSuffix(out, text) {
			rt.Fatalf("%v\ncomments %v:\n%s\nwant\n%s", w, args, out, text)
		}
		s := w.sims[rapid.IntRange(0, len(w.sims)-1).Draw(rt, "one")]
		if out := ok(rt, dir, "db", "time", w.name, "-i", strconv.Itoa(s.id)); !strings.Contains(out, strconv.Itoa(s.id)) || !strings.Contains(out, s.created) {
			rt.Fatalf("%v\ntime of %d:\n%s", w, s.id, out)
		}
		s = w.sims[0]
		newest := []string{"db", "time", w.name}
		if rapid.Bool().Draw(rt, "explicit") {
			newest = append(newest, "-i", negative(rt))
		}
		if out := ok(rt, dir, newest...); !strings.Contains(out, strconv.Itoa(s.id)) || !strings.Contains(out, s.created) {
			rt.Fatalf("%v\ntime of the newest:\n%s", w, out)
		}
		if len(w.sims) > 1 {
			c.NonTrivial("%v", w)
		}
		c.LabelIf(len(shown) < len(w.sims), "cut")
	})
}

func TestD03_Attr(t *testing.T) {
	pbt.Check(t, "databases with up to four (now and then 26) simulations with up to 12 (now and then 40) numerical and 3 text attributes, NaN and infinities among them; non-trivial: two simulations with attributes", 280, 7200, func(rt *rapid.T, c *pbt.Case) {
		dir := tempDir(rt)
		defer os.RemoveAll(dir)
		w := makeWorld(rt, dir, false)
		check := func(out string, sims []*sim) {
			got := map[string]map[string]string{}
			var head []string
			for _, r := range table(out) {
				if r[0] == "Sim. ID" {
					head = r
					continue
				}
				if head == nil || len(r) != len(head) {
					rt.Fatalf("line %q does not fit the header %q in\n%s", r, head, out)
				}
				if got[r[0]] == nil {
					got[r[0]] = map[string]string{}
				}
				for i := 1; i < len(r); i++ {
					if _, ok := got[r[0]][head[i]]; ok {
						rt.Fatalf("%s of simulation %s appears twice:\n%s", head[i], r[0], out)
					}
					got[r[0]][head[i]] = r[i]
				}
			}
			for _, s := range sims {
				g := got[strconv.Itoa(s.id)]
				delete(got, strconv.Itoa(s.id))
				for k, v := range s.attr {
					if !closeTo(g[k], v) {
						rt.Fatalf("%v\nsimulation %d: %s is %q want %g in\n%s", w, s.id, k, g[k], v, out)
					}
					delete(g, k)
				}
				for k, v := range s.text {
					if x, ok := g[k]; !ok || x != v {
						rt.Fatalf("%v\nsimulation %d: %s is %q want %q in\n%s", w, s.id, k, g[k], v, out)
					}
					delete(g, k)
				}
				for k, v := range g {
					if v != "" {
						rt.Fatalf("%v\nsimulation %d has %s = %q in\n%s", w, s.id, k, v, out)
					}
				}
			}
			if len(got) != 0 {
				rt.Fatalf("%v\nother simulations %v in\n%s", w, got, out)
			}
		}
		every := []string{}
		if rapid.Bool().Draw(rt, "explicit") {
			every = []string{"-i", negative(rt)}
		}
		check(ok(rt, dir, append([]string{"db", "attr", w.name}, every...)...), w.sims)
		s := w.sims[rapid.IntRange(0, len(w.sims)-1).Draw(rt, "one")]
		check(ok(rt, dir, "db", "attr", w.name, "--simid", strconv.Itoa(s.id)), []*sim{s})

		// A simulation that does not exist has no attributes; only negative numbers stand for all
		absent := rapid.SampledFrom([]int{0, 0, 1, 2, 1 << 30, math.MaxInt32}).Draw(rt, "absent")
		for _, x := range w.sims {
			if x.id == absent {
				absent = -1
			}
		}
		if absent >= 0 {
			check(ok(rt, dir, "db", "attr", w.name, "-i", strconv.Itoa(absent)), nil)
			if o := ok(rt, dir, "db", "attr", w.name, "-i", strconv.Itoa(absent), "-n", firstName(s)); strings.Contains(o, "Sim id") {
				rt.Fatalf("%v\nattribute %s of simulation %d, which does not exist:\n%s", w, firstName(s), absent, o)
			}
			c.LabelIf(absent == 0, "simulation 0")
		}

		all := map[string]bool{}
		with := 0
		for _, s := range w.sims {
			for k := range s.attr {
				all[k] = true
			}
			for k := range s.text {
				all[k] = true
			}
			if len(s.attr)+len(s.text) > 0 {
				with++
			}
		}
		names := []string{}
		for k := range all {
			names = append(names, k)
		}
		sort.Strings(names)
		lines := strings.Split(strings.TrimSpace(ok(rt, dir, "db", "attr", w.name, "--unique")), "\n")[1:]
		sort.Strings(lines)
		if strings.Join(lines, ",") != strings.Join(names, ",") {
			rt.Fatalf("%v\nunique names %v want %v", w, lines, names)
		}

		// One attribute, of all simulations or of one
		name := rapid.SampledFrom(append(names, "none")).Draw(rt, "name")
		for _, only := range []bool{false, true} {
			args := []string{"db", "attr", w.name, "-n", name}
			if only {
				args = append(args, "-i", strconv.Itoa(s.id))
			} else {
				args = append(args, every...)
			}
			out := ok(rt, dir, args...)
			got := map[string]string{}
			for _, l := range strings.Split(out, "\n") {
				if l == "" {
					continue
				}
				lr := strings.SplitN(l, "=", 2)
				f := strings.Fields(lr[0])
				if len(lr) != 2 || len(f) != 4 || f[3] != name || got[f[2]] != "" {
					rt.Fatalf("%v\nline %q", w, l)
				}
				got[f[2]] = "=" + strings.TrimSpace(lr[1])
			}
			for _, x := range w.sims {
				g := got[strconv.Itoa(x.id)]
				delete(got, strconv.Itoa(x.id))
				v, okn := x.attr[name]
				txt, okt := x.text[name]
				switch {
				case only && x != s, !okn && !okt:
					if g != "" {
						rt.Fatalf("%v\n%v: simulation %d is listed:\n%s", w, args, x.id, out)
					}
				case okn:
					if g == "" || !closeTo(g[1:], v) {
						rt.Fatalf("%v\n%v: simulation %d is %q want %g", w, args, x.id, g, v)
					}
				default:
					if g != "="+txt {
						rt.Fatalf("%v\n%v: simulation %d is %q want %q", w, args, x.id, g, txt)
					}
				}
			}
			if len(got) != 0 {
				rt.Fatalf("%v\n%v: others are listed: %v", w, args, got)
			}
		}
		if with > 1 {
			c.NonTrivial("%v", w)
		}
		c.LabelIf(len(names) > 10, "more than ten attributes")
	})
}

func strip(s string) string { return strings.Join(strings.Fields(s), "") }

func TestD03_Comment(t *testing.T) {
	pbt.Check(t, "databases with comments of up to 40 words, also long words and lengths around the width of the column; then a new comment; non-trivial: a comment longer than the column", 200, 4500, func(rt *rapid.T, c *pbt.Case) {
		dir := tempDir(rt)
		defer os.RemoveAll(dir)
		w := makeWorld(rt, dir, false)
		look := func() {
			out := ok(rt, dir, "db", "comment", w.name)
			got := map[string]string{}
			whole := map[string][]string{}
			id := ""
			for i, r := range table(out) {
				if i == 0 {
					continue
				}
				if r[0] != "" {
					id = r[0]
				}
				got[id] += strip(r[1])
				whole[id] = append(whole[id], strings.Fields(r[1])...)
			}
			for _, s := range w.sims {
				key := strconv.Itoa(s.id)
				want := ""
				if len(s.comment) > 0 {
					want = s.comment[0]
				}
				if g := got[key]; g != strip(want) {
					rt.Fatalf("%v\ncomment of %d is listed as %q:\n%s", w, s.id, g, out)
				}
				if _, listed := got[key]; listed != (len(s.comment) > 0) {
					rt.Fatalf("%v\nthe comment of %d is listed: %v\n%s", w, s.id, listed, out)
				}
				// Words are only split where they are longer than a line
				long := false
				for _, x := range strings.Fields(want) {
					long = long || len(x) > 90
				}
				if g, f := strings.Join(whole[key], " "), strings.Join(strings.Fields(want), " "); !long && g != f {
					rt.Fatalf("%v\nthe comment of %d is listed as %q want %q", w, s.id, g, f)
				}
				delete(got, key)
				if o := ok(rt, dir, "db", "comment", w.name, "-i", key); o != fmt.Sprintf("Sim id %d:\n%s\n", s.id, want) {
					rt.Fatalf("%v\ncomment of %d is shown as\n%s", w, s.id, o)
				}
			}
			if len(got) > 0 {
				rt.Fatalf("%v\ncomments of other simulations: %v", w, got)
			}
			width := len(strings.SplitN(out, "\n", 2)[0])
			for _, l := range strings.Split(strings.TrimSpace(out), "\n") {
				if len(l) > 120 || len(l) != width {
					rt.Fatalf("a line with %d characters:\n%s", len(l), out)
				}
			}
		}
		look()
		k := rapid.IntRange(-1, len(w.sims)-1).Draw(rt, "one")
		text := "new " + words(rt, "new")
		args := []string{"db", "comment", w.name, "--new", text}
		if k >= 0 {
			args = append(args, "-i", strconv.Itoa(w.sims[k].id))
		} else {
			k = 0
			if rapid.Bool().Draw(rt, "explicit") {
				args = append(args, "-i", negative(rt))
			}
		}
		ok(rt, dir, args...)
		w.sims[k].comment = []string{text}
		look()
		for _, s := range w.sims {
			if len(s.comment) > 0 && len(s.comment[0]) >= 96 {
				c.NonTrivial("%v", w)
			}
		}
	})
}

func TestD03_Info(t *testing.T) {
	pbt.Check(t, "databases with up to four (now and then 26) simulations; non-trivial: fields, attributes and series are there", 880, 22000, func(rt *rapid.T, c *pbt.Case) {
		dir := tempDir(rt)
		defer os.RemoveAll(dir)
		w := makeWorld(rt, dir, true)
		out := ok(rt, dir, "db", "info", w.name)
		got := map[string]string{}
		desc := ""
		for i, r := range table(out) {
			if i == 0 {
				continue
			}
			if r[0] != "" {
				desc = r[0]
			}
			got[desc] += strip(r[1])
		}
		set := func(s string) string {
			seen := map[string]bool{}
			for _, x := range strings.Split(s, ",") {
				if x != "" {
					seen[x] = true
				}
			}
			all := []string{}
			for k := range seen {
				all = append(all, k)
			}
			sort.Strings(all)
			return strings.Join(all, ",")
		}
		f, a, ts := "", "", ""
		any := false
		for _, s := range w.sims {
			for _, x := range s.fields {
				any = true
				for k := range x {
					f += "," + strip(k)
				}
			}
			for k := range s.attr {
				a += "," + k
			}
			for k := range s.text {
				a += "," + k
			}
			for _, x := range s.series {
				for k := range x {
					ts += "," + strip(k)
				}
			}
		}
		if got["Num calc."] != strconv.Itoa(len(w.sims)) || set(got["Fields"]) != set(f) || set(got["Attributes"]) != set(a) || set(got["Timeseries"]) != set(ts) {
			rt.Fatalf("%v\ninfo\n%s\nwant fields %s attributes %s series %s", w, out, set(f), set(a), set(ts))
		}
		d := append(append([]int{}, w.dims...), 1)
		if want := fmt.Sprintf("(%d,%d,%d)", d[0], d[1], d[2]); any && got["Dims"] != want {
			rt.Fatalf("%v\ndimensions %s want %s", w, got["Dims"], want)
		}
		if f != "" && a != "" && ts != "" {
			c.NonTrivial("%v", w)
		}
	})
}

// A missing database name or an unknown list is reported, and nothing is created
func TestD03_Reject(t *testing.T) {
	pbt.Check(t, "commands without a database; non-trivial: all", 600, 2400, func(rt *rapid.T, c *pbt.Case) {
		dir := tempDir(rt)
		defer os.RemoveAll(dir)
		cmd := rapid.SampledFrom([]string{"list", "attr", "comment", "time", "info", "export"}).Draw(rt, "cmd")
		o, e, _ := gopf(rt, dir, "db", cmd)
		if !strings.Contains(strings.ToLower(o+e), "database") || strings.Contains(e, "goroutine") {
			rt.Fatalf("db %s without a database: %s %s", cmd, o, e)
		}
		if files, _ := os.ReadDir(dir); len(files) != 0 {
			rt.Fatalf("db %s created %v", cmd, files)
		}
		c.NonTrivial("%s", cmd)
	})
}

// firstName returns the name of an attribute of the simulation
func firstName(s *sim) string {
	names := []string{"none"}
	for k := range s.attr {
		names = append(names, k)
	}
	for k := range s.text {
		names = append(names, k)
	}
	sort.Strings(names[1:])
	if len(names) > 1 {
		return names[1]
	}
	return names[0]
}

// What does not exist is reported: no command creates the database, changes it or shows
// what belongs to other simulations
func TestD03_Missing(t *testing.T) {
	pbt.Check(t, "every command on a file that is missing, empty or no database, or with the number of a simulation the database does not hold; non-trivial: all", 500, 6000, func(rt *rapid.T, c *pbt.Case) {
		dir := tempDir(rt)
		defer os.RemoveAll(dir)
		cmds := [][]string{{"list"}, {"list", "-c", "comment"}, {"attr"}, {"attr", "-u"}, {"attr", "-n", "temp"}, {"comment"}, {"comment", "--new", "anew"}, {"time"}, {"info"},
			{"export"}, {"export", "-o", "x.csv"}, {"export", "-t", "field"}, {"export", "-t", "fd", "-a"}, {"export", "-t", "field", "-s", "-1"}}
		kind := rapid.SampledFrom([]string{"missing", "missing", "empty", "text", "simulation", "simulation"}).Draw(rt, "kind")
		name := rapid.SampledFrom([]string{"none.db", "a b.db", "sub/none.db", "none"}).Draw(rt, "name")
		file := filepath.Join(dir, name)
		content := ""
		var id int
		var mine *sim
		switch kind {
		case "empty", "text":
			if kind == "text" {
				content = strings.Repeat("this is no database, only text\n", rapid.IntRange(1, 40).Draw(rt, "lines"))
			}
			os.MkdirAll(filepath.Dir(file), 0755)
			if err := os.WriteFile(file, []byte(content), 0644); err != nil {
				rt.Fatalf("%v", err)
			}
		case "simulation":
			w := makeWorld(rt, dir, true)
			name, file = w.name, filepath.Join(dir, w.name)
			mine = w.sims[0]
			cmds = cmds[2:]
			id = rapid.SampledFrom([]int{0, 1, 2, 3, 1 << 30, math.MaxInt32}).Draw(rt, "id")
			for _, s := range w.sims {
				if s.id == id {
					return
				}
			}
		}
		if kind == "simulation" || rapid.Bool().Draw(rt, "with id") {
			for i := range cmds {
				cmds[i] = append(cmds[i], "-i", strconv.Itoa(id))
			}
		}
		cmd := cmds[rapid.IntRange(0, len(cmds)-1).Draw(rt, "cmd")]
		if cmd[0] == "list" || cmd[0] == "info" {
			cmd = []string{cmd[0]}
			if kind == "simulation" {
				return
			}
		}
		tree := func() string {
			names := []string{}
			filepath.Walk(dir, func(p string, st os.FileInfo, err error) error {
				names = append(names, fmt.Sprintf("%s %d", p, st.Size()))
				return nil
			})
			return strings.Join(names, "\n")
		}
		before, was := tree(), ""
		if b, err := os.ReadFile(file); err == nil {
			was = string(b)
		}
		o, e, _ := gopf(rt, dir, append([]string{"db", cmd[0], name}, cmd[1:]...)...)
		if strings.Contains(o+e, "goroutine") || strings.Contains(o+e, "panic") {
			rt.Fatalf("%s, gopf db %v %s: %s", kind, cmd, name, e)
		}
		if after := tree(); after != before {
			rt.Fatalf("%s, gopf db %v %s: files before\n%s\nand after\n%s\nprinted %s %s", kind, cmd, name, before, after, o, e)
		}
		now := ""
		if b, err := os.ReadFile(file); err == nil {
			now = string(b)
		}
		if now != was {
			rt.Fatalf("%s, gopf db %v %s changed the file; printed %s %s", kind, cmd, name, o, e)
		}
		if kind != "simulation" {
			if strings.TrimSpace(o+e) == "" || strings.Contains(o, "| ") || strings.Contains(o, "uccess") || strings.Contains(o, "written") {
				rt.Fatalf("%s, gopf db %v %s: printed %s %s", kind, cmd, name, o, e)
			}
		} else if cmd[0] != "attr" {
			// a report has to say which simulation is meant
			if !strings.Contains(o+e, strconv.Itoa(id)) || strings.Contains(o, "uccess") || strings.Contains(o, "written") || strings.Contains(o, "created at") || strings.Contains(o, mine.created) {
				rt.Fatalf("gopf db %v %s: printed %s %s", cmd, name, o, e)
			}
		} else if cmd[1] == "-n" && strings.Contains(o, "Sim id") {
			rt.Fatalf("gopf db %v %s: printed %s %s", cmd, name, o, e)
		}
		c.Label(kind + ": " + cmd[0])
		c.NonTrivial("%s %v", kind, cmd)
	})
}
