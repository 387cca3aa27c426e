package cli

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
)

// pick returns a simulation and the arguments that select it
func pick(rt *rapid.T, w *world) (*sim, []string) {
	k := rapid.IntRange(-1, len(w.sims)-1).Draw(rt, "one")
	if k < 0 {
		if rapid.Bool().Draw(rt, "explicit") {
			return w.sims[0], []string{"-i", negative(rt)}
		}
		return w.sims[0], nil
	}
	return w.sims[k], []string{"-i", strconv.Itoa(w.sims[k].id)}
}

func TestD04_Timeseries(t *testing.T) {
	pbt.Check(t, "time series of up to three (now and then 14) quantities at up to three (now and then 12) steps, some of them missing or NaN, of one of up to four simulations; non-trivial: two steps", 1000, 27000, func(rt *rapid.T, c *pbt.Case) {
		dir := tempDir(rt)
		defer os.RemoveAll(dir)
		w := makeWorld(rt, dir, false)
		s, args := pick(rt, w)
		typ := rapid.SampledFrom([]string{"timeseries", "ts"}).Draw(rt, "type")
		file := "out.csv"
		args = append(args, "-t", typ)
		if rapid.Bool().Draw(rt, "default name") {
			file = fmt.Sprintf("%s_%d.csv", typ, s.id)
		} else {
			args = append(args, "-o", file)
		}
		older(rt, filepath.Join(dir, file))
		out := ok(rt, dir, append([]string{"db", "export", w.name}, args...)...)
		rec := readCsv(rt, filepath.Join(dir, file))
		keys := map[string]bool{}
		for _, x := range s.series {
			for k := range x {
				keys[k] = true
			}
		}
		if len(rec) == 0 || rec[0][0] != "timestep" || len(rec[0]) != 1+len(keys) {
			rt.Fatalf("%v\nheader %v\n%s", w, rec, out)
		}
		col := map[string]int{}
		for j, k := range rec[0][1:] {
			if !keys[k] || col[k] != 0 {
				rt.Fatalf("%v\nheader %v", w, rec[0])
			}
			col[k] = j + 1
		}
		line := map[int][]string{}
		last := -1
		for _, r := range rec[1:] {
			step, err := strconv.Atoi(r[0])
			if err != nil || step <= last {
				rt.Fatalf("%v\nsteps out of order:\n%v", w, rec)
			}
			line[step] = r
			last = step
		}
		most := -1
		for step, x := range s.series {
			if len(x) > 0 && step > most {
				most = step
			}
		}
		if most >= 0 && last != most {
			rt.Fatalf("%v\nsimulation %d: the last line is step %d, the last step stored is %d", w, s.id, last, most)
		}
		for step, x := range s.series {
			for k, v := range x {
				if line[step] == nil || !closeTo(line[step][col[k]], v) {
					rt.Fatalf("%v\nsimulation %d: %s at step %d is %v want %g in\n%v", w, s.id, k, step, line[step], v, rec)
				}
			}
		}
		if len(s.series) > 1 {
			c.NonTrivial("%v %d", w, s.id)
		}
	})
}

func checkField(rt *rapid.T, w *world, s *sim, step int, file string) {
	rec := readCsv(rt, file)
	n := ref.Size(w.dims)
	names := []string{}
	for k := range s.fields[step] {
		names = append(names, k)
	}
	if len(rec) != n+1 || len(rec[0]) != 3+len(names) || strings.Join(rec[0][:3], "") != "XYZ" {
		rt.Fatalf("%v\nsimulation %d step %d: %d lines, header %v", w, s.id, step, len(rec), rec[0])
	}
	got := append([]string{}, rec[0][3:]...)
	sort.Strings(got)
	sort.Strings(names)
	if strings.Join(got, ",") != strings.Join(names, ",") {
		rt.Fatalf("%v\nsimulation %d step %d: fields %v want %v", w, s.id, step, got, names)
	}
	seen := map[int]bool{}
	for _, r := range rec[1:] {
		pos := make([]int, 3)
		for j := range pos {
			v, err := strconv.Atoi(r[j])
			if err != nil {
				rt.Fatalf("%s", err)
			}
			pos[j] = v
		}
		if len(w.dims) == 2 && pos[2] != 0 {
			rt.Fatalf("position %v in a 2D domain", pos)
		}
		for j := range w.dims {
			if pos[j] < 0 || pos[j] >= w.dims[j] {
				rt.Fatalf("position %v in the domain %v", pos, w.dims)
			}
		}
		node := ref.Node(w.dims, pos[:len(w.dims)])
		if seen[node] {
			rt.Fatalf("position %v is there twice", pos)
		}
		seen[node] = true
		for j, k := range rec[0][3:] {
			if v := s.fields[step][k][node]; !closeTo(r[3+j], v) {
				rt.Fatalf("%v\nsimulation %d step %d: %s at %v is %s want %g", w, s.id, step, k, pos, r[3+j], v)
			}
		}
	}
}

func TestD04_Fields(t *testing.T) {
	pbt.Check(t, "fields of one of up to four simulations, one step, the last or all steps, 2D and 3D domains; non-trivial: the simulation stored fields", 1000, 25000, func(rt *rapid.T, c *pbt.Case) {
		dir := tempDir(rt)
		defer os.RemoveAll(dir)
		w := makeWorld(rt, dir, true)
		s, args := pick(rt, w)
		args = append([]string{"db", "export", w.name, "-t", rapid.SampledFrom([]string{"field", "fieldData", "fd", "fielddata"}).Draw(rt, "type")}, args...)
		steps := []int{}
		for k := range s.fields {
			steps = append(steps, k)
		}
		sort.Ints(steps)
		before, _ := os.ReadDir(dir)
		news := func() []string {
			after, _ := os.ReadDir(dir)
			out := []string{}
		next:
			for _, f := range after {
				for _, g := range before {
					if f.Name() == g.Name() {
						continue next
					}
				}
				out = append(out, f.Name())
			}
			return out
		}
		switch rapid.IntRange(0, 3).Draw(rt, "mode") {
		case 0:
			ok(rt, dir, append(args, "--all", "-o", "set")...)
			if files := news(); len(files) != len(steps) {
				rt.Fatalf("%v\nfiles %v for the steps %v of simulation %d", w, files, steps, s.id)
			}
			for _, k := range steps {
				checkField(rt, w, s, k, filepath.Join(dir, fmt.Sprintf("set%d.csv", k)))
			}
			c.Label("all")
		case 1:
			if len(steps) > 0 {
				older(rt, filepath.Join(dir, "f.csv"))
				ok(rt, dir, append(args, "-s", negative(rt), "-o", "f.csv")...)
				checkField(rt, w, s, steps[len(steps)-1], filepath.Join(dir, "f.csv"))
				c.Label("last")
			}
		case 2:
			step := gen.Step(rt, "step", 12)
			if rapid.IntRange(0, 3).Draw(rt, "default step") == 0 {
				step = 0
				ok(rt, dir, append(args, "-o", "f.csv")...)
			} else {
				ok(rt, dir, append(args, "-s", strconv.Itoa(step), "-o", "f.csv")...)
			}
			if s.fields[step] == nil {
				if f := news(); len(f) != 0 {
					rt.Fatalf("%v\nstep %d of simulation %d was not stored, but there is %v", w, step, s.id, f)
				}
			} else {
				checkField(rt, w, s, step, filepath.Join(dir, "f.csv"))
			}
		case 3:
			if len(steps) > 0 {
				step := steps[rapid.IntRange(0, len(steps)-1).Draw(rt, "step")]
				older(rt, filepath.Join(dir, "f.csv"))
				ok(rt, dir, append(args, "-s", strconv.Itoa(step), "-o", "f.csv")...)
				checkField(rt, w, s, step, filepath.Join(dir, "f.csv"))
			}
		}
		if len(steps) > 0 {
			c.NonTrivial("%v %d", w, s.id)
		}
		c.LabelIf(len(w.dims) == 3, "3D")
	})
}

// A file that could not be written in full is not announced as the others are
func TestD04_Full(t *testing.T) {
	pbt.Check(t, "time series and fields exported to a file for which there is no space left, compared with what the command says when there is; non-trivial: there are data", 800, 18000, func(rt *rapid.T, c *pbt.Case) {
		dir := tempDir(rt)
		defer os.RemoveAll(dir)
		fields := rapid.Bool().Draw(rt, "with fields")
		w := makeWorld(rt, dir, fields)
		s, args := pick(rt, w)
		args = append([]string{"db", "export", w.name}, args...)
		if !fields {
			full(rt, dir, "o.csv", append(args, "-t", "ts", "-o", "o.csv")...)
			if len(s.series) > 0 {
				c.NonTrivial("%v %d", w, s.id)
			}
			return
		}
		steps := []int{}
		for k := range s.fields {
			steps = append(steps, k)
		}
		sort.Ints(steps)
		if len(steps) > 0 {
			step := steps[rapid.IntRange(0, len(steps)-1).Draw(rt, "step")]
			if rapid.Bool().Draw(rt, "all") {
				full(rt, dir, fmt.Sprintf("o%d.csv", step), append(args, "-t", "fd", "-a", "-o", "o")...)
			} else {
				full(rt, dir, "o.csv", append(args, "-t", "fd", "-s", strconv.Itoa(step), "-o", "o.csv")...)
			}
			c.NonTrivial("%v %d %d", w, s.id, step)
		}
	})
}
