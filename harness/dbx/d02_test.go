package dbx

import (
	"bytes"
	"encoding/binary"
	"encoding/csv"
	"encoding/xml"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"pgregory.net/rapid"
	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
)

func tempDir(rt *rapid.T) string {
	dir, err := os.MkdirTemp("", "d02")
	if err != nil {
		rt.Fatalf("HARNESS-ERROR: %s", err)
	}
	return dir
}

// older now and then leaves a longer file where one is about to be written
func older(rt *rapid.T, names ...string) {
	if rapid.IntRange(0, 3).Draw(rt, "older") > 0 {
		return
	}
	for _, n := range names {
		if err := os.WriteFile(n, bytes.Repeat([]byte("7,\"old\n"), 3000), 0644); err != nil {
			rt.Fatalf("HARNESS-ERROR: %s", err)
		}
	}
}

func same(a, b float64) bool {
	return a == b || (math.IsNaN(a) && math.IsNaN(b))
}

// drawFields draws a model with one to three (now and then up to 14) fields of any values
func drawFields(rt *rapid.T, n int, values func(rt *rapid.T) float64) *pf.Model {
	model := pf.NewModel()
	seen := map[string]bool{}
	for j := gen.Count(rt, "fields", 1, 3, 14); j > 0; j-- {
		name := rapid.SampledFrom([]string{"conc", "eta", "phi1", "x,y", "a b", "q\"q", "\u00e5", " lead", "tail ", "Conc"}).Draw(rt, "name")
		if j > 3 {
			name += strconv.Itoa(j)
		}
		if seen[name] {
			continue
		}
		seen[name] = true
		data := make([]complex128, n)
		for i := range data {
			data[i] = complex(values(rt), float64(i)-1)
		}
		model.Fields = append(model.Fields, pf.NewField(name, n, data))
	}
	return &model
}

// Binary files hold the exact real parts, big endian, one file per field and epoch
func TestD02_Binary(t *testing.T) {
	pbt.Check(t, "fields of any float values written by Float64IO, SaveReal and SaveFloat64 and read back; non-trivial: more than one value", 12000, 100000, func(rt *rapid.T, c *pbt.Case) {
		dir := tempDir(rt)
		defer os.RemoveAll(dir)
		n := gen.Count(rt, "n", 1, 20, 2500)
		model := drawFields(rt, n, drawValue)
		w := pf.NewFloat64IO(filepath.Join(dir, "out"))
		epochs := rapid.SliceOfNDistinct(rapid.Custom(func(t *rapid.T) int { return gen.Step(t, "e", 100) }), 1, 3, rapid.ID[int]).Draw(rt, "epochs")
		want := map[string][]float64{}
		for _, e := range epochs {
			for i := range model.Fields {
				model.Fields[i].Data[0] = complex(float64(e), 2)
				want[fmt.Sprintf("out_%s_%d.bin", model.Fields[i].Name, e)] = gen.Real(model.Fields[i].Data)
			}
			older(rt, filepath.Join(dir, fmt.Sprintf("out_%s_%d.bin", model.Fields[0].Name, e)))
			w.SaveFields(&pf.Solver{Model: model}, e)
		}
		model.Fields[0].SaveReal(filepath.Join(dir, "real"))
		want["real"] = gen.Real(model.Fields[0].Data)
		empty := rapid.SliceOfN(rapid.Float64(), 0, 4).Draw(rt, "plain")
		pf.SaveFloat64(filepath.Join(dir, "plain"), empty)
		want["plain"] = empty
		files, _ := os.ReadDir(dir)
		if len(files) != len(want) {
			rt.Fatalf("%d files, want %d", len(files), len(want))
		}
		for f, vals := range want {
			raw, err := os.ReadFile(filepath.Join(dir, f))
			if err != nil || len(raw) != 8*len(vals) {
				rt.Fatalf("%s: %d bytes for %d values, %v", f, len(raw), len(vals), err)
			}
			got := pf.LoadFloat64(filepath.Join(dir, f))
			if len(got) != len(vals) {
				rt.Fatalf("%s: %d values want %d", f, len(got), len(vals))
			}
			for i, v := range vals {
				r := math.Float64frombits(binary.BigEndian.Uint64(raw[8*i:]))
				if !same(r, v) || !same(got[i], v) {
					rt.Fatalf("%s, value %d: %v, loaded %v, want %v", f, i, r, got[i], v)
				}
			}
		}
		// A shorter file replaces a longer one
		pf.SaveFloat64(filepath.Join(dir, "real"), []float64{1})
		if g := pf.LoadFloat64(filepath.Join(dir, "real")); len(g) != 1 || g[0] != 1 {
			rt.Fatalf("written over: %v", g)
		}
		if n > 1 {
			c.NonTrivial("%v %v", epochs, want)
		}
	})
}

// Uint8 files map the range of each field linearly to 0..255
func TestD02_Uint8(t *testing.T) {
	pbt.Check(t, "fields written by Uint8IO; non-trivial: a field that is not constant", 10000, 100000, func(rt *rapid.T, c *pbt.Case) {
		dir := tempDir(rt)
		defer os.RemoveAll(dir)
		n := gen.Count(rt, "n", 1, 20, 2500)
		model := drawFields(rt, n, func(rt *rapid.T) float64 { return gen.F(rt, "v", -4, 4) })
		e := gen.Step(rt, "epoch", 30)
		w := pf.NewUint8IO(filepath.Join(dir, "img"))
		older(rt, filepath.Join(dir, fmt.Sprintf("img_%s_%d.bin", model.Fields[0].Name, e)))
		w.SaveFields(&pf.Solver{Model: model}, e)
		for _, f := range model.Fields {
			raw, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("img_%s_%d.bin", f.Name, e)))
			if err != nil || len(raw) != n {
				rt.Fatalf("%d bytes for %d values, %v", len(raw), n, err)
			}
			v := gen.Real(f.Data)
			lo, hi := v[0], v[0]
			for _, x := range v {
				lo, hi = math.Min(lo, x), math.Max(hi, x)
			}
			for i, x := range v {
				want := 0.0
				if hi > lo {
					want = 255 * (x - lo) / (hi - lo)
				}
				if d := float64(raw[i]) - want; !(d <= 1e-9 && d > -1-1e-9) && !(math.Abs(d) <= 0.5+1e-9) {
					rt.Fatalf("%v: value %g is stored as %d, want %g", v, x, raw[i], want)
				}
				if hi > lo && ((x == lo && raw[i] != 0) || (x == hi && raw[i] != 255)) {
					rt.Fatalf("%v: value %g is stored as %d", v, x, raw[i])
				}
			}
			if hi > lo {
				c.NonTrivial("%v", v)
			}
		}
	})
}

func csvValue(rt *rapid.T) float64 {
	if rapid.IntRange(0, 4).Draw(rt, "vk") == 0 {
		return rapid.SampledFrom([]float64{math.NaN(), math.Inf(1), math.Inf(-1), 0, 1e12, -1e-9, 123456.789}).Draw(rt, "special")
	}
	v := gen.F(rt, "v", -1000, 1000)
	if rapid.Bool().Draw(rt, "digits") {
		v /= 997
	}
	return v
}

func closeCsv(got, want float64) bool {
	return same(got, want) || math.Abs(got-want) <= 5.1e-7+1e-12*math.Abs(want)
}

func readCsv(rt *rapid.T, fname string) [][]string {
	f, err := os.Open(fname)
	if err != nil {
		rt.Fatalf("%s", err)
	}
	defer f.Close()
	rec, err := csv.NewReader(f).ReadAll()
	if err != nil {
		rt.Fatalf("%s", err)
	}
	return rec
}

// checkCsv compares a file with position columns and the named columns
func checkCsv(rt *rapid.T, fname string, dims []int, head []string, names []string, data [][]float64) {
	rec := readCsv(rt, fname)
	n := ref.Size(dims)
	if len(rec) != n+1 {
		rt.Fatalf("%d lines for %d nodes", len(rec), n)
	}
	if got, want := strings.Join(rec[0], "|"), strings.Join(append(append([]string{}, head...), names...), "|"); got != want {
		rt.Fatalf("header %q want %q", got, want)
	}
	for i := 0; i < n; i++ {
		p := append(append([]int{}, ref.Pos(dims, i)...), 0)
		for j := range head {
			if rec[i+1][j] != strconv.Itoa(p[j]) {
				rt.Fatalf("domain %v, line %d: position %v want %v", dims, i+1, rec[i+1][:len(head)], p)
			}
		}
		for k := range names {
			v, err := strconv.ParseFloat(rec[i+1][len(head)+k], 64)
			if err != nil || !closeCsv(v, data[k][i]) {
				rt.Fatalf("domain %v, %s at node %d: %s want %g", dims, names[k], i, rec[i+1][len(head)+k], data[k][i])
			}
		}
	}
}

// CSV files hold position and value of every node with six decimals, and load again
func TestD02_Csv(t *testing.T) {
	pbt.Check(t, "fields on 2D and 3D domains written by CsvIO and read back; non-trivial: two fields and sides that differ", 12000, 100000, func(rt *rapid.T, c *pbt.Case) {
		dir := tempDir(rt)
		defer os.RemoveAll(dir)
		dim := rapid.IntRange(2, 3).Draw(rt, "dim")
		dims := gen.DimsRange(rt, dim, 1, 5)
		n := ref.Size(dims)
		model := drawFields(rt, n, csvValue)
		names, data := []string{}, [][]float64{}
		for _, f := range model.Fields {
			names = append(names, f.Name)
			data = append(data, gen.Real(f.Data))
		}
		w := pf.CsvIO{Prefix: filepath.Join(dir, "out"), DomainSize: dims}
		e := gen.Step(rt, "epoch", 30)
		fname := filepath.Join(dir, fmt.Sprintf("out_%d.csv", e))
		older(rt, fname)
		w.SaveFields(&pf.Solver{Model: model}, e)
		checkCsv(rt, fname, dims, []string{"X", "Y", "Z"}, names, data)
		got := pf.LoadCSV(fname)
		if len(got) != len(names) {
			rt.Fatalf("%d fields want %v", len(got), names)
		}
		for k := range got {
			if got[k].Name != names[k] || len(got[k].Data) != n {
				rt.Fatalf("field %d is %q with %d values, want %q", k, got[k].Name, len(got[k].Data), names[k])
			}
			for i, z := range got[k].Data {
				if imag(z) != 0 || !closeCsv(real(z), data[k][i]) {
					rt.Fatalf("%s at node %d: %v want %g", names[k], i, z, data[k][i])
				}
			}
		}
		// Loaded fields are written as the same file again
		again := make([]pf.CsvData, len(got))
		for k := range got {
			again[k] = pf.CsvData{Name: got[k].Name, Data: &pfutil.RealPartSlice{Data: got[k].Data}}
		}
		pf.SaveCsv(filepath.Join(dir, "again.csv"), again, dims)
		a, _ := os.ReadFile(fname)
		b, _ := os.ReadFile(filepath.Join(dir, "again.csv"))
		if !bytes.Equal(a, b) {
			rt.Fatalf("domain %v: the file changed when it was loaded and saved", dims)
		}
		bad := append([]int{}, dims...)
		bad[rapid.IntRange(0, dim-1).Draw(rt, "axis")]++
		if pbt.Panics(func() { pf.SaveCsv(filepath.Join(dir, "bad.csv"), again, bad) }) == "" || pbt.Panics(func() { pf.SaveCsv(filepath.Join(dir, "bad.csv"), again, nil) }) == "" {
			rt.Fatalf("a domain that does not fit is not refused")
		}
		if len(names) > 1 && (dims[0] != dims[1] || dim == 3) {
			c.NonTrivial("%v %v %v", dims, names, data)
		}
		c.LabelIf(dim == 3, "3D")
	})
}

// Grids and the orientation of the dimer
func TestD02_GridOrientation(t *testing.T) {
	pbt.Check(t, "grids and dimer orientations of one or two fields in 2D and 3D; non-trivial: sides differ", 8000, 50000, func(rt *rapid.T, c *pbt.Case) {
		dir := tempDir(rt)
		defer os.RemoveAll(dir)
		dim := rapid.IntRange(2, 3).Draw(rt, "dim")
		dims := gen.DimsRange(rt, dim, 1, 5)
		n := ref.Size(dims)
		grid := pfutil.NewGrid(append([]int{}, dims...))
		for i := range grid.Data {
			grid.Data[i] = csvValue(rt)
		}
		f := filepath.Join(dir, "grid.csv")
		older(rt, f)
		grid.SaveCsv(f)
		checkCsv(rt, f, dims, []string{"x", "y", "z"}[:dim], []string{"value"}, [][]float64{grid.Data})

		if dims[0] > 1 && dims[1] > 1 && (dim == 2 || dims[2] > 1) {
			nf := rapid.IntRange(1, 2).Draw(rt, "fields")
			model := pf.NewModel()
			names := []string{}
			for k := 0; k < nf; k++ {
				model.AddField(pf.NewField(fmt.Sprintf("f%d", k), n, nil))
				names = append(names, fmt.Sprintf("orientation%d", k))
			}
			sdd := pf.NewSDD(dims, &model)
			orient := gen.Field(rt, "orient", nf*n, -1, 1)
			norm := 0.0
			for _, v := range orient {
				norm += v * v
			}
			norm = math.Sqrt(norm)
			if norm > 0.1 {
				sdd.SetInitialOrientation(append([]float64{}, orient...))
				data := make([][]float64, nf)
				for i, v := range orient {
					data[i/n] = append(data[i/n], v/norm)
				}
				f = filepath.Join(dir, "orient.csv")
				older(rt, f)
				sdd.SaveOrientation(f)
				checkCsv(rt, f, dims, []string{"X", "Y", "Z"}, names, data)
				c.Label("orientation")
			}
		}
		if dims[0] != dims[1] || dim == 3 {
			c.NonTrivial("%v %v", dims, grid.Data)
		}
		c.LabelIf(dim == 3, "3D")
	})
}

type item struct {
	Dimensions string `xml:"Dimensions,attr"`
	Format     string `xml:"Format,attr"`
	Endian     string `xml:"Endian,attr"`
	Precision  int    `xml:"Precision,attr"`
	Value      string `xml:",chardata"`
}

type doc struct {
	XMLName xml.Name `xml:"Xdmf"`
	Domain  struct {
		Topology struct {
			Type       string `xml:"TopologyType,attr"`
			Dimensions string `xml:"Dimensions,attr"`
		} `xml:"Topology"`
		Geometry struct {
			Items []item `xml:"DataItem"`
		} `xml:"Geometry"`
		Grid struct {
			Grids []struct {
				Attr []struct {
					Name   string `xml:"Name,attr"`
					Center string `xml:"Center,attr"`
					Item   item   `xml:"DataItem"`
				} `xml:"Attribute"`
			} `xml:"Grid"`
		} `xml:"Grid"`
	} `xml:"Domain"`
}

// An XDMF file describes the files that Float64IO writes: names, number type and layout
func TestD02_Xdmf(t *testing.T) {
	pbt.Check(t, "fields, domains and numbers of epochs written by Float64IO with the XDMF file, then read through the description; non-trivial: sides differ", 8000, 50000, func(rt *rapid.T, c *pbt.Case) {
		dir := tempDir(rt)
		defer os.RemoveAll(dir)
		dim := rapid.IntRange(2, 3).Draw(rt, "dim")
		dims := gen.DimsRange(rt, dim, 1, 5)
		n := ref.Size(dims)
		model := drawFields(rt, n, func(rt *rapid.T) float64 { return 0 })
		names := []string{}
		for _, f := range model.Fields {
			names = append(names, f.Name)
		}
		num := gen.Count(rt, "num", 0, 3, 15)
		if rapid.IntRange(0, 49).Draw(rt, "long") == 49 {
			num = rapid.IntRange(15, 120).Draw(rt, "long_num")
		}
		prefix := filepath.Join(dir, rapid.SampledFrom([]string{"out", "a&b", "x<y"}).Draw(rt, "prefix"))
		value := func(e, k, i int) float64 { return float64(1000*e + 100000*k + i) }
		w := pf.NewFloat64IO(prefix)
		for e := 0; e < num; e++ {
			for k := range model.Fields {
				for i := range model.Fields[k].Data {
					model.Fields[k].Data[i] = complex(value(e, k, i), 0)
				}
			}
			w.SaveFields(&pf.Solver{Model: model}, e)
		}
		xf := filepath.Join(dir, "all.xdmf")
		older(rt, xf)
		pf.WriteXDMF(xf, names, prefix, num, dims)
		raw, err := os.ReadFile(xf)
		if err != nil {
			rt.Fatalf("%s", err)
		}
		var d doc
		if err := xml.Unmarshal(raw, &d); err != nil {
			rt.Fatalf("not XML: %s", err)
		}
		// slowest varying index first
		sides := func(s string) []int {
			out := []int{}
			for _, w := range strings.Fields(s) {
				v, err := strconv.Atoi(w)
				if err != nil {
					rt.Fatalf("dimensions %q", s)
				}
				out = append(out, v)
			}
			return out
		}
		if d.Domain.Topology.Type != fmt.Sprintf("%dDCoRectMesh", dim) || d.Domain.Topology.Dimensions == "" {
			rt.Fatalf("topology %v", d.Domain.Topology)
		}
		if len(d.Domain.Geometry.Items) != 2 {
			rt.Fatalf("geometry %v", d.Domain.Geometry)
		}
		if len(d.Domain.Grid.Grids) != num {
			rt.Fatalf("%d time steps want %d", len(d.Domain.Grid.Grids), num)
		}
		for e, g := range d.Domain.Grid.Grids {
			if len(g.Attr) != len(names) {
				rt.Fatalf("%d attributes want %d", len(g.Attr), len(names))
			}
			for k, a := range g.Attr {
				it := a.Item
				if a.Name != names[k] || a.Center != "Node" || it.Format != "Binary" || it.Endian != "Big" || it.Precision != 8 || it.Dimensions != d.Domain.Topology.Dimensions {
					rt.Fatalf("attribute %v, topology %v", a, d.Domain.Topology)
				}
				vals := pf.LoadFloat64(it.Value)
				if len(vals) != n {
					rt.Fatalf("%s: %d values", it.Value, len(vals))
				}
				side := sides(it.Dimensions)
				if len(side) != dim || ref.Size(side) != n {
					rt.Fatalf("domain %v has the dimensions %q", dims, it.Dimensions)
				}
				// Along each described axis one index of the domain runs, and only that one
				for i, v := range vals {
					if v != value(e, k, i) {
						rt.Fatalf("%s: value %d is %g", it.Value, i, v)
					}
				}
				stride := 1
				for ax := dim - 1; ax >= 0; ax-- {
					from, to := ref.Pos(dims, 0), []int(nil)
					if side[ax] > 1 {
						to = ref.Pos(dims, stride*(side[ax]-1))
						moved := 0
						for j := range from {
							if to[j] != from[j] {
								moved++
								if to[j]-from[j] != side[ax]-1 || dims[j] != side[ax] {
									moved = 99
								}
							}
						}
						if moved != 1 {
							rt.Fatalf("domain %v is described as %q, but walking along axis %d of it goes from %v to %v", dims, it.Dimensions, ax, from, to)
						}
					}
					stride *= side[ax]
				}
			}
		}
		bad := make([]int, rapid.SampledFrom([]int{1, 4}).Draw(rt, "bad"))
		if pbt.Panics(func() { pf.CreateXDMF(names, prefix, num, bad) }) == "" {
			rt.Fatalf("%d dimensions are not refused", len(bad))
		}
		if num > 0 && (dims[0] != dims[1] || dim == 3) {
			c.NonTrivial("%v %v %d", dims, names, num)
		}
		c.LabelIf(dim == 3, "3D")
	})
}
