package cli

import (
	"fmt"
	"image"
	"image/png"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"pgregory.net/rapid"
	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
)

// Names of which one is the beginning of another, or differs only in its case
var fieldNames = []string{"conc", "eta", "phi", "conc2", "Conc", "con", "X1"}

// shuffle writes the file again with its data lines in another order
func shuffle(rt *rapid.T, from, to string) {
	raw, err := os.ReadFile(from)
	if err != nil {
		rt.Fatalf("HARNESS-ERROR: %s", err)
	}
	lines := strings.Split(strings.TrimSpace(string(raw)), "\n")
	perm := rapid.Permutation(lines[1:]).Draw(rt, "order")
	if err := os.WriteFile(to, []byte(lines[0]+"\n"+strings.Join(perm, "\n")+"\n"), 0644); err != nil {
		rt.Fatalf("HARNESS-ERROR: %s", err)
	}
}

func saveCsv(dims []int, fname string, names []string, data [][]float64) {
	cd := make([]pf.CsvData, len(names))
	for i := range names {
		cd[i] = pf.CsvData{Name: names[i], Data: &pfutil.RealSlice{Data: data[i]}}
	}
	pf.SaveCsv(fname, cd, dims)
}

func readPng(rt *rapid.T, fname string) image.Image {
	f, err := os.Open(fname)
	if err != nil {
		rt.Fatalf("%s", err)
	}
	defer f.Close()
	img, err := png.Decode(f)
	if err != nil {
		rt.Fatalf("%s: %s", fname, err)
	}
	return img
}

// A peak in the field is shown at its position: x to the right and y upwards
func TestD05_Contour(t *testing.T) {
	pbt.Check(t, "contour plots of a field with one peak on a constant ground, among other fields, lines of the file in random order; non-trivial: all", 160, 3000, func(rt *rapid.T, c *pbt.Case) {
		dir := tempDir(rt)
		defer os.RemoveAll(dir)
		dims := gen.DimsRange(rt, 2, 3, 9)
		n := ref.Size(dims)
		base := gen.F(rt, "base", -5, 5)
		at := rapid.IntRange(0, n-1).Draw(rt, "node")
		names := rapid.Permutation(fieldNames).Draw(rt, "names")[:rapid.IntRange(1, 4).Draw(rt, "fields")]
		k := rapid.IntRange(0, len(names)-1).Draw(rt, "which")
		data := make([][]float64, len(names))
		for i := range data {
			if i == k {
				data[i] = make([]float64, n)
				for j := range data[i] {
					data[i][j] = base
				}
				data[i][at] += 4
			} else {
				data[i] = gen.Field(rt, "other", n, -9, 9)
			}
		}
		saveCsv(dims, filepath.Join(dir, "a.csv"), names, data)
		shuffle(rt, filepath.Join(dir, "a.csv"), filepath.Join(dir, "b.csv"))
		args := []string{}
		if k > 0 || rapid.Bool().Draw(rt, "name it") {
			args = []string{"-c", names[k]}
		}
		for _, f := range []string{"a", "b"} {
			ok(rt, dir, append([]string{"contour", "-f", f + ".csv", "-o", f + ".png"}, args...)...)
		}
		a, _ := os.ReadFile(filepath.Join(dir, "a.png"))
		b, _ := os.ReadFile(filepath.Join(dir, "b.png"))
		if string(a) != string(b) {
			rt.Fatalf("domain %v: the plot depends on the order of the lines", dims)
		}
		if rapid.IntRange(0, 9).Draw(rt, "full") == 0 {
			full(rt, dir, "z.png", append([]string{"contour", "-f", "a.csv", "-o", "z.png"}, args...)...)
		}
		img := readPng(rt, filepath.Join(dir, "a.png"))
		bd := img.Bounds()
		// The ground has the most frequent colour next to the white of the page
		count := map[[3]uint32]int{}
		px := func(x, y int) [3]uint32 {
			r, g, b, _ := img.At(x, y).RGBA()
			return [3]uint32{r >> 8, g >> 8, b >> 8}
		}
		for y := bd.Min.Y; y < bd.Max.Y; y++ {
			for x := bd.Min.X; x < bd.Max.X; x++ {
				count[px(x, y)]++
			}
		}
		var ground [3]uint32
		for col, m := range count {
			if col != [3]uint32{255, 255, 255} && m > count[ground] {
				ground = col
			}
		}
		x0, y0, x1, y1 := bd.Max.X, bd.Max.Y, -1, -1
		for y := bd.Min.Y + bd.Dy()/6; y < bd.Max.Y; y++ {
			for x := bd.Min.X; x < bd.Max.X; x++ {
				if px(x, y) == ground {
					x0, x1 = min(x0, x), max(x1, x)
					y0, y1 = min(y0, y), max(y1, y)
				}
			}
		}
		sx, sy, sw := 0.0, 0.0, 0.0
		for y := y0; y <= y1; y++ {
			for x := x0; x <= x1; x++ {
				w := 0.0
				for j, v := range px(x, y) {
					w += math.Abs(float64(v) - float64(ground[j]))
				}
				w *= w
				sx += w * float64(x)
				sy += w * float64(y)
				sw += w
			}
		}
		p := ref.Pos(dims, at)
		gotX := (sx/sw-float64(x0)+0.5)/float64(x1-x0+1)*float64(dims[0]) - 0.5
		gotY := (float64(y1)-sy/sw+0.5)/float64(y1-y0+1)*float64(dims[1]) - 0.5
		if !(math.Abs(gotX-float64(p[0])) < 0.5) || !(math.Abs(gotY-float64(p[1])) < 0.5) {
			rt.Fatalf("domain %v: the peak of %v at %v is shown at (%.2f, %.2f)", dims, names, p, gotX, gotY)
		}
		// Any field on the same domain: the higher value has the brighter colour
		// (a pixel near the middle of a node mixes in some of its neighbours, more so when there are many)
		if max(dims[0], dims[1]) <= 10 && rapid.Bool().Draw(rt, "any") {
			scale := rapid.SampledFrom([]float64{1, 1e-3, 1e4, 1e8}).Draw(rt, "scale")
			v := gen.Field(rt, "any values", n, -9, 9)
			// the colours span the range of the values, however far it is from zero
			offset := rapid.SampledFrom([]float64{0, 0, 1e3, -1e3, 1e8, -1e8}).Draw(rt, "offset")
			lo, hi := math.Inf(1), math.Inf(-1)
			for i := range v {
				v[i] = (v[i] + offset) * scale
				lo, hi = math.Min(lo, v[i]), math.Max(hi, v[i])
			}
			if hi-lo > 0.1*scale {
				data[k] = v
				saveCsv(dims, filepath.Join(dir, "c.csv"), names, data)
				ok(rt, dir, append([]string{"contour", "-f", "c.csv", "-o", "c.png"}, args...)...)
				img = readPng(rt, filepath.Join(dir, "c.png"))
				lum := make([]float64, n)
				for i := range lum {
					p := ref.Pos(dims, i)
					col := px(x0+int((float64(p[0])+0.5)/float64(dims[0])*float64(x1-x0+1)), y1-int((float64(p[1])+0.5)/float64(dims[1])*float64(y1-y0+1)))
					lum[i] = 0.2126*math.Pow(float64(col[0])/255, 2.2) + 0.7152*math.Pow(float64(col[1])/255, 2.2) + 0.0722*math.Pow(float64(col[2])/255, 2.2)
				}
				for i := range v {
					for j := range v {
						if v[i] > v[j]+0.15*(hi-lo) && !(lum[i] > lum[j]) {
							rt.Fatalf("domain %v: %g at %v has the brightness %g, %g at %v has %g", dims, v[i], ref.Pos(dims, i), lum[i], v[j], ref.Pos(dims, j), lum[j])
						}
					}
				}
				c.Label("any field")
			}
		}
		c.NonTrivial("%v %d %d %g", dims, at, k, base)
		c.LabelIf(dims[0] != dims[1], "not square")
	})
}

var linePath = regexp.MustCompile(`<path d="M([^"]*)" style="fill:none;stroke:(#[0-9A-Fa-f]{6})[;"]`)

// A line plot shows the values of each field along the line, in common axes
func TestD05_Line(t *testing.T) {
	pbt.Check(t, "line plots (SVG) along each axis of 2D and 3D domains, all fields or a selection, lines of the file in random order; non-trivial: two fields are shown", 1400, 30000, func(rt *rapid.T, c *pbt.Case) {
		dir := tempDir(rt)
		defer os.RemoveAll(dir)
		dims := gen.DimsRange(rt, rapid.IntRange(2, 3).Draw(rt, "dim"), 2, 5)
		ax := rapid.IntRange(0, len(dims)-1).Draw(rt, "axis")
		if rapid.IntRange(0, 19).Draw(rt, "long") == 19 {
			dims[ax] = rapid.IntRange(40, 140).Draw(rt, "side")
		}
		n := ref.Size(dims)
		names := rapid.Permutation(fieldNames).Draw(rt, "names")[:gen.Count(rt, "fields", 1, 3, 6)]
		data := make([][]float64, len(names))
		for i := range data {
			data[i] = gen.Field(rt, "values", n, -9, 9)
		}
		saveCsv(dims, filepath.Join(dir, "a.csv"), names, data)
		shuffle(rt, filepath.Join(dir, "a.csv"), filepath.Join(dir, "b.csv"))
		args := []string{"lineplot", "-f", "b.csv", "-o", "l.svg"}
		fix := make([]int, 3)
		for j := 0; j < 3; j++ {
			if j != ax {
				if j < len(dims) {
					fix[j] = rapid.IntRange(0, dims[j]-1).Draw(rt, "at")
				}
				args = append(args, "-"+[]string{"x", "y", "z"}[j], strconv.Itoa(fix[j]))
			}
		}
		order := []int{}
		if rapid.Bool().Draw(rt, "select") {
			order = rapid.SliceOfNDistinct(rapid.IntRange(0, len(names)-1), 1, len(names), rapid.ID[int]).Draw(rt, "order")
			sel := []string{}
			for _, k := range order {
				sel = append(sel, names[k])
			}
			args = append(args, "-d", strings.Join(sel, ","))
			c.Label("selection")
		} else {
			for k := range names {
				order = append(order, k)
			}
		}
		ok(rt, dir, args...)
		want := make([][]float64, len(order))
		lo, hi := math.Inf(1), math.Inf(-1)
		for i, k := range order {
			for x := 0; x < dims[ax]; x++ {
				p := append([]int{}, fix[:len(dims)]...)
				p[ax] = x
				v := math.Round(data[k][ref.Node(dims, p)]*1e6) / 1e6
				want[i] = append(want[i], v)
				lo, hi = math.Min(lo, v), math.Max(hi, v)
			}
		}
		raw, err := os.ReadFile(filepath.Join(dir, "l.svg"))
		if err != nil {
			rt.Fatalf("%s", err)
		}
		// Coloured lines in the order they were drawn; the samples of the legend come last
		lines := [][][2]float64{}
		colours := map[string]bool{}
		for _, m := range linePath.FindAllStringSubmatch(string(raw), -1) {
			if m[2] == "#000000" {
				continue
			}
			pts := [][2]float64{}
			for _, s := range strings.Split(m[1], "L") {
				xy := strings.Split(s, ",")
				if len(xy) != 2 {
					rt.Fatalf("path %q", m[1])
				}
				x, _ := strconv.ParseFloat(xy[0], 64)
				y, _ := strconv.ParseFloat(xy[1], 64)
				pts = append(pts, [2]float64{x, y})
			}
			lines = append(lines, pts)
			colours[m[2]] = true
		}
		if len(colours) != len(order) {
			rt.Fatalf("%d colours for %d fields", len(colours), len(order))
		}
		if len(lines) != 2*len(order) {
			rt.Fatalf("%d lines for %d fields", len(lines), len(order))
		}
		// The axes follow from the outermost points
		px0, px1, py0, py1 := math.Inf(1), math.Inf(-1), math.Inf(1), math.Inf(-1)
		for i := range order {
			for _, p := range lines[i] {
				px0, px1 = math.Min(px0, p[0]), math.Max(px1, p[0])
				py0, py1 = math.Min(py0, p[1]), math.Max(py1, p[1])
			}
		}
		for i, k := range order {
			if len(lines[i]) != dims[ax] {
				rt.Fatalf("domain %v, axis %d: %d points for %s", dims, ax, len(lines[i]), names[k])
			}
			seen := map[int]bool{}
			for _, p := range lines[i] {
				pos := (p[0] - px0) / (px1 - px0) * float64(dims[ax]-1)
				x := int(math.Round(pos))
				if math.Abs(pos-float64(x)) > 0.01 || seen[x] {
					rt.Fatalf("domain %v, axis %d, %s: a point at position %g", dims, ax, names[k], pos)
				}
				seen[x] = true
				if hi-lo < 1e-3 {
					continue
				}
				if v := lo + (p[1]-py0)/(py1-py0)*(hi-lo); !(math.Abs(v-want[i][x]) <= 1e-3*(hi-lo)) {
					rt.Fatalf("domain %v, %v, fields %v: %s at %d is shown as %g, want %g", dims, args, names, names[k], x, v, want[i][x])
				}
			}
		}
		for _, k := range order {
			if !strings.Contains(string(raw), ">"+names[k]+"<") {
				rt.Fatalf("%s is not in the legend", names[k])
			}
		}
		if len(order) > 1 {
			c.NonTrivial("%v %v %v %v", dims, args, names, want)
		}
		c.LabelIf(len(dims) == 3, "3D")
	})
}

// Exactly two coordinates make a line
func TestD05_Refuse(t *testing.T) {
	pbt.Check(t, "line plots with zero to three coordinates, or without a file; non-trivial: not two coordinates", 800, 3200, func(rt *rapid.T, c *pbt.Case) {
		dir := tempDir(rt)
		defer os.RemoveAll(dir)
		saveCsv([]int{3, 3}, filepath.Join(dir, "a.csv"), []string{"u"}, [][]float64{{1, 2, 3, 4, 5, 6, 7, 8, 9}})
		args := []string{"lineplot", "-f", "a.csv", "-o", "l.svg"}
		k := 0
		for _, x := range []string{"-x", "-y", "-z"} {
			if rapid.Bool().Draw(rt, x) {
				args = append(args, x, "0")
				k++
			}
		}
		_, e, code := gopf(rt, dir, args...)
		_, err := os.Stat(filepath.Join(dir, "l.svg"))
		if (k == 2) != (code == 0) || (k == 2) != (err == nil) {
			rt.Fatalf("%v ended with %d: %s", args, code, e)
		}
		if k != 2 {
			c.NonTrivial("%v", args)
		}
	})
}

var energyLine = regexp.MustCompile(`inclusion: (\S+)`)

func drawNumbers(v []float64) string { return strings.ReplaceAll(fmt.Sprint(v), " ", ",") }
