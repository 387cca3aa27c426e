package utilx

import (
	"math"
	"testing"

	"github.com/davidkleiven/gopf/pfutil"
	"pgregory.net/rapid"
	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
)

// tr is a transformation and the reference for it
type tr struct {
	name string
	aff  pfutil.Affine
	f    func(p [3]float64) [3]float64
}

func drawTr(rt *rapid.T, dim int) tr {
	ang := gen.F(rt, "angle", -7, 7)
	s, c := math.Sincos(ang)
	switch rapid.IntRange(0, 5).Draw(rt, "kind") {
	case 0:
		return tr{"identity", pfutil.Identity(), func(p [3]float64) [3]float64 { return p }}
	case 1:
		n := rapid.IntRange(2, 3).Draw(rt, "len")
		v := gen.Vec(rt, "shift", n, -9, 9)
		if rapid.IntRange(0, 9).Draw(rt, "far") == 9 {
			for i := range v {
				v[i] *= 100
			}
		}
		return tr{"translation", pfutil.Translation(v), func(p [3]float64) [3]float64 {
			for i := range v {
				p[i] += v[i]
			}
			return p
		}}
	case 2:
		n := 3
		if dim == 2 {
			n = rapid.IntRange(2, 3).Draw(rt, "len")
		}
		v := gen.Vec(rt, "scale", n, -2, 2)
		return tr{"scaling", pfutil.Scaling(v), func(p [3]float64) [3]float64 {
			for i := range p {
				if i < len(v) {
					p[i] *= v[i]
				} else {
					p[i] = 0
				}
			}
			return p
		}}
	case 3:
		return tr{"rotz", pfutil.RotZ(ang), func(p [3]float64) [3]float64 {
			return [3]float64{c*p[0] - s*p[1], s*p[0] + c*p[1], p[2]}
		}}
	case 4:
		return tr{"roty", pfutil.RotY(ang), func(p [3]float64) [3]float64 {
			return [3]float64{c*p[0] + s*p[2], p[1], c*p[2] - s*p[0]}
		}}
	}
	return tr{"rotx", pfutil.RotX(ang), func(p [3]float64) [3]float64 {
		return [3]float64{p[0], c*p[1] - s*p[2], s*p[1] + c*p[2]}
	}}
}

// drawChain appends transformations one after another
func drawChain(rt *rapid.T, dim int) (pfutil.Affine, func(p [3]float64) [3]float64, []string) {
	total := pfutil.Identity()
	var all []tr
	names := []string{}
	for k := rapid.IntRange(0, 4).Draw(rt, "chain"); k > 0; k-- {
		x := drawTr(rt, dim)
		all = append(all, x)
		names = append(names, x.name)
		total.Append(x.aff)
	}
	return total, func(p [3]float64) [3]float64 {
		for _, x := range all {
			p = x.f(p)
		}
		return p
	}, names
}

// Appending transformations applies them one after another
func TestU02_Affine(t *testing.T) {
	pbt.Check(t, "chains of up to four transformations applied to 2D and 3D points; non-trivial: two or more", 40000, 500000, func(rt *rapid.T, c *pbt.Case) {
		dim := rapid.IntRange(2, 3).Draw(rt, "dim")
		total, f, names := drawChain(rt, dim)
		for k := 0; k < 3; k++ {
			p := gen.Vec(rt, "p", dim, -5, 5)
			tol := 1e-9
			if rapid.IntRange(0, 9).Draw(rt, "farpoint") == 9 {
				for i := range p {
					p[i] *= 1000
				}
				tol = 1e-7
			}
			var p3 [3]float64
			copy(p3[:], p)
			want := f(p3)
			got := append([]float64{}, p...)
			total.Apply(got)
			if len(got) != dim {
				rt.Fatalf("length %d", len(got))
			}
			for i := range got {
				if !(math.Abs(got[i]-want[i]) <= tol) {
					rt.Fatalf("%v of %v: %v want %v", names, p, got, want[:dim])
				}
			}
		}
		// The transformation that was appended stays as it was
		x := drawTr(rt, dim)
		id := pfutil.Identity()
		id.Append(x.aff)
		id.Append(x.aff)
		p := gen.Vec(rt, "q", 3, -5, 5)
		w := x.f([3]float64{p[0], p[1], p[2]})
		x.aff.Apply(p)
		for i := range p {
			if !(math.Abs(p[i]-w[i]) <= 1e-9) {
				rt.Fatalf("%s changed when it was appended", x.name)
			}
		}
		if len(names) > 1 {
			c.NonTrivial("%v", names)
		}
	})
}

// Draw sets exactly the nodes whose transformed position is inside the shape
func TestU02_Draw(t *testing.T) {
	pbt.Check(t, "boxes and balls drawn with random transformations on random grids; positions closer than 1e-6 to the surface are not judged; non-trivial: some nodes inside and some outside", 30000, 300000, func(rt *rapid.T, c *pbt.Case) {
		dim := rapid.IntRange(2, 3).Draw(rt, "dim")
		dims := gen.DimsRange(rt, dim, 1, 8)
		big := 1.0
		if rapid.IntRange(0, 19).Draw(rt, "large") == 19 {
			dims[rapid.IntRange(0, dim-1).Draw(rt, "longAxis")] = rapid.IntRange(20, 150).Draw(rt, "longSide")
			big = 10
		}
		grid := pfutil.NewGrid(append([]int{}, dims...))
		for i := range grid.Data {
			grid.Data[i] = -float64(i) - 1
		}
		total, f, names := drawChain(rt, dim)
		trans := &total
		if len(names) == 0 && rapid.Bool().Draw(rt, "nil") {
			trans = nil
			c.Label("no transformation")
		}
		var shape pfutil.Shape
		var dist func(p [3]float64) float64
		if rapid.Bool().Draw(rt, "box") {
			d := gen.Vec(rt, "diag", rapid.IntRange(dim, 3).Draw(rt, "len"), 0, 14*big)
			shape = &pfutil.Box{Diagonal: d}
			dist = func(p [3]float64) float64 {
				r := math.Inf(-1)
				for i := 0; i < dim; i++ {
					r = math.Max(r, math.Abs(p[i])-d[i]/2)
				}
				return r
			}
			c.Label("box")
		} else {
			r := gen.F(rt, "r", 0, 9*big)
			shape = &pfutil.Ball{Radius: r}
			dist = func(p [3]float64) float64 {
				s := 0.0
				for i := 0; i < dim; i++ {
					s += p[i] * p[i]
				}
				return math.Sqrt(s) - r
			}
			c.Label("ball")
		}
		v := gen.F(rt, "value", 1, 5)
		pfutil.Draw(shape, &grid, trans, v)
		in, out := 0, 0
		for i, got := range grid.Data {
			pos := ref.Pos(dims, i)
			var p [3]float64
			for j := range pos {
				p[j] = float64(pos[j])
			}
			d := dist(f(p))
			if math.Abs(d) < 1e-6 {
				continue
			}
			want := -float64(i) - 1
			if d < 0 {
				want = v
				in++
			} else {
				out++
			}
			if got != want {
				rt.Fatalf("%T %v on %v, %v: node %v at distance %g holds %g, want %g", shape, shape, dims, names, pos, d, got, want)
			}
		}
		if in > 0 && out > 0 {
			c.NonTrivial("%v %v %v", shape, dims, names)
		}
		c.LabelIf(dim == 3, "3D")
	})
}

type badShape struct{ min, max []int }

func (b *badShape) InteriorPoint(pos []float64) bool { return true }
func (b *badShape) BBox() pfutil.BoundingBox {
	return pfutil.BoundingBox{Min: b.min, Max: b.max}
}

// The bounding box holds every interior point, and Draw refuses invalid ones
func TestU02_BBox(t *testing.T) {
	pbt.Check(t, "random shapes and points around their surface; random bounding boxes; non-trivial: the point is inside", 40000, 500000, func(rt *rapid.T, c *pbt.Case) {
		var shape pfutil.Shape
		p := gen.Vec(rt, "p", 3, -1.1, 1.1)
		if rapid.Bool().Draw(rt, "box") {
			d := gen.Vec(rt, "diag", 3, 0, 20)
			shape = &pfutil.Box{Diagonal: d}
			in := true
			for i := range p {
				in = in && math.Abs(p[i]) <= 1
				p[i] *= d[i] / 2
			}
			if pbt.Panics(func() { (&pfutil.Box{Diagonal: d[:2]}).InteriorPoint(p) }) == "" {
				rt.Fatalf("a box with two sides takes points with three coordinates")
			}
		} else {
			r := gen.F(rt, "r", 0, 10)
			shape = &pfutil.Ball{Radius: r}
			for i := range p {
				p[i] *= r
			}
		}
		b := shape.BBox()
		if len(b.Min) != 3 || len(b.Max) != 3 {
			rt.Fatalf("bounding box %v", b)
		}
		if shape.InteriorPoint(p) {
			for i := range p {
				if p[i] < float64(b.Min[i]) || p[i] > float64(b.Max[i]) {
					rt.Fatalf("%v is inside %v but not in %v", p, shape, b)
				}
			}
			c.NonTrivial("%v %v", shape, p)
		}
		g := pfutil.NewGrid([]int{2, 2})
		bad := &badShape{
			rapid.SliceOfN(rapid.IntRange(-3, 3), 2, 4).Draw(rt, "min"),
			rapid.SliceOfN(rapid.IntRange(-3, 3), 2, 4).Draw(rt, "max"),
		}
		ok := len(bad.min) == 3 && len(bad.max) == 3
		for i := 0; ok && i < 3; i++ {
			ok = bad.min[i] <= bad.max[i]
		}
		var aff *pfutil.Affine
		if rapid.Bool().Draw(rt, "transformed") {
			a := drawTr(rt, 2).aff
			aff = &a
		}
		if got := pbt.Panics(func() { pfutil.Draw(bad, &g, aff, 1) }) == ""; got != ok {
			rt.Fatalf("bounding box %v to %v: accepted %v, want %v", bad.min, bad.max, got, ok)
		}
	})
}

type tableKernel struct {
	cutoff int
	w      map[[3]int]float64
}

func (k *tableKernel) Cutoff() int { return k.cutoff }
func (k *tableKernel) Value(x []int) float64 {
	var p [3]int
	copy(p[:], x)
	return k.w[p]
}

// Blur is the normalised periodic average with the kernel as weight
func TestU02_Blur(t *testing.T) {
	pbt.Check(t, "box kernels and kernels with a random weight for every shift, 2D and 3D domains also smaller than the kernel; non-trivial: the data is not constant", 8000, 50000, func(rt *rapid.T, c *pbt.Case) {
		dim := rapid.IntRange(2, 3).Draw(rt, "dim")
		hi := 7
		if dim == 3 {
			hi = 4
		}
		dims := gen.DimsRange(rt, dim, 1, hi)
		n := ref.Size(dims)
		data := gen.Field(rt, "data", n, -3, 3)
		var kern pfutil.BlurKernel
		var weight func(x []int) float64
		cut := 0
		if rapid.Bool().Draw(rt, "box") {
			w := rapid.IntRange(0, 4).Draw(rt, "width")
			if n <= 36 && rapid.IntRange(0, 9).Draw(rt, "wide") == 9 {
				w = rapid.IntRange(5, 20-4*dim).Draw(rt, "largewidth")
				c.Label("wide box")
			}
			kern = &pfutil.BoxKernel{Width: w}
			cut = w/2 + 1
			if w < cut {
				cut = w
			}
			weight = func([]int) float64 { return 1 }
			c.Label("box")
		} else {
			cut = rapid.IntRange(0, 3-dim/3).Draw(rt, "cutoff")
			tk := &tableKernel{cut, map[[3]int]float64{}}
			side := 2*cut + 1
			vals := gen.Field(rt, "weights", side*side*side, 0.1, 2)
			centre := 0.0
			if rapid.IntRange(0, 2).Draw(rt, "signs") == 2 && len(vals) > 1 {
				// Some weights without a sign or zero; the sum stays well above zero
				for i := range vals {
					switch rapid.IntRange(0, 5).Draw(rt, "sign") {
					case 0:
						vals[i] = 0
					case 1:
						vals[i] = -vals[i] / 10
					}
				}
				centre = 20
				c.Label("negative or zero weights")
			}
			for i, v := range vals {
				p := [3]int{i%side - cut, (i/side)%side - cut, i/(side*side) - cut}
				if dim == 2 {
					p[2] = 0
				}
				tk.w[p] = v
			}
			if centre > 0 {
				tk.w[[3]int{}] = centre
			}
			kern = tk
			weight = tk.Value
		}
		want := make([]float64, n)
		for i := range want {
			centre := ref.Pos(dims, i)
			num, den := 0.0, 0.0
			side := 2*cut + 1
			total := side * side
			if dim == 3 {
				total *= side
			}
			for k := 0; k < total; k++ {
				sh := []int{k%side - cut, (k/side)%side - cut}
				if dim == 3 {
					sh = append(sh, k/(side*side)-cut)
				}
				p := make([]int, dim)
				for j := range p {
					p[j] = (((centre[j] + sh[j]) % dims[j]) + dims[j]) % dims[j]
				}
				w := weight(sh)
				num += w * data[ref.Node(dims, p)]
				den += w
			}
			want[i] = num / den
		}
		got := append([]float64{}, data...)
		cmplx := make([]complex128, n)
		for i := range cmplx {
			cmplx[i] = complex(data[i], float64(i))
		}
		pfutil.Blur(&pfutil.RealSlice{Data: got}, dims, kern)
		pfutil.Blur(&pfutil.RealPartSlice{Data: cmplx}, dims, kern)
		constant := true
		s0, s1 := 0.0, 0.0
		for i := range got {
			if !(math.Abs(got[i]-want[i]) <= 1e-10) {
				rt.Fatalf("domain %v, %T cutoff %d, data %v: node %d is %g want %g", dims, kern, cut, data, i, got[i], want[i])
			}
			if !(math.Abs(real(cmplx[i])-want[i]) <= 1e-10) || imag(cmplx[i]) != float64(i) {
				rt.Fatalf("domain %v: node %d of the real part is %v want %g", dims, i, cmplx[i], want[i])
			}
			s0 += data[i]
			s1 += got[i]
			constant = constant && data[i] == data[0]
		}
		if !(math.Abs(s0-s1) <= 1e-9*float64(n)) {
			rt.Fatalf("domain %v: the sum went from %g to %g", dims, s0, s1)
		}
		if !constant {
			c.NonTrivial("%v %T %d %v", dims, kern, cut, data)
		}
		c.LabelIf(dim == 3, "3D")
	})
}

// The box kernel is one inside the box and zero outside
func TestU02_BoxKernel(t *testing.T) {
	pbt.Check(t, "random widths and shifts; non-trivial: a shift outside", 20000, 200000, func(rt *rapid.T, c *pbt.Case) {
		w := rapid.IntRange(0, 10).Draw(rt, "w")
		k := &pfutil.BoxKernel{Width: w}
		x := rapid.SliceOfN(rapid.IntRange(-15, 15), 2, 3).Draw(rt, "x")
		keep := append([]int{}, x...)
		big := 0
		for _, v := range x {
			if v < 0 {
				v = -v
			}
			if v > big {
				big = v
			}
		}
		v := k.Value(x)
		if k.Cutoff() != w/2+1 {
			rt.Fatalf("width %d: cutoff %d", w, k.Cutoff())
		}
		if (big <= w/2 && v != 1) || (big > w && v != 0) || (v != 0 && v != 1) {
			rt.Fatalf("width %d: %g at %v", w, v, keep)
		}
		if big > w {
			c.NonTrivial("%d %v", w, x)
		}
	})
}

// Voronoi assigns every node to the closest generating point under the minimum image convention
func TestU02_Voronoi(t *testing.T) {
	pbt.Check(t, "random generating points on 2D and 3D domains; ties go to the first; non-trivial: a node is closer through the boundary", 20000, 200000, func(rt *rapid.T, c *pbt.Case) {
		dim := rapid.IntRange(2, 3).Draw(rt, "dim")
		dims := gen.DimsRange(rt, dim, 1, 10-2*(dim-2)*2)
		if rapid.IntRange(0, 19).Draw(rt, "long") == 19 {
			// One long side
			dims = gen.DimsRange(rt, dim, 1, 3)
			dims[rapid.IntRange(0, dim-1).Draw(rt, "longaxis")] = rapid.IntRange(50, 200).Draw(rt, "longside")
			c.Label("long side")
		}
		n := ref.Size(dims)
		pts := rapid.SliceOfN(rapid.IntRange(0, n-1), 1, 6).Draw(rt, "pts")
		keep := append([]int{}, pts...)
		data := make([]int, n)
		pfutil.Voronoi(pts, data, dims)
		through := false
		for i := range data {
			best, bd := -1, 0
			a := ref.Pos(dims, i)
			for k, q := range keep {
				b := ref.Pos(dims, q)
				d := 0
				thr := false
				for j := range a {
					x := a[j] - b[j]
					if x < 0 {
						x = -x
					}
					if dims[j]-x < x {
						x = dims[j] - x
						thr = true
					}
					d += x * x
				}
				if best < 0 || d < bd {
					best, bd = k, d
					through = through || thr
				}
			}
			if data[i] != best {
				rt.Fatalf("domain %v points %v: node %d belongs to %d, want %d", dims, keep, i, data[i], best)
			}
		}
		for i := range pts {
			if pts[i] != keep[i] {
				rt.Fatalf("the points were changed")
			}
		}
		if through && len(pts) > 1 {
			c.NonTrivial("%v %v", dims, pts)
		}
		c.LabelIf(dim == 3, "3D")
	})
}
