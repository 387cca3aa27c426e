package utilx

import (
	"math"
	"testing"

	"github.com/davidkleiven/gopf/pfutil"
	"pgregory.net/rapid"
	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
)

// Node numbers and positions are one to one, with the documented order
func TestU01_Index(t *testing.T) {
	pbt.Check(t, "random 2D and 3D domains, every node; non-trivial: two sides differ", 20000, 200000, func(rt *rapid.T, c *pbt.Case) {
		dim := rapid.IntRange(2, 3).Draw(rt, "dim")
		dims := gen.DimsRange(rt, dim, 1, 9)
		n := ref.Size(dims)
		grid := pfutil.NewGrid(append([]int{}, dims...))
		if len(grid.Data) != n || pfutil.ProdInt(dims) != n {
			rt.Fatalf("domain %v: %d nodes, product %d", dims, len(grid.Data), pfutil.ProdInt(dims))
		}
		for i := 0; i < n; i++ {
			want := ref.Pos(dims, i)
			for _, p := range [][]int{pfutil.Pos(dims, i), grid.Pos(i)} {
				if len(p) != dim {
					rt.Fatalf("domain %v node %d: position %v", dims, i, p)
				}
				for j := range p {
					if p[j] != want[j] {
						rt.Fatalf("domain %v node %d: position %v want %v", dims, i, p, want)
					}
				}
			}
			if a, b := pfutil.NodeIdx(dims, want), grid.Index(want); a != i || b != i {
				rt.Fatalf("domain %v position %v: node %d, %d want %d", dims, want, a, b, i)
			}
		}
		bad := rapid.SampledFrom([]int{0, 1, 4, 5}).Draw(rt, "bad")
		other := make([]int, bad)
		for i := range other {
			other[i] = 1
		}
		if pbt.Panics(func() { pfutil.Pos(other, 0) }) == "" || pbt.Panics(func() { pfutil.NodeIdx(other, other) }) == "" || pbt.Panics(func() { pfutil.NodeIdx(dims, make([]int, 5-dim)) }) == "" {
			rt.Fatalf("%d dimensions are not refused", bad)
		}
		if dims[0] != dims[1] || (dim == 3 && dims[0] != dims[2]) {
			c.NonTrivial("%v", dims)
		}
		c.LabelIf(dim == 3, "3D")
	})
}

// Wrap returns the periodic image inside the box
func TestU01_Wrap(t *testing.T) {
	pbt.Check(t, "random positions in and outside random boxes; non-trivial: a coordinate outside", 40000, 500000, func(rt *rapid.T, c *pbt.Case) {
		dim := rapid.IntRange(1, 4).Draw(rt, "dim")
		dims := gen.DimsRange(rt, dim, 1, 12)
		pos := make([]int, dim)
		out := false
		for i := range pos {
			if rapid.Bool().Draw(rt, "multiple") {
				pos[i] = dims[i] * rapid.IntRange(-4, 4).Draw(rt, "m")
			} else {
				pos[i] = rapid.IntRange(-1000, 1000).Draw(rt, "p")
			}
			out = out || pos[i] < 0 || pos[i] >= dims[i]
		}
		orig := append([]int{}, pos...)
		keep := append([]int{}, dims...)
		pfutil.Wrap(pos, dims)
		for i := range pos {
			want := ((orig[i] % dims[i]) + dims[i]) % dims[i]
			if pos[i] != want || dims[i] != keep[i] {
				rt.Fatalf("%v wrapped in %v is %v", orig, keep, pos)
			}
		}
		if out {
			c.NonTrivial("%v %v", orig, dims)
		}
	})
}

// A product iterator visits every combination once, in lexicographic order, and then ends
func TestU01_Product(t *testing.T) {
	pbt.Check(t, "products of 1-6 ranges; non-trivial: at least two ranges longer than one", 20000, 200000, func(rt *rapid.T, c *pbt.Case) {
		dim := rapid.IntRange(1, 6).Draw(rt, "dim")
		end := gen.DimsRange(rt, dim, 1, 5-dim/4)
		keep := append([]int{}, end...)
		n := ref.Size(end)
		p := pfutil.NewProduct(end)
		want := make([]int, dim)
		count := 0
		for idx := p.Next(); idx != nil; idx = p.Next() {
			if count >= n {
				rt.Fatalf("%v: more than %d combinations", end, n)
			}
			rest := count
			for i := dim - 1; i >= 0; i-- {
				want[i] = rest % keep[i]
				rest /= keep[i]
			}
			for i := range want {
				if idx[i] != want[i] || len(idx) != dim {
					rt.Fatalf("%v: combination %d is %v want %v", keep, count, idx, want)
				}
			}
			count++
		}
		if count != n {
			rt.Fatalf("%v: %d combinations, want %d", keep, count, n)
		}
		long := 0
		for i := range end {
			if end[i] != keep[i] {
				rt.Fatalf("the ranges were changed to %v", end)
			}
			if end[i] > 1 {
				long++
			}
		}
		if long > 1 {
			c.NonTrivial("%v", end)
		}
	})
}

// Operations on slices
func TestU01_Slices(t *testing.T) {
	pbt.Check(t, "random complex slices, lengths 1-12; non-trivial: length above one", 40000, 500000, func(rt *rapid.T, c *pbt.Case) {
		n := rapid.IntRange(1, 12).Draw(rt, "n")
		if rapid.IntRange(0, 39).Draw(rt, "long") == 39 {
			n = rapid.IntRange(13, 150).Draw(rt, "many")
		}
		a := gen.CField(rt, "a", n, -3, 3)
		b := gen.CField(rt, "b", n, -3, 3)
		f := gen.F(rt, "f", -5, 5)
		if f == 0 {
			f = 0.5
		}
		scale, offset := 1.0, 0.0
		if rapid.IntRange(0, 4).Draw(rt, "rescale") == 4 {
			scale = rapid.SampledFrom([]float64{1e-4, 1e4, 1e8}).Draw(rt, "scale")
			offset = rapid.SampledFrom([]float64{-5000, 0, 5000}).Draw(rt, "offset")
			for i := range a {
				a[i] = complex(real(a[i])*scale+offset, imag(a[i])*scale-offset)
				b[i] = complex(real(b[i])*scale-offset, imag(b[i])*scale+offset)
			}
		}
		size := math.Max(1, 10*(math.Abs(offset)+3*scale))
		cp := func(v []complex128) []complex128 { return append([]complex128{}, v...) }
		same := func(what string, got, want []complex128, tol float64) {
			if len(got) != len(want) {
				rt.Fatalf("%s: length %d want %d", what, len(got), len(want))
			}
			if d := pbt.Diff(got, want, tol); d != "" {
				rt.Fatalf("%s of %v and %v: %s", what, a, b, d)
			}
		}
		sum, prod, quot, zero := cp(a), cp(a), cp(a), make([]complex128, n)
		mx, mn := math.Inf(-1), math.Inf(1)
		dot := 0.0
		for i := range a {
			sum[i] = a[i] + b[i]
			prod[i] = a[i] * b[i]
			quot[i] = complex(real(a[i])/f, imag(a[i])/f)
			mx = math.Max(mx, real(a[i]))
			mn = math.Min(mn, real(a[i]))
			dot += real(a[i]) * real(b[i])
		}
		a1, b1 := cp(a), cp(b)
		pfutil.ElemwiseAdd(a1, b1)
		same("sum", a1, sum, 1e-15*size)
		same("second argument of the sum", b1, b, 0)
		a1 = cp(a)
		pfutil.ElemwiseMul(a1, b1)
		same("product", a1, prod, 1e-14*size*size)
		same("second argument of the product", b1, b, 0)
		a1 = cp(a)
		same("quotient", pfutil.DivRealScalar(a1, f), quot, 1e-13*size/math.Abs(f))
		same("quotient in place", a1, quot, 1e-13*size/math.Abs(f))
		if pfutil.MaxReal(a) != mx || pfutil.MinReal(a) != mn {
			rt.Fatalf("%v: largest real part %g, smallest %g", a, pfutil.MaxReal(a), pfutil.MinReal(a))
		}
		if d := pfutil.Dot(gen.Real(a), gen.Real(b)); !(math.Abs(d-dot) <= 1e-14*size*size*float64(n)) {
			rt.Fatalf("dot product of %v %v: %g want %g", gen.Real(a), gen.Real(b), d, dot)
		}
		a1 = cp(a)
		pfutil.Clear(a1)
		same("cleared", a1, zero, 0)

		// Approximate equality looks at every element, both parts and the length
		tol := gen.F(rt, "tol", 0.001, 1)
		k := rapid.IntRange(0, n-1).Draw(rt, "k")
		by := tol * rapid.SampledFrom([]float64{-1.5, -0.5, 0, 0.5, 1.5}).Draw(rt, "by")
		a1 = cp(a)
		if rapid.Bool().Draw(rt, "imag") {
			a1[k] += complex(0, by)
		} else {
			a1[k] += complex(by, 0)
		}
		if got := pfutil.CmplxEqualApprox(a, a1, tol); got != (math.Abs(by) < tol) {
			rt.Fatalf("element %d of %d off by %g, tolerance %g: equal is %v", k, n, by, tol, got)
		}
		if pfutil.CmplxEqualApprox(a, a[:n-1], tol) || pfutil.CmplxEqualApprox(a[:n-1], a, tol) {
			rt.Fatalf("slices of different length are equal")
		}
		if n > 1 {
			c.NonTrivial("%v %v", a, b)
		}
	})
}

// The slice wrappers give access to the data itself; only the real part is touched
func TestU01_Wrappers(t *testing.T) {
	pbt.Check(t, "sequences of Get and Set against a model; non-trivial: a Set on each", 20000, 200000, func(rt *rapid.T, c *pbt.Case) {
		n := rapid.IntRange(1, 8).Draw(rt, "n")
		x := gen.Field(rt, "x", n, -3, 3)
		z := gen.CField(rt, "z", n, -3, 3)
		mx, mz := append([]float64{}, x...), append([]complex128{}, z...)
		rs, ps := &pfutil.RealSlice{Data: x}, &pfutil.RealPartSlice{Data: z}
		var all = []pfutil.MutableSlice{rs, ps}
		sets := [2]int{}
		for s := rapid.IntRange(1, 10).Draw(rt, "ops"); s > 0; s-- {
			w := rapid.IntRange(0, 1).Draw(rt, "which")
			i := rapid.IntRange(0, n-1).Draw(rt, "i")
			v := gen.F(rt, "v", -3, 3)
			all[w].Set(i, v)
			sets[w]++
			if w == 0 {
				mx[i] = v
			} else {
				mz[i] = complex(v, imag(mz[i]))
			}
			for i := range mx {
				if x[i] != mx[i] || z[i] != mz[i] || rs.Get(i) != mx[i] || ps.Get(i) != real(mz[i]) {
					rt.Fatalf("element %d: %g %v, read %g %g, want %g %v", i, x[i], z[i], rs.Get(i), ps.Get(i), mx[i], mz[i])
				}
			}
		}
		if rs.Len() != n || ps.Len() != n {
			rt.Fatalf("lengths %d %d want %d", rs.Len(), ps.Len(), n)
		}
		if sets[0] > 0 && sets[1] > 0 {
			c.NonTrivial("%v %v", mx, mz)
		}
	})
}

// A grid behaves like a map from positions to values; copies are independent of each other
func TestU01_Grid(t *testing.T) {
	pbt.Check(t, "histories of Set, Copy, ToComplex, FromComplex on 2D and 3D grids against a model; non-trivial: a grid changed after it was copied", 20000, 200000, func(rt *rapid.T, c *pbt.Case) {
		dim := rapid.IntRange(2, 3).Draw(rt, "dim")
		dims := gen.DimsRange(rt, dim, 1, 5)
		n := ref.Size(dims)
		grids := []pfutil.Grid{pfutil.NewGrid(append([]int{}, dims...))}
		model := [][]float64{make([]float64, n)}
		changed := false
		for s := rapid.IntRange(1, 12).Draw(rt, "ops"); s > 0; s-- {
			w := rapid.IntRange(0, len(grids)-1).Draw(rt, "which")
			switch rapid.IntRange(0, 3).Draw(rt, "op") {
			case 0:
				i := rapid.IntRange(0, n-1).Draw(rt, "node")
				v := gen.F(rt, "v", -3, 3)
				grids[w].Set(ref.Pos(dims, i), v)
				model[w][i] = v
				changed = changed || len(grids) > 1
			case 1:
				grids = append(grids, grids[w].Copy())
				model = append(model, append([]float64{}, model[w]...))
			case 2:
				z := grids[w].ToComplex()
				if len(z) != n {
					rt.Fatalf("length %d", len(z))
				}
				for i := range z {
					if z[i] != complex(model[w][i], 0) {
						rt.Fatalf("node %d: %v want %g", i, z[i], model[w][i])
					}
					z[i] = 17
				}
			case 3:
				z := gen.CField(rt, "z", n, -3, 3)
				keep := append([]complex128{}, z...)
				grids[w].FromComplex(z)
				model[w] = gen.Real(z)
				for i := range z {
					if z[i] != keep[i] {
						rt.Fatalf("the argument was changed")
					}
					z[i] = 17
				}
			}
			for g := range grids {
				for i := range model[g] {
					if v := grids[g].Get(ref.Pos(dims, i)); v != model[g][i] || grids[g].Data[i] != v {
						rt.Fatalf("grid %d of %d, domain %v, node %d: %g want %g", g, len(grids), dims, i, v, model[g][i])
					}
				}
				for i := range dims {
					if grids[g].Dims[i] != dims[i] {
						rt.Fatalf("grid %d: domain %v want %v", g, grids[g].Dims, dims)
					}
				}
			}
		}
		if len(grids) > 1 {
			grids[0].Dims[0] = -1
			if grids[1].Dims[0] == -1 {
				rt.Fatalf("copies share their dimensions")
			}
		}
		if changed {
			c.NonTrivial("%v %v", dims, model)
		}
	})
}

// Rotate2D: every node holds the value of the node at the position turned about the centre
func TestU01_Rotate(t *testing.T) {
	pbt.Check(t, "random 2D grids and angles, every node with its own value; non-trivial: angle not zero", 20000, 200000, func(rt *rapid.T, c *pbt.Case) {
		dims := gen.DimsRange(rt, 2, 1, 12)
		angle := gen.F(rt, "angle", -7, 7)
		if rapid.IntRange(0, 3).Draw(rt, "right") == 0 {
			angle = math.Pi / 2 * float64(rapid.IntRange(-4, 4).Draw(rt, "quarter"))
		}
		grid := pfutil.NewGrid(append([]int{}, dims...))
		for i := range grid.Data {
			grid.Data[i] = float64(i)
		}
		grid.Rotate2D(angle)
		s, co := math.Sincos(angle)
		for i, v := range grid.Data {
			pos := ref.Pos(dims, i)
			if v != math.Trunc(v) || v < 0 || int(v) >= len(grid.Data) {
				rt.Fatalf("dims %v angle %g: node %v has a value that was not there", dims, angle, pos)
			}
			// Turning forward by the angle takes the source to the node
			x, y := float64(pos[0]-dims[0]/2), float64(pos[1]-dims[1]/2)
			at := [2]float64{x*co - y*s + float64(dims[0]/2), y*co + x*s + float64(dims[1]/2)}
			src := ref.Pos(dims, int(v))
			for k := range src {
				d := float64(src[k]) - at[k]
				d -= math.Round(d/float64(dims[k])) * float64(dims[k])
				if math.Abs(d) > 1+1e-6 {
					rt.Fatalf("dims %v angle %g: node %v comes from %v, want about %v", dims, angle, pos, src, at)
				}
			}
			if angle == 0 && int(v) != i {
				rt.Fatalf("dims %v: not turned, but node %d comes from %g", dims, i, v)
			}
		}
		g3 := pfutil.NewGrid([]int{2, 2, 2})
		if pbt.Panics(func() { g3.Rotate2D(angle) }) == "" {
			rt.Fatalf("3D grids are not refused")
		}
		if angle != 0 {
			c.NonTrivial("%v %g", dims, angle)
		}
	})
}
