package pfcx

import (
	"fmt"
	"math"
	"testing"

	"github.com/davidkleiven/gopf/pfc"
	"gonum.org/v1/gonum/mat"
	"pgregory.net/rapid"
	"verifharness/gen"
	"verifharness/pbt"
)

var perms3 = [][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}

func drawMiller(rt *rapid.T, max int) pfc.Miller {
	v := [3]int{}
	if rapid.IntRange(0, 9).Draw(rt, "large") == 9 {
		max *= rapid.IntRange(2, 50).Draw(rt, "times")
	}
	for i := range v {
		v[i] = rapid.IntRange(-max, max).Draw(rt, "index")
	}
	if rapid.IntRange(0, 3).Draw(rt, "tie") == 0 {
		// two indices of equal size
		i := rapid.IntRange(0, 2).Draw(rt, "i")
		v[i] = v[(i+1)%3]
		if rapid.Bool().Draw(rt, "neg") {
			v[i] = -v[i]
		}
	}
	return pfc.Miller{H: v[0], K: v[1], L: v[2]}
}

func signs(m pfc.Miller) map[pfc.Miller]bool {
	out := map[pfc.Miller]bool{}
	for s := 0; s < 8; s++ {
		out[pfc.Miller{H: m.H * (1 - 2*(s&1)), K: m.K * (1 - (s & 2)), L: m.L * (1 - (s&4)/2)}] = true
	}
	return out
}

func equivalent(m pfc.Miller) map[pfc.Miller]bool {
	out := map[pfc.Miller]bool{}
	a := [3]int{m.H, m.K, m.L}
	for _, p := range perms3 {
		for k := range signs(pfc.Miller{H: a[p[0]], K: a[p[1]], L: a[p[2]]}) {
			out[k] = true
		}
	}
	return out
}

func sameSet(got []pfc.Miller, want map[pfc.Miller]bool) string {
	seen := map[pfc.Miller]bool{}
	for _, g := range got {
		if seen[g] {
			return fmt.Sprintf("%v occurs twice", g)
		}
		seen[g] = true
		if !want[g] {
			return fmt.Sprintf("%v is not equivalent", g)
		}
	}
	if len(seen) != len(want) {
		return fmt.Sprintf("%d of %d found", len(seen), len(want))
	}
	return ""
}

func TestP01_Miller(t *testing.T) {
	pbt.Check(t, "random indices between -6 and 6, often with ties; non-trivial: a non-zero index", 60000, 600000, func(rt *rapid.T, c *pbt.Case) {
		m := drawMiller(rt, 6)
		want := equivalent(m)
		if d := sameSet(pfc.EquivalentMiller(m), want); d != "" {
			rt.Fatalf("equivalents of %v: %s", m, d)
		}
		if d := sameSet(pfc.EquivalentMillerNoPermutations(m), signs(m)); d != "" {
			rt.Fatalf("signed versions of %v: %s", m, d)
		}
		flat := 0
		for k := range want {
			if k.L == 0 {
				flat++
			}
		}
		if g := pfc.NumEquivalent3D(m); g != len(want) || pfc.NumEquivalent(m, 3) != g {
			rt.Fatalf("%v has %d equivalents in 3D, got %d and %d", m, len(want), g, pfc.NumEquivalent(m, 3))
		}
		if g := pfc.NumEquivalent2D(m); g != flat || pfc.NumEquivalent(m, 2) != g {
			rt.Fatalf("%v has %d equivalents in 2D, got %d and %d", m, flat, g, pfc.NumEquivalent(m, 2))
		}
		dim := rapid.SampledFrom([]int{-1, 0, 1, 4, 5}).Draw(rt, "dim")
		if pbt.Panics(func() { pfc.NumEquivalent(m, dim) }) == "" {
			rt.Fatalf("dimension %d is not refused", dim)
		}
		for i, v := range []int{m.H, m.K, m.L} {
			if m.At(i) != v {
				rt.Fatalf("element %d of %v is %d", i, m, m.At(i))
			}
		}
		o := drawMiller(rt, 2)
		if m.Equal(o) != (m == o) || !m.Equal(m) {
			rt.Fatalf("%v equal %v: %v", m, o, m.Equal(o))
		}
		if m != (pfc.Miller{}) {
			c.NonTrivial("%v", m)
		}
	})
}

func drawCell(rt *rapid.T, dim int) *mat.Dense {
	for {
		v := gen.Vec(rt, "cell", dim*dim, -2, 2)
		c := mat.NewDense(dim, dim, v)
		if math.Abs(mat.Det(c)) > 0.2 {
			return c
		}
		for i := 0; i < dim; i++ {
			c.Set(i, i, c.At(i, i)+4)
		}
		if math.Abs(mat.Det(c)) > 0.2 {
			return c
		}
	}
}

func det(c *mat.Dense) float64 {
	at := c.At
	if r, _ := c.Dims(); r == 2 {
		return at(0, 0)*at(1, 1) - at(0, 1)*at(1, 0)
	}
	s := 0.0
	for i := 0; i < 3; i++ {
		j, k := (i+1)%3, (i+2)%3
		s += at(0, i) * (at(1, j)*at(2, k) - at(1, k)*at(2, j))
	}
	return s
}

func hkl(m pfc.Miller) []float64 { return []float64{float64(m.H), float64(m.K), float64(m.L)} }

func TestP01_Cell(t *testing.T) {
	pbt.Check(t, "random 2D and 3D cells, right and left handed; non-trivial: not diagonal", 40000, 400000, func(rt *rapid.T, c *pbt.Case) {
		dim := rapid.IntRange(2, 3).Draw(rt, "dim")
		cv := drawCell(rt, dim)
		keep := mat.DenseCopyOf(cv)
		cell := pfc.Cell{CellVec: cv}
		d := det(cv)
		if v := cell.Volume(); !(math.Abs(v-math.Abs(d)) <= 1e-10*(1+math.Abs(d))) {
			rt.Fatalf("cell %v: volume %g, want %g", cv, v, math.Abs(d))
		}
		rc := cell.Reciprocal()
		for i := 0; i < dim; i++ {
			for j := 0; j < dim; j++ {
				dot := 0.0
				for k := 0; k < dim; k++ {
					dot += rc.CellVec.At(k, i) * keep.At(k, j)
				}
				want := 0.0
				if i == j {
					want = 2 * math.Pi
				}
				if !(math.Abs(dot-want) <= 1e-8) {
					rt.Fatalf("cell %v: reciprocal vector %d times cell vector %d is %g", cv, i, j, dot)
				}
			}
		}
		m := drawMiller(rt, 4)
		g := rc.HKLVector(m)
		if len(g) != dim {
			rt.Fatalf("hkl vector has %d components", len(g))
		}
		for i := range g {
			w := 0.0
			for j := 0; j < dim; j++ {
				w += rc.CellVec.At(i, j) * hkl(m)[j]
			}
			if !(math.Abs(w-g[i]) <= 1e-9*(1+math.Abs(w))) {
				rt.Fatalf("cell %v: vector of %v is %v", cv, m, g)
			}
		}
		// first order change against a central difference of the inverse
		dc := mat.NewDense(dim, dim, gen.Vec(rt, "change", dim*dim, -1, 1))
		dkeep := mat.DenseCopyOf(dc)
		h := 1e-4 * math.Min(1, math.Abs(d)/4)
		moved := func(s float64) pfc.ReciprocalCell {
			x := mat.NewDense(dim, dim, nil)
			x.Scale(s, dc)
			x.Add(x, keep)
			cc := pfc.Cell{CellVec: x}
			return cc.Reciprocal()
		}
		up, dn := moved(h), moved(-h)
		chg := rc.CellChange(dc)
		scale := 0.0
		for i := 0; i < dim; i++ {
			for j := 0; j < dim; j++ {
				scale = math.Max(scale, math.Abs(rc.CellVec.At(i, j)))
			}
		}
		tol := 1e-6 * math.Pow(1+scale, 4)
		for i := 0; i < dim; i++ {
			for j := 0; j < dim; j++ {
				want := (up.CellVec.At(i, j) - dn.CellVec.At(i, j)) / (2 * h)
				if !(math.Abs(chg.At(i, j)-want) <= tol) {
					rt.Fatalf("cell %v changed by %v: element %d %d of the reciprocal cell changes by %g, want %g", keep, dc, i, j, chg.At(i, j), want)
				}
			}
		}
		dg := rc.ChangeHKLVector(m, dc)
		for i := range dg {
			w := 0.0
			for j := 0; j < dim; j++ {
				w += chg.At(i, j) * hkl(m)[j]
			}
			if len(dg) != dim || !(math.Abs(w-dg[i]) <= 1e-9*(1+scale*scale)) {
				rt.Fatalf("cell %v changed by %v: vector of %v changes by %v", keep, dc, m, dg)
			}
		}
		if !mat.Equal(keep, cv) || !mat.Equal(dkeep, dc) {
			rt.Fatalf("an argument was changed")
		}
		c.NonTrivial("%v %v", cv, dc)
		c.LabelIf(d < 0, "left handed")
		c.LabelIf(dim == 3, "3D")
	})
}

// neighbours returns the distance to and the number of the nearest lattice points
func neighbours(c *mat.Dense) (float64, int) {
	dim, _ := c.Dims()
	best, num := math.Inf(1), 0
	lim := 3
	kl := 0
	if dim == 3 {
		kl = lim
	}
	for i := -lim; i <= lim; i++ {
		for j := -lim; j <= lim; j++ {
			for k := -kl; k <= kl; k++ {
				if i == 0 && j == 0 && k == 0 {
					continue
				}
				n := [3]int{i, j, k}
				r := 0.0
				for d := 0; d < dim; d++ {
					x := 0.0
					for q := 0; q < dim; q++ {
						x += c.At(d, q) * float64(n[q])
					}
					r += x * x
				}
				r = math.Sqrt(r)
				if r < best*(1-1e-9) {
					best, num = r, 0
				}
				if math.Abs(r-best) <= 1e-9*best {
					num++
				}
			}
		}
	}
	return best, num
}

func TestP01_Lattices(t *testing.T) {
	pbt.Check(t, "the four cubic lattices with random lattice parameters; non-trivial: all", 6000, 50000, func(rt *rapid.T, c *pbt.Case) {
		a := gen.F(rt, "a", 0.1, 20)
		k := rapid.IntRange(0, 3).Draw(rt, "lattice")
		name := []string{"SC2D", "SC3D", "FCC", "BCC"}[k]
		cell := []func(float64) pfc.Cell{pfc.SC2D, pfc.SC3D, pfc.FCC, pfc.BCC}[k](a)
		vol := []float64{a * a, a * a * a, a * a * a / 4, a * a * a / 2}[k]
		dist := []float64{a, a, a / math.Sqrt2, a * math.Sqrt(3) / 2}[k]
		num := []int{4, 6, 12, 8}[k]
		if v := cell.Volume(); !(math.Abs(v-vol) <= 1e-9*vol) {
			rt.Fatalf("%s(%g): volume %g want %g", name, a, v, vol)
		}
		if d, n := neighbours(cell.CellVec); n != num || !(math.Abs(d-dist) <= 1e-9*dist) {
			rt.Fatalf("%s(%g): %d neighbours at %g, want %d at %g", name, a, n, d, num, dist)
		}
		// cubic symmetry: exchanging axes and reversing them maps the lattice on itself
		dim, _ := cell.CellVec.Dims()
		inv := mat.NewDense(dim, dim, nil)
		inv.Inverse(cell.CellVec)
		for j := 0; j < dim; j++ {
			for _, p := range perms3 {
				if dim == 2 && p[2] != 2 {
					continue
				}
				for s := 0; s < 1<<uint(dim); s++ {
					for i := 0; i < dim; i++ {
						x := 0.0
						for d := 0; d < dim; d++ {
							x += inv.At(i, d) * cell.CellVec.At(p[d], j) * float64(1-2*((s>>uint(d))&1))
						}
						if math.Abs(x-math.Round(x)) > 1e-9 {
							rt.Fatalf("%s(%g) does not have cubic symmetry", name, a)
						}
					}
				}
			}
		}
		c.Label(name)
		c.NonTrivial("%s %g", name, a)
	})
}

func TestP01_TriangularKnown(t *testing.T) {
	pbt.KnownFinding(t, "KF-TRI", func() string {
		cell := pfc.Triangular2D(1)
		if d, n := neighbours(cell.CellVec); n != 6 {
			return fmt.Sprintf("Triangular2D(1): %d nearest neighbours at distance %g", n, d)
		}
		return ""
	})
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	if a < 0 {
		return -a
	}
	return a
}

func TestP01_PlaneDensity(t *testing.T) {
	pbt.Check(t, "random planes; non-trivial: not all indices are zero", 40000, 200000, func(rt *rapid.T, c *pbt.Case) {
		m := drawMiller(rt, rapid.IntRange(1, 4).Draw(rt, "max"))
		g := gcd(gcd(m.H, m.K), m.L)
		if g == 0 {
			return
		}
		want := float64(g) / math.Sqrt(float64(m.H*m.H+m.K*m.K+m.L*m.L))
		if d := pfc.CubicUnitCellDensity(m); !(math.Abs(d-want) <= 1e-12) {
			rt.Fatalf("plane %v has density %g, want %g", m, d, want)
		}
		c.NonTrivial("%v", m)
	})
}
