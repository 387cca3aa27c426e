package pfcx

import (
	"fmt"
	"math"
	"math/rand"
	"testing"

	"github.com/davidkleiven/gopf/pfc"
	"gonum.org/v1/gonum/integrate/quad"
	"gonum.org/v1/gonum/mat"
	"pgregory.net/rapid"
	"verifharness/gen"
	"verifharness/pbt"
)

// The rule with n points is exact for polynomials of degree 2n-1 in each direction
func TestP02_Quadrature(t *testing.T) {
	pbt.Check(t, "random polynomials of degree up to 2n-1 in each direction, n up to 9 and now and then 30; non-trivial: more than one term", 30000, 300000, func(rt *rapid.T, c *pbt.Case) {
		n := rapid.IntRange(1, 9).Draw(rt, "n")
		if rapid.IntRange(0, 49).Draw(rt, "many points") == 49 {
			n = rapid.IntRange(10, 30).Draw(rt, "points")
		}
		three := rapid.Bool().Draw(rt, "3d")
		type mono struct {
			p [3]int
			a float64
		}
		var ms []mono
		want, scale := 0.0, 0.0
		for k := rapid.IntRange(1, 5).Draw(rt, "terms"); k > 0; k-- {
			m := mono{a: gen.F(rt, "a", -3, 3)}
			v := m.a
			for d := range m.p {
				if d < 2 || three {
					m.p[d] = rapid.IntRange(0, 2*n-1).Draw(rt, "p")
				}
				v /= float64(m.p[d] + 1)
			}
			want += v
			scale += math.Abs(m.a)
			ms = append(ms, m)
		}
		f := func(x, y, z float64) float64 {
			s := 0.0
			for _, m := range ms {
				s += m.a * math.Pow(x, float64(m.p[0])) * math.Pow(y, float64(m.p[1])) * math.Pow(z, float64(m.p[2]))
			}
			return s
		}
		got := 0.0
		if three {
			got = pfc.QuadCube(f, n)
		} else {
			got = pfc.QuadSquare(func(x, y float64) float64 { return f(x, y, 1) }, n)
		}
		if !(math.Abs(got-want) <= 1e-10*(1+scale)) {
			// the tabulated rule with 26 points is wrong: the result must be
			// what the product of that rule gives
			if n == 26 {
				s := 0.0
				for _, m := range ms {
					v := m.a
					for d := range m.p {
						if d < 2 || three {
							v *= gonumMoment(n, m.p[d])
						}
					}
					s += v
				}
				want = s
			}
			if n != 26 || !(math.Abs(got-want) <= 1e-10*(1+scale)) || !c.Known("KF-QUAD26") {
				rt.Fatalf("%d points, 3D %v, %v: integral %g want %g", n, three, ms, got, want)
			}
		}
		if len(ms) > 1 {
			c.NonTrivial("%d %v %v", n, three, ms)
		}
		c.LabelIf(three, "3D")
	})
}

// gonumMoment is the integral of x^p over [0, 1] by the rule of gonum
func gonumMoment(n, p int) float64 {
	x, w := make([]float64, n), make([]float64, n)
	quad.Legendre{}.FixedLocations(x, w, 0, 1)
	s := 0.0
	for i := range x {
		s += w[i] * math.Pow(x[i], float64(p))
	}
	return s
}

func TestP02_QuadratureKnown(t *testing.T) {
	pbt.KnownFinding(t, "KF-QUAD26", func() string {
		if v := pfc.QuadSquare(func(x, y float64) float64 { return 1 }, 26); math.Abs(v-1) > 1e-10 {
			return fmt.Sprintf("QuadSquare(1, 26) = %g", v)
		}
		return ""
	})
}

// lattice vectors of a mode
func modeVecs(m pfc.Miller, dim int) [][3]int {
	var out [][3]int
	for k := range equivalent(m) {
		if dim == 3 || k.L == 0 {
			out = append(out, [3]int{k.H, k.K, k.L})
		}
	}
	return out
}

// exactIntegral counts the ways to write zero as a sum of powers[i] vectors of each mode
func exactIntegral(modes []pfc.Miller, powers []int, dim int) float64 {
	cur := map[[3]int]float64{{}: 1}
	for i, p := range powers {
		vs := modeVecs(modes[i], dim)
		for ; p > 0; p-- {
			next := map[[3]int]float64{}
			for a, n := range cur {
				for _, v := range vs {
					next[[3]int{a[0] + v[0], a[1] + v[1], a[2] + v[2]}] += n
				}
			}
			cur = next
		}
	}
	return cur[[3]int{}]
}

func drawModes(rt *rapid.T, num, max, dim int) []pfc.Miller {
	var out []pfc.Miller
	for len(out) < num {
		m := pfc.Miller{H: rapid.IntRange(-max, max).Draw(rt, "h"), K: rapid.IntRange(-max, max).Draw(rt, "k")}
		if dim == 3 {
			m.L = rapid.IntRange(-max, max).Draw(rt, "l")
		}
		if m == (pfc.Miller{}) {
			m.H = 1
		}
		out = append(out, m)
	}
	return out
}

func largest(m pfc.Miller) int {
	b := 0
	for _, v := range []int{m.H, m.K, m.L} {
		if v < 0 {
			v = -v
		}
		if v > b {
			b = v
		}
	}
	return b
}

func drawRec(rt *rapid.T, dim int) pfc.ReciprocalCell {
	cell := pfc.Cell{CellVec: drawCell(rt, dim)}
	return cell.Reciprocal()
}

func TestP02_ModeDensity(t *testing.T) {
	pbt.Check(t, "random modes and positions in 2D and 3D, one integral of a product of modes; non-trivial: the integral is not zero", 940, 23000, func(rt *rapid.T, c *pbt.Case) {
		dim := rapid.IntRange(2, 3).Draw(rt, "dim")
		max := 5 - dim
		ms := pfc.ModeSolver{Miller: drawModes(rt, rapid.IntRange(1, 5).Draw(rt, "modes"), max, dim), ReciprocalCell: drawRec(rt, dim)}
		for k := 0; k < 5; k++ {
			i := rapid.IntRange(0, len(ms.Miller)-1).Draw(rt, "mode")
			pos := gen.Vec(rt, "pos", dim, -2, 2)
			want := 0.0
			for _, v := range modeVecs(ms.Miller[i], dim) {
				arg := 0.0
				for d := range pos {
					arg += float64(v[d]) * pos[d]
				}
				want += math.Cos(2 * math.Pi * arg)
			}
			if g := ms.ModeDensity(i, pos); !(math.Abs(g-want) <= 1e-9) {
				rt.Fatalf("mode %v at %v: density %g want %g", ms.Miller[i], pos, g, want)
			}
		}
		powers := make([]int, len(ms.Miller))
		k := 0
		for i := range powers {
			powers[i] = rapid.IntRange(0, 3).Draw(rt, "power")
			if k+powers[i]*largest(ms.Miller[i]) > 5 {
				powers[i] = 0
			}
			k += powers[i] * largest(ms.Miller[i])
		}
		order := 2*k + 12 + rapid.IntRange(0, 3).Draw(rt, "extra")
		want := exactIntegral(ms.Miller, powers, dim)
		if g := ms.UnitcellIntegral(powers, order); !(math.Abs(g-want) <= 1e-6*(1+want)) {
			rt.Fatalf("modes %v powers %v order %d dim %d: integral %g want %g", ms.Miller, powers, order, dim, g, want)
		}
		if pbt.Panics(func() { ms.UnitcellIntegral(append(powers, 1), 4) }) == "" {
			rt.Fatalf("a wrong number of powers is not refused")
		}
		c.LabelIf(dim == 3, "3D")
		if want != 0 {
			c.NonTrivial("%v %v %d", ms.Miller, powers, dim)
		}
	})
}

type poly struct {
	pow   [][]int
	coeff []float64
	tol   float64 // size of terms that may be dropped
}

func (p poly) eval(a []float64) (e, slack float64) {
	for i, pw := range p.pow {
		v := p.coeff[i]
		for j := range a {
			v *= math.Pow(a[j], float64(pw[j]))
		}
		e += v
		// Equivalent modes leave a direction in which the terms grow and cancel each other
		slack += 1e-9 * math.Abs(v)
		if math.Abs(p.coeff[i]) < p.tol {
			slack += math.Abs(v)
		}
	}
	return
}

// freeEnergy returns the ideal energy without the quadratic part as a polynomial in the amplitudes
func freeEnergy(modes []pfc.Miller, mix pfc.IdealMix, dim int) poly {
	var p poly
	fact := []float64{1, 1, 2, 6, 24}
	for tot := 3; tot <= 4; tot++ {
		pref := -mix.C3 / 6
		if tot == 4 {
			pref = mix.C4 / 12
		}
		var rec func(pw []int, left int)
		rec = func(pw []int, left int) {
			if len(pw) == len(modes)-1 {
				q := append(append([]int{}, pw...), left)
				m := fact[tot]
				for _, x := range q {
					m /= fact[x]
				}
				p.pow = append(p.pow, q)
				p.coeff = append(p.coeff, pref*m*exactIntegral(modes, q, dim))
				return
			}
			for x := 0; x <= left; x++ {
				rec(append(append([]int{}, pw...), x), left-x)
			}
		}
		rec(nil, tot)
	}
	for _, v := range p.coeff {
		p.tol = math.Max(p.tol, 1.01e-4*math.Abs(v))
	}
	return p
}

func TestP02_Solve(t *testing.T) {
	pbt.Check(t, "random modes in 2D, polynomials and starting points; non-trivial: the solid is stable", 150, 2500, func(rt *rapid.T, c *pbt.Case) {
		solveCase(rt, c, 2, rapid.SampledFrom([]int{2, 1, 2, 3, 2, 1, 2, 3, 4}).Draw(rt, "modes"), rapid.IntRange(1, 2).Draw(rt, "max"))
	})
}

func TestP02_Solve3D(t *testing.T) {
	pbt.Check(t, "random modes in 3D, polynomials and starting points; non-trivial: the solid is stable", 3, 98, func(rt *rapid.T, c *pbt.Case) {
		solveCase(rt, c, 3, rapid.IntRange(1, 2).Draw(rt, "modes"), 2)
	})
}

func solveCase(rt *rapid.T, c *pbt.Case, dim, num, max int) {
	ms := pfc.ModeSolver{IdealMix: pfc.IdealMix{C3: gen.F(rt, "C3", 0, 3) * rapid.SampledFrom([]float64{1, -1}).Draw(rt, "C3sign"), C4: gen.F(rt, "C4", 0.5, 3)}, Miller: drawModes(rt, num, max, dim), ReciprocalCell: drawRec(rt, dim)}
	if num > 1 && rapid.IntRange(0, 3).Draw(rt, "linked") != 0 {
		// the second mode is the sum of two vectors of the first, so that the third order terms do not vanish
		a := [3]int{ms.Miller[0].H, ms.Miller[0].K, ms.Miller[0].L}
		p := rapid.SampledFrom(perms3).Draw(rt, "perm")
		if dim == 2 {
			p = [][3]int{{0, 1, 2}, {1, 0, 2}}[p[0]%2]
		}
		var b [3]int
		for i := range b {
			b[i] = a[i] + a[p[i]]*rapid.SampledFrom([]int{-1, 1}).Draw(rt, "sgn")
		}
		m := pfc.Miller{H: b[0], K: b[1], L: b[2]}
		if largest(m) > 0 && largest(m) <= 3 {
			ms.Miller[1] = m
		}
	}
	e := freeEnergy(ms.Miller, ms.IdealMix, dim)
	x0 := make([]float64, num)
	for i := range x0 {
		x0[i] = gen.F(rt, "x0", 0.02, 0.5)
	}
	starts := [][]float64{}
	kind := rapid.SampledFrom([]string{"default", "octant", "single"}).Draw(rt, "explorer")
	var ex pfc.InitialGuessExplorer
	switch kind {
	case "default":
		for i := range x0 {
			x0[i] = 0.1
		}
	case "octant":
		ex = &pfc.HyperOctantExplorer{X0: x0}
	default:
		for i := range x0 {
			if rapid.Bool().Draw(rt, "neg") {
				x0[i] = -x0[i]
			}
		}
		ex = &pfc.SinglePointExplorer{X0: append([]float64{}, x0...)}
		starts = append(starts, x0)
	}
	if kind != "single" {
		for s := 0; s < 1<<uint(num); s++ {
			v := append([]float64{}, x0...)
			for i := range v {
				if s&(1<<uint(i)) != 0 {
					v[i] = -v[i]
				}
			}
			starts = append(starts, v)
		}
	}
	res := ms.Solve(ex)
	what := fmt.Sprintf("modes %v dim %d %+v explorer %s %v: energy %g at %v", ms.Miller, dim, ms.IdealMix, kind, x0, res.Energy, res.Amplitudes)
	if len(res.Amplitudes) != num {
		rt.Fatalf("%s: %d amplitudes", what, len(res.Amplitudes))
	}
	got, slack := e.eval(res.Amplitudes)
	tol := func(s float64) float64 { return 1e-7 + 2*s }
	if !(math.Abs(got-res.Energy) <= tol(slack)+1e-6*math.Abs(got)) {
		rt.Fatalf("%s: the energy at the amplitudes is %g", what, got)
	}
	if !(res.Energy <= 0) {
		rt.Fatalf("%s: worse than the liquid", what)
	}
	for _, s := range starts {
		if v, sl := e.eval(s); !(res.Energy <= v+tol(sl+slack)) {
			rt.Fatalf("%s: worse than the starting point %v with %g", what, s, v)
		}
	}
	// a local minimum
	r := rand.New(rand.NewSource(int64(rapid.IntRange(0, 1<<30).Draw(rt, "seed"))))
	for k := 0; k < 20; k++ {
		v := append([]float64{}, res.Amplitudes...)
		for i := range v {
			v[i] += 1e-3 * (2*r.Float64() - 1)
		}
		if g, sl := e.eval(v); !(g >= got-tol(sl+slack)) {
			rt.Fatalf("%s: not a minimum, the energy is %g at %v", what, g, v)
		}
	}
	if res.Energy < -1e-7 {
		c.NonTrivial("%s", what)
	}
	c.Label(kind)
	c.Note("%s", what)
}

func TestP02_Explorers(t *testing.T) {
	pbt.Check(t, "random starting points with one to six components; non-trivial: more than one component", 10000, 100000, func(rt *rapid.T, c *pbt.Case) {
		n := rapid.IntRange(1, 6).Draw(rt, "n")
		x0 := gen.Vec(rt, "x0", n, 0.1, 3)
		for i := range x0 {
			if rapid.Bool().Draw(rt, "neg") {
				x0[i] = -x0[i]
			}
		}
		keep := fmt.Sprint(x0)
		h := pfc.HyperOctantExplorer{X0: x0}
		seen := map[string]bool{}
		cnt := 0
		for v := h.Next(); v != nil; v = h.Next() {
			if cnt++; cnt > 1<<uint(n) {
				rt.Fatalf("%v: more than %d points", x0, 1<<uint(n))
			}
			for i := range v {
				if math.Abs(v[i]) != math.Abs(x0[i]) {
					rt.Fatalf("%v: start %v", x0, v)
				}
			}
			seen[fmt.Sprint(v)] = true
			h.OnMinimizationFinished(nil)
			v[0] = 100 // the caller may do what it likes with the point
		}
		if len(seen) != 1<<uint(n) || fmt.Sprint(x0) != keep {
			rt.Fatalf("%v: %d of %d combinations", x0, len(seen), 1<<uint(n))
		}
		s := pfc.SinglePointExplorer{X0: x0}
		v := s.Next()
		if fmt.Sprint(v) != keep || s.Next() != nil || s.Next() != nil {
			rt.Fatalf("single point %v: got %v and more", x0, v)
		}
		if n > 1 {
			c.NonTrivial("%v", x0)
		}
	})
}

// modulus is C_stuv = m_t Q_su m_v
func modulus(m pfc.Miller, q *mat.Dense, s, t, u, v int) float64 {
	return hkl(m)[t] * q.At(s, u) * hkl(m)[v]
}

func refBulk(m pfc.Miller, q *mat.Dense) float64 {
	w := 0.0
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			w += modulus(m, q, i, i, j, j)
		}
	}
	return w / 9
}

func refShear(m pfc.Miller, q *mat.Dense) float64 {
	w := 0.0
	for i := 0; i < 3; i++ {
		w += modulus(m, q, i, i, i, i)
		for j := i + 1; j < 3; j++ {
			w += 3*modulus(m, q, i, j, i, j) - modulus(m, q, i, i, j, j)
		}
	}
	return w / 15
}

func refArea(m pfc.Miller, q *mat.Dense) float64 {
	w := 0.0
	for i := 0; i < 2; i++ {
		for j := 0; j < 2; j++ {
			w += modulus(m, q, i, i, j, j)
		}
	}
	return w / 4
}

func metric(rc pfc.ReciprocalCell) *mat.Dense {
	d, _ := rc.CellVec.Dims()
	q := mat.NewDense(d, d, nil)
	q.Mul(rc.CellVec.T(), rc.CellVec)
	return q
}

func TestP02_Weights(t *testing.T) {
	pbt.Check(t, "random modes and cells; non-trivial: all", 30000, 300000, func(rt *rapid.T, c *pbt.Case) {
		dim := rapid.IntRange(2, 3).Draw(rt, "dim")
		m := drawModes(rt, 1, 4, dim)[0]
		q := metric(drawRec(rt, dim))
		chk := func(what string, got, want float64) {
			if !(math.Abs(got-want) <= 1e-9*(1+math.Abs(want))) {
				rt.Fatalf("%s for %v and Q %v: %g want %g", what, m, q, got, want)
			}
		}
		if dim == 3 {
			chk("bulk", pfc.BulkModWeight(m, q), refBulk(m, q))
			chk("shear", pfc.ShearModWeight(m, q), refShear(m, q))
		} else {
			chk("area", pfc.AreaModulusWeight(m, q), refArea(m, q))
			// average over the equivalent planes of a square lattice
			a := gen.F(rt, "a", 0.5, 5)
			sq := pfc.SC2D(a)
			qs := metric(sq.Reciprocal())
			g, w, n := 0.0, 0.0, 0.0
			for k := range equivalent(pfc.Miller{H: m.H, K: m.K}) {
				if k.L != 0 {
					continue
				}
				g += pfc.XYPlaneShearWeight(k, qs)
				w += (modulus(k, qs, 0, 0, 0, 0) + modulus(k, qs, 1, 1, 1, 1) - 2*modulus(k, qs, 0, 0, 1, 1) + 4*modulus(k, qs, 0, 1, 0, 1)) / 8
				n++
			}
			chk("xyshear", g/n, w/n)
		}
		c.NonTrivial("%v %v", m, q)
	})
}

func TestP02_ElasticFit(t *testing.T) {
	pbt.Check(t, "random cubic modes, achievable target moduli (as many as modes or fewer); non-trivial: all", 1100, 29000, func(rt *rapid.T, c *pbt.Case) {
		dim := rapid.IntRange(2, 3).Draw(rt, "dim")
		num := gen.Count(rt, "modes", 1, 3, 6)
		ms := pfc.ModeSolver{}
		var q *mat.Dense
		names := []string{"area", "xyshear"}
		a := gen.F(rt, "a", 2, 6)
		if dim == 3 {
			names = []string{"bulk", "shear"}
			sc := pfc.SC3D(a)
			ms.ReciprocalCell = sc.Reciprocal()
		} else {
			sc := pfc.SC2D(a)
			ms.ReciprocalCell = sc.Reciprocal()
		}
		q = metric(ms.ReciprocalCell)
		fam := []pfc.Miller{{H: 1}, {H: 1, K: 1}, {H: 1, K: 1, L: 1}, {H: 2}, {H: 2, K: 1}}
		for len(ms.Miller) < num {
			m := rapid.SampledFrom(fam).Draw(rt, "mode")
			if dim == 2 {
				m.L = 0
			}
			ms.Miller = append(ms.Miller, m)
		}
		weight := map[string]func(pfc.Miller, *mat.Dense) float64{"bulk": pfc.BulkModWeight, "shear": pfc.ShearModWeight, "area": pfc.AreaModulusWeight, "xyshear": pfc.XYPlaneShearWeight}
		amp := make([]float64, num)
		for i := range amp {
			amp[i] = gen.F(rt, "amp", 0.5, 3)
		}
		target := map[string]float64{}
		for i, k := range names {
			if i > 0 && rapid.IntRange(0, 2).Draw(rt, "one") == 0 {
				break
			}
			for j := range amp {
				target[k] += amp[j] * amp[j] * weight[k](ms.Miller[j], q)
			}
		}
		what := fmt.Sprintf("modes %v dim %d a %g target %v", ms.Miller, dim, a, target)
		res := ms.MatchElasticProp(target)
		if len(res.Amp) != num || len(res.Fit) != len(target) {
			rt.Fatalf("%s: %d amplitudes %d properties", what, len(res.Amp), len(res.Fit))
		}
		for k, v := range target {
			w := 0.0
			for j := range res.Amp {
				w += res.Amp[j] * res.Amp[j] * weight[k](ms.Miller[j], q)
			}
			if !(math.Abs(w-res.Fit[k]) <= 1e-9*(1+math.Abs(w))) {
				rt.Fatalf("%s: fit of %s is %g, the amplitudes %v give %g", what, k, res.Fit[k], res.Amp, w)
			}
			if !(math.Abs(v-res.Fit[k]) <= 1e-3*(1+math.Abs(v))) {
				rt.Fatalf("%s: fit of %s is %g with amplitudes %v, target from %v", what, k, res.Fit[k], res.Amp, amp)
			}
		}
		mode := gen.Vec(rt, "modeamp", num, -2, 2)
		pw := ms.PeakWidths(target, mode)
		for i := range mode {
			n := 0.0
			for k := range equivalent(ms.Miller[i]) {
				if dim == 3 || k.L == 0 {
					n++
				}
			}
			want := math.Sqrt(0.5*n) * math.Abs(mode[i]/res.Amp[i])
			if !(math.Abs(pw.Widths[i]-want) <= 1e-3*(1+want)) && math.Abs(res.Amp[i]) > 1e-3 {
				rt.Fatalf("%s: width of peak %d is %g, want %g", what, i, pw.Widths[i], want)
			}
		}
		for k := range target {
			if !(math.Abs(pw.Fit[k]-res.Fit[k]) <= 1e-3*(1+math.Abs(res.Fit[k]))) {
				rt.Fatalf("%s: fit %v and %v", what, pw.Fit, res.Fit)
			}
		}
		target["young"] = 1
		if pbt.Panics(func() { ms.MatchElasticProp(target) }) == "" {
			rt.Fatalf("an unknown property is not refused")
		}
		c.Label(fmt.Sprintf("%d modes %d properties", num, len(target)-1))
		c.NonTrivial("%s", what)
	})
}

func TestP02_IdealMix(t *testing.T) {
	pbt.Check(t, "random parameters and densities; non-trivial: density not zero", 40000, 400000, func(rt *rapid.T, c *pbt.Case) {
		m := pfc.IdealMix{C3: gen.F(rt, "C3", -5, 5), C4: gen.F(rt, "C4", -5, 5)}
		n := gen.F(rt, "n", -3, 3) * float64(rapid.IntRange(1, 4).Draw(rt, "scale"))
		e := n*n/2 - m.C3*n*n*n/6 + m.C4*n*n*n*n/12
		d := n - m.C3*n*n/2 + m.C4*n*n*n/3
		if !(math.Abs(m.Eval(n)-e) <= 1e-10*(1+math.Abs(e))) || !(math.Abs(m.Deriv(n)-d) <= 1e-10*(1+math.Abs(d))) {
			rt.Fatalf("%+v at %g: %g and %g want %g and %g", m, n, m.Eval(n), m.Deriv(n), e, d)
		}
		if m.QuadraticPrefactor() != 0.5 || math.Abs(m.ThirdOrderPrefactor()+m.C3/6) > 1e-14 || math.Abs(m.FourthOrderPrefactor()-m.C4/12) > 1e-14 {
			rt.Fatalf("%+v: prefactors", m)
		}
		if n != 0 {
			c.NonTrivial("%v %g", m, n)
		}
	})
}
