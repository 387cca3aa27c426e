package pfcx

import (
	"fmt"
	"math"
	"testing"

	"github.com/davidkleiven/gopf/pfc"
	"github.com/davidkleiven/gopf/pfutil"
	"pgregory.net/rapid"
	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
)

// drawWidth gives the width of a peak, sometimes a very narrow one
func drawWidth(rt *rapid.T) float64 {
	if rapid.IntRange(0, 5).Draw(rt, "narrow") == 5 {
		return gen.F(rt, "narrowwidth", 0.01, 0.2)
	}
	return gen.F(rt, "width", 0.2, 3)
}

func drawCorr(rt *rapid.T) pfc.ReciprocalSpacePairCorrelation {
	cf := pfc.ReciprocalSpacePairCorrelation{EffTemp: gen.F(rt, "temp", 0, 2)}
	for k := gen.Count(rt, "npeaks", 0, 3, 8); k > 0; k-- {
		cf.Peaks = append(cf.Peaks, pfc.Peak{PlaneDensity: gen.F(rt, "rho", 0.2, 3), Location: gen.F(rt, "loc", 0, 8),
			Width: drawWidth(rt), NumPlanes: rapid.IntRange(1, 6).Draw(rt, "planes")})
	}
	return cf
}

func refCorr(cf pfc.ReciprocalSpacePairCorrelation, k float64) float64 {
	best := 0.0
	for _, p := range cf.Peaks {
		e := -cf.EffTemp*cf.EffTemp*k*k/(2*p.PlaneDensity*float64(p.NumPlanes)) - (k-p.Location)*(k-p.Location)/(2*p.Width*p.Width)
		best = math.Max(best, math.Exp(e))
	}
	return best
}

func TestP04_Correlation(t *testing.T) {
	pbt.Check(t, "random peaks, temperatures and wave numbers; non-trivial: several peaks", 40000, 400000, func(rt *rapid.T, c *pbt.Case) {
		cf := drawCorr(rt)
		for i := 0; i < 8; i++ {
			k := gen.F(rt, "k", 0, 12)
			if len(cf.Peaks) > 0 && i%2 == 1 {
				p := rapid.SampledFrom(cf.Peaks).Draw(rt, "near")
				k = math.Abs(p.Location + p.Width*gen.F(rt, "off", -3, 3))
			}
			if g, w := cf.Eval(k), refCorr(cf, k); !(math.Abs(g-w) <= 1e-11) {
				rt.Fatalf("%+v at %g: %g want %g", cf, k, g, w)
			}
		}
		// without temperature a peak reaches one at its location
		cold := pfc.ReciprocalSpacePairCorrelation{Peaks: cf.Peaks}
		for _, p := range cf.Peaks {
			if g := cold.Eval(p.Location); math.Abs(g-1) > 1e-12 {
				rt.Fatalf("%+v: %g at the peak", cold, g)
			}
		}
		if len(cf.Peaks) > 1 {
			c.NonTrivial("%+v", cf)
		}
	})
}

func TestP04_Peaks(t *testing.T) {
	pbt.Check(t, "random lattice parameters and widths; non-trivial: all", 20000, 200000, func(rt *rapid.T, c *pbt.Case) {
		w, a := gen.F(rt, "w", 0.1, 5), gen.F(rt, "a", 0.5, 50)
		cell := pfc.SC2D(a)
		rec := cell.Reciprocal()
		got := pfc.SquareLattice2D(w, a)
		if len(got) != 2 {
			rt.Fatalf("%d peaks", len(got))
		}
		for i, m := range []pfc.Miller{{H: 1}, {H: 1, K: 1}} {
			g := rec.HKLVector(m)
			loc := math.Hypot(g[0], g[1])
			p := got[i]
			if !(math.Abs(p.Location-loc) <= 1e-10*loc) || p.Width != w || p.NumPlanes != pfc.NumEquivalent2D(m) || !(math.Abs(p.PlaneDensity-1/math.Hypot(float64(m.H), float64(m.K))) <= 1e-12) {
				rt.Fatalf("square lattice %g: peak %d is %+v, want location %g", a, i, p, loc)
			}
		}
		tri := pfc.TriangularLattice2D(w, a)
		if len(tri) != 1 || !(math.Abs(tri[0].Location-2*math.Pi/a) <= 1e-10*tri[0].Location) || tri[0].Width != w || tri[0].NumPlanes != 3 {
			rt.Fatalf("triangular lattice %g: %+v", a, tri)
		}
		c.NonTrivial("%g %g", w, a)
	})
}

func TestP04_Indicator(t *testing.T) {
	pbt.Check(t, "random arguments; non-trivial: between 0 and 1", 80000, 800000, func(rt *rapid.T, c *pbt.Case) {
		x := gen.F(rt, "x", -1, 2)
		switch rapid.IntRange(0, 3).Draw(rt, "where") {
		case 0:
			x = math.Pow(10, -gen.F(rt, "u", 0, 10))
		case 1:
			x = 1 - math.Pow(10, -gen.F(rt, "u", 0, 10))
		}
		y := math.Min(1, math.Max(0, x))
		h, d := y*y*(3-2*y), 6*y*(1-y)
		if g := pfc.Indicator(x); !(math.Abs(g-h) <= 1e-12) {
			rt.Fatalf("indicator at %g is %g want %g", x, g, h)
		}
		if g := pfc.IndicatorDeriv(x); !(math.Abs(g-d) <= 1e-12) {
			rt.Fatalf("derivative at %g is %g want %g", x, g, d)
		}
		n := rapid.IntRange(0, 5).Draw(rt, "n")
		u, v := gen.Vec(rt, "u", n, -2, 2), gen.Vec(rt, "v", n, -2, 2)
		s := 0.0
		for i := range u {
			s += u[i] * v[i]
		}
		if g := pfc.Dot(u, v); !(math.Abs(g-s) <= 1e-12) {
			rt.Fatalf("dot of %v and %v is %g", u, v, g)
		}
		if x > 0 && x < 1 {
			c.NonTrivial("%g", x)
		}
	})
}

func TestP04_TwoPhase(t *testing.T) {
	pbt.Check(t, "random pairs of correlation functions, concentrations and domains; non-trivial: the concentration is neither 0 nor 1 somewhere", 4800, 80000, func(rt *rapid.T, c *pbt.Case) {
		dims := gen.Dims(rt, 40)
		n := ref.Size(dims)
		conc := gen.Field(rt, "conc", n, -0.3, 1.3)
		tp := pfc.TwoPhaseCorrFunc{CorrFunc: []pfc.ReciprocalSpacePairCorrelation{drawCorr(rt), drawCorr(rt)}}
		cft := ref.DFT(dims, gen.Cmplx(conc))
		arg := append([]complex128{}, cft...)
		ft := pfutil.NewFFTW(dims)
		what := fmt.Sprintf("dims %v %+v conc %v", dims, tp, conc)
		want := make([]complex128, n)
		var rs [2][]complex128
		for p := range rs {
			k := make([]complex128, n)
			for i := range k {
				k[i] = complex(refCorr(tp.CorrFunc[p], math.Sqrt(ref.K2(dims, i))), 0)
			}
			rs[p] = ref.InvDFT(dims, k)
		}
		nt := false
		for i := range want {
			y := math.Min(1, math.Max(0, conc[i]))
			h := complex(y*y*(3-2*y), 0)
			want[i] = h*rs[0][i] + (1-h)*rs[1][i]
			nt = nt || (y > 0 && y < 1)
		}
		got := append([]complex128{}, tp.Evaluate(arg, ft)...)
		if d := pbt.Diff(got, want, 1e-9); d != "" {
			rt.Fatalf("%s: %s", what, d)
		}
		if d := pbt.Diff(arg, cft, 0); d != "" {
			rt.Fatalf("%s: the concentration was changed", what)
		}
		if d := pbt.Diff(tp.EvaluateFT(arg, ft), ref.DFT(dims, want), 1e-9); d != "" {
			rt.Fatalf("%s: transformed: %s", what, d)
		}
		if d := pbt.Diff(arg, cft, 0); d != "" {
			rt.Fatalf("%s: the concentration was changed by EvaluateFT", what)
		}
		num := rapid.SampledFrom([]int{0, 1, 3}).Draw(rt, "num")
		bad := pfc.TwoPhaseCorrFunc{CorrFunc: make([]pfc.ReciprocalSpacePairCorrelation, num)}
		if pbt.Panics(func() { bad.Evaluate(arg, ft) }) == "" {
			rt.Fatalf("%d correlation functions are not refused", num)
		}
		if nt {
			c.NonTrivial("%s", what)
		}
		c.LabelIf(len(dims) == 3, "3D")
	})
}
