package terms

import (
	"fmt"
	"math"
	"testing"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"gonum.org/v1/gonum/mathext"
	"pgregory.net/rapid"
	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
)

// The Vandeven filter is 1 - I_x(p, p), it falls from one to zero
func TestC11_Vandeven(t *testing.T) {
	pbt.Check(t, "orders 1 to 40 at 60 points each, plus points above one; non-trivial: a point where the filter is neither 0 nor 1", 1200, 12000,
		func(rt *rapid.T, c *pbt.Case) {
			p := rapid.IntRange(1, 40).Draw(rt, "order")
			f := pf.NewVandeven(p)
			mid := false
			lastX, lastY := -1.0, 2.0
			x := 0.0
			for k := 0; k < 60; k++ {
				want := 0.0
				if x < 1 {
					want = 1 - mathext.RegIncBeta(float64(p), float64(p), x)
				}
				got := f.Eval(x)
				if !(math.Abs(got-want) < 1e-4) {
					rt.Fatalf("order %d at %g: got %g want %g", p, x, got, want)
				}
				if got > lastY+1e-12 {
					rt.Fatalf("order %d grows from %g at %g to %g at %g", p, lastY, lastX, got, x)
				}
				mid = mid || (got > 0.05 && got < 0.95)
				lastX, lastY = x, got
				x += gen.F(rt, "dx", 0, 0.04)
			}
			if v := f.Eval(0); v != 1 {
				rt.Fatalf("order %d is %g at 0", p, v)
			}
			if v := f.Eval(1 + gen.F(rt, "above", 0, 3)); !(math.Abs(v) < 1e-4) {
				rt.Fatalf("order %d is %g above 1", p, v)
			}
			if mid {
				c.NonTrivial("%d %g", p, x)
			}
		})
}

type recFilter struct {
	shape func(x float64) float64
	seen  []float64
}

func (r *recFilter) Eval(x float64) float64 {
	r.seen = append(r.seen, x)
	return r.shape(x)
}

// A modal filter multiplies every mode with its value at the length of the frequency (up to a fixed unit)
func TestC11_ModalFilter(t *testing.T) {
	pbt.Check(t, "random data, domains and filter shapes; non-trivial: modes with different factors", 3300, 60000,
		func(rt *rapid.T, c *pbt.Case) {
			dims := termDims(rt)
			n := ref.Size(dims)
			data := gen.CField(rt, "data", n, -1, 1)
			a := gen.F(rt, "a", 0.1, 30)
			kind := rapid.IntRange(0, 2).Draw(rt, "shape")
			shape := func(x float64) float64 {
				switch kind {
				case 0:
					return 1 / (1 + a*x*x)
				case 1:
					return math.Exp(-a * x)
				}
				if x > 0.02*a {
					return 0
				}
				return 1 - x
			}
			ft := pfutil.NewFFTW(dims)
			got := append([]complex128{}, data...)
			pf.ApplyModalFilter(&recFilter{shape: shape}, ft.Freq, got)
			want := append([]complex128{}, data...)
			diff := false
			for i := range want {
				r := math.Sqrt(ref.K2(dims, i)) / (2 * math.Pi)
				// stay away from the jump of the third shape
				if kind == 2 && math.Abs(r*2/math.Pi-0.02*a) < 1e-9 {
					got[i], want[i] = 0, 0
					continue
				}
				v := shape(r * 2 / math.Pi)
				want[i] *= complex(v, 0)
				diff = diff || v != 1
			}
			if d := pbt.Diff(got, want, 1e-12); d != "" {
				rt.Fatalf("dims %v shape %d a %g: %s", dims, kind, a, d)
			}
			if diff {
				c.NonTrivial("%v %d %g %v", dims, kind, a, data[0])
			}
		})
}

// The bound transform maps the real line into (Min, Max), increasing, and back
func TestC11_BoundTransform(t *testing.T) {
	pbt.Check(t, "random bounds and pairs of points up to 1e8 in size; non-trivial: two different points", 20000, 200000,
		func(rt *rapid.T, c *pbt.Case) {
			lo := gen.F(rt, "lo", -5, 5)
			w := gen.F(rt, "w", 0.001, 5)
			bt := pf.BoundTransform{Min: lo, Max: lo + w}
			pt := func(l string) float64 {
				return gen.F(rt, l, -10, 10) * math.Pow(10, float64(rapid.IntRange(-2, 7).Draw(rt, l+"e")))
			}
			x, y := pt("x"), pt("y")
			fx, fy := bt.Forward(x), bt.Forward(y)
			if !(fx > bt.Min && fx < bt.Max) {
				rt.Fatalf("(%g, %g): %g maps to %g", bt.Min, bt.Max, x, fx)
			}
			if (x < y && fx > fy) || (x > y && fx < fy) || (math.Abs(x-y) > 1e-3*(1+x*x+y*y) && fx == fy) {
				rt.Fatalf("(%g, %g): %g -> %g, %g -> %g", bt.Min, bt.Max, x, fx, y, fy)
			}
			if b := bt.Backward(fx); !(math.Abs(b-x) <= 1e-13*(1+x*x)*(1+(math.Abs(lo)+w)/w)*10) {
				rt.Fatalf("(%g, %g): %g -> %g -> %g", bt.Min, bt.Max, x, fx, b)
			}
			// 0 is mapped to the middle, x and -x symmetrically around it
			if m := fx + bt.Forward(-x) - bt.Min - bt.Max; !(math.Abs(m) < 1e-12*(1+math.Abs(lo)+w)) {
				rt.Fatalf("(%g, %g): %g and %g are not mapped symmetrically", bt.Min, bt.Max, x, -x)
			}
			if x != y {
				c.NonTrivial("%g %g %g %g", lo, w, x, y)
			}
		})
}

func docQ(k, m float64) float64 {
	if k < m/3 {
		return 0
	}
	if k > m {
		return 1
	}
	x := 1.5*k/m - 0.5
	return 2*x*x - 3*x*x*x
}

// Spectral viscosity: the implicit factor is -eps Q(|f|) |f|^Power with the documented Q
func TestC11_SpectralViscosity(t *testing.T) {
	pbt.Check(t, "random thresholds, powers and domains, as a term of a model; non-trivial: a mode between the thresholds and one above", 3300, 60000,
		func(rt *rapid.T, c *pbt.Case) {
			dims := termDims(rt)
			n := ref.Size(dims)
			sv := pf.SpectralViscosity{Eps: gen.F(rt, "eps", 0, 3), DissipationThreshold: gen.F(rt, "m", 0.05, 0.7), Power: rapid.IntRange(0, 4).Draw(rt, "power")}
			init := gen.Field(rt, "init", n, -1, 1)
			dt := rapid.SampledFrom([]float64{0.01, 0.3, 1}).Draw(rt, "dt")
			m := pf.NewModel()
			m.AddField(pf.NewField("conc", n, gen.Cmplx(init)))
			m.RegisterImplicitTerm("VISC", asTerm(rt, &sv), nil)
			m.AddEquation("dconc/dt = VISC")
			solver := pf.NewSolver(&m, dims, dt)
			y := ref.DFT(dims, gen.Cmplx(init))
			between, above := false, false
			for i := range y {
				f := math.Sqrt(ref.K2(dims, i)) / (2 * math.Pi)
				q := docQ(f, sv.DissipationThreshold)
				if math.Abs(f-sv.DissipationThreshold) < 1e-9 {
					return // the documented function jumps here
				}
				between = between || (q != 0 && q != 1)
				above = above || q == 1
				den := 1 + dt*sv.Eps*q*math.Pow(f, float64(sv.Power))
				if math.Abs(den) < 0.05 {
					return
				}
				y[i] /= complex(den, 0)
			}
			solver.Propagate(1)
			if d := pbt.Diff(m.Fields[0].Data, ref.InvDFT(dims, y), 1e-10); d != "" {
				rt.Fatalf("%+v dims %v dt %g: %s", sv, dims, dt, d)
			}
			if between && above && sv.Eps > 0 {
				c.NonTrivial("%+v %v %v", sv, dims, init)
			}
		})
}

// A viscosity must never make a mode grow. The documented Q is negative between 7m/9 and m
func TestC11_ViscosityDampsKnown(t *testing.T) {
	pbt.KnownFinding(t, "KF-VISC", func() string {
		sv := pf.SpectralViscosity{Eps: 1, DissipationThreshold: 0.25, Power: 2}
		out := make([]complex128, 1)
		sv.Construct(nil)(func(i int) []float64 { return []float64{0.9 * 0.25, 0} }, 0, out)
		if real(out[0]) > 0 {
			return fmt.Sprintf("rate of the mode |f| = 0.9*DissipationThreshold is %g: it grows", real(out[0]))
		}
		return ""
	})
}

// Penalty is the derivative of Prefactor*(|x|^E - x^E)
func TestC11_NegativeValuePenalty(t *testing.T) {
	pbt.Check(t, "random prefactors, exponents 1 to 8 and values; non-trivial: a negative value", 20000, 200000,
		func(rt *rapid.T, c *pbt.Case) {
			nvp := pf.NegativeValuePenalty{Prefactor: gen.F(rt, "a", -3, 3), Exponent: rapid.IntRange(1, 8).Draw(rt, "e"), Field: "conc"}
			x := gen.F(rt, "x", -2, 2)
			if rapid.IntRange(0, 4).Draw(rt, "tiny") == 4 {
				x *= 1e-4
			}
			if rapid.IntRange(0, 9).Draw(rt, "default") == 9 {
				nvp = pf.NewDefaultNegativeValuePenalty("conc")
				if nvp.Prefactor != 1500 || nvp.Exponent != 3 || nvp.Field != "conc" {
					rt.Fatalf("default penalty %+v", nvp)
				}
			}
			if x == 0 && nvp.Exponent == 1 {
				return
			}
			e := float64(nvp.Exponent)
			pow := func(v float64, p int) float64 {
				r := 1.0
				for ; p > 0; p-- {
					r *= v
				}
				return r
			}
			sgn := 1.0
			if x < 0 {
				sgn = -1
			}
			want := nvp.Prefactor * e * (sgn*pow(math.Abs(x), nvp.Exponent-1) - pow(x, nvp.Exponent-1))
			if got := nvp.Penalty(x); !(math.Abs(got-want) <= 1e-10*math.Abs(want)+1e-300) {
				rt.Fatalf("%+v at %g: got %g want %g", nvp, x, got, want)
			}
			other := pf.NewField("eta", 3, []complex128{5, 6, 7})
			f := pf.NewField("conc", 3, []complex128{1, complex(x, 0), 2})
			b := map[string]pf.Brick{"conc": &f, "eta": &other}
			if got := nvp.Evaluate(1, b); got != complex(nvp.Penalty(x), 0) {
				rt.Fatalf("%+v at %g as function: %v", nvp, x, got)
			}
			if x < 0 {
				c.NonTrivial("%+v %g", nvp, x)
			}
			c.LabelIf(nvp.Exponent%2 == 0, "even exponent")
		})
}

// Lagrange multiplier: from the third step on the integral only changes by the change of the driving rate
func TestC11_VolumeConservation(t *testing.T) {
	pbt.Check(t, "random driving rates (constant or linear in time) and indicators, up to 8 steps, Euler and RK4; non-trivial: the driving rate does not integrate to zero", 6200, 100000,
		func(rt *rapid.T, c *pbt.Case) {
			dims := gen.Dims(rt, 30)
			n := ref.Size(dims)
			drive := gen.Field(rt, "drive", n, -1, 1)
			slope := 0.0
			if rapid.Bool().Draw(rt, "ramp") {
				slope = gen.F(rt, "slope", -2, 2)
			}
			ind := gen.Field(rt, "ind", n, 0, 1)
			sumInd, sumDrive := 0.0, 0.0
			for i := range ind {
				sumInd += ind[i]
				sumDrive += drive[i]
			}
			if sumInd < 0.1 {
				return
			}
			init := gen.Field(rt, "init", n, -1, 1)
			other := gen.Field(rt, "other", n, -1, 1)
			dt := rapid.SampledFrom([]float64{0.01, 0.25, 1}).Draw(rt, "dt")
			rk := rapid.Bool().Draw(rt, "rk4")
			diff := gen.F(rt, "D", 0, 1)
			m := pf.NewModel()
			m.AddField(pf.NewField("eta", n, gen.Cmplx(other)))
			m.AddField(pf.NewField("conc", n, gen.Cmplx(init)))
			m.AddScalar(pf.NewScalar("D", complex(diff, 0)))
			m.RegisterFunction("DRIVE", func(i int, b map[string]pf.Brick) complex128 { return complex(drive[i], 0) })
			m.RegisterFunction("IND", func(i int, b map[string]pf.Brick) complex128 { return complex(ind[i], 0) })
			vol := pf.NewVolumeConservingLP("conc", "IND", dt, n)
			m.RegisterExplicitTerm("LAGRANGE", asTerm(rt, &vol), nil)
			m.AddEquation("deta/dt = -eta^3")
			m.AddEquation("dconc/dt = DRIVE + D*LAP conc + LAGRANGE")
			zero := make([]float64, len(dims))
			m.AddSource(1, pf.NewSource(zero, func(t float64) float64 { return slope * t }))
			sv := pf.NewSolver(&m, dims, dt)
			off := 0.0
			if rk {
				sv.SetStepper("rk4")
				off = 0.5 * dt
			}
			sum := func() float64 {
				s := 0.0
				for _, v := range m.Fields[1].Data {
					s += real(v)
				}
				return s
			}
			last := sum()
			lam := 0.0
			for k := 0; k < rapid.IntRange(3, 8).Draw(rt, "steps"); k++ {
				sv.Propagate(1)
				now := sum()
				rate := sumDrive + slope*(float64(k)*dt+off)
				want := dt * rate
				if k >= 2 {
					want = dt * slope * dt
				}
				tol := 1e-9 * (1 + math.Abs(now) + math.Abs(rate)*dt)
				if !(math.Abs(now-last-want) <= tol) {
					rt.Fatalf("dims %v dt %g rk4 %v rate %g slope %g: step %d changes the integral by %g, want %g", dims, dt, rk, sumDrive, slope, k+1, now-last, want)
				}
				if k >= 1 {
					lam = -rate / sumInd
				}
				if !(math.Abs(vol.Multiplier-lam) <= 1e-8*(1+math.Abs(lam))) {
					rt.Fatalf("dims %v dt %g rk4 %v: multiplier %g after step %d, want %g", dims, dt, rk, vol.Multiplier, k+1, lam)
				}
				last = now
			}
			if math.Abs(sumDrive) > 1e-3 {
				c.NonTrivial("%v %g %v %v %v", dims, dt, rk, drive, ind)
			}
			c.LabelIf(rk, "rk4")
			c.LabelIf(slope != 0, "ramp")
		})
}

// min -> 0, max -> 255, linear between
func TestC11_Uint8(t *testing.T) {
	pbt.Check(t, "random data between random bounds, or bounds taken from the data; non-trivial: not constant", 30000, 300000,
		func(rt *rapid.T, c *pbt.Case) {
			n := rapid.IntRange(1, 20).Draw(rt, "n")
			lo := gen.F(rt, "lo", -3, 3)
			w := gen.F(rt, "w", 0, 3) * rapid.SampledFrom([]float64{1, 1e-3, 0.1, 1.0 / 3.0}).Draw(rt, "ws")
			hi := lo + w
			data := make([]complex128, n)
			for i := range data {
				v := lo + w*float64(rapid.IntRange(0, 1000).Draw(rt, "v"))/1000
				data[i] = complex(math.Min(math.Max(v, lo), hi), gen.F(rt, "im", -1, 1))
			}
			got := pf.RealPartAsUint8(data, lo, hi)
			if len(got) != n {
				rt.Fatalf("%d values for %d nodes", len(got), n)
			}
			for i, v := range data {
				x := 0.0
				if w >= 1e-9 {
					x = 255 * (real(v) - lo) / w
				} else if w > 0 {
					continue
				}
				if math.Abs(float64(got[i])-x) > 1+1e-6 {
					rt.Fatalf("[%g, %g]: %g is mapped to %d, want about %g", lo, hi, real(v), got[i], x)
				}
				if real(v) == lo && got[i] != 0 {
					rt.Fatalf("[%g, %g]: the minimum is mapped to %d", lo, hi, got[i])
				}
				if w >= 1e-9 && real(v) == hi && got[i] != 255 {
					rt.Fatalf("[%g, %g]: the maximum is mapped to %d", lo, hi, got[i])
				}
				for j := range data {
					if real(data[j]) < real(v) && got[j] > got[i] {
						rt.Fatalf("[%g, %g]: %g -> %d but %g -> %d", lo, hi, real(data[j]), got[j], real(v), got[i])
					}
				}
			}
			if w > 1e-6 {
				c.NonTrivial("%g %g %v", lo, hi, data)
			}
		})
}
