package terms

import (
	"fmt"
	"math"
	"testing"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfc"
	"github.com/davidkleiven/gopf/pfutil"
	"pgregory.net/rapid"
	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
)

// drawWidth gives the width of a peak, sometimes a very narrow one
func drawWidth(rt *rapid.T) float64 {
	if rapid.IntRange(0, 5).Draw(rt, "narrow") == 5 {
		return gen.F(rt, "narrowwidth", 0.01, 0.2)
	}
	return gen.F(rt, "width", 0.2, 3)
}

func drawCorr(rt *rapid.T) pfc.ReciprocalSpacePairCorrelation {
	cf := pfc.ReciprocalSpacePairCorrelation{EffTemp: gen.F(rt, "temp", 0, 2)}
	for k := rapid.IntRange(1, 3).Draw(rt, "npeaks"); k > 0; k-- {
		cf.Peaks = append(cf.Peaks, pfc.Peak{PlaneDensity: gen.F(rt, "rho", 0.2, 3), Location: gen.F(rt, "loc", 0, 4),
			Width: drawWidth(rt), NumPlanes: rapid.IntRange(1, 6).Draw(rt, "planes")})
	}
	return cf
}

// refCorr is the largest of the damped gaussian peaks
func refCorr(cf pfc.ReciprocalSpacePairCorrelation, k float64) float64 {
	best := 0.0
	for _, p := range cf.Peaks {
		e := -cf.EffTemp*cf.EffTemp*k*k/(2*p.PlaneDensity*float64(p.NumPlanes)) - (k-p.Location)*(k-p.Location)/(2*p.Width*p.Width)
		best = math.Max(best, math.Exp(e))
	}
	return best
}

func corrAt(cf pfc.ReciprocalSpacePairCorrelation, dims []int, i int) float64 {
	return refCorr(cf, math.Sqrt(ref.K2(dims, i)))
}

// semiImplicit compares one or two steps of the solver with (y + dt N)/(1 - dt A)
func semiImplicit(rt *rapid.T, c *pbt.Case, what string, m *pf.Model, dims []int, dt float64, lin []complex128, nonlin func(y []complex128) []complex128) {
	y := append([]complex128{}, m.Fields[0].Data...)
	sv := pf.NewSolver(m, dims, dt)
	for k := 0; k < rapid.IntRange(1, 2).Draw(rt, "nsteps"); k++ {
		num := ref.DFT(dims, y)
		var nl []complex128
		if nonlin != nil {
			nl = ref.DFT(dims, nonlin(y))
		}
		for i := range num {
			if nl != nil {
				num[i] += complex(dt, 0) * nl[i]
			}
			den := 1.0 - dt*real(lin[i])
			if math.Abs(den) < 0.05 {
				return
			}
			num[i] /= complex(den, 0)
		}
		y = ref.InvDFT(dims, num)
		if !(pbt.MaxAbs(y) < 1e3) {
			return
		}
		sv.Propagate(1)
		if d := pbt.Diff(m.Fields[0].Data, y, 1e-9); d != "" {
			rt.Fatalf("%s dims %v dt %g step %d: %s", what, dims, dt, k+1, d)
		}
		if im := maxImag(m.Fields[0].Data); im > 1e-9*(1+pbt.MaxAbs(y)) {
			rt.Fatalf("%s dims %v: imaginary part %g", what, dims, im)
		}
		c.NonTrivial("%s %v %g %v", what, dims, dt, y)
	}
}

// The correlation term is -A C(k) n(k), implicit and explicit, with and without laplacian
func TestC12_PairCorrelation(t *testing.T) {
	pbt.Check(t, "random correlation functions, fields, domains; non-trivial: a step was compared", 5600, 120000,
		func(rt *rapid.T, c *pbt.Case) {
			dims := termDims(rt)
			n := ref.Size(dims)
			init := gen.Field(rt, "init", n, -1, 1)
			cf := drawCorr(rt)
			term := pf.PairCorrlationTerm{PairCorrFunc: cf, Field: "dens", Prefactor: gen.F(rt, "A", -2, 2), Laplacian: rapid.Bool().Draw(rt, "lap")}
			dt := rapid.SampledFrom([]float64{0.001, 0.01, 0.2}).Draw(rt, "dt")
			explicit := rapid.Bool().Draw(rt, "explicit")
			minus := rapid.Bool().Draw(rt, "minus")
			m := pf.NewModel()
			m.AddField(pf.NewField("dens", n, gen.Cmplx(init)))
			if explicit {
				m.RegisterExplicitTerm("CORR", asTerm(rt, &pf.ExplicitPairCorrelationTerm{PairCorrlationTerm: term}), nil)
			} else {
				m.RegisterImplicitTerm("CORR", asTerm(rt, &term), nil)
			}
			sgn := 1.0
			if minus {
				m.AddEquation("ddens/dt = -CORR")
				sgn = -1
			} else {
				m.AddEquation("ddens/dt = CORR")
			}
			fac := make([]complex128, n)
			for i := range fac {
				v := -sgn * term.Prefactor * corrAt(cf, dims, i)
				if term.Laplacian {
					v *= -ref.K2(dims, i)
				}
				fac[i] = complex(v, 0)
			}
			what := fmt.Sprintf("%+v explicit=%v minus=%v", term, explicit, minus)
			c.LabelIf(explicit, "explicit")
			c.LabelIf(term.Laplacian, "laplacian")
			if explicit {
				semiImplicit(rt, c, what, &m, dims, dt, make([]complex128, n), func(y []complex128) []complex128 {
					ft := ref.DFT(dims, y)
					return ref.InvDFT(dims, mul(ft, fac))
				})
			} else {
				semiImplicit(rt, c, what, &m, dims, dt, fac, nil)
			}
		})
}

// The ideal mixture term is A F'(n), split into a linear and a non-linear part
func TestC12_IdealMixture(t *testing.T) {
	pbt.Check(t, "random polynomials, prefactors, fields, domains; as mixed term and as function; non-trivial: a step was compared", 5400, 120000,
		func(rt *rapid.T, c *pbt.Case) {
			dims := termDims(rt)
			n := ref.Size(dims)
			init := gen.Field(rt, "init", n, -1, 1)
			mix := pfc.IdealMix{C3: gen.F(rt, "C3", -3, 3), C4: gen.F(rt, "C4", -3, 3)}
			term := pf.IdealMixtureTerm{IdealMix: mix, Field: "dens", Prefactor: gen.F(rt, "A", -2, 2), Laplacian: rapid.Bool().Draw(rt, "lap")}
			dt := rapid.SampledFrom([]float64{0.001, 0.01, 0.1}).Draw(rt, "dt")
			asFunc := rapid.IntRange(0, 2).Draw(rt, "func") == 0
			m := pf.NewModel()
			m.AddField(pf.NewField("dens", n, gen.Cmplx(init)))
			poly := func(y []complex128, lin bool) []complex128 {
				out := make([]complex128, n)
				for i := range y {
					v := real(y[i])
					w := -mix.C3*v*v/2 + mix.C4*v*v*v/3
					if lin {
						w += v
					}
					out[i] = complex(term.Prefactor*w, 0)
				}
				return out
			}
			what := fmt.Sprintf("%+v function=%v", term, asFunc)
			if asFunc {
				m.RegisterFunction("MIX", term.Eval)
				if term.Laplacian {
					m.AddEquation("ddens/dt = LAP MIX")
				} else {
					m.AddEquation("ddens/dt = MIX")
				}
				semiImplicit(rt, c, what, &m, dims, dt, make([]complex128, n), func(y []complex128) []complex128 {
					v := poly(y, true)
					if term.Laplacian {
						return lap(dims, v)
					}
					return v
				})
				return
			}
			m.RegisterMixedTerm("MIX", &term, []pf.DerivedField{term.DerivedField(n, m.Bricks)})
			m.AddEquation("ddens/dt = MIX")
			lin := make([]complex128, n)
			for i := range lin {
				v := term.Prefactor
				if term.Laplacian {
					v *= -ref.K2(dims, i)
				}
				lin[i] = complex(v, 0)
			}
			c.LabelIf(term.Laplacian, "laplacian")
			semiImplicit(rt, c, what, &m, dims, dt, lin, func(y []complex128) []complex128 {
				v := poly(y, false)
				if term.Laplacian {
					return lap(dims, v)
				}
				return v
			})
		})
}

// The terms are the functional derivatives of the energies the terms report
func TestC12_Energy(t *testing.T) {
	pbt.Check(t, "random fields and directions: energy against its formula, change of the energy against the term; non-trivial: both energies differ from zero", 5200, 120000,
		func(rt *rapid.T, c *pbt.Case) {
			dims := termDims(rt)
			n := ref.Size(dims)
			field := gen.Field(rt, "field", n, -1, 1)
			dir := gen.Field(rt, "dir", n, -1, 1)
			cf := drawCorr(rt)
			mix := pfc.IdealMix{C3: gen.F(rt, "C3", -3, 3), C4: gen.F(rt, "C4", -3, 3)}
			pair := pf.PairCorrlationTerm{PairCorrFunc: cf, Field: "dens", Prefactor: gen.F(rt, "A", -2, 2), Laplacian: rapid.Bool().Draw(rt, "lap")}
			ideal := pf.IdealMixtureTerm{IdealMix: mix, Field: "dens", Prefactor: gen.F(rt, "B", -2, 2), Laplacian: pair.Laplacian}
			ft := pfutil.NewFFTW(dims)
			other := pf.NewField("other", n, nil)
			energies := func(v []float64) (float64, float64) {
				f := pf.NewField("dens", n, gen.Cmplx(v))
				b := map[string]pf.Brick{"dens": &f, "other": &other}
				e1, e2 := pair.GetEnergy(b, ft, dims), ideal.GetEnergy(b, n)
				for i := range v {
					if f.Data[i] != complex(v[i], 0) {
						rt.Fatalf("the energy changes the field")
					}
				}
				return e1, e2
			}
			e1, e2 := energies(field)
			sp := ref.DFT(dims, gen.Cmplx(field))
			w1, w2 := 0.0, 0.0
			for i := range sp {
				w1 -= 0.5 * pair.Prefactor * corrAt(cf, dims, i) * (real(sp[i])*real(sp[i]) + imag(sp[i])*imag(sp[i])) / float64(n)
				v := field[i]
				w2 += ideal.Prefactor * (v*v/2 - mix.C3*v*v*v/6 + mix.C4*v*v*v*v/12)
			}
			tol := 1e-9 * float64(n+1) * 10
			if !(math.Abs(e1-w1) < tol) || !(math.Abs(e2-w2) < tol) {
				rt.Fatalf("dims %v %+v %+v: energies %g %g, want %g %g", dims, pair, ideal, e1, e2, w1, w2)
			}
			// change along dir
			const h = 1e-3
			up, dn := make([]float64, n), make([]float64, n)
			for i := range up {
				up[i], dn[i] = field[i]+h*dir[i], field[i]-h*dir[i]
			}
			u1, u2 := energies(up)
			d1, d2 := energies(dn)
			// the terms
			pair.Laplacian, ideal.Laplacian = false, false
			f := pf.NewField("dens", n, append([]complex128{}, sp...))
			ex := pf.ExplicitPairCorrelationTerm{PairCorrlationTerm: pair}
			out := make([]complex128, n)
			ex.Construct(map[string]pf.Brick{"dens": &f})(ft.Freq, 0, out)
			g := ref.InvDFT(dims, out)
			r := pf.NewField("dens", n, gen.Cmplx(field))
			s1, s2 := 0.0, 0.0
			for i := range g {
				s1 += real(g[i]) * dir[i]
				s2 += real(ideal.Eval(i, map[string]pf.Brick{"dens": &r})) * dir[i]
			}
			tol = 1e-4 * float64(n)
			if x := (u1 - d1) / (2 * h); !(math.Abs(x-s1) < tol) {
				rt.Fatalf("dims %v %+v: the energy changes with rate %g, the term says %g", dims, pair, x, s1)
			}
			if x := (u2 - d2) / (2 * h); !(math.Abs(x-s2) < tol) {
				rt.Fatalf("dims %v %+v: the energy changes with rate %g, the term says %g", dims, ideal, x, s2)
			}
			if e1 != 0 && e2 != 0 {
				c.NonTrivial("%v %+v %+v %v", dims, pair, ideal, field)
			}
		})
}
