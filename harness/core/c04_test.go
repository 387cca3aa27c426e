package core

import (
	"math"
	"math/cmplx"
	"testing"

	"github.com/davidkleiven/gononlin/nonlin"
	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"gonum.org/v1/exp/linsolve"
	"pgregory.net/rapid"
	"verifharness/eqn"
	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
)

// phi1 = (e^z - 1)/z, phi2 = (e^z - z - 1)/z^2, evaluated by their series when z is small
func phi(z complex128) (p1, p2 complex128) {
	if cmplx.Abs(z) < 0.5 {
		term := complex(1.0, 0.0)
		for k := 1; k < 20; k++ {
			p1 += term / complex(float64(k), 0)
			term /= complex(float64(k), 0)
			p2 += term / complex(float64(k+1), 0)
			term *= z
		}
		return p1, p2
	}
	e := cmplx.Exp(z)
	return (e - 1) / z, (e - z - 1) / (z * z)
}

// impMap evaluates the right hand side of the implicit equation for the new state y1
func impMap(s *eqn.System, y0, y1 eqn.State, t, dt float64) eqn.State {
	sp := spectra(s, y0)
	out := eqn.State{}
	for _, nm := range s.Names {
		n0, a := s.Eval(nm, y0, t)
		n1, _ := s.Eval(nm, y1, t+dt)
		v := make([]complex128, len(n0))
		h := complex(dt, 0)
		for j := range v {
			p1, p2 := phi(a[j] * h)
			// exact integral of exp(a*(dt-s))*(n0 + (n1-n0)*s/dt) over one step
			v[j] = sp[nm][j]*cmplx.Exp(a[j]*h) + h*(n0[j]*p1+(n1[j]-n0[j])*p2)
		}
		out[nm] = v
	}
	return realSpace(s, out)
}

func dist(s *eqn.System, a, b eqn.State) float64 {
	m := 0.0
	for _, nm := range s.Names {
		for i := range a[nm] {
			if d := cmplx.Abs(a[nm][i] - b[nm][i]); !(d <= m) {
				m = d
			}
		}
	}
	return m
}

// implicitRef solves the implicit equation of one step by fixed point
// iterations. It returns false unless the problem is clearly a contraction: the
// iteration has to converge quickly from the old state, from rough
// perturbations of it and from the explicit step
func implicitRef(s *eqn.System, st eqn.State, t, dt float64) (eqn.State, bool) {
	guess, ok := eulerRef(s, st, t, dt, nil)
	if !ok {
		return nil, false
	}
	var sol eqn.State
	for try := 0; try < 4; try++ {
		y := eqn.State{}
		from := st
		if try == 3 {
			from = guess // where the solver starts
		}
		seed := uint32(12345 + try)
		for _, nm := range s.Names {
			y[nm] = append([]complex128{}, from[nm]...)
			for i := range y[nm] {
				seed = seed*1664525 + 1013904223
				y[nm][i] += complex(0.1*float64(try%3)*(float64(seed>>8)/float64(1<<24)-0.5), 0)
			}
		}
		last := 0.0
		for it := 0; it < 60; it++ {
			next := impMap(s, st, y, t, dt)
			d := dist(s, next, y)
			y = next
			if !bounded(s, y) || (it > 0 && d > 0.4*last && d > 1e-11) {
				return nil, false
			}
			last = d
			if d < 1e-12 {
				break
			}
		}
		if last > 1e-11 {
			return nil, false
		}
		if sol == nil {
			sol = y
		} else if dist(s, sol, y) > 1e-9 {
			return nil, false
		}
	}
	return sol, true
}

// The new state solves the implicit equation of the step
func TestC04_ImplicitEquation(t *testing.T) {
	pbt.Check(t, "random systems whose implicit equation is a contraction (a fixed point iteration of the reference converges); non-trivial: at least one explicit term", 3200, 60000,
		func(rt *rapid.T, c *pbt.Case) {
			s := eqn.Draw(rt, eqn.Opt{MaxFields: 3, MaxTerms: 3, MaxN: 20, MaxLap: 1, Lo: -1, Hi: 1, Coef: 1, Funcs: true,
				Users: true, Sources: true, Constants: true, ShuffleEqs: true, Plain: true, MaxPow: 3})
			dt := rapid.SampledFrom([]float64{0.001, 0.01, 0.05, 0.2}).Draw(rt, "dt")
			nsteps := gen.Count(rt, "nsteps", 1, 2, 8)
			rt.Logf("dt=%g %s", dt, s)
			c.Note("dt=%g steps=%d %s", dt, nsteps, s)
			st := s.InitState()
			m := s.Build()
			m.Init()
			ie := pf.ImplicitEuler{Dt: dt, FT: pfutil.NewFFTW(s.Dims)}
			for k := 0; k < nsteps; k++ {
				tm := float64(k) * dt
				y, ok := implicitRef(s, st, tm, dt)
				if !ok {
					c.Label("not a contraction")
					return
				}
				ie.Step(m)
				got := eqn.State{}
				for i, nm := range s.Names {
					got[nm] = append([]complex128{}, m.Fields[i].Data...)
				}
				scale := 1.0
				for _, nm := range s.Names {
					if v := pbt.MaxAbs(y[nm]); v > scale {
						scale = v
					}
				}
				if d := dist(s, got, y); !(d < 2e-5*scale) {
					rt.Fatalf("step %d: the state differs by %g from the solution of the implicit equation", k+1, d)
				}
				if g := ie.GetTime(); math.Abs(g-dt*float64(k+1)) > 1e-12 {
					rt.Fatalf("time is %g after %d steps of %g", g, k+1, dt)
				}
				st = got
				c.NonTrivial("%v", got)
			}
			c.LabelIf(len(s.Names) > 1, "several fields")
			c.LabelIf(len(s.Sources) > 0, "sources")
		})
}

// Linear equations: diffusion and decay with any (large) time step never grow
func TestC04_LinearDecay(t *testing.T) {
	pbt.Check(t, "linear decay and diffusion, a constant term and a point source linear in time, time steps up to 50; non-trivial: a field that is not constant", 4200, 40000,
		func(rt *rapid.T, c *pbt.Case) {
			dims := gen.Dims(rt, 24)
			n := ref.Size(dims)
			init := gen.Field(rt, "init", n, -1, 1)
			dt := rapid.SampledFrom([]float64{0.01, 0.5, 3, 50}).Draw(rt, "dt")
			d := gen.F(rt, "D", 0, 3)
			k := gen.F(rt, "k", 0, 3) * rapid.SampledFrom([]float64{1, 0.02, 1e-3, 1e-4, 1e-6}).Draw(rt, "kscale")
			c0 := gen.F(rt, "c0", -1, 1)
			src := rapid.Bool().Draw(rt, "source")
			at := make([]float64, len(dims))
			f0, f1 := 0.0, 0.0
			if src {
				for i := range at {
					at[i] = float64(rapid.IntRange(0, dims[i]-1).Draw(rt, "at"))
				}
				f0, f1 = gen.F(rt, "f0", -1, 1), gen.F(rt, "f1", -1, 1)*rapid.SampledFrom([]float64{1, 30}).Draw(rt, "f1scale")
			}
			m := pf.NewModel()
			m.AddField(pf.NewField("conc", n, gen.Cmplx(init)))
			m.AddScalar(pf.NewScalar("D", complex(d, 0)))
			m.AddScalar(pf.NewScalar("k", complex(k, 0)))
			m.AddScalar(pf.NewScalar("s", complex(c0, 0)))
			m.AddEquation("dconc/dt = D*LAP conc - k*conc + s")
			if src {
				m.AddSource(0, pf.NewSource(at, func(t float64) float64 { return f0 + f1*t }))
				c.Label("source")
			}
			m.Init()
			ie := pf.ImplicitEuler{Dt: dt, FT: pfutil.NewFFTW(dims)}
			tol := 2e-6
			if rapid.Bool().Draw(rt, "own solver") {
				// a solver with a smaller tolerance gives a more accurate solution
				ie.NonlinSolver = &nonlin.NewtonKrylov{Maxiter: 50, StepSize: 1e-3, Tol: 1e-10, Stencil: 6, InnerSettings: &linsolve.Settings{Tolerance: 1e-10}}
				tol = 1e-8
				c.Label("own solver")
			}
			want := ref.DFT(dims, gen.Cmplx(init))
			// spectrum of the terms that do not depend on the field, at time t
			force := func(t float64) []complex128 {
				v := make([]complex128, n)
				for i := range v {
					v[i] = complex(c0, 0)
				}
				if src {
					p := make([]int, len(at))
					for i := range p {
						p[i] = int(at[i])
					}
					v[ref.Node(dims, p)] += complex(f0+f1*t, 0)
				}
				return ref.DFT(dims, v)
			}
			nsteps := gen.Count(rt, "nsteps", 1, 4, 12)
			for step := 0; step < nsteps; step++ {
				ie.Step(&m)
				h := complex(dt, 0)
				n0, n1 := force(float64(step)*dt), force(float64(step+1)*dt)
				for j := range want {
					a := complex(-k-d*ref.K2(dims, j), 0)
					p1, p2 := phi(a * h)
					want[j] = want[j]*cmplx.Exp(a*h) + h*(n0[j]*p1+(n1[j]-n0[j])*p2)
				}
				exact := ref.InvDFT(dims, want)
				scale := 1.0
				for _, x := range exact {
					scale = math.Max(scale, cmplx.Abs(x))
				}
				if x := pbt.Diff(m.Fields[0].Data, exact, tol*scale); x != "" {
					rt.Fatalf("dims %v dt %g D %g k %g s %g source %v %v %g %g step %d: %s", dims, dt, d, k, c0, src, at, f0, f1, step+1, x)
				}
			}
			if n > 1 {
				c.NonTrivial("%v %g %g %g %g %v", dims, dt, d, k, c0, init)
			}
			c.LabelIf(dt*k > 1e-5 && k < 0.05, "slow decay")
		})
}
