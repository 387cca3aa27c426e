package core

import (
	"math"
	"math/rand"
	"testing"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"pgregory.net/rapid"
	"verifharness/eqn"
	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
)

func sum(v []complex128) complex128 {
	s := complex(0.0, 0.0)
	for _, x := range v {
		s += x
	}
	return s
}

// newStepper returns one of the steppers
func newStepper(kind int, dims []int, dt float64) pf.TimeStepper {
	ft := pfutil.NewFFTW(dims)
	switch kind {
	case 0:
		return &pf.Euler{Dt: dt, FT: ft}
	case 1:
		return &pf.RK4{Dt: dt, FT: ft}
	}
	return &pf.ImplicitEuler{Dt: dt, FT: ft}
}

var stepperNames = []string{"Euler", "RK4", "ImplicitEuler"}

func copyState(s *eqn.System, m *pf.Model) eqn.State {
	out := eqn.State{}
	for i, nm := range s.Names {
		out[nm] = append([]complex128{}, m.Fields[i].Data...)
	}
	return out
}

// Equations in divergence form: the amount of every field only changes by what
// the sources add, and fields stay real
func checkConserved(rt *rapid.T, c *pbt.Case, kind int) {
	o := eqn.Opt{MaxFields: 3, MaxTerms: 4, MaxN: 40, MaxLap: 2, Lo: -1, Hi: 1, Coef: 1.5, Funcs: true, Users: true,
		Sources: true, ShuffleEqs: true, OnlyLap: true, MaxPow: 3, Many: kind != 2}
	if kind == 2 {
		o.MaxFields, o.MaxLap, o.MaxN, o.Coef = 3, 1, 20, 0.5
	}
	s := eqn.Draw(rt, o)
	dt := rapid.SampledFrom([]float64{0.0005, 0.002, 0.01, 0.1}).Draw(rt, "dt")
	nsteps := gen.Count(rt, "nsteps", 1, 6, []int{40, 40, 12}[kind])
	rt.Logf("%s dt=%g steps=%d %s", stepperNames[kind], dt, nsteps, s)
	c.Note("%s dt=%g steps=%d %s", stepperNames[kind], dt, nsteps, s)
	m := s.Build()
	solver := pf.NewSolver(m, s.Dims, dt)
	solver.Stepper = newStepper(kind, s.Dims, dt)
	before := map[string]complex128{}
	for i, nm := range s.Names {
		before[nm] = sum(m.Fields[i].Data)
	}
	st := copyState(s, m)
	cond := conditioning{}
	for k := 0; k < nsteps; k++ {
		// leave the domain when the explicit terms make the scheme unstable
		if !cond.ok([]stepRef{eulerRef, rkRef, eulerRef}[kind], s, st, float64(k)*dt, dt, nil) {
			c.Label("stopped: singular, growing or amplifying round-off")
			return
		}
		if kind == 2 {
			if _, ok := implicitRef(s, st, float64(k)*dt, dt); !ok {
				c.Label("stopped: not a contraction")
				return
			}
		}
		solver.Propagate(1)
		st = copyState(s, m)
		if !bounded(s, st) {
			c.Label("stopped: growing")
			return
		}
		for _, nm := range s.Names {
			add := 0.0
			for _, src := range s.Sources {
				if s.Eqs[src.Eq].Field != nm {
					continue
				}
				t := float64(k) * dt
				if kind != 0 {
					t += 0.5 * dt // RK4 and the implicit scheme integrate a linear function exactly
				}
				add += dt * (src.A + src.B*t)
			}
			before[nm] += complex(add, 0)
			now := sum(st[nm])
			scale := (1.0 + pbt.MaxAbs(st[nm])) * float64(len(st[nm]))
			tol := 1e-11
			if kind == 2 {
				tol = 2e-7 // the solver stops at a residual of 1e-7
			}
			if d := real(now) - real(before[nm]); !(math.Abs(d) <= tol*scale) {
				rt.Fatalf("step %d: the sum of %s changed by %g too much (%v)", k+1, nm, d, now)
			}
			for i, v := range st[nm] {
				if !(math.Abs(imag(v)) <= 1e-9*(1.0+pbt.MaxAbs(st[nm]))) {
					rt.Fatalf("step %d: %s got the imaginary part %g in node %d", k+1, nm, imag(v), i)
				}
			}
			before[nm] = now
		}
		c.NonTrivial("%v", st)
	}
	c.LabelIf(len(s.Names) > 1, "several fields")
	c.LabelIf(s.AnyProd, "products")
	c.LabelIf(len(s.Sources) > 0, "sources")
	c.LabelIf(len(s.Dims) == 3, "3D")
}

func TestC05_Euler(t *testing.T) {
	pbt.Check(t, "random equations where every term has a laplacian, plus point sources; non-trivial: a step was compared", 3100, 79000,
		func(rt *rapid.T, c *pbt.Case) { checkConserved(rt, c, 0) })
}

// Linear equations with high powers of the laplacian and any time step. The
// implicit scheme is exact for the amount of the field whatever the step is
func TestC05_LongSteps(t *testing.T) {
	pbt.Check(t, "random linear equations with up to LAP^4 and time steps from 1e-3 to 1e5; non-trivial: a step was compared", 5500, 130000,
		func(rt *rapid.T, c *pbt.Case) {
			s := eqn.Draw(rt, eqn.Opt{MaxFields: 2, MaxTerms: 2, MaxN: 40, MaxLap: 4, Lo: -1, Hi: 1, Coef: 1.5, Users: false,
				LinearOnly: true, ShuffleEqs: true, OnlyLap: true, MaxPow: 1})
			dt := math.Pow(10, gen.F(rt, "logdt", -3, 5))
			kind := rapid.IntRange(0, 1).Draw(rt, "stepper")
			c.Note("%s dt=%g %s", stepperNames[kind], dt, s)
			m := s.Build()
			solver := pf.NewSolver(m, s.Dims, dt)
			solver.Stepper = newStepper(kind, s.Dims, dt)
			st := copyState(s, m)
			cond := conditioning{}
			for k := 0; k < 3; k++ {
				before := st
				if !cond.ok([]stepRef{eulerRef, rkRef}[kind], s, st, float64(k)*dt, dt, nil) {
					c.Label("stopped: singular, growing or amplifying round-off")
					return
				}
				solver.Propagate(1)
				st = copyState(s, m)
				for _, nm := range s.Names {
					scale := (1e-3 + pbt.MaxAbs(st[nm]) + pbt.MaxAbs(before[nm])) * float64(len(st[nm]))
					if d := real(sum(st[nm])) - real(sum(before[nm])); !(math.Abs(d) <= 1e-11*scale) {
						rt.Fatalf("%s dt=%g %s step %d: the sum of %s changed by %g", stepperNames[kind], dt, s, k+1, nm, d)
					}
				}
				c.NonTrivial("%g %v", dt, st)
			}
			c.LabelIf(dt > 10, "dt above 10")
		})
}

func TestC05_RK4(t *testing.T) {
	pbt.Check(t, "as Euler", 1800, 46000,
		func(rt *rapid.T, c *pbt.Case) { checkConserved(rt, c, 1) })
}

func TestC05_ImplicitEuler(t *testing.T) {
	pbt.Check(t, "as Euler", 1500, 30000,
		func(rt *rapid.T, c *pbt.Case) { checkConserved(rt, c, 2) })
}

// Conservative noise never changes the amount of the field, whatever the other terms are
func TestC05_ConservativeNoise(t *testing.T) {
	pbt.Check(t, "conservative noise together with diffusion on random domains; non-trivial: the noise changed the field", 1500, 30000,
		func(rt *rapid.T, c *pbt.Case) {
			dims := gen.Dims(rt, 60)
			n := ref.Size(dims)
			strength := gen.F(rt, "strength", 0.01, 2)
			uid := rapid.IntRange(0, 5).Draw(rt, "uid")
			kind := rapid.IntRange(0, 1).Draw(rt, "stepper")
			init := gen.Field(rt, "init", n, -1, 1)
			m := pf.NewModel()
			m.AddField(pf.NewField("conc", n, gen.Cmplx(init)))
			noise := pf.NewConservativeNoise(strength, len(dims))
			noise.UniquePrefix = uint32(uid)
			rand.Seed(int64(rapid.IntRange(1, 1<<30).Draw(rt, "rngseed")))
			m.RegisterExplicitTerm("NOISE", &noise, noise.RequiredDerivedFields(n))
			m.AddEquation("dconc/dt = LAP conc + NOISE")
			dt := rapid.SampledFrom([]float64{0.001, 0.1}).Draw(rt, "dt")
			solver := pf.NewSolver(&m, dims, dt)
			solver.Stepper = newStepper(kind, dims, dt)
			s0 := real(sum(m.Fields[0].Data))
			for k := 0; k < 3; k++ {
				solver.Propagate(1)
			}
			got := m.Fields[0].Data
			scale := float64(n) * (1 + pbt.MaxAbs(got))
			if d := real(sum(got)) - s0; !(math.Abs(d) <= 1e-11*scale) {
				rt.Fatalf("dims %v strength %g %s: sum changed by %g", dims, strength, stepperNames[kind], d)
			}
			if n > 1 {
				c.NonTrivial("%v %g %v", dims, strength, init)
			}
		})
}
