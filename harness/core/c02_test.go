package core

import (
	"math"
	"math/cmplx"
	"testing"

	"github.com/davidkleiven/gopf/pf"
	"pgregory.net/rapid"
	"verifharness/eqn"
	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
)

type lowPass struct{ A float64 }

func (l *lowPass) Eval(x float64) float64 { return 1.0 / (1.0 + l.A*x*x) }

// wave is a filter that takes zero and negative values as well
type wave struct{ A, B float64 }

func (w *wave) Eval(x float64) float64 { return w.A * math.Cos(w.B*x) }

func spectra(s *eqn.System, st eqn.State) eqn.State {
	out := eqn.State{}
	for _, nm := range s.Names {
		out[nm] = ref.DFT(s.Dims, st[nm])
	}
	return out
}

func realSpace(s *eqn.System, sp eqn.State) eqn.State {
	out := eqn.State{}
	for _, nm := range s.Names {
		out[nm] = ref.InvDFT(s.Dims, sp[nm])
	}
	return out
}

func applyFilter(s *eqn.System, f pf.ModalFilter, data []complex128) {
	if f != nil {
		for i := range data {
			k2 := 0.0
			for _, v := range ref.Freq(s.Dims, i) {
				k2 += v * v
			}
			// the length of the frequency in units of pi/2
			data[i] *= complex(f.Eval(math.Sqrt(k2)*2/math.Pi), 0)
		}
	}
}

// singular tells whether the scheme divides by something close to zero
func singular(den []complex128, h float64) bool {
	for _, d := range den {
		if cmplx.Abs(1.0-complex(h, 0)*d) < 0.05 {
			return true
		}
	}
	return false
}

// eulerRef performs one step of (y + dt N(y, t))/(1 - dt A). ok is false if the
// step is too close to a singularity or grows out of bounds
func eulerRef(s *eqn.System, st eqn.State, t, dt float64, filter pf.ModalFilter) (eqn.State, bool) {
	sp := spectra(s, st)
	next := eqn.State{}
	for _, nm := range s.Names {
		rhs, den := s.Eval(nm, st, t)
		if singular(den, dt) {
			return nil, false
		}
		y := make([]complex128, len(rhs))
		for j := range y {
			y[j] = (sp[nm][j] + complex(dt, 0)*rhs[j]) / (1.0 - complex(dt, 0)*den[j])
		}
		applyFilter(s, filter, y)
		next[nm] = y
	}
	out := realSpace(s, next)
	return out, bounded(s, out)
}

func bounded(s *eqn.System, st eqn.State) bool {
	for _, nm := range s.Names {
		if !(pbt.MaxAbs(st[nm]) < 1e3) {
			return false
		}
	}
	return true
}

func rkRef(s *eqn.System, st eqn.State, t, dt float64, filter pf.ModalFilter) (eqn.State, bool) {
	sp := spectra(s, st)
	acc := eqn.State{}
	k := eqn.State{}
	for _, nm := range s.Names {
		rhs, den := s.Eval(nm, st, t)
		if singular(den, dt) || singular(den, 0.5*dt) {
			return nil, false
		}
		k[nm] = rhs
		acc[nm] = append([]complex128{}, sp[nm]...)
	}
	add := func(w float64) {
		for _, nm := range s.Names {
			for j := range acc[nm] {
				acc[nm][j] += complex(w*dt, 0) * k[nm][j]
			}
		}
	}
	add(1.0 / 6.0)
	for stage, h := range []float64{0.5, 0.5, 1.0} {
		tmp := eqn.State{}
		for _, nm := range s.Names {
			_, den := s.Eval(nm, st, t)
			y := make([]complex128, len(den))
			for j := range y {
				y[j] = (sp[nm][j] + complex(h*dt, 0)*k[nm][j]) / (1.0 - complex(h*dt, 0)*den[j])
			}
			tmp[nm] = y
		}
		mid := realSpace(s, tmp)
		if !bounded(s, mid) {
			return nil, false
		}
		nk := eqn.State{}
		for _, nm := range s.Names {
			nk[nm], _ = s.Eval(nm, mid, t+h*dt)
		}
		k = nk
		add([]float64{1.0 / 3.0, 1.0 / 3.0, 1.0 / 6.0}[stage])
	}
	for _, nm := range s.Names {
		_, den := s.Eval(nm, st, t)
		for j := range acc[nm] {
			acc[nm][j] /= 1.0 - complex(dt, 0)*den[j]
		}
		applyFilter(s, filter, acc[nm])
	}
	out := realSpace(s, acc)
	return out, bounded(s, out)
}

// conditioning keeps track of how much a run amplifies the round-off errors
type conditioning struct{ amp float64 }

// ok multiplies the amplification with the one of the step that starts in st, and
// returns false when floating point results cannot be compared afterwards
func (g *conditioning) ok(step stepRef, s *eqn.System, st eqn.State, t, dt float64, filter pf.ModalFilter) bool {
	base, ok := step(s, st, t, dt, filter)
	if !ok {
		return false
	}
	if g.amp == 0 {
		g.amp = 1
	}
	const eps = 1e-7
	seed := uint32(99)
	worst := 1.0
	for try := 0; try < 2; try++ {
		y := eqn.State{}
		for _, nm := range s.Names {
			y[nm] = append([]complex128{}, st[nm]...)
			for i := range y[nm] {
				var d [2]float64
				for k := range d {
					seed = seed*1664525 + 1013904223
					d[k] = eps
					if seed>>16&1 == 0 {
						d[k] = -eps
					}
				}
				y[nm][i] += complex(d[0], d[1])
			}
		}
		out, ok := step(s, y, t, dt, filter)
		if !ok {
			return false
		}
		worst = math.Max(worst, dist(s, out, base)/eps)
	}
	g.amp *= worst
	return g.amp < 3e4
}

type stepRef func(s *eqn.System, st eqn.State, t, dt float64, filter pf.ModalFilter) (eqn.State, bool)

func stepperOpt() eqn.Opt {
	return eqn.Opt{MaxFields: 3, MaxTerms: 4, MaxN: 24, MaxLap: 2, Lo: -1, Hi: 1, Coef: 1.5, Funcs: true, Users: true,
		Sources: true, Mods: true, Constants: true, ShuffleEqs: true, Plain: true, MaxPow: 3, Many: true, BigPow: true, TimeLin: true}
}

func checkStepper(rt *rapid.T, c *pbt.Case, name string, step stepRef, direct bool) {
	o := stepperOpt()
	large := rapid.IntRange(0, 59).Draw(rt, "large") == 59
	if large {
		o.Dims = gen.LargeDims(rt)
		o.MaxFields, o.MaxTerms, o.Many = 2, 2, false
	}
	s := eqn.Draw(rt, o)
	dt := rapid.SampledFrom([]float64{0.001, 0.01, 0.05, 0.2, 1.0}).Draw(rt, "dt")
	nsteps := rapid.IntRange(1, 3).Draw(rt, "nsteps")
	if !large && rapid.IntRange(0, 14).Draw(rt, "long") == 14 {
		nsteps = rapid.IntRange(4, 25).Draw(rt, "manysteps")
	}
	var filter pf.ModalFilter
	if rapid.IntRange(0, 3).Draw(rt, "filter") == 0 {
		filter = &lowPass{A: gen.F(rt, "filterA", 0, 20)}
		if rapid.IntRange(0, 2).Draw(rt, "wave") == 2 {
			filter = &wave{A: gen.F(rt, "waveA", -1.2, 1.2), B: gen.F(rt, "waveB", 0, 4)}
		}
	}
	c.Note("%s dt=%g steps=%d filter=%v %s", name, dt, nsteps, filter, s)
	rt.Logf("%s dt=%g steps=%d filter=%v %s", name, dt, nsteps, filter, s)
	m := s.Build()
	solver := pf.NewSolver(m, s.Dims, dt)
	solver.SetStepper(name)
	if filter != nil {
		solver.Stepper.SetFilter(filter)
	}
	st := s.InitState()
	cond := conditioning{}
	for k := 0; k < nsteps; k++ {
		t := float64(k) * dt
		next, ok := step(s, st, t, dt, filter)
		if !ok {
			c.Label("stopped: singular or growing")
			return
		}
		if !cond.ok(step, s, st, t, dt, filter) {
			c.Label("stopped: amplifies round-off")
			return
		}
		if direct {
			solver.Stepper.Step(m)
		} else {
			solver.Propagate(1)
		}
		if gt := solver.Stepper.GetTime(); math.Abs(gt-float64(k+1)*dt) > 1e-12 {
			rt.Fatalf("time after %d steps is %g, want %g", k+1, gt, float64(k+1)*dt)
		}
		st = next
		for i, nm := range s.Names {
			if d := pbt.Diff(m.Fields[i].Data, st[nm], 1e-8); d != "" {
				rt.Fatalf("step %d, field %s: %s", k+1, nm, d)
			}
		}
		c.NonTrivial("%v", st)
	}
	c.LabelIf(nsteps > 3, "many steps")
	c.LabelIf(large, "large domain")
	c.LabelIf(len(s.Names) > 1, "several fields")
	c.LabelIf(len(s.Names) > 3, "many fields")
	c.LabelIf(len(s.Sources) > 0, "sources")
	c.LabelIf(len(s.Mods) > 0, "modifiers")
	c.LabelIf(len(s.Users) > 0, "user terms")
	c.LabelIf(filter != nil, "filter")
	c.LabelIf(len(s.Dims) == 3, "3D")
}

func TestC02_EulerStep(t *testing.T) {
	pbt.Check(t, "random systems, 1-3 steps; non-trivial: at least one step was compared", 4900, 120000,
		func(rt *rapid.T, c *pbt.Case) {
			checkStepper(rt, c, "euler", eulerRef, rapid.Bool().Draw(rt, "direct"))
		})
}

func TestC03_RK4Step(t *testing.T) {
	pbt.Check(t, "random systems, 1-3 steps; non-trivial: at least one step was compared", 3500, 88000,
		func(rt *rapid.T, c *pbt.Case) { checkStepper(rt, c, "rk4", rkRef, rapid.Bool().Draw(rt, "direct")) })
}
