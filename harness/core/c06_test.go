package core

import (
	"fmt"
	"testing"

	"github.com/davidkleiven/gopf/pf"
	"pgregory.net/rapid"
	"verifharness/eqn"
	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
)

// remap returns the system with every position p moved to f(p) on a domain of the size dims
func remap(s *eqn.System, dims []int, f func(p []int) []int) (*eqn.System, []int) {
	n := ref.Size(s.Dims)
	to := make([]int, n)
	for i := range to {
		to[i] = ref.Node(dims, f(ref.Pos(s.Dims, i)))
	}
	c := *s
	c.Dims = dims
	c.Init = map[string][]float64{}
	for nm, v := range s.Init {
		w := make([]float64, n)
		for i := range v {
			w[to[i]] = v[i]
		}
		c.Init[nm] = w
	}
	c.Sources = nil
	for _, src := range s.Sources {
		q := src
		q.Pos = ref.Pos(dims, to[ref.Node(s.Dims, src.Pos)])
		c.Sources = append(c.Sources, q)
	}
	return &c, to
}

func runSystem(s *eqn.System, kind, nsteps int, dt float64) (map[string][]complex128, bool) {
	m := s.Build()
	sv := pf.NewSolver(m, s.Dims, dt)
	sv.Stepper = newStepper(kind, s.Dims, dt)
	cond := conditioning{}
	for k := 0; k < nsteps; k++ {
		if kind < 2 && !cond.ok([]stepRef{eulerRef, rkRef}[kind], s, copyState(s, m), float64(k)*dt, dt, nil) {
			return nil, false
		}
		if kind == 2 {
			// the implicit equation needs a solution that the solver can find
			if _, ok := implicitRef(s, copyState(s, m), float64(k)*dt, dt); !ok {
				return nil, false
			}
		}
		sv.Propagate(1)
		for i := range s.Names {
			if !(pbt.MaxAbs(m.Fields[i].Data) < 50) {
				return nil, false
			}
		}
	}
	out := map[string][]complex128{}
	for i, nm := range s.Names {
		if m.Fields[i].Name != nm {
			return nil, false
		}
		out[nm] = m.Fields[i].Data
	}
	return out, true
}

func symmetrySystem(rt *rapid.T) (*eqn.System, int, int, float64) {
	kind := rapid.IntRange(0, 2).Draw(rt, "stepper")
	o := eqn.Opt{MaxFields: 3, MaxTerms: 3, MaxN: 24, MaxLap: 2, Lo: -1, Hi: 1, Coef: 1, Funcs: true,
		Users: true, Sources: true, Constants: true, ShuffleEqs: true, MaxPow: 3, Many: kind != 2}
	if kind == 2 {
		o.MaxLap, o.MaxFields, o.MaxN = 1, 2, 16
	}
	s := eqn.Draw(rt, o)
	dt := rapid.SampledFrom([]float64{0.0005, 0.002, 0.01}).Draw(rt, "dt")
	return s, kind, rapid.IntRange(1, 3).Draw(rt, "nsteps"), dt
}

func symTol(kind int) float64 {
	if kind == 2 {
		return 1e-4 // the implicit equation is solved iteratively
	}
	return 1e-8
}

func checkMapped(rt *rapid.T, c *pbt.Case, what string, s, s2 *eqn.System, to []int, kind, nsteps int, dt float64) {
	rt.Logf("%s %s dt=%g steps=%d %s", stepperNames[kind], what, dt, nsteps, s)
	a, ok1 := runSystem(s, kind, nsteps, dt)
	b, ok2 := runSystem(s2, kind, nsteps, dt)
	if !ok1 || !ok2 {
		c.Label("growing")
		return
	}
	for _, nm := range s.Names {
		want := make([]complex128, len(to))
		for i := range to {
			want[to[i]] = a[nm][i]
		}
		if d := pbt.Diff(b[nm], want, symTol(kind)); d != "" {
			rt.Fatalf("%s, %s, dt %g, %d steps, field %s: %s\n%s", stepperNames[kind], what, dt, nsteps, nm, d, s)
		}
	}
	c.Label(stepperNames[kind])
	c.Note("%s %s dt=%g steps=%d %s", stepperNames[kind], what, dt, nsteps, s)
	moved := false
	for i := range to {
		moved = moved || to[i] != i
	}
	if moved {
		c.NonTrivial("%s %v %s", what, a, stepperNames[kind])
	}
}

func TestC06_Translation(t *testing.T) {
	pbt.Check(t, "random systems and shifts, all steppers; non-trivial: the shift moves nodes", 2700, 69000,
		func(rt *rapid.T, c *pbt.Case) {
			s, kind, nsteps, dt := symmetrySystem(rt)
			sh := make([]int, len(s.Dims))
			for d := range sh {
				sh[d] = rapid.IntRange(0, s.Dims[d]-1).Draw(rt, "shift")
			}
			s2, to := remap(s, s.Dims, func(p []int) []int {
				for d := range p {
					p[d] += sh[d]
				}
				return p
			})
			checkMapped(rt, c, fmt.Sprintf("translation by %v", sh), s, s2, to, kind, nsteps, dt)
		})
}

func TestC06_Reflection(t *testing.T) {
	pbt.Check(t, "random systems, any set of axes reversed, all steppers; non-trivial: nodes move", 2700, 68000,
		func(rt *rapid.T, c *pbt.Case) {
			s, kind, nsteps, dt := symmetrySystem(rt)
			flip := make([]bool, len(s.Dims))
			for d := range flip {
				flip[d] = rapid.Bool().Draw(rt, "flip")
			}
			s2, to := remap(s, s.Dims, func(p []int) []int {
				for d := range p {
					if flip[d] {
						p[d] = -p[d]
					}
				}
				return p
			})
			checkMapped(rt, c, fmt.Sprintf("reflection of %v", flip), s, s2, to, kind, nsteps, dt)
		})
}

func TestC06_AxisSwap(t *testing.T) {
	pbt.Check(t, "random systems, any order of the axes, all steppers; non-trivial: nodes move", 2700, 68000,
		func(rt *rapid.T, c *pbt.Case) {
			s, kind, nsteps, dt := symmetrySystem(rt)
			ax := make([]int, len(s.Dims))
			for i := range ax {
				ax[i] = i
			}
			ax = rapid.Permutation(ax).Draw(rt, "axes")
			dims := make([]int, len(ax))
			for i := range ax {
				dims[i] = s.Dims[ax[i]]
			}
			s2, to := remap(s, dims, func(p []int) []int {
				q := make([]int, len(p))
				for i := range ax {
					q[i] = p[ax[i]]
				}
				return q
			})
			checkMapped(rt, c, fmt.Sprintf("axes %v", ax), s, s2, to, kind, nsteps, dt)
		})
}

// The order in which fields and equations are added does not matter
func TestC06_Order(t *testing.T) {
	pbt.Check(t, "random systems, fields and equations added in another order; non-trivial: an order differs", 2700, 68000,
		func(rt *rapid.T, c *pbt.Case) {
			s, kind, nsteps, dt := symmetrySystem(rt)
			nf := len(s.Names)
			idx := make([]int, nf)
			for i := range idx {
				idx[i] = i
			}
			fp := rapid.Permutation(idx).Draw(rt, "fieldorder")
			ep := rapid.Permutation(idx).Draw(rt, "eqorder2")
			s2 := *s
			s2.Names, s2.Eqs, s2.Sources = nil, nil, nil
			newEq := make([]int, nf)
			same := true
			for i := range idx {
				s2.Names = append(s2.Names, s.Names[fp[i]])
				s2.Eqs = append(s2.Eqs, s.Eqs[ep[i]])
				newEq[ep[i]] = i
				same = same && fp[i] == i && ep[i] == i
			}
			for _, src := range s.Sources {
				q := src
				q.Eq = newEq[src.Eq]
				s2.Sources = append(s2.Sources, q)
			}
			a, ok1 := runSystem(s, kind, nsteps, dt)
			b, ok2 := runSystem(&s2, kind, nsteps, dt)
			if !ok1 || !ok2 {
				c.Label("growing")
				return
			}
			for _, nm := range s.Names {
				if d := pbt.Diff(b[nm], a[nm], symTol(kind)); d != "" {
					rt.Fatalf("%s, fields %v equations %v, dt %g, %d steps, field %s: %s\n%s", stepperNames[kind], fp, ep, dt, nsteps, nm, d, s)
				}
			}
			c.Note("%s fields %v equations %v %s", stepperNames[kind], fp, ep, s)
			if !same {
				c.NonTrivial("%v %v %v %s", fp, ep, a, stepperNames[kind])
			}
		})
}

// A system made of copies that do not see each other evolves like the copies alone
func TestC06_Decoupling(t *testing.T) {
	pbt.Check(t, "one field alone, and together with a second field that it does not depend on; all cases non-trivial", 3500, 60000,
		func(rt *rapid.T, c *pbt.Case) {
			kind := rapid.IntRange(0, 1).Draw(rt, "stepper")
			o := eqn.Opt{MaxFields: 1, MaxTerms: 3, MaxN: 24, MaxLap: 2, Lo: -1, Hi: 1, Coef: 1, Sources: true, Constants: true, Plain: true, MaxPow: 3}
			s := eqn.Draw(rt, o)
			dt := rapid.SampledFrom([]float64{0.0005, 0.002, 0.01}).Draw(rt, "dt")
			nsteps := rapid.IntRange(1, 3).Draw(rt, "nsteps")
			s2 := *s
			s2.Init = map[string][]float64{"other": gen.Field(rt, "other", ref.Size(s.Dims), -1, 1)}
			for k, v := range s.Init {
				s2.Init[k] = v
			}
			oeq := eqn.Equation{Field: "other", Txt: rapid.SampledFrom([]string{"dother/dt = -other", "dother/dt = -other*" + s.Names[0],
				"dother/dt = LAP " + s.Names[0], "dother/dt = " + s.Names[0] + "^2 - other^3"}).Draw(rt, "othereq")}
			first := rapid.Bool().Draw(rt, "first")
			if first {
				s2.Names = append([]string{"other"}, s.Names...)
				s2.Eqs = append([]eqn.Equation{oeq}, s.Eqs...)
				s2.Sources = nil
				for _, src := range s.Sources {
					src.Eq++
					s2.Sources = append(s2.Sources, src)
				}
			} else {
				s2.Names = append(append([]string{}, s.Names...), "other")
				s2.Eqs = append(append([]eqn.Equation{}, s.Eqs...), oeq)
			}
			a, ok1 := runSystem(s, kind, nsteps, dt)
			b, ok2 := runSystem(&s2, kind, nsteps, dt)
			if !ok1 || !ok2 {
				c.Label("growing")
				return
			}
			if d := pbt.Diff(b[s.Names[0]], a[s.Names[0]], 1e-8); d != "" {
				rt.Fatalf("%s, second equation %s first=%v: %s\n%s", stepperNames[kind], oeq.Txt, first, d, s)
			}
			c.NonTrivial("%v %s %v", a, oeq.Txt, first)
		})
}
