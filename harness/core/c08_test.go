package core

import (
	"encoding/json"
	"fmt"
	"math"
	"testing"

	"github.com/davidkleiven/gopf/pf"
	"pgregory.net/rapid"
	"verifharness/eqn"
	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
)

// probe is a term without effect that logs what it is told after every step
type probe struct {
	field  string
	site   int
	kind   int
	times  []float64
	values []float64
}

func zeroTerm(freq pf.Frequency, t float64, out []complex128) {
	for i := range out {
		out[i] = 0
	}
}

func (p *probe) Construct(b map[string]pf.Brick) pf.Term          { return zeroTerm }
func (p *probe) ConstructLinear(b map[string]pf.Brick) pf.Term    { return zeroTerm }
func (p *probe) ConstructNonLinear(b map[string]pf.Brick) pf.Term { return zeroTerm }
func (p *probe) OnStepFinished(t float64, b map[string]pf.Brick) {
	p.times = append(p.times, t)
	p.values = append(p.values, real(b[p.field].Get(p.site)))
}

// A history of Solve and Propagate calls against a model of what has to happen
func TestC08_Histories(t *testing.T) {
	pbt.Check(t, "histories of up to 8 operations (solve, propagate, add callback, add monitor); non-trivial: at least two epochs were run with a callback or monitor", 14000, 150000,
		func(rt *rapid.T, c *pbt.Case) {
			dims := gen.Dims(rt, 16)
			n := ref.Size(dims)
			dt := rapid.SampledFrom([]float64{0.01, 0.125, 0.3}).Draw(rt, "dt")
			a := gen.F(rt, "a", -1, 0)
			names := []string{"conc", "eta"}[:rapid.IntRange(1, 2).Draw(rt, "nf")]
			m := pf.NewModel()
			state := make([][]float64, len(names))
			for i, nm := range names {
				state[i] = gen.Field(rt, nm, n, -1, 1)
				m.AddField(pf.NewField(nm, n, gen.Cmplx(state[i])))
			}
			m.AddScalar(pf.NewScalar("a", complex(a, 0)))
			nprobe := rapid.IntRange(0, 3).Draw(rt, "nprobe")
			probes := make([]*probe, nprobe)
			eq := make([]string, len(names))
			for i, nm := range names {
				eq[i] = fmt.Sprintf("d%s/dt = a*%s^3", nm, nm)
			}
			for k := range probes {
				f := rapid.IntRange(0, len(names)-1).Draw(rt, "pf")
				probes[k] = &probe{field: names[f], site: rapid.IntRange(0, n-1).Draw(rt, "site"), kind: rapid.IntRange(0, 2).Draw(rt, "kind")}
				nm := fmt.Sprintf("PROBE%d", k)
				switch probes[k].kind {
				case 0:
					m.RegisterImplicitTerm(nm, probes[k], nil)
				case 1:
					m.RegisterExplicitTerm(nm, probes[k], nil)
				default:
					m.RegisterMixedTerm(nm, probes[k], nil)
				}
				if rapid.Bool().Draw(rt, "used") {
					eq[f] += " + " + nm
				}
			}
			for _, e := range eq {
				m.AddEquation(e)
			}
			s := pf.NewSolver(&m, dims, dt)
			rk, impl := false, false
			tol := 1e-9
			switch rapid.IntRange(0, 6).Draw(rt, "stepper") {
			case 0, 1, 2:
				rk = true
				s.SetStepper("rk4")
			case 6:
				impl = true
				tol = 2e-5
				s.Stepper = newStepper(2, dims, dt)
			}
			long := 1
			maxSteps := 40
			if rapid.IntRange(0, 11).Draw(rt, "long") == 11 {
				long, maxSteps = 10, 400
			}
			start := rapid.IntRange(0, 1).Draw(rt, "se") * gen.Step(rt, "startepoch", 50)
			s.StartEpoch = start

			// the model
			steps := 0
			now := 0.0
			f := func(y float64) float64 { return a * y * y * y }
			advance := func() {
				for i := range state {
					for j, y := range state[i] {
						if impl {
							z := y
							for it := 0; it < 60; it++ {
								z = y + 0.5*dt*(f(y)+f(z))
							}
							state[i][j] = z
						} else if rk {
							k1 := f(y)
							k2 := f(y + 0.5*dt*k1)
							k3 := f(y + 0.5*dt*k2)
							k4 := f(y + dt*k3)
							state[i][j] = y + dt*(k1+2*k2+2*k3+k4)/6
						} else {
							state[i][j] = y + dt*f(y)
						}
					}
				}
				steps++
				now += dt
			}
			wantTimes := make([]float64, 0)
			wantProbe := make([][]float64, nprobe)
			stepModel := func(k int) {
				for ; k > 0; k-- {
					advance()
					wantTimes = append(wantTimes, now)
					for p := range probes {
						fi := 0
						if probes[p].field == "eta" {
							fi = 1
						}
						wantProbe[p] = append(wantProbe[p], state[fi][probes[p].site])
					}
				}
			}
			var gotCalls, wantCalls []string
			ncb := 0
			type mon struct {
				m    *pf.PointMonitor
				want []float64
				fi   int
			}
			var mons []*mon
			epochs := 0
			hist := ""
			fieldsOk := func(where string) {
				for i := range names {
					if d := pbt.Diff(m.Fields[i].Data, gen.Cmplx(state[i]), tol); d != "" {
						rt.Fatalf("[%s] %s: %s %s", hist, where, names[i], d)
					}
				}
				if g := s.Stepper.GetTime(); math.Abs(g-now) > 1e-9*(1+now) {
					rt.Fatalf("[%s] %s: time is %g after %d steps, want %g", hist, where, g, steps, now)
				}
			}
			for op := rapid.IntRange(1, 8).Draw(rt, "nops"); op > 0 && steps < maxSteps; op-- {
				switch rapid.IntRange(0, 5).Draw(rt, "op") {
				case 0:
					id := ncb
					ncb++
					hist += " addcb"
					s.AddCallback(func(sv *pf.Solver, epoch int) {
						gotCalls = append(gotCalls, fmt.Sprintf("cb%d epoch %d time %.6f value %.9f", id, epoch, sv.Stepper.GetTime(), real(sv.Model.Fields[0].Data[0])+0))
					})
				case 1:
					fi := rapid.IntRange(0, len(names)-1).Draw(rt, "mf")
					site := rapid.IntRange(0, n-1).Draw(rt, "ms")
					pm := pf.NewPointMonitor(site, names[fi])
					if pm.Site != site || pm.Field != names[fi] {
						rt.Fatalf("new monitor %+v does not have site %d, field %s", pm, site, names[fi])
					}
					s.AddMonitor(&pm)
					mons = append(mons, &mon{m: &pm, fi: fi})
					hist += " addmon"
				case 2:
					k := rapid.IntRange(0, 3*long).Draw(rt, "steps")
					hist += fmt.Sprintf(" propagate(%d)", k)
					s.Propagate(k)
					stepModel(k)
				case 3:
					if impl {
						continue
					}
					if rapid.Bool().Draw(rt, "new start") {
						s.StartEpoch = gen.Step(rt, "startepoch", 50)
						hist += fmt.Sprintf(" epochs from %d", s.StartEpoch)
						continue
					}
					// the time step takes effect with the next stepper, whose clock may go on or start again
					dt = rapid.SampledFrom([]float64{0.01, 0.125, 0.3}).Draw(rt, "dt")
					s.Dt = dt
					rk = rapid.Bool().Draw(rt, "rk4")
					hist += fmt.Sprintf(" stepper rk4:%v with %g", rk, dt)
					s.SetStepper(map[bool]string{true: "rk4", false: "euler"}[rk])
					t0 := s.Stepper.GetTime()
					if t0 != 0 && math.Abs(t0-now) > 1e-9*(1+now) {
						rt.Fatalf("[%s] the time is %g, it was %g", hist, t0, now)
					}
					now = t0
				default:
					ne, ns := rapid.IntRange(0, 3*long).Draw(rt, "ne"), rapid.IntRange(0, 3*long).Draw(rt, "ns")
					hist += fmt.Sprintf(" solve(%d,%d)", ne, ns)
					for e := 0; e < ne; e++ {
						stepModel(ns)
						for id := 0; id < ncb; id++ {
							wantCalls = append(wantCalls, fmt.Sprintf("cb%d epoch %d time %.6f value %.9f", id, e+s.StartEpoch, now, state[0][0]+0))
						}
						for _, mo := range mons {
							mo.want = append(mo.want, state[mo.fi][mo.m.Site])
						}
						epochs++
					}
					s.Solve(ne, ns)
				}
				fieldsOk("after the operation")
			}
			if !sameLog(gotCalls, wantCalls, tol) {
				rt.Fatalf("[%s] callbacks got\n%q\nwant\n%q", hist, gotCalls, wantCalls)
			}
			for k, mo := range mons {
				if d := pbt.DiffF(mo.m.Data, mo.want, tol); d != "" {
					rt.Fatalf("[%s] monitor %d: %s", hist, k, d)
				}
			}
			for k, p := range probes {
				if len(p.times) != steps {
					rt.Fatalf("[%s] term %d was told %d times that a step finished, %d steps were made", hist, k, len(p.times), steps)
				}
				for i, tm := range p.times {
					if math.Abs(tm-wantTimes[i]) > 1e-9*(1+tm) {
						rt.Fatalf("[%s] term %d: step %d finished at time %g, want %g", hist, k, i+1, tm, wantTimes[i])
					}
				}
				if d := pbt.DiffF(p.values, wantProbe[k], tol); d != "" {
					rt.Fatalf("[%s] term %d did not see the new fields after a step: %s", hist, k, d)
				}
			}
			var back []struct {
				Data  []float64
				Site  int
				Field string
				Name  string
			}
			js := s.JSONifyMonitors()
			if err := json.Unmarshal(js, &back); err != nil || len(back) != len(mons) {
				rt.Fatalf("[%s] monitors as JSON: %v, %d of %d: %s", hist, err, len(back), len(mons), js)
			}
			for k, mo := range mons {
				if back[k].Site != mo.m.Site || back[k].Field != names[mo.fi] || pbt.DiffF(back[k].Data, mo.want, tol) != "" {
					rt.Fatalf("[%s] monitor %d as JSON: %+v, want %v", hist, k, back[k], mo.want)
				}
			}
			c.LabelIf(rk, "rk4")
			c.LabelIf(impl, "implicit")
			c.LabelIf(steps > 60, "long")
			c.LabelIf(nprobe > 0, "probes")
			if epochs >= 2 && ncb+len(mons) > 0 {
				c.NonTrivial("%v %g %g %v %s", dims, dt, a, rk, hist)
			}
		})
}

// sameLog compares the logs; the printed values may differ in the last digit
func sameLog(a, b []string, tol float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] == b[i] {
			continue
		}
		var id1, id2, e1, e2 int
		var t1, t2, v1, v2 float64
		fmt.Sscanf(a[i], "cb%d epoch %d time %f value %f", &id1, &e1, &t1, &v1)
		fmt.Sscanf(b[i], "cb%d epoch %d time %f value %f", &id2, &e2, &t2, &v2)
		if id1 != id2 || e1 != e2 || math.Abs(t1-t2) > 2e-6 || math.Abs(v1-v2) > 1e-8+tol {
			return false
		}
	}
	return true
}

// Only the number of steps matters, not how they are divided into calls
func TestC08_Splitting(t *testing.T) {
	pbt.Check(t, "the same system advanced with two divisions of the steps, with all three steppers; non-trivial: the divisions differ", 2900, 60000,
		func(rt *rapid.T, c *pbt.Case) {
			s := eqnSmall(rt)
			dt := rapid.SampledFrom([]float64{0.001, 0.01}).Draw(rt, "dt")
			kind := rapid.IntRange(0, 2).Draw(rt, "stepper")
			total := rapid.IntRange(1, 6).Draw(rt, "total")
			if _, ok := runSystem(s, kind, total, dt); !ok {
				c.Label("growing")
				return
			}
			run := func(lbl string) ([][]complex128, string) {
				m := s.Build()
				sv := pf.NewSolver(m, s.Dims, dt)
				sv.Stepper = newStepper(kind, s.Dims, dt)
				left := total
				txt := ""
				for left > 0 {
					k := rapid.IntRange(1, left).Draw(rt, lbl)
					if rapid.Bool().Draw(rt, lbl+"solve") {
						sv.Solve(1, k)
						txt += fmt.Sprintf(" solve(1,%d)", k)
					} else if rapid.Bool().Draw(rt, lbl+"many") {
						sv.Solve(k, 1)
						txt += fmt.Sprintf(" solve(%d,1)", k)
					} else {
						sv.Propagate(k)
						txt += fmt.Sprintf(" propagate(%d)", k)
					}
					left -= k
				}
				out := make([][]complex128, len(s.Names))
				for i := range out {
					out[i] = append([]complex128{}, m.Fields[i].Data...)
				}
				return out, txt
			}
			a, ta := run("a")
			b, tb := run("b")
			for i := range a {
				if !(pbt.MaxAbs(a[i]) < 1e3) {
					c.Label("growing")
					return
				}
				if d := pbt.Diff(a[i], b[i], 1e-9); d != "" {
					rt.Fatalf("%s, %s vs %s, field %s: %s (%s)", stepperNames[kind], ta, tb, s.Names[i], d, s)
				}
			}
			if ta != tb {
				c.NonTrivial("%s %s %s %s", stepperNames[kind], ta, tb, s)
			}
		})
}

// Two solvers that are used in turns do not influence each other
func TestC08_TwoSolvers(t *testing.T) {
	pbt.Check(t, "two systems advanced in turns compared with each advanced alone, with all three steppers; non-trivial: the turns alternate at least twice", 1500, 30000,
		func(rt *rapid.T, c *pbt.Case) {
			var sys [2]*eqn.System
			var kind, total [2]int
			dt := [2]float64{}
			for k := range sys {
				sys[k] = eqnSmall(rt)
				kind[k] = rapid.IntRange(0, 2).Draw(rt, "stepper")
				total[k] = rapid.IntRange(1, 5).Draw(rt, "total")
				dt[k] = rapid.SampledFrom([]float64{0.001, 0.01}).Draw(rt, "dt")
				if _, ok := runSystem(sys[k], kind[k], total[k], dt[k]); !ok {
					c.Label("growing")
					return
				}
			}
			var m [2]*pf.Model
			var sv [2]*pf.Solver
			make1 := func(k int) {
				m[k] = sys[k].Build()
				sv[k] = pf.NewSolver(m[k], sys[k].Dims, dt[k])
				sv[k].Stepper = newStepper(kind[k], sys[k].Dims, dt[k])
			}
			var alone [2][][]complex128
			for k := range sys {
				make1(k)
				sv[k].Propagate(total[k])
				for i := range sys[k].Names {
					alone[k] = append(alone[k], append([]complex128{}, m[k].Fields[i].Data...))
				}
			}
			make1(0)
			make1(1)
			left := total
			last, turns := -1, 0
			order := ""
			for left[0]+left[1] > 0 {
				k := rapid.IntRange(0, 1).Draw(rt, "who")
				if left[k] == 0 {
					k = 1 - k
				}
				n := rapid.IntRange(1, left[k]).Draw(rt, "n")
				sv[k].Propagate(n)
				left[k] -= n
				order += fmt.Sprintf(" %d:%d", k, n)
				if k != last {
					turns++
				}
				last = k
			}
			for k := range sys {
				for i, nm := range sys[k].Names {
					if !(pbt.MaxAbs(alone[k][i]) < 1e3) {
						c.Label("growing")
						return
					}
					if d := pbt.Diff(m[k].Fields[i].Data, alone[k][i], 1e-9); d != "" {
						rt.Fatalf("%s, order%s, field %s of system %d differs from the run alone: %s (%s; %s)", stepperNames[kind[k]], order, nm, k, d, sys[0], sys[1])
					}
				}
				if math.Abs(sv[k].Stepper.GetTime()-float64(total[k])*dt[k]) > 1e-12 {
					rt.Fatalf("time of system %d is %g after %d steps of %g", k, sv[k].Stepper.GetTime(), total[k], dt[k])
				}
			}
			if turns > 2 {
				c.NonTrivial("%s %s", sys[0], sys[1])
			}
		})
}
