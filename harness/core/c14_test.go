package core

import (
	"fmt"
	"math"
	"math/cmplx"
	"os"
	"strings"
	"testing"

	"github.com/davidkleiven/gopf/pf"
	"pgregory.net/rapid"
	"verifharness/eqn"
	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
)

// solveDense solves a x = b by elimination. ok is false if a is close to singular
func solveDense(a [][]complex128, b []complex128) (x []complex128, ok bool) {
	n := len(b)
	for c := 0; c < n; c++ {
		p := c
		for r := c + 1; r < n; r++ {
			if cmplx.Abs(a[r][c]) > cmplx.Abs(a[p][c]) {
				p = r
			}
		}
		if cmplx.Abs(a[p][c]) < 0.05 {
			return nil, false
		}
		a[c], a[p], b[c], b[p] = a[p], a[c], b[p], b[c]
		for r := c + 1; r < n; r++ {
			f := a[r][c] / a[c][c]
			if f == 0 {
				continue
			}
			for k := c; k < n; k++ {
				a[r][k] -= f * a[c][k]
			}
			b[r] -= f * b[c]
		}
	}
	x = make([]complex128, n)
	for r := n - 1; r >= 0; r-- {
		s := b[r]
		for k := r + 1; k < n; k++ {
			s -= a[r][k] * x[k]
		}
		x[r] = s / a[r][r]
	}
	return x, true
}

type dimer struct {
	v                 []float64 // orientation over all fields
	alpha, tau, l0    float64
	tauL, lmin        float64
	maxForce, power   float64
	maxTorque, torque float64
}

func (d *dimer) length(t float64) float64 {
	return math.Max(d.lmin, d.l0*math.Exp(-t/d.tauL))
}

func stack(s *eqn.System, st eqn.State) []complex128 {
	var out []complex128
	for _, nm := range s.Names {
		out = append(out, st[nm]...)
	}
	return out
}

func unstack(s *eqn.System, v []complex128) eqn.State {
	st := eqn.State{}
	n := ref.Size(s.Dims)
	for i, nm := range s.Names {
		st[nm] = append([]complex128{}, v[i*n:(i+1)*n]...)
	}
	return st
}

// sddRef performs one step of
//
//	x_new = x + dt (I - 2 v v^T)(alpha N(x1) + (1-alpha) N(x2) + A x_new)
//	v_new ~ v + dt (I - v v^T)(F(x2) - F(x1))/(l tau)
//
// in real space, where x1,2 = x -+ l v/2 and F = N + A
func sddRef(s *eqn.System, d *dimer, st eqn.State, t, dt float64) (eqn.State, bool) {
	n := ref.Size(s.Dims)
	l := d.length(t)
	x := stack(s, st)
	shift := func(f float64) eqn.State {
		y := append([]complex128{}, x...)
		for i := range y {
			y[i] += complex(f*d.v[i], 0)
		}
		return unstack(s, y)
	}
	start, end := shift(-0.5*l), shift(0.5*l)
	n1, n2, den := eqn.State{}, eqn.State{}, eqn.State{}
	for _, nm := range s.Names {
		r1, a := s.Eval(nm, start, t)
		r2, _ := s.Eval(nm, end, t)
		n1[nm], n2[nm], den[nm] = ref.InvDFT(s.Dims, r1), ref.InvDFT(s.Dims, r2), a
	}
	// A applied to a vector
	apply := func(v []complex128) []complex128 {
		sp := spectra(s, unstack(s, v))
		for _, nm := range s.Names {
			for j := range sp[nm] {
				sp[nm][j] *= den[nm][j]
			}
		}
		return stack(s, realSpace(s, sp))
	}
	reflect := func(v []complex128, sigma float64) {
		dot := complex(0, 0)
		for i := range v {
			dot += v[i] * complex(d.v[i], 0)
		}
		for i := range v {
			v[i] -= complex(sigma*d.v[i], 0) * dot
		}
	}
	N1, N2 := stack(s, n1), stack(s, n2)
	b := make([]complex128, len(x))
	for i := range b {
		b[i] = complex(d.alpha, 0)*N1[i] + complex(1-d.alpha, 0)*N2[i]
	}
	reflect(b, 2)
	for i := range b {
		b[i] = x[i] + complex(dt, 0)*b[i]
	}
	mat := make([][]complex128, len(x))
	for i := range mat {
		mat[i] = make([]complex128, len(x))
	}
	for c := range x {
		e := make([]complex128, len(x))
		e[c] = 1
		col := apply(e)
		reflect(col, 2)
		for i := range col {
			mat[i][c] = -complex(dt, 0) * col[i]
		}
		mat[c][c]++
	}
	for _, nm := range s.Names {
		// The Sherman-Morrison formula needs the diagonal part to be invertible on its own
		if singular(den[nm], dt) {
			return nil, false
		}
	}
	nx, ok := solveDense(mat, b)
	if !ok {
		return nil, false
	}
	next := unstack(s, nx)
	if !bounded(s, next) {
		return nil, false
	}
	// monitor
	d.maxForce, d.power, d.maxTorque = 0, 0, 0
	s0, s1 := spectra(s, st), spectra(s, next)
	for _, nm := range s.Names {
		for j := range s0[nm] {
			f := cmplx.Abs(s1[nm][j]-s0[nm][j]) / dt
			d.maxForce = math.Max(d.maxForce, f)
			d.power += f * f / float64(n)
		}
	}
	d.power = math.Sqrt(d.power / float64(len(x)))
	// orientation
	cv := make([]complex128, len(x))
	for i := range cv {
		cv[i] = complex(d.v[i], 0)
	}
	av := apply(cv)
	tq := make([]complex128, len(x))
	for i := range tq {
		tq[i] = N2[i] - N1[i] + complex(l, 0)*av[i]
	}
	reflect(tq, 1)
	norm := 0.0
	nv := make([]float64, len(x))
	for i := range nv {
		d.maxTorque = math.Max(d.maxTorque, math.Abs(real(tq[i])))
		nv[i] = d.v[i] + dt*real(tq[i])/(l*d.tau)
		norm += nv[i] * nv[i]
	}
	for i := range nv {
		nv[i] /= math.Sqrt(norm)
	}
	d.v = nv
	return next, true
}

func TestC14_DimerStep(t *testing.T) {
	pbt.Check(t, "random systems, 1-4 steps; non-trivial: at least one step was compared", 3400, 86000, func(rt *rapid.T, c *pbt.Case) {
		o := stepperOpt()
		o.MaxN = 12
		if rapid.IntRange(0, 24).Draw(rt, "wide") == 24 {
			o.MaxN = 40
		}
		s := eqn.Draw(rt, o)
		n := ref.Size(s.Dims)
		tot := n * len(s.Names)
		dt := rapid.SampledFrom([]float64{0.001, 0.01, 0.05, 0.2}).Draw(rt, "dt")
		nsteps := rapid.IntRange(1, 4).Draw(rt, "nsteps")
		d := &dimer{alpha: 0.5, tau: 1, tauL: 1}
		m := s.Build()
		sdd := pf.NewSDD(s.Dims, m)
		sdd.Dt = dt
		setOrientation := func() {
			orient := gen.Field(rt, "orient", tot, -1, 1)
			orient[rapid.IntRange(0, tot-1).Draw(rt, "nonzero")] += 1.5
			norm := 0.0
			for _, o := range orient {
				norm += o * o
			}
			norm = math.Sqrt(norm)
			if rapid.Bool().Draw(rt, "fromfields") {
				// the orientation points from one state to another
				a, b := make([]pf.Field, len(s.Names)), make([]pf.Field, len(s.Names))
				for i := range a {
					from := gen.Field(rt, "from", n, -1, 1)
					to := make([]float64, n)
					for j := range to {
						to[j] = from[j] + orient[i*n+j]
					}
					a[i], b[i] = pf.NewField("a", n, gen.Cmplx(from)), pf.NewField("b", n, gen.Cmplx(to))
				}
				sdd.Init(a, b)
				c.Label("Init")
			} else {
				sdd.SetInitialOrientation(append([]float64{}, orient...))
			}
			if math.Abs(sdd.InitDimerLength-norm) > 1e-9*norm {
				rt.Fatalf("initial length of the dimer is %v want %v", sdd.InitDimerLength, norm)
			}
			d.l0 = norm
			d.v = make([]float64, tot)
			for i := range d.v {
				d.v[i] = orient[i] / norm
			}
		}
		if rapid.IntRange(0, 3).Draw(rt, "twice") == 3 {
			setOrientation()
			c.Label("oriented twice")
		}
		setOrientation()
		if rapid.Bool().Draw(rt, "params") {
			sdd.Alpha = gen.F(rt, "alpha", 0, 1)
			sdd.TimeConstants = pf.SDDTimeConstants{Orientation: gen.F(rt, "tau", 0.3, 3), DimerLength: gen.F(rt, "taul", 0.01, 3)}
			sdd.InitDimerLength = gen.F(rt, "l0", 0.05, 2)
			sdd.MinDimerLength = gen.F(rt, "lmin", 0.001, 1)
			d.alpha, d.tau, d.tauL, d.l0, d.lmin = sdd.Alpha, sdd.TimeConstants.Orientation, sdd.TimeConstants.DimerLength, sdd.InitDimerLength, sdd.MinDimerLength
		}
		rt.Logf("dt=%g steps=%d dimer %+v %s", dt, nsteps, d, s)
		c.Note("dt=%g steps=%d alpha=%g tau=%g l0=%g lmin=%g %s", dt, nsteps, d.alpha, d.tau, d.l0, d.lmin, s)
		sv := pf.NewSolver(m, s.Dims, dt)
		sv.Stepper = &sdd
		st := s.InitState()
		oldNorm := 0.0
		for k := 0; k < nsteps; k++ {
			tm := float64(k) * dt
			fn := 0.0
			for _, z := range stack(s, st) {
				fn += real(z)*real(z) + imag(z)*imag(z)
			}
			if k > 0 && rapid.IntRange(0, 9).Draw(rt, "reorient") == 9 {
				setOrientation()
				c.Label("oriented again between two steps")
			}
			next, ok := sddRef(s, d, st, tm, dt)
			if !ok {
				c.Label("stopped: singular or growing")
				return
			}
			if l := sdd.DimerLength(tm); math.Abs(l-d.length(tm)) > 1e-9*(1+l) {
				rt.Fatalf("length of the dimer at %v is %v want %v", tm, l, d.length(tm))
			}
			sv.Propagate(1)
			if g := sdd.GetTime(); math.Abs(g-float64(k+1)*dt) > 1e-12 {
				rt.Fatalf("time after %d steps is %g, want %g", k+1, g, float64(k+1)*dt)
			}
			st = next
			for i, nm := range s.Names {
				if e := pbt.Diff(m.Fields[i].Data, st[nm], 1e-7); e != "" {
					rt.Fatalf("step %d, field %s: %s", k+1, nm, e)
				}
			}
			v := make([]pf.Field, len(s.Names))
			for i := range v {
				v[i] = pf.NewField("v", n, nil)
			}
			sdd.ShiftFieldsAlongDimer(v, 1.0)
			for i := range v {
				if e := pbt.DiffF(gen.Real(v[i].Data), d.v[i*n:(i+1)*n], 1e-7); e != "" {
					rt.Fatalf("step %d, orientation of field %s: %s", k+1, s.Names[i], e)
				}
			}
			mon := sdd.Monitor
			for _, q := range []struct {
				what      string
				got, want float64
			}{{"MaxForce", mon.MaxForce, d.maxForce}, {"ForcePowerSpectrum", mon.ForcePowerSpectrum, d.power}, {"MaxTorque", mon.MaxTorque, d.maxTorque},
				{"FieldNorm", mon.FieldNorm, fn}, {"FieldNormChange", math.Abs(mon.FieldNormChange), math.Abs(fn - oldNorm)}} {
				if !(math.Abs(q.got-q.want) <= 1e-6*(1+math.Abs(q.want))) {
					rt.Fatalf("step %d: %s is %v want %v", k+1, q.what, q.got, q.want)
				}
			}
			oldNorm = fn
			c.NonTrivial("%v %v", st, d.v)
		}
		c.LabelIf(len(s.Names) > 1, "several fields")
		c.LabelIf(len(s.Dims) == 3, "3D")
	})
}

// On E = sum of c_i/2 x_i^2 + quartic part, with exactly one unstable direction, the dimer finds the saddle
func TestC14_FindsSaddle(t *testing.T) {
	pbt.Check(t, "the start is away from the saddle", 990, 10000, func(rt *rapid.T, c *pbt.Case) {
		// x is unstable at the saddle, y and z are not. The curvatures are apart
		a, b := gen.F(rt, "a", 1, 3), gen.F(rt, "b", 0.5, 3)
		coup := gen.F(rt, "coup", -0.3, 0.3)
		x0, y0 := gen.F(rt, "x0", -0.3, 0.3), gen.F(rt, "y0", -0.5, 0.5)
		m := pf.NewModel()
		fx, fy := pf.NewField("xCrd", 1, []complex128{complex(x0, 0)}), pf.NewField("yCrd", 1, []complex128{complex(y0, 0)})
		m.AddField(fx)
		m.AddField(fy)
		m.AddScalar(pf.NewScalar("a", complex(a, 0)))
		m.AddScalar(pf.NewScalar("b", complex(b, 0)))
		m.AddScalar(pf.NewScalar("q", complex(coup, 0)))
		m.AddEquation("dxCrd/dt = a*xCrd - xCrd^3 + q*yCrd")
		m.AddEquation("dyCrd/dt = -b*yCrd + q*xCrd")
		dims := []int{1, 1}
		const dt = 0.02
		sdd := pf.NewSDD(dims, &m)
		sdd.Dt = dt
		sdd.SetInitialOrientation([]float64{gen.F(rt, "vx", 0.3, 1), gen.F(rt, "vy", -0.5, 0.5)})
		sdd.InitDimerLength = 0.1
		sdd.MinDimerLength = 1e-4
		sdd.TimeConstants.Orientation = 0.5
		sv := pf.NewSolver(&m, dims, dt)
		sv.Stepper = &sdd
		sv.Solve(1, 1500)
		for i := range m.Fields {
			if z := cmplx.Abs(m.Fields[i].Data[0]); !(z < 1e-4) {
				rt.Fatalf("a %v b %v coupling %v start (%v, %v): ended in (%v, %v), the saddle is (0, 0)", a, b, coup, x0, y0, m.Fields[0].Data[0], m.Fields[1].Data[0])
			}
		}
		if x0 != 0 || y0 != 0 {
			c.NonTrivial("%v %v %v %v %v", a, b, coup, x0, y0)
		}
	})
}

func TestC14_Refusals(t *testing.T) {
	pbt.Check(t, "each kind of mistake", 2000, 10000, func(rt *rapid.T, c *pbt.Case) {
		n := rapid.IntRange(1, 4).Draw(rt, "n")
		m := pf.NewModel()
		m.AddField(pf.NewField("conc", n*n, nil))
		m.AddEquation("dconc/dt = conc^3")
		sdd := pf.NewSDD([]int{n, n}, &m)
		m.Init()
		kind := rapid.IntRange(0, 4).Draw(rt, "kind")
		v := make([]float64, n*n)
		v[0] = 1
		var msg string
		switch kind {
		case 0: // not initialised
			sdd.Dt = 0.1
			msg = pbt.Panics(func() { sdd.Step(&m) })
		case 1: // no time step
			sdd.SetInitialOrientation(v)
			msg = pbt.Panics(func() { sdd.Step(&m) })
		case 2:
			msg = pbt.Panics(func() { sdd.SetInitialOrientation(append(v, 1)) })
		case 4:
			msg = pbt.Panics(func() { sdd.SetInitialOrientation(v[:rapid.IntRange(0, n*n-1).Draw(rt, "short")]) })
		case 3:
			msg = pbt.Panics(func() { sdd.SetFilter(&lowPass{A: 1}) })
		}
		if msg == "" {
			rt.Fatalf("mistake %d was not refused", kind)
		}
		sdd.SetInitialOrientation(v)
		sdd.Dt = 0.1
		if msg := pbt.Panics(func() { sdd.Step(&m) }); msg != "" {
			rt.Fatalf("a correct set up was refused: %s", msg)
		}
		c.NonTrivial("%d %d", kind, n)
	})
}

func TestC14_TimeForLength(t *testing.T) {
	pbt.Check(t, "a length below the initial one, or above it (a negative time)", 20000, 200000, func(rt *rapid.T, c *pbt.Case) {
		sdd := pf.SDD{InitDimerLength: gen.F(rt, "l0", 0.1, 10), TimeConstants: pf.SDDTimeConstants{DimerLength: gen.F(rt, "tau", 0.1, 10)}}
		l := sdd.InitDimerLength * gen.F(rt, "frac", 0.001, 3)
		tm := sdd.RequiredDimerLengthTime(l)
		if g := sdd.DimerLength(tm); !(math.Abs(g-l) <= 1e-10*l) {
			rt.Fatalf("l0 %v tau %v: the length at the time required for %v is %v", sdd.InitDimerLength, sdd.TimeConstants.DimerLength, l, g)
		}
		sdd.MinDimerLength = gen.F(rt, "min", 0.001, 5)
		if g, w := sdd.DimerLength(tm), math.Max(l, sdd.MinDimerLength); !(math.Abs(g-w) <= 1e-10*w) {
			rt.Fatalf("length %v, minimum %v, got %v", l, sdd.MinDimerLength, g)
		}
		c.NonTrivial("%v %v", sdd, l)
	})
}

func TestC14_Log(t *testing.T) {
	pbt.Check(t, "at least one record", 2000, 20000, func(rt *rapid.T, c *pbt.Case) {
		f, err := os.CreateTemp("", "sddlog")
		if err != nil {
			panic("HARNESS-ERROR " + err.Error())
		}
		defer os.Remove(f.Name())
		defer f.Close()
		mon := pf.SDDMonitor{LogFile: f}
		want := "MaxForce,MaxTorque,ForcePowerSpect,FieldNorm,FieldNormChange\n"
		k := rapid.IntRange(1, 5).Draw(rt, "n")
		for i := 0; i < k; i++ {
			v := gen.Vec(rt, "v", 5, -10, 10)
			mon.MaxForce, mon.MaxTorque, mon.ForcePowerSpectrum, mon.FieldNorm, mon.FieldNormChange = v[0], v[1], v[2], v[3], v[4]
			mon.Log(nil, i)
			s := []string{}
			for _, x := range v {
				s = append(s, fmt.Sprintf("%f", x))
			}
			want += strings.Join(s, ",") + "\n"
		}
		got, _ := os.ReadFile(f.Name())
		if string(got) != want {
			rt.Fatalf("log file is\n%s\nwant\n%s", got, want)
		}
		c.NonTrivial("%s", want)
	})
}
