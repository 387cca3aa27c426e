package elast

import (
	"fmt"
	"math"
	"testing"

	"github.com/davidkleiven/gopf/pf"
	"pgregory.net/rapid"
	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
)

func hFun(x float64) float64  { return 3*x*x - 2*x*x*x }
func dhFun(x float64) float64 { return 6*x - 6*x*x }

// hInv inverts the indicator on [0, 1]
func hInv(y float64) float64 {
	lo, hi := 0.0, 1.0
	for k := 0; k < 80; k++ {
		m := 0.5 * (lo + hi)
		if hFun(m) < y {
			lo = m
		} else {
			hi = m
		}
	}
	return 0.5 * (lo + hi)
}

// elastRate is -dE/dx = A_ij H'(x) (eps_ij - misfit_ij H(x)), with eps from mechanical equilibrium
func elastRate(dims []int, c t4, mis m3, x []float64) []float64 {
	h := make([]float64, len(x))
	for i := range x {
		h[i] = hFun(x[i])
	}
	eps := inclusionStrain(dims, c, mis, h)
	a := c.contract(mis)
	out := make([]float64, len(x))
	for k := range x {
		e := eps[k]
		for i := range e {
			for j := range e {
				e[i][j] -= mis[i][j] * h[k]
			}
		}
		out[k] = ddot(a, e) * dhFun(x[k])
	}
	return out
}

func drawC13(rt *rapid.T, odd bool) (dims []int, v []float64, kind string, mis m3) {
	dim := 2
	if rapid.IntRange(0, 2).Draw(rt, "dim3") == 0 {
		dim = 3
	}
	dims = make([]int, dim)
	for d := range dims {
		if odd {
			dims[d] = rapid.SampledFrom([]int{1, 3, 5, 7}[:6-dim]).Draw(rt, "side")
		} else {
			dims[d] = rapid.IntRange(1, 10-2*dim).Draw(rt, "side")
		}
	}
	v, kind = drawStable(rt)
	for dim == 2 && kind == "triclinic" {
		v, kind = drawStable(rt)
	}
	mis = drawSym(rt, "misfit", -1, 1)
	if dim == 2 {
		// No shear out of the plane
		mis[0][2], mis[1][2], mis[2][0], mis[2][1] = 0, 0, 0, 0
	}
	return
}

// elastModel has one field, driven by the elastic energy
func elastModel(dims []int, v []float64, mis m3, x []float64) (*pf.Model, pf.Field) {
	m := pf.NewModel()
	f := pf.NewField("eta", len(x), gen.Cmplx(x))
	m.AddField(f)
	t := pf.NewHomogeneousModolus("eta", dims, voigt4(v).gopf(), dense(mis))
	m.RegisterExplicitTerm("ELAST", t, nil)
	m.AddEquation("deta/dt = ELAST")
	return &m, f
}

func TestC13_Rate(t *testing.T) {
	pbt.Check(t, "the elastic driving force is not zero", 4000, 50000, func(rt *rapid.T, c *pbt.Case) {
		// On domains with even sides the indicator has no weight halfway the sampling frequency
		odd := rapid.Bool().Draw(rt, "odd")
		dims, v, kind, mis := drawC13(rt, odd)
		n := ref.Size(dims)
		var x []float64
		nsteps := 1
		if odd {
			x = gen.Field(rt, "eta", n, -0.3, 1.3)
			nsteps = gen.Count(rt, "nsteps", 1, 3, 12)
		} else {
			h := ref.DFT(dims, gen.Cmplx(gen.Field(rt, "h", n, 0.2, 0.8)))
			for i := range h {
				for _, f := range ref.Freq(dims, i) {
					if math.Abs(math.Abs(f)-0.5) < 1e-12 {
						h[i] = 0
					}
				}
			}
			x = gen.Real(ref.InvDFT(dims, h))
			for i := range x {
				if x[i] < 0 || x[i] > 1 {
					rt.Skip("indicator outside the interval")
				}
				x[i] = hInv(x[i])
			}
		}
		dt := gen.F(rt, "dt", 0.001, 0.06)
		m, f := elastModel(dims, v, mis, x)
		sv := pf.NewSolver(m, dims, dt)
		nt := false
		for k := 1; k <= nsteps; k++ {
			r := elastRate(dims, voigt4(v), mis, x)
			nx := make([]complex128, n)
			for i := range x {
				nx[i] = complex(x[i]+dt*r[i], 0)
				nt = nt || math.Abs(r[i]) > 1e-3
			}
			if !(pbt.MaxAbs(nx) < 20) {
				c.Label("growing")
				break
			}
			sv.Propagate(1)
			if d := pbt.Diff(m.Fields[0].Data, nx, 1e-9); d != "" {
				rt.Fatalf("dims %v %s Voigt %v misfit %v dt %v eta %v step %d: %s", dims, kind, v, mis, dt, x, k, d)
			}
			x = gen.Real(nx)
		}
		_ = f
		c.Label(kind)
		c.Label(fmt.Sprintf("%dD", len(dims)))
		c.LabelIf(!odd, "any sides")
		if nt {
			c.NonTrivial("%v %v %v %v", dims, v, mis, x)
		}
		c.Note("dims %v %s misfit %v dt %v steps %d", dims, kind, mis, dt, nsteps)
	})
}

func TestC13_Real(t *testing.T) {
	pbt.Check(t, "domain with an even side and weight halfway the sampling frequency", 6000, 60000, func(rt *rapid.T, c *pbt.Case) {
		dims, v, kind, mis := drawC13(rt, false)
		n := ref.Size(dims)
		x := gen.Field(rt, "eta", n, 0, 1)
		m, _ := elastModel(dims, v, mis, x)
		sv := pf.NewSolver(m, dims, 0.05)
		for k := 1; k <= 2; k++ {
			sv.Propagate(1)
			s := pbt.MaxAbs(m.Fields[0].Data)
			if !(s < 1e3) {
				break
			}
			for i, z := range m.Fields[0].Data {
				if !(math.Abs(imag(z)) <= 1e-10*(1+s)) {
					rt.Fatalf("dims %v %s Voigt %v misfit %v eta %v step %d: node %d became complex, %v", dims, kind, v, mis, x, k, i, z)
				}
			}
		}
		even := false
		for _, d := range dims {
			even = even || d%2 == 0
		}
		if even {
			c.NonTrivial("%v %v %v %v", dims, v, mis, x)
		}
		c.Note("dims %v %s misfit %v", dims, kind, mis)
	})
}

// The driving force is minus the derivative of the energy that is left after the elastic relaxation
func TestC13_EnergyDerivative(t *testing.T) {
	energy := func(dims []int, c t4, mis m3, x []float64) float64 {
		h := make([]float64, len(x))
		for i := range x {
			h[i] = hFun(x[i])
		}
		e := 0.0
		for k, s := range inclusionStrain(dims, c, mis, h) {
			for i := range s {
				for j := range s {
					s[i][j] -= mis[i][j] * h[k]
				}
			}
			e += c.energy(s)
		}
		return e
	}
	pbt.Check(t, "the directional derivative of the energy is not zero", 2400, 30000, func(rt *rapid.T, c *pbt.Case) {
		dims, v, kind, mis := drawC13(rt, true)
		n := ref.Size(dims)
		x := gen.Field(rt, "eta", n, 0, 1)
		d := gen.Field(rt, "dir", n, -1, 1)
		m, _ := elastModel(dims, v, mis, x)
		const dt = 1e-3
		pf.NewSolver(m, dims, dt).Propagate(1)
		got := 0.0
		for i := range x {
			got += d[i] * (real(m.Fields[0].Data[i]) - x[i]) / dt
		}
		// Fourth order difference. The energy is a polynomial of degree 6 in the step
		at := func(s float64) float64 {
			y := make([]float64, n)
			for i := range y {
				y[i] = x[i] + s*d[i]
			}
			return energy(dims, voigt4(v), mis, y)
		}
		const h = 0.01
		want := -(8*(at(h)-at(-h)) - (at(2*h) - at(-2*h))) / (12 * h)
		if !(math.Abs(got-want) <= 1e-4*(1+math.Abs(want))+1e-5*float64(n)) {
			rt.Fatalf("dims %v %s Voigt %v misfit %v eta %v direction %v: rate %v want %v", dims, kind, v, mis, x, d, got, want)
		}
		if math.Abs(want) > 1e-2 {
			c.NonTrivial("%v %v %v %v", dims, v, mis, x)
		}
		c.Note("dims %v %s misfit %v: derivative %v", dims, kind, mis, want)
	})
}
