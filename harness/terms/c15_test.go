package terms

import (
	"fmt"
	"math"
	"testing"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"pgregory.net/rapid"
	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
)

// conductivity is a symmetric tensor at each node
type conductivity [][3][3]float64

// flat returns the tensor in the documented order
func (s conductivity) flat(i, dim int) []float64 {
	m := s[i]
	if dim == 2 {
		return []float64{m[0][0], m[1][1], m[0][1]}
	}
	return []float64{m[0][0], m[1][1], m[2][2], m[0][2], m[1][2], m[0][1]}
}

func drawSigma(rt *rapid.T, n, dim int) (conductivity, string) {
	s := make(conductivity, n)
	kind := rapid.SampledFrom([]string{"isotropic", "uniform", "varying"}).Draw(rt, "sigma")
	one := func() (m [3][3]float64) {
		for i := 0; i < dim; i++ {
			for j := 0; j <= i; j++ {
				m[i][j] = gen.F(rt, "s", -1, 1)
				m[j][i] = m[i][j]
			}
			m[i][i] += 2
		}
		// from an almost insulating to a well conducting material
		f := rapid.SampledFrom([]float64{1, 1, 1, 1, 1, 0.01, 1e-4, 0, 20}).Draw(rt, "factor")
		for i := range m {
			for j := range m {
				m[i][j] *= f
			}
		}
		return
	}
	switch kind {
	case "isotropic":
		v := gen.Field(rt, "iso", n, rapid.SampledFrom([]float64{0, 0.001, 0.1}).Draw(rt, "lowest"), rapid.SampledFrom([]float64{0.2, 3}).Draw(rt, "highest"))
		for i := range s {
			for d := 0; d < dim; d++ {
				s[i][d][d] = v[i]
			}
		}
	case "uniform":
		m := one()
		for i := range s {
			s[i] = m
		}
	default:
		a, b := one(), one()
		w := gen.Field(rt, "w", n, 0, 1)
		for k := range s {
			for i := 0; i < dim; i++ {
				for j := 0; j < dim; j++ {
					s[k][i][j] = w[k]*a[i][j] + (1-w[k])*b[i][j]
				}
			}
		}
	}
	return s, kind
}

// refCurrent returns j = sigma (E_ext - grad phi), lap phi = -rho
func refCurrent(dims []int, s conductivity, ext []float64, rho []complex128) [][]complex128 {
	n := len(rho)
	dim := len(dims)
	phi := ref.DFT(dims, rho)
	phi[0] = 0
	for i := 1; i < n; i++ {
		phi[i] /= complex(ref.K2(dims, i), 0)
	}
	cur := make([][]complex128, dim)
	for d := range cur {
		cur[d] = make([]complex128, n)
	}
	for d := 0; d < dim; d++ {
		g := ref.InvDFT(dims, derivS(dims, phi, d))
		for k := range g {
			e := complex(ext[d], 0) - g[k]
			for q := 0; q < dim; q++ {
				cur[q][k] += complex(s[k][q][d], 0) * e
			}
		}
	}
	return cur
}

func TestC15_ChargeTransport(t *testing.T) {
	pbt.Check(t, "the divergence of the current is not zero", 3900, 98000, func(rt *rapid.T, c *pbt.Case) {
		dims := termDims(rt)
		dim := len(dims)
		n := ref.Size(dims)
		s, kind := drawSigma(rt, n, dim)
		ext := gen.Vec(rt, "ext", dim, -2, 2)
		rho := gen.Field(rt, "rho", n, -1, 1)
		m := pf.NewModel()
		f := pf.NewField("density", n, gen.Cmplx(rho))
		m.AddField(f)
		// the conductivity is stored by the caller
		stored := make([][]float64, n)
		for i := range stored {
			stored[i] = s.flat(i, dim)
		}
		ct := pf.ChargeTransport{Conductivity: func(i int) []float64 { return stored[i] }, ExternalField: ext, Field: "density", FT: pfutil.NewFFTW(dims)}
		// The current from the real space and from the transformed density
		checkCur := func(real []complex128, when string) {
			want := refCurrent(dims, s, ext, real)
			a := ct.Current(pf.NewField("density", n, append([]complex128{}, real...)), n, true)
			b := ct.Current(pf.NewField("density", n, ref.DFT(dims, real)), n, false)
			for d := 0; d < dim; d++ {
				if e := pbt.DiffF(a[d], gen.Real(want[d]), 1e-9); e != "" {
					rt.Fatalf("%s: dims %v sigma %v field %v rho %v: current component %d from real space: %s", when, dims, s, ext, rho, d, e)
				}
				if e := pbt.DiffF(b[d], gen.Real(want[d]), 1e-9); e != "" {
					rt.Fatalf("%s: dims %v sigma %v field %v rho %v: current component %d from the transformed density: %s", when, dims, s, ext, rho, d, e)
				}
			}
		}
		checkCur(f.Data, "before")
		m.RegisterExplicitTerm("MINUS_DIV_CURRENT", asTerm(rt, &ct), nil)
		m.AddEquation("ddensity/dt = MINUS_DIV_CURRENT")
		checkRate(rt, c, &m, dims, []string{"density"}, func(st map[string][]complex128) map[string][]complex128 {
			r := make([]complex128, n)
			for d, j := range refCurrent(dims, s, ext, st["density"]) {
				for i, v := range deriv(dims, j, d) {
					r[i] -= v
				}
			}
			return map[string][]complex128{"density": r}
		}, fmt.Sprintf("conductivity %s ext %v rho %v", kind, ext, rho))
		for i := range stored {
			if d := pbt.DiffF(stored[i], s.flat(i, dim), 0); d != "" {
				rt.Fatalf("the conductivity of node %d was changed: %s", i, d)
			}
		}
		if pbt.MaxAbs(m.Fields[0].Data) < 1e4 {
			checkCur(m.Fields[0].Data, "after")
			// charge is neither created nor destroyed
			s0, s1 := 0.0, complex(0, 0)
			for i := range rho {
				s0 += rho[i]
				s1 += m.Fields[0].Data[i]
			}
			if !(math.Abs(real(s1)-s0) <= 1e-9*(float64(n)+pbt.MaxAbs(m.Fields[0].Data))) {
				rt.Fatalf("dims %v sigma %v: the total charge changed from %v to %v", dims, s, s0, s1)
			}
		}
		c.Label(kind)
	})
}

// In a uniform isotropic conductor every mode of the charge decays with the same rate, and the mean current is sigma times the external field
func TestC15_Relaxation(t *testing.T) {
	pbt.Check(t, "charge that varies in space", 4000, 40000, func(rt *rapid.T, c *pbt.Case) {
		dim := rapid.IntRange(2, 3).Draw(rt, "dim")
		dims := make([]int, dim)
		for d := range dims {
			dims[d] = rapid.SampledFrom([]int{1, 3, 5, 7}[:6-dim]).Draw(rt, "side")
		}
		n := ref.Size(dims)
		sig := gen.F(rt, "sigma", 0.1, 3) * rapid.SampledFrom([]float64{1, 1, 1, 0.01, 1e-4}).Draw(rt, "factor")
		ext := gen.Vec(rt, "ext", dim, -2, 2)
		m := pf.NewModel()
		rho := gen.Field(rt, "rho", n, -1, 1)
		mean := 0.0
		for _, v := range rho {
			mean += v / float64(n)
		}
		f := pf.NewField("density", n, gen.Cmplx(rho))
		m.AddField(f)
		ct := pf.ChargeTransport{Conductivity: func(i int) []float64 {
			if dim == 2 {
				return []float64{sig, sig, 0}
			}
			return []float64{sig, sig, sig, 0, 0, 0}
		}, ExternalField: ext, Field: "density", FT: pfutil.NewFFTW(dims)}
		m.RegisterExplicitTerm("MINUS_DIV_CURRENT", asTerm(rt, &ct), nil)
		m.AddEquation("ddensity/dt = MINUS_DIV_CURRENT")
		dt := gen.F(rt, "dt", 0.001, 0.3)
		k := rapid.IntRange(1, 6).Draw(rt, "steps")
		pf.NewSolver(&m, dims, dt).Propagate(k)
		for i := range rho {
			want := mean + (rho[i]-mean)*math.Pow(1-dt*sig, float64(k))
			if g := m.Fields[0].Data[i]; !(math.Abs(real(g)-want) <= 1e-9) || math.Abs(imag(g)) > 1e-9 {
				rt.Fatalf("dims %v sigma %v dt %v: after %d steps node %d has charge %v want %v", dims, sig, dt, k, i, g, want)
			}
		}
		for d, j := range ct.Current(m.Fields[0], n, true) {
			s := 0.0
			for _, v := range j {
				s += v / float64(n)
			}
			if !(math.Abs(s-sig*ext[d]) <= 1e-9) {
				rt.Fatalf("dims %v sigma %v external field %v: the mean current is %v", dims, sig, ext, s)
			}
		}
		if n > 1 {
			c.NonTrivial("%v %v %v", dims, rho, dt)
		}
	})
}
