package terms

import (
	"fmt"
	"math"
	"math/cmplx"
	"testing"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"pgregory.net/rapid"
	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
)

// GradientCalculator
func TestC10_Gradient(t *testing.T) {
	pbt.Check(t, "real and complex data on random domains, all components; non-trivial: more than one node along the component", 5600, 120000,
		func(rt *rapid.T, c *pbt.Case) {
			dims := termDims(rt)
			n := ref.Size(dims)
			comp := rapid.IntRange(0, len(dims)-1).Draw(rt, "comp")
			keep := rapid.IntRange(0, 3).Draw(rt, "keep") == 0
			data := gen.CField(rt, "data", n, -2, 2)
			if rapid.Bool().Draw(rt, "real") {
				data = gen.Cmplx(gen.Real(data))
			}
			g := pf.GradientCalculator{FT: pfutil.NewFFTW(dims), Comp: comp, KeepNyquist: keep}
			want := deriv(dims, data, comp)
			if keep {
				ft := ref.DFT(dims, data)
				for i := range ft {
					ft[i] *= complex(0, 2*math.Pi*ref.Freq(dims, i)[comp])
				}
				want = ref.InvDFT(dims, ft)
			}
			in := append([]complex128{}, data...)
			out := make([]complex128, n)
			g.Calculate(in, out)
			if d := pbt.Diff(out, want, 1e-10); d != "" {
				rt.Fatalf("dims %v component %d keep %v: %s", dims, comp, keep, d)
			}
			if d := pbt.Diff(in, data, 0); d != "" {
				rt.Fatalf("the input was changed: %s", d)
			}
			// as derived field, which has to follow its brick
			fld := pf.NewField("conc", n, in)
			df := g.ToDerivedField("grad", n, &fld)
			df.Update()
			if d := pbt.Diff(df.Data, want, 1e-10); d != "" || df.Name != "grad" {
				rt.Fatalf("derived field %s, dims %v component %d: %s", df.Name, dims, comp, d)
			}
			for i := range in {
				in[i] *= -2
				want[i] *= -2
			}
			df.Update()
			if d := pbt.Diff(df.Data, want, 1e-10); d != "" {
				rt.Fatalf("derived field after the field changed, dims %v component %d: %s", dims, comp, d)
			}
			if dims[comp] > 1 {
				c.NonTrivial("%v %d %v %v", dims, comp, keep, data[0])
			}
			c.LabelIf(dims[comp]%2 == 0, "even side")
		})
}

// checkRate advances one or two explicit euler steps and compares with the rate of the reference
func checkRate(rt *rapid.T, c *pbt.Case, m *pf.Model, dims []int, names []string, rate func(st map[string][]complex128) map[string][]complex128, what string) {
	dt := rapid.SampledFrom([]float64{0.001, 0.1, 1.0}).Draw(rt, "dt")
	nsteps := rapid.IntRange(1, 2).Draw(rt, "nsteps")
	st := map[string][]complex128{}
	for i, nm := range names {
		st[nm] = append([]complex128{}, m.Fields[i].Data...)
	}
	sv := pf.NewSolver(m, dims, dt)
	nt := false
	for k := 0; k < nsteps; k++ {
		r := rate(st)
		for nm, v := range r {
			next := append([]complex128{}, st[nm]...)
			for i := range next {
				next[i] += complex(dt, 0) * v[i]
			}
			nt = nt || pbt.MaxAbs(v) > 1e-6
			r[nm] = next
		}
		for nm := range r {
			st[nm] = r[nm]
		}
		sv.Propagate(1)
		scale := 1.0
		for _, nm := range names {
			scale = math.Max(scale, pbt.MaxAbs(st[nm]))
		}
		if !(scale < 1e4) {
			c.Label("growing")
			return
		}
		for i, nm := range names {
			if d := pbt.Diff(m.Fields[i].Data, st[nm], 1e-9); d != "" {
				rt.Fatalf("%s dims %v dt %g step %d, field %s: %s", what, dims, dt, k+1, nm, d)
			}
			if im := maxImag(m.Fields[i].Data); !(im <= 1e-9*scale) {
				rt.Fatalf("%s dims %v dt %g step %d: field %s got the imaginary part %g", what, dims, dt, k+1, nm, im)
			}
		}
	}
	if nt {
		c.NonTrivial("%s %v %g %v", what, dims, dt, st[names[0]])
	}
	c.LabelIf(len(dims) == 3, "3D")
	even := false
	for _, d := range dims {
		even = even || d%2 == 0
	}
	c.LabelIf(even, "even side")
}

type st = map[string][]complex128

// Div F grad field
func TestC10_DivGrad(t *testing.T) {
	pbt.Check(t, "random F (polynomial of two fields) and fields; non-trivial: the rate is not zero", 3900, 97000,
		func(rt *rapid.T, c *pbt.Case) {
			dims := termDims(rt)
			n := ref.Size(dims)
			m := pf.NewModel()
			m.AddField(pf.NewField("conc", n, gen.Cmplx(gen.Field(rt, "conc", n, -1, 1))))
			m.AddField(pf.NewField("eta", n, gen.Cmplx(gen.Field(rt, "eta", n, -1, 1))))
			a, b, d := complex(gen.F(rt, "a", -1, 1), 0), complex(gen.F(rt, "b", -1, 1), 0), complex(gen.F(rt, "d", -1, 1), 0)
			src := rapid.SampledFrom([]string{"conc", "eta"}).Draw(rt, "src")
			dg := pf.DivGrad{Field: src, F: func(i int, br map[string]pf.Brick) complex128 {
				return a + b*br["conc"].Get(i) + d*br["eta"].Get(i)*br["conc"].Get(i)
			}}
			dg.PrepareModel(n, &m, pfutil.NewFFTW(dims))
			m.RegisterExplicitTerm("DIVGRAD", asTerm(rt, &dg), nil)
			sign := rapid.SampledFrom([]string{"+", "-"}).Draw(rt, "sign")
			m.AddEquation("dconc/dt = " + sign + "DIVGRAD")
			m.AddEquation("deta/dt = conc^2")
			checkRate(rt, c, &m, dims, []string{"conc", "eta"}, func(s st) st {
				out := make([]complex128, n)
				for k := range dims {
					g := deriv(dims, s[src], k)
					for i := range g {
						g[i] *= a + b*s["conc"][i] + d*s["eta"][i]*s["conc"][i]
						if sign == "-" {
							g[i] = -g[i]
						}
					}
					add(out, deriv(dims, g, k))
				}
				return st{"conc": out, "eta": mul(s["conc"], s["conc"])}
			}, sign+"DivGrad of "+src)
		})
}

// -v . grad field
func TestC10_Advection(t *testing.T) {
	pbt.Check(t, "velocities that are fields, derived fields or scalars; non-trivial: the rate is not zero", 4000, 100000,
		func(rt *rapid.T, c *pbt.Case) {
			dims := termDims(rt)
			n := ref.Size(dims)
			m := pf.NewModel()
			names := []string{"conc"}
			m.AddField(pf.NewField("conc", n, gen.Cmplx(gen.Field(rt, "conc", n, -1, 1))))
			var vel []string
			get := map[string]func(s st, i int) complex128{}
			for d := range dims {
				nm := fmt.Sprintf("vel%c", 'x'+d)
				vel = append(vel, nm)
				switch rapid.IntRange(0, 2).Draw(rt, "velkind") {
				case 0:
					v := complex(gen.F(rt, "vs", -1, 1), 0)
					m.AddScalar(pf.NewScalar(nm, v))
					get[nm] = func(s st, i int) complex128 { return v }
				case 1:
					m.AddField(pf.NewField(nm, n, gen.Cmplx(gen.Field(rt, nm, n, -1, 1))))
					names = append(names, nm)
					get[nm] = func(s st, i int) complex128 { return s[nm][i] }
				default:
					v := complex(gen.F(rt, "vf", -1, 1), 0)
					m.RegisterFunction(nm, func(i int, b map[string]pf.Brick) complex128 { return v * b["conc"].Get(i) })
					get[nm] = func(s st, i int) complex128 { return v * s["conc"][i] }
				}
			}
			ad := pf.Advection{Field: "conc", VelocityFields: vel}
			ad.PrepareModel(n, &m, pfutil.NewFFTW(dims))
			m.RegisterExplicitTerm("ADV", asTerm(rt, &ad), nil)
			m.AddEquation("dconc/dt = ADV")
			for _, nm := range names[1:] {
				m.AddEquation("d" + nm + "/dt = conc^2")
			}
			checkRate(rt, c, &m, dims, names, func(s st) st {
				out := make([]complex128, n)
				for k := range dims {
					g := deriv(dims, s["conc"], k)
					for i := range g {
						out[i] -= g[i] * get[vel[k]](s, i)
					}
				}
				r := st{"conc": out}
				for _, nm := range names[1:] {
					r[nm] = mul(s["conc"], s["conc"])
				}
				return r
			}, "advection")
		})
}

// A term whose fields are missing or do not fit is refused
func TestC10_AdvectionMistakes(t *testing.T) {
	pbt.Check(t, "advection terms with missing velocity, missing field, or wrong number of components; non-trivial: a mistake is present", 2200, 20000,
		func(rt *rapid.T, c *pbt.Case) {
			dims := termDims(rt)
			n := ref.Size(dims)
			m := pf.NewModel()
			m.AddField(pf.NewField("conc", n, nil))
			nv := rapid.IntRange(1, 4).Draw(rt, "nv")
			missing := rapid.IntRange(-1, nv).Draw(rt, "missing")
			var vel []string
			for d := 0; d < nv; d++ {
				vel = append(vel, fmt.Sprintf("v%d", d))
				if d != missing {
					m.AddScalar(pf.NewScalar(vel[d], 1))
				}
			}
			ad := pf.Advection{Field: "conc", VelocityFields: vel}
			if missing == nv {
				ad.Field = "eta"
			}
			msg := pbt.Panics(func() { ad.PrepareModel(n, &m, pfutil.NewFFTW(dims)) })
			bad := nv != len(dims) || missing >= 0
			if bad != (msg != "") {
				rt.Fatalf("dims %v, %d velocities, missing %d: panic %q", dims, nv, missing, msg)
			}
			if bad {
				c.NonTrivial("%v %d %d", dims, nv, missing)
			}
		})
}

// F * LAP field
func TestC10_WeightedLaplacian(t *testing.T) {
	pbt.Check(t, "random prefactor functions and fields; non-trivial: the rate is not zero", 3600, 80000,
		func(rt *rapid.T, c *pbt.Case) {
			dims := termDims(rt)
			n := ref.Size(dims)
			m := pf.NewModel()
			m.AddField(pf.NewField("conc", n, gen.Cmplx(gen.Field(rt, "conc", n, -1, 1))))
			m.AddField(pf.NewField("eta", n, gen.Cmplx(gen.Field(rt, "eta", n, -1, 1))))
			a, b := complex(gen.F(rt, "a", -1, 1), 0), complex(gen.F(rt, "b", -1, 1), 0)
			m.RegisterFunction("WEIGHT", func(i int, br map[string]pf.Brick) complex128 { return a + b*br["eta"].Get(i)*br["conc"].Get(i) })
			src := rapid.SampledFrom([]string{"conc", "eta"}).Draw(rt, "src")
			pre := rapid.SampledFrom([]string{"WEIGHT", "eta", "conc"}).Draw(rt, "pre")
			wl := pf.WeightedLaplacian{Field: src, PreFactor: pre, FT: pfutil.NewFFTW(dims)}
			m.RegisterExplicitTerm("WLAP", asTerm(rt, &wl), nil)
			m.AddEquation("dconc/dt = WLAP")
			m.AddEquation("deta/dt = conc^2")
			checkRate(rt, c, &m, dims, []string{"conc", "eta"}, func(s st) st {
				l := lap(dims, s[src])
				for i := range l {
					switch pre {
					case "WEIGHT":
						l[i] *= a + b*s["eta"][i]*s["conc"][i]
					default:
						l[i] *= s[pre][i]
					}
				}
				return st{"conc": l, "eta": mul(s["conc"], s["conc"])}
			}, pre+" LAP "+src)
		})
}

// Factor * (grad field)^2
func TestC10_SquaredGradient(t *testing.T) {
	pbt.Check(t, "random factors and fields; non-trivial: the rate is not zero", 3500, 80000,
		func(rt *rapid.T, c *pbt.Case) {
			dims := termDims(rt)
			n := ref.Size(dims)
			m := pf.NewModel()
			m.AddField(pf.NewField("conc", n, gen.Cmplx(gen.Field(rt, "conc", n, -1, 1))))
			m.AddField(pf.NewField("eta", n, gen.Cmplx(gen.Field(rt, "eta", n, -1, 1))))
			src := rapid.SampledFrom([]string{"conc", "eta"}).Draw(rt, "src")
			sq := pf.NewSquareGradient(src, dims)
			f := 1.0
			if rapid.Bool().Draw(rt, "fac") {
				f = gen.F(rt, "factor", -2, 2)
				sq.Factor = f
			}
			m.RegisterExplicitTerm("GRADSQ", asTerm(rt, &sq), nil)
			m.AddEquation("dconc/dt = GRADSQ")
			m.AddEquation("deta/dt = conc^2")
			checkRate(rt, c, &m, dims, []string{"conc", "eta"}, func(s st) st {
				out := make([]complex128, n)
				for k := range dims {
					g := deriv(dims, s[src], k)
					for i := range g {
						out[i] += complex(f, 0) * g[i] * g[i]
					}
				}
				return st{"conc": out, "eta": mul(s["conc"], s["conc"])}
			}, fmt.Sprintf("%g (grad %s)^2", f, src))
		})
}

// K_ij d2/dxidxj, treated implicitly
func TestC10_TensorialHessian(t *testing.T) {
	pbt.Check(t, "random coefficient tensors (symmetric or not); non-trivial: some off-diagonal element is not zero", 4300, 100000,
		func(rt *rapid.T, c *pbt.Case) {
			dims := termDims(rt)
			n := ref.Size(dims)
			dim := len(dims)
			k := gen.Vec(rt, "K", dim*dim, -1, 1)
			switch rapid.IntRange(0, 3).Draw(rt, "shape") {
			case 0: // diagonal
				for i := range k {
					if i/dim != i%dim {
						k[i] = 0
					}
				}
			case 1, 2:
				for i := 0; i < dim; i++ {
					for j := 0; j < i; j++ {
						k[i*dim+j] = k[j*dim+i]
					}
				}
			}
			off := false
			for i := range k {
				off = off || (i/dim != i%dim && k[i] != 0)
			}
			init := gen.Field(rt, "conc", n, -1, 1)
			nyq := rapid.Bool().Draw(rt, "nyquist")
			if !nyq {
				init = noNyquist(dims, init)
			}
			m := pf.NewModel()
			m.AddField(pf.NewField("conc", n, gen.Cmplx(init)))
			th := pf.TensorialHessian{K: k, Field: "conc"}
			m.RegisterImplicitTerm("HESS", asTerm(rt, &th), nil)
			m.AddEquation("dconc/dt = HESS")
			dt := 0.001
			sv := pf.NewSolver(&m, dims, dt)
			sv.Propagate(1)
			if im := maxImag(m.Fields[0].Data); im > 1e-10 {
				rt.Fatalf("dims %v K %v: a real field got the imaginary part %g", dims, k, im)
			}
			if off {
				c.NonTrivial("%v %v %v", dims, k, init[0])
			}
			if nyq && off {
				c.Label("realness only")
				return
			}
			y := ref.DFT(dims, gen.Cmplx(init))
			for i := range y {
				f := ref.Freq(dims, i)
				a := 0.0
				for p := 0; p < dim; p++ {
					for q := 0; q < dim; q++ {
						a -= 4 * math.Pi * math.Pi * k[p*dim+q] * f[p] * f[q]
					}
				}
				y[i] /= complex(1-dt*a, 0)
			}
			if d := pbt.Diff(m.Fields[0].Data, ref.InvDFT(dims, y), 1e-11); d != "" {
				rt.Fatalf("dims %v K %v: %s", dims, k, d)
			}
		})
}

// LaplacianN
func TestC10_Laplacian(t *testing.T) {
	pbt.Check(t, "powers 1-4 on random spectra; non-trivial: more than one node", 3100, 60000,
		func(rt *rapid.T, c *pbt.Case) {
			dims := termDims(rt)
			n := ref.Size(dims)
			p := rapid.IntRange(1, 4).Draw(rt, "power")
			data := gen.CField(rt, "data", n, -2, 2)
			want := ref.Lap(dims, data, p)
			got := append([]complex128{}, data...)
			ret := pf.LaplacianN{Power: p}.Eval(pfutil.NewFFTW(dims).Freq, got)
			if d := pbt.Diff(got, want, 1e-11); d != "" {
				rt.Fatalf("dims %v power %d: %s", dims, p, d)
			}
			for i := range got {
				if !(cmplx.Abs(got[i]-want[i]) <= 1e-11*cmplx.Abs(want[i])) {
					rt.Fatalf("dims %v power %d mode %v: %v, want %v", dims, p, ref.Freq(dims, i), got[i], want[i])
				}
			}
			if d := pbt.Diff(ret, got, 0); d != "" {
				rt.Fatalf("dims %v power %d: returned slice differs, %s", dims, p, d)
			}
			if n > 1 {
				c.NonTrivial("%v %d %v", dims, p, data[0])
			}
		})
}
