package terms

import (
	"fmt"
	"testing"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"pgregory.net/rapid"
	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
)

// Several terms of the same kind, on the same or on different fields, do not disturb each other
func TestC10_Together(t *testing.T) {
	pool := []string{"conc", "conc2", "con", "eta", "et", "etb", "x", "xy"}
	pbt.Check(t, "models with 2-4 gradient terms on 1-3 fields whose names resemble each other; non-trivial: the rate is not zero", 2600, 40000,
		func(rt *rapid.T, c *pbt.Case) {
			dims := termDims(rt)
			n := ref.Size(dims)
			ft := pfutil.NewFFTW(dims)
			nf := rapid.IntRange(1, 3).Draw(rt, "nf")
			names := append([]string{}, rapid.Permutation(pool).Draw(rt, "names")[:nf]...)
			m := pf.NewModel()
			for _, nm := range names {
				m.AddField(pf.NewField(nm, n, gen.Cmplx(gen.Field(rt, nm, n, -1, 1))))
			}
			pick := func(l string) string { return names[rapid.IntRange(0, nf-1).Draw(rt, l)] }
			nv := 3
			scal := make([]complex128, nv)
			for i := range scal {
				scal[i] = complex(gen.F(rt, "scalar", -1, 1), 0)
				m.AddScalar(pf.NewScalar(fmt.Sprintf("vel%d", i), scal[i]))
			}
			nt := rapid.IntRange(2, 4).Draw(rt, "nterm")
			rates := map[string][]func(s st) []complex128{}
			eqs := map[string]string{}
			what := ""
			for k := 0; k < nt; k++ {
				src, own := pick("src"), pick("own")
				nm := fmt.Sprintf("TERM%d", k)
				var r func(s st) []complex128
				switch rapid.IntRange(0, 4).Draw(rt, "kind") {
				case 0:
					a, b := complex(gen.F(rt, "a", -1, 1), 0), complex(gen.F(rt, "b", -1, 1), 0)
					fac := pick("fac")
					dg := &pf.DivGrad{Field: src, F: func(i int, br map[string]pf.Brick) complex128 { return a + b*br[fac].Get(i) }}
					dg.PrepareModel(n, &m, ft)
					m.RegisterExplicitTerm(nm, asTerm(rt, dg), nil)
					r = func(s st) []complex128 {
						out := make([]complex128, n)
						for d := range dims {
							g := deriv(dims, s[src], d)
							for i := range g {
								g[i] *= a + b*s[fac][i]
							}
							add(out, deriv(dims, g, d))
						}
						return out
					}
					what += fmt.Sprintf(" %s:DivGrad(%v+%v*%s, %s)", own, a, b, fac, src)
				case 1:
					var vel []string
					var get []func(s st, i int) complex128
					for range dims {
						// the same velocity can stand for several components
						if rapid.Bool().Draw(rt, "scalarvel") {
							j := rapid.IntRange(0, nv-1).Draw(rt, "vel")
							vel = append(vel, fmt.Sprintf("vel%d", j))
							get = append(get, func(s st, i int) complex128 { return scal[j] })
						} else {
							f := pick("velfield")
							vel = append(vel, f)
							get = append(get, func(s st, i int) complex128 { return s[f][i] })
						}
					}
					ad := &pf.Advection{Field: src, VelocityFields: vel}
					ad.PrepareModel(n, &m, ft)
					m.RegisterExplicitTerm(nm, asTerm(rt, ad), nil)
					r = func(s st) []complex128 {
						out := make([]complex128, n)
						for d := range dims {
							g := deriv(dims, s[src], d)
							for i := range g {
								out[i] -= get[d](s, i) * g[i]
							}
						}
						return out
					}
					what += fmt.Sprintf(" %s:%v.grad %s", own, vel, src)
				case 2:
					f := gen.F(rt, "factor", -2, 2)
					sq := pf.NewSquareGradient(src, dims)
					sq.Factor = f
					m.RegisterExplicitTerm(nm, asTerm(rt, &sq), nil)
					r = func(s st) []complex128 {
						out := make([]complex128, n)
						for d := range dims {
							g := deriv(dims, s[src], d)
							for i := range g {
								out[i] += complex(f, 0) * g[i] * g[i]
							}
						}
						return out
					}
					what += fmt.Sprintf(" %s:%g (grad %s)^2", own, f, src)
				case 3:
					pre := pick("pre")
					wl := &pf.WeightedLaplacian{Field: src, PreFactor: pre, FT: ft}
					m.RegisterExplicitTerm(nm, asTerm(rt, wl), nil)
					r = func(s st) []complex128 { return mul(lap(dims, s[src]), s[pre]) }
					what += fmt.Sprintf(" %s:%s LAP %s", own, pre, src)
				default:
					f := gen.F(rt, "slope", -2, 2)
					m.RegisterFunction(nm, func(i int, b map[string]pf.Brick) complex128 { return complex(f, 0) * b[src].Get(i) * b[src].Get(i) })
					r = func(s st) []complex128 {
						out := mul(s[src], s[src])
						for i := range out {
							out[i] *= complex(f, 0)
						}
						return out
					}
					what += fmt.Sprintf(" %s:%g %s^2", own, f, src)
				}
				sign := complex(1, 0)
				if rapid.Bool().Draw(rt, "minus") {
					sign = -1
					eqs[own] += " - " + nm
				} else {
					eqs[own] += " + " + nm
				}
				rates[own] = append(rates[own], func(s st) []complex128 {
					out := r(s)
					for i := range out {
						out[i] *= sign
					}
					return out
				})
			}
			for _, nm := range names {
				if eqs[nm] == "" {
					eqs[nm] = nm + "^2"
					nm := nm
					rates[nm] = []func(s st) []complex128{func(s st) []complex128 { return mul(s[nm], s[nm]) }}
				}
				m.AddEquation("d" + nm + "/dt = " + eqs[nm])
			}
			checkRate(rt, c, &m, dims, names, func(s st) st {
				out := st{}
				for _, nm := range names {
					v := make([]complex128, n)
					for _, r := range rates[nm] {
						add(v, r(s))
					}
					out[nm] = v
				}
				return out
			}, what)
		})
}
