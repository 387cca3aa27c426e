package terms

import (
	"fmt"
	"math"
	"testing"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfc"
	"pgregory.net/rapid"
	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
)

// Several phase field crystal terms, on the same or on different fields, do not disturb each other
func TestC12_Together(t *testing.T) {
	pool := []string{"dens", "dens2", "den", "d1", "d2", "psi"}
	pbt.Check(t, "models with 1-4 ideal mixture and pair correlation terms on 1-3 densities whose names resemble each other; non-trivial: a step was compared", 3000, 50000,
		func(rt *rapid.T, c *pbt.Case) {
			dims := termDims(rt)
			n := ref.Size(dims)
			nf := rapid.IntRange(1, 3).Draw(rt, "nf")
			names := append([]string{}, rapid.Permutation(pool).Draw(rt, "names")[:nf]...)
			m := pf.NewModel()
			y := map[string][]complex128{}
			for _, nm := range names {
				y[nm] = gen.Cmplx(gen.Field(rt, nm, n, -1, 1))
				m.AddField(pf.NewField(nm, n, append([]complex128{}, y[nm]...)))
			}
			dt := rapid.SampledFrom([]float64{0.001, 0.01, 0.1}).Draw(rt, "dt")
			lin := map[string][]complex128{}
			nonlin := map[string][]func(y st) []complex128{}
			what := ""
			eqs := map[string]string{}
			for k := rapid.IntRange(2, 4).Draw(rt, "nterm"); k > 0; k-- {
				own := names[rapid.IntRange(0, nf-1).Draw(rt, "own")]
				nm := fmt.Sprintf("TERM%d", k)
				sign, txt := 1.0, " + "
				if rapid.Bool().Draw(rt, "minus") {
					sign, txt = -1, " - "
				}
				eqs[own] += txt + nm
				if lin[own] == nil {
					lin[own] = make([]complex128, n)
				}
				isLap := rapid.Bool().Draw(rt, "lap")
				fac := make([]complex128, n) // what the terms are multiplied with at every mode
				for i := range fac {
					fac[i] = complex(sign, 0)
					if isLap {
						fac[i] *= complex(-ref.K2(dims, i), 0)
					}
				}
				pre := gen.F(rt, "A", -2, 2)
				if rapid.IntRange(0, 2).Draw(rt, "one") == 2 {
					pre = 1
				}
				if kind := rapid.IntRange(0, 2).Draw(rt, "kind"); kind > 0 {
					// the linear part acts on the field of the equation
					term := &pf.IdealMixtureTerm{IdealMix: pfc.IdealMix{C3: gen.F(rt, "C3", -3, 3), C4: gen.F(rt, "C4", -3, 3)}, Field: own, Prefactor: pre, Laplacian: isLap}
					m.RegisterMixedTerm(nm, term, []pf.DerivedField{term.DerivedField(n, m.Bricks)})
					for i := range fac {
						lin[own][i] += fac[i] * complex(pre, 0)
					}
					c3, c4 := term.IdealMix.C3, term.IdealMix.C4
					nonlin[own] = append(nonlin[own], func(y st) []complex128 {
						out := make([]complex128, n)
						for i, x := range y[own] {
							v := real(x)
							out[i] = complex(pre*(-c3*v*v/2+c4*v*v*v/3), 0)
						}
						return mul(ref.DFT(dims, out), fac)
					})
					what += fmt.Sprintf("%s%s=%+v", txt, own, *term)
				} else {
					cf := drawCorr(rt)
					term := pf.PairCorrlationTerm{PairCorrFunc: cf, Field: own, Prefactor: pre, Laplacian: isLap}
					for i := range fac {
						fac[i] *= complex(-pre*corrAt(cf, dims, i), 0)
					}
					what += fmt.Sprintf("%s%s=%+v", txt, own, term)
					if rapid.Bool().Draw(rt, "explicit") {
						src := names[rapid.IntRange(0, nf-1).Draw(rt, "src")]
						term.Field = src
						m.RegisterExplicitTerm(nm, asTerm(rt, &pf.ExplicitPairCorrelationTerm{PairCorrlationTerm: term}), nil)
						nonlin[own] = append(nonlin[own], func(y st) []complex128 { return mul(ref.DFT(dims, y[src]), fac) })
						what += "(" + src + ")"
					} else {
						m.RegisterImplicitTerm(nm, asTerm(rt, &term), nil)
						add(lin[own], fac)
					}
				}
			}
			for _, nm := range names {
				if eqs[nm] == "" {
					nm := nm
					lin[nm] = make([]complex128, n)
					nonlin[nm] = append(nonlin[nm], func(y st) []complex128 { return ref.DFT(dims, mul(y[nm], y[nm])) })
					eqs[nm] = nm + "^2"
				}
				m.AddEquation("d" + nm + "/dt = " + eqs[nm])
			}
			sv := pf.NewSolver(&m, dims, dt)
			for k := 0; k < 2; k++ {
				next := map[string][]complex128{}
				for _, nm := range names {
					v := ref.DFT(dims, y[nm])
					for _, f := range nonlin[nm] {
						for i, x := range f(y) {
							v[i] += complex(dt, 0) * x
						}
					}
					for i := range v {
						den := 1 - dt*real(lin[nm][i])
						if math.Abs(den) < 0.05 {
							return
						}
						v[i] /= complex(den, 0)
					}
					next[nm] = ref.InvDFT(dims, v)
				}
				y = next
				sv.Propagate(1)
				for i, nm := range names {
					if !(pbt.MaxAbs(y[nm]) < 1e2) {
						return
					}
					if d := pbt.Diff(m.Fields[i].Data, y[nm], 1e-9); d != "" {
						rt.Fatalf("dims %v dt %g%s: step %d field %s: %s", dims, dt, what, k+1, nm, d)
					}
				}
				c.NonTrivial("%v%s %v", dims, what, y[names[0]])
			}
		})
}
