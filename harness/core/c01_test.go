package core

import (
	"math"
	"math/cmplx"
	"testing"

	"github.com/davidkleiven/gopf/pfutil"
	"pgregory.net/rapid"
	"verifharness/eqn"
	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
)

var plans = map[string]*pfutil.FFTWWrapper{}

func TestC01_EquationValue(t *testing.T) {
	pbt.Check(t, "random systems of 1-3 equations from the grammar; non-trivial: a term with several factors or a laplacian", 6600, 160000,
		func(rt *rapid.T, c *pbt.Case) {
			s := eqn.Draw(rt, eqn.Opt{MaxFields: 3, MaxTerms: 4, MaxN: 24, MaxLap: 4, Lo: -1.5, Hi: 1.5, Coef: 2,
				Funcs: true, Constants: true, ShuffleEqs: true, Users: true, Sources: true, FracSource: true, BigLap: true, Many: true, BigPow: true, ZeroPow: true, BigSource: true, FracPow: rapid.IntRange(0, 3).Draw(rt, "fracpow") == 3})
			tm := rapid.Float64Range(-2, 2).Draw(rt, "t")
			if s.AnyProd || s.AnyLap {
				c.NonTrivial("%s", s)
			}
			c.LabelIf(s.AnyProd, "product of fields")
			c.LabelIf(s.AnyLap, "laplacian")
			c.LabelIf(len(s.Names) > 1, "several fields")
			c.LabelIf(len(s.Sources) > 0, "sources")
			c.LabelIf(len(s.Users) > 0, "user defined terms")
			rt.Logf("%s", s)
			m := s.Build()
			m.Init()
			freq := func(i int) []float64 { return ref.Freq(s.Dims, i) }
			st := s.InitState()
			// the equations are evaluated again when the fields have changed
			for round := rapid.IntRange(1, 2).Draw(rt, "rounds"); round > 0; round-- {
				m.SyncDerivedFields()
				for _, f := range m.Fields {
					copy(f.Data, ref.DFT(s.Dims, f.Data))
				}
				for _, f := range m.DerivedFields {
					copy(f.Data, ref.DFT(s.Dims, f.Data))
				}
				for i, nm := range s.Names {
					rhs := m.GetRHS(i, freq, tm)
					den := m.GetDenum(i, freq, tm)
					wr, wd := s.Eval(nm, st, tm)
					got := make([]complex128, len(rhs))
					want := make([]complex128, len(rhs))
					y := ref.DFT(s.Dims, st[nm])
					for j := range got {
						got[j] = rhs[j] + den[j]*y[j]
						want[j] = wr[j] + wd[j]*y[j]
						tol := 1e-9*math.Max(1, cmplx.Abs(want[j])) + 1e-12*s.Size[j]*(1+cmplx.Abs(y[j]))
						if !(cmplx.Abs(got[j]-want[j]) <= tol) {
							rt.Fatalf("field %s: mode %d: got %v want %v (tolerance %g)", nm, j, got[j], want[j], tol)
						}
					}
				}
				if round == 1 {
					break
				}
				cplx := rapid.IntRange(0, 2).Draw(rt, "complex") == 2
				for i, nm := range s.Names {
					st[nm] = gen.Cmplx(gen.Field(rt, "again_"+nm, len(st[nm]), -1.5, 1.5))
					if cplx {
						for j, im := range gen.Field(rt, "imag_"+nm, len(st[nm]), -1, 1) {
							st[nm][j] += complex(0, im)
						}
					}
					copy(m.Fields[i].Data, st[nm])
				}
				tm += rapid.Float64Range(-1, 1).Draw(rt, "later")
				c.Label("changed fields")
				c.LabelIf(cplx, "complex fields")
			}
		})
}
