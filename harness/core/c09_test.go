package core

import (
	"fmt"
	"os"
	"os/exec"
	"strings"
	"testing"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"pgregory.net/rapid"
	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
)

// sumTerm is a weighted sum of bricks
type sumTerm struct {
	names   []string
	weights []float64
}

func (s *sumTerm) Construct(b map[string]pf.Brick) pf.Term {
	return func(freq pf.Frequency, t float64, out []complex128) {
		for i := range out {
			out[i] = 0
			for k, nm := range s.names {
				out[i] += complex(s.weights[k], 0) * b[nm].Get(i)
			}
		}
	}
}
func (s *sumTerm) ConstructNonLinear(b map[string]pf.Brick) pf.Term { return s.Construct(b) }
func (s *sumTerm) ConstructLinear(b map[string]pf.Brick) pf.Term    { return zeroTerm }
func (s *sumTerm) OnStepFinished(t float64, b map[string]pf.Brick)  {}

// A term can bring any number of derived fields. Under their names it finds their own values
func TestC09_DerivedFieldsOfTerms(t *testing.T) {
	pbt.Check(t, "terms with 1-4 derived fields, registered in any order; non-trivial: at least two derived fields", 10000, 100000,
		func(rt *rapid.T, c *pbt.Case) {
			dims := gen.Dims(rt, 20)
			n := ref.Size(dims)
			init := gen.Field(rt, "init", n, -1, 1)
			m := pf.NewModel()
			m.AddField(pf.NewField("conc", n, gen.Cmplx(init)))
			nterm := rapid.IntRange(1, 3).Draw(rt, "nterm")
			want := make([]float64, n)
			eq := "dconc/dt = "
			total := 0
			style := rapid.SampledFrom([]string{"term%d_part%d", "p%dq%d", "aFieldThatIsDerived%dFromTheConcentration%d"}).Draw(rt, "style")
			for k := 0; k < nterm; k++ {
				nd := rapid.IntRange(1, 4).Draw(rt, "nd")
				st := &sumTerm{}
				var df []pf.DerivedField
				for d := 0; d < nd; d++ {
					w, a, b := gen.F(rt, "w", -1, 1), gen.F(rt, "a", -1, 1), gen.F(rt, "b", -1, 1)
					nm := fmt.Sprintf(style, k, d)
					st.names = append(st.names, nm)
					st.weights = append(st.weights, w)
					df = append(df, pf.DerivedField{Name: nm, Data: make([]complex128, n), Calc: func(out []complex128) {
						src := m.Bricks["conc"]
						for i := range out {
							out[i] = complex(a, 0) + complex(b, 0)*src.Get(i)*src.Get(i)
						}
					}})
					for i := range want {
						want[i] += w * (a + b*init[i]*init[i])
					}
					total++
				}
				nm := fmt.Sprintf("TERM%d", k)
				if rapid.Bool().Draw(rt, "mixed") {
					m.RegisterMixedTerm(nm, st, df)
				} else {
					m.RegisterExplicitTerm(nm, st, df)
				}
				if k > 0 {
					eq += " + "
				}
				eq += nm
			}
			// functions are derived fields as well
			for k := rapid.IntRange(0, 3).Draw(rt, "nfunc"); k > 0; k-- {
				a, b := gen.F(rt, "a", -1, 1), gen.F(rt, "b", -1, 1)
				nm := fmt.Sprintf("FN_"+style, k, k)
				m.RegisterFunction(nm, func(i int, br map[string]pf.Brick) complex128 {
					x := br["conc"].Get(i)
					return complex(a, 0) + complex(b, 0)*x*x
				})
				pow := rapid.IntRange(1, 2).Draw(rt, "pow")
				eq += " + " + nm
				if pow > 1 {
					eq += "^2"
				}
				for i := range want {
					f := a + b*init[i]*init[i]
					if pow > 1 {
						f *= f
					}
					want[i] += f
				}
				total++
			}
			m.AddEquation(eq)
			dt := 0.25
			sv := pf.NewSolver(&m, dims, dt)
			sv.Propagate(1)
			y := make([]float64, n)
			for i := range y {
				y[i] = init[i] + dt*want[i]
			}
			if d := pbt.DiffF(gen.Real(m.Fields[0].Data), y, 1e-10); d != "" {
				rt.Fatalf("%s with %d derived fields: %s", eq, total, d)
			}
			if total > 1 {
				c.NonTrivial("%v %d %v", dims, total, want)
			}
		})
}

// What is registered can be found under its name and nothing else
func TestC09_Registry(t *testing.T) {
	pbt.Check(t, "random models; non-trivial: at least three names", 3100, 78000,
		func(rt *rapid.T, c *pbt.Case) {
			s := eqnSmall(rt)
			m := s.Build()
			fields := map[string]bool{}
			bricks := map[string]bool{}
			for _, nm := range s.Names {
				fields[nm], bricks[nm] = true, true
			}
			for nm := range s.Scalars {
				bricks[nm] = true
			}
			for _, f := range s.Funcs {
				fields[f.Name], bricks[f.Name] = true, true
			}
			kinds := map[string]int{}
			for _, u := range s.Users {
				kinds[u.Name] = u.Kind
			}
			cands := []string{"conc", "temp", "eta", "phi", "solute", "gamma", "kappa", "m1", "FUNC", "HX", "w_0", "zx", "rate", "nothere", "con", "concc"}
			vars := strings.Join(m.AllVariableNames(), " ") + " "
			all := " " + strings.Join(m.AllFieldNames(), " ") + " "
			for _, nm := range cands {
				if m.IsFieldName(nm) != fields[nm] {
					rt.Fatalf("IsFieldName(%s) is %v (%s)", nm, m.IsFieldName(nm), s)
				}
				if m.IsBrickName(nm) != bricks[nm] {
					rt.Fatalf("IsBrickName(%s) is %v (%s)", nm, m.IsBrickName(nm), s)
				}
				if strings.Contains(" "+vars, " "+nm+" ") != bricks[nm] {
					rt.Fatalf("AllVariableNames: %s, name %s (%s)", vars, nm, s)
				}
				if strings.Contains(all, " "+nm+" ") != fields[nm] {
					rt.Fatalf("AllFieldNames: %s, name %s (%s)", all, nm, s)
				}
				k, user := kinds[nm]
				if m.IsUserDefinedTerm(nm) != user || m.IsImplicitTerm(nm) != (user && k == 0) ||
					m.IsExplicitTerm(nm) != (user && k == 1) || m.IsMixedTerm(nm) != (user && k == 2) {
					rt.Fatalf("kind of term %s: %v %v %v, want %v %d", nm, m.IsImplicitTerm(nm), m.IsExplicitTerm(nm), m.IsMixedTerm(nm), user, k)
				}
				eq := s.EqOf(nm)
				got := -1
				msg := pbt.Panics(func() { got = m.EqNumber(nm) })
				if (msg == "") != (eq >= 0) || got != eq {
					rt.Fatalf("EqNumber(%s) is %d (%s), want %d", nm, got, msg, eq)
				}
			}
			if m.NumNodes() != ref.Size(s.Dims) {
				rt.Fatalf("NumNodes %d, dims %v", m.NumNodes(), s.Dims)
			}
			for i, nm := range s.Names {
				if d := pbt.Diff(m.Fields[i].Data, gen.Cmplx(s.Init[nm]), 0); d != "" || m.Fields[i].Name != nm {
					rt.Fatalf("field %d: %s %s", i, m.Fields[i].Name, d)
				}
				cp := m.Fields[i].Copy()
				cp.Data[0] += 1
				if cp.Name != nm || m.Fields[i].Data[0] != complex(s.Init[nm][0], 0) {
					rt.Fatalf("the copy of a field shares its data")
				}
			}
			if len(bricks) >= 3 {
				c.NonTrivial("%s", s)
			}
			// initialising again changes nothing
			m2 := s.Build()
			m2.Init()
			m2.Init()
			pf.NewSolver(m, s.Dims, 0.01).Propagate(1)
			pf.NewSolver(m2, s.Dims, 0.01).Propagate(1)
			for i := range s.Names {
				if !(pbt.MaxAbs(m.Fields[i].Data) < 1e6) {
					return
				}
				if d := pbt.Diff(m2.Fields[i].Data, m.Fields[i].Data, 1e-12); d != "" {
					rt.Fatalf("initialising the model several times changes the result: %s %s (%s)", s.Names[i], d, s)
				}
			}
		})
}

// A scalar takes the value it is set to
func TestC09_Scalar(t *testing.T) {
	pbt.Check(t, "scalars set before and after they are added; all cases non-trivial", 4000, 40000,
		func(rt *rapid.T, c *pbt.Case) {
			a, b := gen.F(rt, "a", -3, 3), gen.F(rt, "b", -3, 3)
			im := 0.0
			if rapid.IntRange(0, 2).Draw(rt, "complex") == 2 {
				im = gen.F(rt, "im", -3, 3)
			}
			sc := pf.NewScalar("k", complex(a, im))
			if sc.Get(0) != complex(a, im) || sc.Get(3) != complex(a, im) {
				rt.Fatalf("scalar is %v and was created with %v", sc.Get(0), complex(a, im))
			}
			sc.SetFloat(b)
			if sc.Get(0) != complex(b, 0) || sc.Get(5) != complex(b, 0) {
				rt.Fatalf("scalar is %v after it was set to %g", sc.Get(0), b)
			}
			dims := gen.Dims(rt, 12)
			n := ref.Size(dims)
			init := gen.Field(rt, "init", n, -1, 1)
			m := pf.NewModel()
			m.AddField(pf.NewField("conc", n, gen.Cmplx(init)))
			m.AddScalar(sc)
			m.AddEquation("dconc/dt = k*conc^2")
			sv := pf.NewSolver(&m, dims, 0.1)
			sv.Propagate(1)
			want := make([]float64, n)
			for i := range want {
				want[i] = init[i] + 0.1*b*init[i]*init[i]
			}
			if d := pbt.DiffF(gen.Real(m.Fields[0].Data), want, 1e-10); d != "" {
				rt.Fatalf("k was set from %g to %g: %s", a, b, d)
			}
			c.NonTrivial("%g %g %v", a, b, init)
		})
}

// depTerm is registered as implicit term and does (or does not) depend on the fields
type depTerm struct {
	name  string
	w     float64
	from  int // it depends on the nodes in steps of every from here
	every int
}

func (d *depTerm) Construct(b map[string]pf.Brick) pf.Term {
	return func(freq pf.Frequency, t float64, out []complex128) {
		for i := range out {
			out[i] = complex(1.0+freq(i)[0], 0)
			if d.name != "" && i >= d.from && (i-d.from)%d.every == 0 {
				out[i] += complex(d.w, 0) * b[d.name].Get(i)
			}
		}
	}
}
func (d *depTerm) OnStepFinished(t float64, b map[string]pf.Brick) {}

// Mistakes are refused when the model is set up, correct models are not
func TestC09_Mistakes(t *testing.T) {
	pbt.Check(t, "models with at most one planted mistake (undefined name, wrong domain size, wrong data length, implicit term that depends on a field, malformed left hand side); non-trivial: there is a mistake", 5800, 120000,
		func(rt *rapid.T, c *pbt.Case) {
			s := eqnSmall(rt)
			mistake := rapid.IntRange(0, 5).Draw(rt, "mistake")
			n := ref.Size(s.Dims)
			dims := s.Dims
			what := "none"
			msg := pbt.Panics(func() {
				switch mistake {
				case 1:
					k := rapid.IntRange(0, len(s.Eqs)-1).Draw(rt, "eq")
					bad := rapid.SampledFrom([]string{"undefd", "zz", "Q7", "cnc"}).Draw(rt, "bad")
					s.Eqs[k].Txt += rapid.SampledFrom([]string{"+ %s", "- %s^2", "+ %s*LAP " + s.Names[0], "+ LAP %s", "- " + s.Names[0] + "*%s"}).Draw(rt, "form")
					s.Eqs[k].Txt = fmt.Sprintf(s.Eqs[k].Txt, bad)
					what = "undefined name in " + s.Eqs[k].Txt
				case 2:
					dims = append([]int{}, s.Dims...)
					d := rapid.IntRange(0, len(dims)-1).Draw(rt, "d")
					dims[d] += rapid.IntRange(1, 3).Draw(rt, "extra")
					what = fmt.Sprintf("domain %v for %d nodes", dims, n)
				case 3:
					k := rapid.IntRange(-2, 3).Draw(rt, "off")
					what = fmt.Sprintf("%d values for %d nodes", n, n+k)
					pf.NewField("conc", n+k, make([]complex128, n))
					if k == 0 {
						what = "none"
					}
				case 4:
					what = "malformed left hand side"
					k := rapid.IntRange(0, len(s.Eqs)-1).Draw(rt, "eq")
					f := s.Eqs[k].Field
					s.Eqs[k].Txt = rapid.SampledFrom([]string{"d%s = -%s", "%s/dt = -%s", "d%s/dx = -%s", "%s = -%s"}).Draw(rt, "form")
					s.Eqs[k].Txt = fmt.Sprintf(s.Eqs[k].Txt, f, f)
					if strings.HasPrefix(f, "d") {
						what = "none"
						s.Eqs[k].Txt = fmt.Sprintf("d%s/dt = -%s", f, f)
					}
				}
				m := s.Build()
				if mistake == 5 {
					d := &depTerm{}
					if rapid.Bool().Draw(rt, "dep") {
						d.name = s.Names[rapid.IntRange(0, len(s.Names)-1).Draw(rt, "dn")]
						d.w = gen.F(rt, "dw", 0.01, 2)
						if rapid.Bool().Draw(rt, "negw") {
							d.w = -d.w
						}
						if d.every = 1; rapid.Bool().Draw(rt, "some") {
							d.from = rapid.IntRange(0, n-1).Draw(rt, "from")
							d.every = rapid.IntRange(1, n).Draw(rt, "every")
						}
						what = "implicit term depends on " + d.name
					}
					m.RegisterImplicitTerm("DEPTERM", d, nil)
				}
				pf.NewSolver(m, dims, 0.1)
			})
			if (what != "none") != (msg != "") {
				rt.Fatalf("mistake: %s, panic: %q (%s)", what, msg, s)
			}
			c.Label([]string{"no mistake", "undefined name", "domain size", "data length", "left hand side", "implicit term"}[mistake])
			if what != "none" {
				c.NonTrivial("%s %s", what, s)
			}
		})
}

// Names that start with an operator are refused. The process ends, so it happens in a child
func TestC09_ReservedNames(t *testing.T) {
	pbt.Check(t, "names with and without a reserved start, in a child process; non-trivial: reserved", 500, 3000,
		func(rt *rapid.T, c *pbt.Case) {
			pre := rapid.SampledFrom([]string{"", "LAP", "-", "*", "LAP^2", "LAP^4"}).Draw(rt, "pre")
			name := pre + rapid.SampledFrom([]string{"conc", "eta", "x", "aLAP", "b-"}).Draw(rt, "rest")
			what := rapid.SampledFrom([]string{"field", "scalar", "explicit", "implicit", "mixed", "function"}).Draw(rt, "what")
			cmd := exec.Command(os.Args[0], "-test.run", "^TestReservedChild$")
			cmd.Env = append(os.Environ(), "PBT_CHILD="+what+" "+name)
			out, err := cmd.CombinedOutput()
			reached := strings.Contains(string(out), "REACHED-END")
			if !reached && !strings.Contains(string(out), "reserved") && err == nil {
				rt.Fatalf("HARNESS-ERROR: %s", out)
			}
			if reached != (pre == "") {
				rt.Fatalf("%s named %q: accepted=%v\n%s", what, name, reached, out)
			}
			if pre != "" {
				c.NonTrivial("%s %s", what, name)
			}
		})
}

func TestReservedChild(t *testing.T) {
	spec := os.Getenv("PBT_CHILD")
	if spec == "" {
		t.Skip()
	}
	var what, name string
	fmt.Sscanf(spec, "%s %s", &what, &name)
	m := pf.NewModel()
	m.AddField(pf.NewField("other", 4, nil))
	switch what {
	case "field":
		m.AddField(pf.NewField(name, 4, nil))
	case "scalar":
		m.AddScalar(pf.NewScalar(name, 1))
	case "explicit":
		m.RegisterExplicitTerm(name, &sumTerm{}, nil)
	case "implicit":
		m.RegisterImplicitTerm(name, &sumTerm{}, nil)
	case "mixed":
		m.RegisterMixedTerm(name, &sumTerm{}, nil)
	case "function":
		m.RegisterFunction(name, func(i int, b map[string]pf.Brick) complex128 { return 0 })
	}
	fmt.Println("REACHED-END")
}

// Modifiers act on the right hand side of their own equation, in the order they were added
func TestC09_Modifiers(t *testing.T) {
	pbt.Check(t, "up to 4 non-commuting modifiers on up to 2 equations; non-trivial: two on the same equation", 6000, 60000,
		func(rt *rapid.T, c *pbt.Case) {
			dims := gen.Dims(rt, 16)
			n := ref.Size(dims)
			m := pf.NewModel()
			nf := rapid.IntRange(1, 4).Draw(rt, "nf")
			init := make([][]float64, nf)
			names := []string{"conc", "eta", "phi", "temp"}
			for i := 0; i < nf; i++ {
				init[i] = gen.Field(rt, names[i], n, -1, 1)
				m.AddField(pf.NewField(names[i], n, gen.Cmplx(init[i])))
			}
			// the equations can have another order than the fields
			order := rapid.Permutation([]int{0, 1, 2, 3}[:nf]).Draw(rt, "order")
			eqOf := make([]int, nf)
			for k, i := range order {
				m.AddEquation(fmt.Sprintf("d%s/dt = %s^2", names[i], names[i]))
				eqOf[i] = k
			}
			rhs := make([][]complex128, nf)
			for i := range rhs {
				sq := make([]complex128, n)
				for j := range sq {
					sq[j] = complex(init[i][j]*init[i][j], 0)
				}
				rhs[i] = ref.DFT(dims, sq)
			}
			cnt := make([]int, nf)
			for k := rapid.IntRange(0, 4).Draw(rt, "nmod"); k > 0; k-- {
				e := rapid.IntRange(0, nf-1).Draw(rt, "eq")
				cnt[e]++
				a, b := complex(gen.F(rt, "a", -2, 2), 0), complex(gen.F(rt, "b", -2, 2), 0)
				mod := func(d []complex128) {
					for i := range d {
						d[i] = a*d[i] + b
					}
				}
				m.RegisterRHSModifier(eqOf[e], mod)
				mod(rhs[e])
			}
			m.Init()
			ft := pfutil.NewFFTW(dims)
			st := &pf.Euler{Dt: 0.5, FT: ft}
			st.Step(&m)
			for i := 0; i < nf; i++ {
				y := ref.DFT(dims, gen.Cmplx(init[i]))
				for j := range y {
					y[j] += 0.5 * rhs[i][j]
				}
				if d := pbt.Diff(m.Fields[i].Data, ref.InvDFT(dims, y), 1e-10); d != "" {
					rt.Fatalf("modifiers per equation %v, field %s: %s", cnt, names[i], d)
				}
				if cnt[i] > 1 {
					c.NonTrivial("%v %v %v", dims, cnt, rhs[i][0])
				}
			}
		})
}
