// Package eqn generates random sets of equations in gopf's equation language
// together with an independent interpretation of what they mean.
package eqn

import (
	"fmt"
	"math"
	"math/cmplx"
	"strings"

	"github.com/davidkleiven/gopf/pf"
	"pgregory.net/rapid"
	"verifharness/gen"
	"verifharness/ref"
)

// Factor is one factor in a product
type Factor struct {
	Name string
	Pow  float64
	Txt  string // as written, including the power
}

// User is a user defined term. Its value in the reference is
//
//	explicit:  Coef*DFT(value of field Src)*shape(k) + Drift*t at all modes of a unit impulse
//	implicit:  Coef*shape(k)*DFT(own field)
//	mixed:     both of them (with Lin for the linear part)
type User struct {
	Name  string
	Kind  int // 0 implicit, 1 explicit, 2 mixed
	Coef  float64
	Lin   float64
	Src   string
	TCoef float64
	LinT  float64 // the linear part grows with this rate in time
	calls []float64
}

func (u *User) linear(freq pf.Frequency, t float64, out []complex128) {
	for i := range out {
		f := freq(i)
		s := 0.0
		for _, v := range f {
			s += v * v
		}
		out[i] = complex((u.Lin+u.LinT*t)/(1.0+s), 0.0)
	}
}

// Construct implements pf.PureTerm
func (u *User) Construct(bricks map[string]pf.Brick) pf.Term {
	if u.Kind == 0 {
		return u.linear
	}
	return u.ConstructNonLinear(bricks)
}

// ConstructLinear implements pf.MixedTerm
func (u *User) ConstructLinear(bricks map[string]pf.Brick) pf.Term { return u.linear }

// ConstructNonLinear implements pf.MixedTerm
func (u *User) ConstructNonLinear(bricks map[string]pf.Brick) pf.Term {
	return func(freq pf.Frequency, t float64, out []complex128) {
		for i := range out {
			out[i] = complex(u.Coef+u.TCoef*t, 0.0) * bricks[u.Src].Get(i)
		}
	}
}

// OnStepFinished implements pf.PureTerm
func (u *User) OnStepFinished(t float64, bricks map[string]pf.Brick) { u.calls = append(u.calls, t) }

// Calls returns the times passed to OnStepFinished
func (u *User) Calls() []float64 { return u.calls }

// Term is one term of an equation
type Term struct {
	Neg     bool
	Lap     int // power of the laplacian, 0: none
	Scalars []Factor
	Fields  []Factor // fields and registered functions
	User    *User
	Txt     string
}

// Equation is one equation
type Equation struct {
	Field string
	Terms []Term
	Txt   string
}

// SourceSpec is a point source with strength A + B*t
type SourceSpec struct {
	Eq   int
	Pos  []int
	Frac []float64 // position relative to the node Pos, if there is one
	A, B float64
}

// ModSpec is a modifier of the right hand side: data -> Scale*data + Shift
type ModSpec struct {
	Eq    int
	Scale float64
	Shift float64
}

// Func is a registered function: A + B*x + C*x*x of the field Src
type Func struct {
	Name    string
	Src     string
	A, B, C float64
}

// System is a full model
type System struct {
	Dims    []int
	Names   []string // field names, in registration order
	Init    map[string][]float64
	Scalars map[string]float64
	SOrder  []string
	Funcs   []Func
	Users   []*User
	Eqs     []Equation // in the order they are added
	Sources []SourceSpec
	Mods    []ModSpec
	AnyProd bool // some term has several field factors
	AnyLap  bool
	NumTerm int

	// Size is set by Eval: per mode the sum of the magnitudes that enter the value, before
	// anything cancels. Round-off is proportional to it
	Size []float64
}

// Opt selects what is generated
type Opt struct {
	MaxFields  int
	MaxTerms   int
	MaxN       int
	Dims       []int
	MaxLap     int
	Lo, Hi     float64 // range of field values
	Coef       float64 // range of scalars
	Funcs      bool
	Users      bool
	Sources    bool
	Mods       bool
	Constants  bool // terms that consist of scalars only
	FracPow    bool
	ShuffleEqs bool
	OnlyLap    bool // conservative equations: every term has a laplacian
	LinearOnly bool
	MaxPow     int
	Many       bool // now and then many fields, scalars and terms
	BigPow     bool // now and then a large power
	BigLap     bool // now and then a large power of the laplacian
	FracSource bool // now and then a source between the nodes
	BigSource  bool // now and then a strong source
	ZeroPow    bool // now and then the power zero
	TimeLin    bool // now and then a linear user term that depends on the time
	Plain      bool // no name is part of another name
}

var pool = []string{"conc", "conc2", "c", "temp", "eta", "phi", "density", "m", "k", "fac", "gamma",
	"m1", "alpha", "n_1", "FUNC", "PHI", "h", "solute", "temperature", "x", "rate", "d", "dt", "A", "B", "t",
	"conc10", "c1", "c10", "f1", "f11", "solute_a", "k_B", "Cu", "eta0"}

var plainPool = []string{"conc", "temp", "eta", "phi", "solute", "gamma", "kappa", "m1", "FUNC", "HX", "w_0", "zx", "rate",
	"vac", "strain", "Qq", "psi2", "Mob", "omega", "delta", "Lij", "x_1", "sigma", "nu4"}

func pickNames(t *rapid.T, n int, plain bool) []string {
	pool := pool
	if plain {
		pool = plainPool
	}
	idx := rapid.Permutation(seq(len(pool))).Draw(t, "names")
	out := make([]string, n)
	for i := range out {
		out[i] = pool[idx[i]]
	}
	return out
}

func seq(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

func sp(t *rapid.T) string {
	return strings.Repeat(" ", rapid.IntRange(0, 1).Draw(t, "sp"))
}

func drawPow(t *rapid.T, o Opt) (float64, string) {
	mp := o.MaxPow
	if mp == 0 {
		mp = 4
	}
	if o.FracPow && rapid.IntRange(0, 5).Draw(t, "fp") == 0 {
		v := rapid.SampledFrom([]string{"0.5", "1.5", "2.25"}).Draw(t, "frac")
		f := 0.0
		fmt.Sscanf(v, "%g", &f)
		return f, "^" + v
	}
	if o.BigPow && rapid.IntRange(0, 24).Draw(t, "bp") == 24 {
		p := rapid.IntRange(5, 14).Draw(t, "bigpow")
		return float64(p), fmt.Sprintf("^%d", p)
	}
	if o.ZeroPow && rapid.IntRange(0, 24).Draw(t, "zp") == 24 {
		return 0, "^0"
	}
	p := rapid.IntRange(1, mp).Draw(t, "pow")
	if p == 1 {
		if rapid.IntRange(0, 5).Draw(t, "pow1") == 0 {
			return 1.0, rapid.SampledFrom([]string{"^1", "^1.0"}).Draw(t, "pow1txt")
		}
		return 1.0, ""
	}
	return float64(p), fmt.Sprintf("^%d", p)
}

// Draw generates a system
func Draw(t *rapid.T, o Opt) *System {
	s := &System{Init: map[string][]float64{}, Scalars: map[string]float64{}}
	s.Dims = o.Dims
	if s.Dims == nil {
		s.Dims = gen.Dims(t, o.MaxN)
	}
	n := ref.Size(s.Dims)
	maxS := 3
	if o.Many && rapid.IntRange(0, 14).Draw(t, "many") == 14 {
		o.MaxFields, o.MaxTerms, maxS = 8, 12, 8
	}
	nf := rapid.IntRange(1, o.MaxFields).Draw(t, "nf")
	ns := rapid.IntRange(0, maxS).Draw(t, "ns")
	nfn := 0
	if o.Funcs {
		nfn = rapid.IntRange(0, 2).Draw(t, "nfunc")
	}
	nu := 0
	if o.Users {
		nu = rapid.IntRange(0, 2).Draw(t, "nuser")
	}
	names := pickNames(t, nf+ns+nfn+nu, o.Plain)
	s.Names = names[:nf]
	for _, nm := range s.Names {
		s.Init[nm] = gen.Field(t, "init_"+nm, n, o.Lo, o.Hi)
	}
	for i := 0; i < ns; i++ {
		nm := names[nf+i]
		s.SOrder = append(s.SOrder, nm)
		s.Scalars[nm] = gen.F(t, "scalar_"+nm, -o.Coef, o.Coef)
		if rapid.IntRange(0, 9).Draw(t, "special") == 9 {
			s.Scalars[nm] = rapid.SampledFrom([]float64{0, 1, -1, 1e-4, -2.5e-7}).Draw(t, "specialscalar")
		}
	}
	for i := 0; i < nfn; i++ {
		s.Funcs = append(s.Funcs, Func{Name: names[nf+ns+i], Src: s.Names[rapid.IntRange(0, nf-1).Draw(t, "src")],
			A: gen.F(t, "fa", -1, 1), B: gen.F(t, "fb", -1, 1), C: gen.F(t, "fc", -1, 1)})
	}
	for i := 0; i < nu; i++ {
		u := &User{Name: names[nf+ns+nfn+i], Kind: rapid.IntRange(0, 2).Draw(t, "ukind"),
			Coef: gen.F(t, "ucoef", -o.Coef, o.Coef), Lin: gen.F(t, "ulin", -o.Coef, o.Coef),
			TCoef: gen.F(t, "utc", -1, 1), Src: s.Names[rapid.IntRange(0, nf-1).Draw(t, "usrc")]}
		if o.TimeLin && rapid.IntRange(0, 2).Draw(t, "timelin") == 2 {
			u.LinT = gen.F(t, "ulint", -1, 1)
		}
		s.Users = append(s.Users, u)
	}
	order := seq(nf)
	if o.ShuffleEqs {
		order = rapid.Permutation(order).Draw(t, "eqorder")
	}
	for _, k := range order {
		s.Eqs = append(s.Eqs, s.drawEq(t, o, s.Names[k]))
	}
	if o.Sources {
		for k := rapid.IntRange(0, 2).Draw(t, "nsrc"); k > 0; k-- {
			p := make([]int, len(s.Dims))
			for d := range p {
				p[d] = rapid.IntRange(0, s.Dims[d]-1).Draw(t, "pos")
			}
			s.Sources = append(s.Sources, SourceSpec{Eq: rapid.IntRange(0, nf-1).Draw(t, "srceq"), Pos: p,
				A: gen.F(t, "sa", -1, 1), B: gen.F(t, "sb", -2, 2)})
			if o.BigSource && rapid.IntRange(0, 3).Draw(t, "strong") == 3 {
				last := &s.Sources[len(s.Sources)-1]
				last.A, last.B = last.A*rapid.Float64Range(1, 1e4).Draw(t, "strength"), last.B*rapid.Float64Range(1, 1e4).Draw(t, "rate")
			}
			if o.FracSource && rapid.IntRange(0, 2).Draw(t, "between") == 2 {
				s.Sources[len(s.Sources)-1].Frac = gen.Vec(t, "frac", len(p), -3, 3)
			}
		}
	}
	if o.Mods {
		for k := rapid.IntRange(0, 3).Draw(t, "nmod"); k > 0; k-- {
			s.Mods = append(s.Mods, ModSpec{Eq: rapid.IntRange(0, nf-1).Draw(t, "modeq"),
				Scale: gen.F(t, "msc", -2, 2), Shift: gen.F(t, "msh", -1, 1)})
		}
	}
	return s
}

func (s *System) drawEq(t *rapid.T, o Opt, field string) Equation {
	e := Equation{Field: field}
	nt := rapid.IntRange(1, o.MaxTerms).Draw(t, "nt")
	e.Txt = "d" + field + "/dt" + sp(t) + "=" + sp(t)
	for i := 0; i < nt; i++ {
		tm := s.drawTerm(t, o, field)
		tm.Neg = rapid.Bool().Draw(t, "neg")
		if tm.Neg {
			e.Txt += "-" + sp(t)
		} else if i > 0 || rapid.IntRange(0, 3).Draw(t, "plus") == 0 {
			e.Txt += "+" + sp(t)
		}
		e.Txt += tm.Txt + sp(t)
		e.Terms = append(e.Terms, tm)
		s.NumTerm++
		s.AnyProd = s.AnyProd || len(tm.Fields) > 1
		s.AnyLap = s.AnyLap || tm.Lap > 0
	}
	return e
}

func (s *System) drawTerm(t *rapid.T, o Opt, field string) Term {
	tm := Term{}
	if o.MaxLap > 0 && (o.OnlyLap || rapid.Bool().Draw(t, "lap")) {
		tm.Lap = rapid.IntRange(1, o.MaxLap).Draw(t, "lapn")
		if o.BigLap && rapid.IntRange(0, 24).Draw(t, "biglap") == 24 {
			tm.Lap = rapid.IntRange(5, 13).Draw(t, "biglapn")
		}
	}
	if len(s.Users) > 0 && rapid.IntRange(0, 3).Draw(t, "user") == 0 {
		tm.User = s.Users[rapid.IntRange(0, len(s.Users)-1).Draw(t, "which")]
		if tm.Lap == 3 || tm.Lap > 4 {
			tm.Lap = 2
		}
		if tm.Lap > 0 {
			tm.Txt = "LAP"
			if tm.Lap > 1 {
				tm.Txt += fmt.Sprintf("^%d", tm.Lap)
			}
			tm.Txt += rapid.SampledFrom([]string{"*", " ", " * "}).Draw(t, "lapsep")
		}
		tm.Txt += tm.User.Name
		return tm
	}
	// now and then a term with many factors
	long := o.Many && rapid.IntRange(0, 24).Draw(t, "longterm") == 24
	// scalars
	if len(s.SOrder) > 0 {
		nsc := rapid.IntRange(0, 2).Draw(t, "nsc")
		if long {
			nsc = rapid.IntRange(0, 6).Draw(t, "nscmany")
		}
		for k := nsc; k > 0; k-- {
			nm := s.SOrder[rapid.IntRange(0, len(s.SOrder)-1).Draw(t, "sc")]
			p, ptxt := 1.0, ""
			if rapid.IntRange(0, 3).Draw(t, "scp") == 0 {
				p = float64(rapid.IntRange(1, 3).Draw(t, "scpow"))
				if o.ZeroPow && rapid.IntRange(0, 9).Draw(t, "scp0") == 9 {
					p = 0
				}
				ptxt = fmt.Sprintf("^%g", p)
			}
			tm.Scalars = append(tm.Scalars, Factor{Name: nm, Pow: p, Txt: nm + ptxt})
		}
	}
	cands := append([]string{}, s.Names...)
	if !o.LinearOnly {
		for _, f := range s.Funcs {
			cands = append(cands, f.Name)
		}
	}
	if o.LinearOnly {
		tm.Fields = []Factor{{Name: field, Pow: 1, Txt: field}}
	} else {
		lo := 1
		if o.Constants && len(tm.Scalars) > 0 && tm.Lap == 0 {
			lo = 0
		}
		nfac := rapid.IntRange(lo, 3).Draw(t, "nfac")
		if long {
			nfac = rapid.IntRange(3, 9).Draw(t, "nfacmany")
		}
		for k := nfac; k > 0; k-- {
			nm := cands[rapid.IntRange(0, len(cands)-1).Draw(t, "fac")]
			p, ptxt := drawPow(t, o)
			tm.Fields = append(tm.Fields, Factor{Name: nm, Pow: p, Txt: nm + ptxt})
		}
	}
	// Text: scalars may stand before or after the laplacian, fields follow it
	var pre, post []string
	for _, f := range tm.Scalars {
		if tm.Lap > 0 && rapid.Bool().Draw(t, "before") {
			pre = append(pre, f.Txt)
		} else {
			post = append(post, f.Txt)
		}
	}
	for _, f := range tm.Fields {
		post = append(post, f.Txt)
	}
	perm := rapid.Permutation(seq(len(post))).Draw(t, "order")
	shuffled := make([]string, len(post))
	for i, p := range perm {
		shuffled[i] = post[p]
	}
	star := func() string { return sp(t) + "*" + sp(t) }
	txt := ""
	for _, p := range pre {
		txt += p + star()
	}
	if tm.Lap > 0 {
		txt += "LAP"
		if tm.Lap > 1 || rapid.IntRange(0, 9).Draw(t, "lap1") == 0 {
			txt += fmt.Sprintf("^%d", tm.Lap)
		}
		txt += rapid.SampledFrom([]string{" ", "*", " * "}).Draw(t, "lapsep")
	}
	for i, p := range shuffled {
		if i > 0 {
			txt += star()
		}
		txt += p
	}
	tm.Txt = txt
	return tm
}

// String describes the system
func (s *System) String() string {
	eqs := make([]string, len(s.Eqs))
	for i, e := range s.Eqs {
		eqs[i] = e.Txt
	}
	extra := ""
	for _, f := range s.Funcs {
		extra += fmt.Sprintf("; %s(%s)", f.Name, f.Src)
	}
	for _, u := range s.Users {
		extra += fmt.Sprintf("; term %s kind %d", u.Name, u.Kind)
	}
	return fmt.Sprintf("dims=%v fields=%v scalars=%v eqs=[%s]%s sources=%v mods=%v", s.Dims, s.Names, s.Scalars,
		strings.Join(eqs, " ; "), extra, s.Sources, s.Mods)
}

// Build constructs the gopf model (not initialised)
func (s *System) Build() *pf.Model {
	n := ref.Size(s.Dims)
	m := pf.NewModel()
	for _, nm := range s.Names {
		m.AddField(pf.NewField(nm, n, gen.Cmplx(s.Init[nm])))
	}
	for _, nm := range s.SOrder {
		m.AddScalar(pf.NewScalar(nm, complex(s.Scalars[nm], 0.0)))
	}
	for _, f := range s.Funcs {
		f := f
		m.RegisterFunction(f.Name, func(i int, bricks map[string]pf.Brick) complex128 {
			x := bricks[f.Src].Get(i)
			return complex(f.A, 0) + complex(f.B, 0)*x + complex(f.C, 0)*x*x
		})
	}
	for _, u := range s.Users {
		u.calls = nil
		switch u.Kind {
		case 0:
			m.RegisterImplicitTerm(u.Name, u, nil)
		case 1:
			m.RegisterExplicitTerm(u.Name, u, nil)
		default:
			m.RegisterMixedTerm(u.Name, u, nil)
		}
	}
	for _, e := range s.Eqs {
		m.AddEquation(e.Txt)
	}
	for _, src := range s.Sources {
		pos := make([]float64, len(src.Pos))
		for i := range pos {
			pos[i] = float64(src.Pos[i])
			if src.Frac != nil {
				pos[i] += src.Frac[i]
			}
		}
		a, b := src.A, src.B
		m.AddSource(src.Eq, pf.NewSource(pos, func(t float64) float64 { return a + b*t }))
	}
	for _, md := range s.Mods {
		sc, sh := complex(md.Scale, 0), complex(md.Shift, 0)
		m.RegisterRHSModifier(md.Eq, func(data []complex128) {
			for i := range data {
				data[i] = sc*data[i] + sh
			}
		})
	}
	return &m
}

// State is the real-space value of all fields
type State map[string][]complex128

// InitState returns the initial state
func (s *System) InitState() State {
	st := State{}
	for _, nm := range s.Names {
		st[nm] = gen.Cmplx(s.Init[nm])
	}
	return st
}

func ipow(x complex128, p float64) complex128 {
	if p == math.Trunc(p) && p >= 0 && p <= 16 {
		r := complex(1.0, 0.0)
		for k := 0; k < int(p); k++ {
			r *= x
		}
		return r
	}
	return cmplx.Pow(x, complex(p, 0.0))
}

// EqOf returns the position of the equation of a field in the list of equations
func (s *System) EqOf(field string) int {
	for i, e := range s.Eqs {
		if e.Field == field {
			return i
		}
	}
	return -1
}

// implicit tells whether a plain term is linear in the own field and in nothing else
func (tm *Term) implicit(field string) bool {
	return tm.User == nil && len(tm.Fields) == 1 && tm.Fields[0].Name == field && tm.Fields[0].Pow == 1.0
}

// Eval returns the explicit part N(y, t) (transformed, with sources and
// modifiers) and the implicit operator A of the equation of the field
func (s *System) Eval(field string, st State, t float64) (rhs, denum []complex128) {
	dims := s.Dims
	n := ref.Size(dims)
	rhs = make([]complex128, n)
	denum = make([]complex128, n)
	s.Size = make([]float64, n)
	eqNo := s.EqOf(field)
	eq := s.Eqs[eqNo]
	ones := make([]complex128, n)
	for i := range ones {
		ones[i] = 1.0
	}
	fn := map[string]Func{}
	for _, f := range s.Funcs {
		fn[f.Name] = f
	}
	addTo := func(dst, src []complex128, sign float64, lap int) {
		v := src
		if lap > 0 {
			v = ref.Lap(dims, src, lap)
		}
		total := 0.0
		for _, x := range src {
			total = math.Max(total, cmplx.Abs(x))
		}
		for i := range dst {
			dst[i] += complex(sign, 0.0) * v[i]
			s.Size[i] += math.Abs(sign) * total * math.Pow(ref.K2(dims, i), float64(lap))
		}
	}
	for _, tm := range eq.Terms {
		sign := 1.0
		if tm.Neg {
			sign = -1.0
		}
		if tm.User != nil {
			u := tm.User
			if u.Kind != 1 {
				lin := make([]complex128, n)
				for i := range lin {
					k2 := ref.K2(dims, i) / (4 * math.Pi * math.Pi)
					lin[i] = complex((u.Lin+u.LinT*t)/(1.0+k2), 0.0)
				}
				addTo(denum, lin, sign, tm.Lap)
			}
			if u.Kind != 0 {
				v := ref.DFT(dims, st[u.Src])
				for i := range v {
					v[i] *= complex(u.Coef+u.TCoef*t, 0.0)
				}
				addTo(rhs, v, sign, tm.Lap)
			}
			continue
		}
		for _, f := range tm.Scalars {
			sign *= real(ipow(complex(s.Scalars[f.Name], 0), f.Pow))
		}
		if tm.implicit(field) {
			addTo(denum, ones, sign, tm.Lap)
			continue
		}
		prod := append([]complex128{}, ones...)
		for _, f := range tm.Fields {
			for i := range prod {
				var x complex128
				if g, ok := fn[f.Name]; ok {
					y := st[g.Src][i]
					x = complex(g.A, 0) + complex(g.B, 0)*y + complex(g.C, 0)*y*y
				} else {
					x = st[f.Name][i]
				}
				prod[i] *= ipow(x, f.Pow)
			}
		}
		addTo(rhs, ref.DFT(dims, prod), sign, tm.Lap)
	}
	for _, src := range s.Sources {
		if src.Eq != eqNo {
			continue
		}
		d := make([]complex128, n)
		if src.Frac != nil {
			for i := range d {
				arg := 0.0
				for ax, f := range ref.Freq(dims, i) {
					arg -= 2 * math.Pi * f * (float64(src.Pos[ax]) + src.Frac[ax])
				}
				d[i] = complex(src.A+src.B*t, 0) * complex(math.Cos(arg), math.Sin(arg))
			}
			addTo(rhs, d, 1.0, 0)
			continue
		}
		d[ref.Node(dims, src.Pos)] = complex(src.A+src.B*t, 0.0)
		addTo(rhs, ref.DFT(dims, d), 1.0, 0)
	}
	for _, md := range s.Mods {
		if md.Eq != eqNo {
			continue
		}
		for i := range rhs {
			rhs[i] = complex(md.Scale, 0)*rhs[i] + complex(md.Shift, 0)
		}
	}
	return rhs, denum
}
