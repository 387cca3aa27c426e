BUGS = [
dict(id="S01", property="C01",
 edits=[("pf/util.go", '''regexp.MustCompile("\\\\^(-?\\\\d+\\\\.?\\\\d*)")''', '''regexp.MustCompile("\\\\^(-?\\\\d+)")''')],
 pkg="pf", needs="a term with a power that is not an integer, for example conc^1.5",
 breaks="non-integer powers are truncated when the equation is parsed",
 demo='''package pf

import (
	"math"
	"testing"

	"github.com/davidkleiven/gopf/pfutil"
)

func TestDemo(t *testing.T) {
	N := 4
	f := NewField("conc", N*N, nil)
	for i := range f.Data {
		f.Data[i] = complex(0.25, 0.0)
	}
	m := NewModel()
	m.AddField(f)
	m.AddEquation("dconc/dt = conc^1.5")
	m.Init()
	st := Euler{Dt: 1.0, FT: pfutil.NewFFTW([]int{N, N})}
	st.Step(&m)
	if got := real(m.Fields[0].Data[3]); math.Abs(got-0.375) > 1e-10 {
		t.Fatalf("demo: got %f want 0.375", got)
	}
}
'''),
dict(id="S02", property="C02",
 edits=[("pf/euler.go", '''		if eu.Filter != nil {
			ApplyModalFilter(eu.Filter, eu.FT.Freq, d)
		}
''', '''		if eu.Filter != nil && eu.CurrentStep%2 == 0 {
			ApplyModalFilter(eu.Filter, eu.FT.Freq, d)
		}
''')],
 pkg="pf", needs="a modal filter and at least two steps",
 breaks="the modal filter is only applied in every second step",
 demo='''package pf

import (
	"math"
	"testing"

	"github.com/davidkleiven/gopf/pfutil"
)

type half struct{}

func (h *half) Eval(x float64) float64 { return 0.5 }

func TestDemo(t *testing.T) {
	f := NewField("conc", 16, nil)
	for i := range f.Data {
		f.Data[i] = 1.0
	}
	m := NewModel()
	m.AddField(f)
	m.AddScalar(NewScalar("k", 0.0))
	m.AddEquation("dconc/dt = k*conc")
	m.Init()
	st := Euler{Dt: 1.0, FT: pfutil.NewFFTW([]int{4, 4}), Filter: &half{}}
	for i := 0; i < 2; i++ {
		st.Step(&m)
	}
	if got := real(m.Fields[0].Data[3]); math.Abs(got-0.25) > 1e-10 {
		t.Fatalf("demo: got %f want 0.25", got)
	}
}
'''),
dict(id="S03", property="C03",
 edits=[("pf/rk4.go", '''	rk.correction(m, kFactor, 0.5)
	rk.PrepareNextCorrection(initial, final, kFactor, m, 1.0/3.0)
	rk.correction(m, kFactor, 1.0)
''', '''	rk.correction(m, kFactor, 1.0)
	rk.PrepareNextCorrection(initial, final, kFactor, m, 1.0/3.0)
	rk.correction(m, kFactor, 1.0)
''')],
 pkg="pf", needs="a non-linear or time dependent explicit term; the error is one order of dt and the steady state is unaffected",
 breaks="the third stage is evaluated at the end of the step instead of the middle",
 demo='''package pf

import (
	"math"
	"testing"

	"github.com/davidkleiven/gopf/pfutil"
)

func TestDemo(t *testing.T) {
	f := NewField("conc", 16, nil)
	for i := range f.Data {
		f.Data[i] = 1.0
	}
	m := NewModel()
	m.AddField(f)
	m.AddEquation("dconc/dt = -conc^2")
	m.Init()
	st := RK4{Dt: 0.1, FT: pfutil.NewFFTW([]int{4, 4})}
	st.Step(&m)
	if got := real(m.Fields[0].Data[3]); math.Abs(got-1.0/1.1) > 1e-5 {
		t.Fatalf("demo: got %f want %f", got, 1.0/1.1)
	}
}
'''),
dict(id="S08", property="C08",
 edits=[("pf/solver.go", '''			s.Model.ExplicitTerms[j].OnStepFinished(t, s.Model.Bricks)
		}
		for j := range s.Model.MixedTerms {
			s.Model.MixedTerms[j].OnStepFinished(t, s.Model.Bricks)
		}
	}
''', '''			s.Model.ExplicitTerms[j].OnStepFinished(t, s.Model.Bricks)
		}
	}
	if nsteps > 0 {
		t := s.Stepper.GetTime()
		for j := range s.Model.MixedTerms {
			s.Model.MixedTerms[j].OnStepFinished(t, s.Model.Bricks)
		}
	}
''')],
 pkg="pf", needs="a mixed term whose state is updated in OnStepFinished and more than one step per call",
 breaks="mixed terms are told that a step finished once per call instead of once per step",
 demo='''package pf

import "testing"

type demoMixed struct{ n int }

func (d *demoMixed) zero(freq Frequency, t float64, out []complex128) {
	for i := range out {
		out[i] = 0.0
	}
}
func (d *demoMixed) ConstructLinear(b map[string]Brick) Term       { return d.zero }
func (d *demoMixed) ConstructNonLinear(b map[string]Brick) Term    { return d.zero }
func (d *demoMixed) OnStepFinished(t float64, b map[string]Brick) { d.n++ }

func TestDemo(t *testing.T) {
	m := NewModel()
	m.AddField(NewField("conc", 16, nil))
	d := &demoMixed{}
	m.RegisterMixedTerm("MIXED", d, nil)
	m.AddEquation("dconc/dt = MIXED")
	s := NewSolver(&m, []int{4, 4}, 0.1)
	s.Solve(2, 3)
	if d.n != 6 {
		t.Fatalf("demo: told %d times, want 6", d.n)
	}
}
'''),
dict(id="S07", property="C07",
 edits=[("pfutil/fftWrap.go", "		conjD = (fw.Dimensions[2] - d) % fw.Dimensions[2]\n", "		conjD = (fw.Dimensions[2] - d) % fw.Dimensions[0]\n")],
 pkg="pfutil", needs="a 3D domain whose depth differs from its first side",
 breaks="the conjugate node of a mode is wrong in non-cubic 3D domains",
 demo='''package pfutil

import "testing"

func TestDemo(t *testing.T) {
	ft := NewFFTW([]int{2, 2, 4})
	// node at depth 1: its conjugate lies at depth 3
	if got := ft.ConjugateNode(4); got != 12 {
		t.Fatalf("demo: conjugate of node 4 is %d, want 12", got)
	}
}
'''),
dict(id="S10", property="C10",
 edits=[("pf/gradientCalculator.go", "		if math.Abs(f-0.5) < 1e-10 && !g.KeepNyquist {\n", "		if math.Abs(f-0.5) < 1e-10 && g.Comp == 0 && !g.KeepNyquist {\n")],
 pkg="pf", needs="a field with weight at half the sampling frequency along the second or third axis",
 breaks="the Nyquist mode is differentiated along all axes but the first: gradients of real fields become complex",
 demo='''package pf

import (
	"math/cmplx"
	"testing"

	"github.com/davidkleiven/gopf/pfutil"
)

func TestDemo(t *testing.T) {
	g := GradientCalculator{FT: pfutil.NewFFTW([]int{4, 4}), Comp: 1}
	in := make([]complex128, 16)
	for i := range in {
		in[i] = complex(float64(1-2*(i%2)), 0.0)
	}
	out := make([]complex128, 16)
	g.Calculate(in, out)
	for i := range out {
		if cmplx.Abs(out[i]) > 1e-10 {
			t.Fatalf("demo: gradient of the Nyquist mode is %v", out[i])
		}
	}
}
'''),
]
