package elast

import (
	"math"
	"testing"

	"github.com/davidkleiven/gopf/elasticity"
	"gonum.org/v1/gonum/mat"
	"pgregory.net/rapid"
	"verifharness/gen"
	"verifharness/pbt"
)

// stressVoigt is the 6x6 matrix times the engineering strains
func stressVoigt(v []float64, e m3) m3 {
	eng := [6]float64{e[0][0], e[1][1], e[2][2], e[1][2] + e[2][1], e[0][2] + e[2][0], e[0][1] + e[1][0]}
	var s m3
	for i, p := range voigtPair {
		x := 0.0
		for j := range eng {
			x += v[6*i+j] * eng[j]
		}
		s[p[0]][p[1]] = x
		s[p[1]][p[0]] = x
	}
	return s
}

func TestE01_Constructors(t *testing.T) {
	pbt.Check(t, "material with non-zero moduli and a strain with shear components", 60000, 600000, func(rt *rapid.T, c *pbt.Case) {
		e := drawSym(rt, "strain", -2, 2)
		var got elasticity.Rank4
		var want t4
		kind := rapid.SampledFrom([]string{"isotropic", "cubic", "voigt"}).Draw(rt, "kind")
		switch kind {
		case "isotropic":
			b, nu := gen.F(rt, "bulk", -50, 50), gen.F(rt, "poisson", -0.9, 0.6)
			got, want = elasticity.Isotropic(b, nu), isoT(b, nu)
			mu := 3 * b * (1 - 2*nu) / (2 * (1 + nu))
			if g := elasticity.Shear(b, nu); math.Abs(g-mu) > 1e-12*(1+math.Abs(mu)) {
				rt.Fatalf("shear modulus for bulk %v poisson %v is %v want %v", b, nu, g, mu)
			}
			// An equal expansion gives a pressure of 3 B
			if s := undense(got.ContractLast(mat.NewDense(3, 3, []float64{1, 0, 0, 0, 1, 0, 0, 0, 1}))); mdiff(s, m3{{3 * b, 0, 0}, {0, 3 * b, 0}, {0, 0, 3 * b}}) > 1e-10*(1+want.max()) {
				rt.Fatalf("isotropic: expansion gives %v want 3*%v", s, b)
			}
			c.Note("isotropic bulk %v poisson %v strain %v", b, nu, e)
			if b != 0 {
				c.NonTrivial("iso %v %v %v", b, nu, e)
			}
		case "cubic":
			p := gen.Vec(rt, "c", 3, -50, 50)
			got, want = elasticity.CubicMaterial(p[0], p[1], p[2]), cubT(p[0], p[1], p[2])
			if rapid.IntRange(0, 3).Draw(rt, "iso") == 0 {
				// c44 = (c11 - c12)/2 is an isotropic material
				b, nu := gen.F(rt, "bulk", 1, 50), gen.F(rt, "poisson", -0.9, 0.45)
				mu := 3 * b * (1 - 2*nu) / (2 * (1 + nu))
				got, want = elasticity.CubicMaterial(b+4*mu/3, b-2*mu/3, mu), isoT(b, nu)
				c.Label("isotropic as cubic")
			}
			c.Note("cubic %v strain %v", p, e)
			c.NonTrivial("cub %v %v", p, e)
		default:
			v := gen.Vec(rt, "voigt", 36, -50, 50)
			got, want = elasticity.FromFlatVoigt(v), voigt4(v)
			if s := undense(got.ContractLast(dense(e))); mdiff(s, stressVoigt(v, e)) > 1e-9*(1+want.max()) {
				rt.Fatalf("voigt %v strain %v: stress %v want %v", v, e, s, stressVoigt(v, e))
			}
			c.Note("voigt %v strain %v", v, e)
			c.NonTrivial("voigt %v", v)
		}
		c.Label(kind)
		if d := fromGopf(got).diff(want); !(d <= 1e-10*(1+want.max())) {
			rt.Fatalf("%s: tensor differs by %v from the definition\ngot %v\nwant %v", kind, d, got.Data, want)
		}
		if s := undense(got.ContractLast(dense(e))); mdiff(s, want.contract(e)) > 1e-9*(1+want.max()) {
			rt.Fatalf("%s: stress %v want %v", kind, s, want.contract(e))
		}
		if g, w := elasticity.EnergyDensity(&got, dense(e)), want.energy(e); !(math.Abs(g-w) <= 1e-9*(1+want.max())*10) {
			rt.Fatalf("%s: energy density %v want %v", kind, g, w)
		}
	})
}

func TestE01_Elements(t *testing.T) {
	pbt.Check(t, "at least two different positions set", 40000, 400000, func(rt *rapid.T, c *pbt.Case) {
		r := elasticity.NewRank4()
		model := map[[4]int]float64{}
		for k := rapid.IntRange(1, 30).Draw(rt, "nset"); k > 0; k-- {
			var p [4]int
			for i := range p {
				p[i] = rapid.IntRange(0, 2).Draw(rt, "i")
			}
			v := gen.F(rt, "v", -5, 5)
			r.Set(p[0], p[1], p[2], p[3], v)
			model[p] = v
		}
		e := drawM(rt, "strain", -2, 2)
		var want m3
		for i := 0; i < 81; i++ {
			p := [4]int{i / 27, (i / 9) % 3, (i / 3) % 3, i % 3}
			if g := r.At(p[0], p[1], p[2], p[3]); g != model[p] {
				rt.Fatalf("element %v is %v, was set to %v", p, g, model[p])
			}
			want[p[0]][p[1]] += model[p] * e[p[2]][p[3]]
		}
		in := dense(e)
		if got := undense(r.ContractLast(in)); mdiff(got, want) > 1e-10*(1+mmax(want)) {
			rt.Fatalf("contraction of %v with %v is %v want %v", model, e, got, want)
		}
		if undense(in) != e {
			rt.Fatalf("ContractLast changed its argument")
		}
		if g, w := elasticity.EnergyDensity(&r, in), 0.5*ddot(e, want); !(math.Abs(g-w) <= 1e-10*(10+math.Abs(w))) {
			rt.Fatalf("energy density of %v with %v is %v want %v", model, e, g, w)
		}
		if len(model) > 1 {
			c.NonTrivial("%v %v", model, e)
		}
	})
}

func TestE01_Rotate(t *testing.T) {
	pbt.Check(t, "anisotropic tensor and a rotation that is not the identity", 22000, 300000, func(rt *rapid.T, c *pbt.Case) {
		var tens t4
		if rapid.Bool().Draw(rt, "general") {
			// no symmetry at all
			v := gen.Field(rt, "elem", 81, -3, 3)
			for i := 0; i < 81; i++ {
				tens[i/27][(i/9)%3][(i/3)%3][i%3] = v[i]
			}
			c.Label("no symmetry")
		} else {
			v, kind := drawStable(rt)
			tens = voigt4(v)
			c.Label(kind)
		}
		rot := drawRot(rt)
		if rapid.IntRange(0, 4).Draw(rt, "mirror") == 0 {
			ax := rapid.IntRange(0, 2).Draw(rt, "mirrorax")
			for j := range rot {
				rot[ax][j] = -rot[ax][j]
			}
			c.Label("improper")
		}
		e := drawM(rt, "strain", -1, 1)
		r := tens.gopf()
		var rm mat.Matrix = dense(rot)
		if rapid.Bool().Draw(rt, "view") {
			rm = dense(tr(rot)).T()
		}
		r.Rotate(rm)
		scale := 1e-9 * (1 + tens.max())
		if d := fromGopf(r).diff(tens.rotate(rot)); !(d <= scale) {
			rt.Fatalf("rotation %v of %v differs by %v", rot, tens, d)
		}
		erot := mm(mm(rot, e), tr(rot))
		if g, w := elasticity.EnergyDensity(&r, dense(erot)), tens.energy(e); !(math.Abs(g-w) <= 100*scale) {
			rt.Fatalf("rotating material and strain changes the energy density from %v to %v", w, g)
		}
		sig := mm(mm(rot, tens.contract(e)), tr(rot))
		if got := undense(r.ContractLast(dense(erot))); !(mdiff(got, sig) <= 30*scale) {
			rt.Fatalf("rotated stress is %v want %v", got, sig)
		}
		r.Rotate(dense(tr(rot)))
		if d := fromGopf(r).diff(tens); !(d <= scale*10) {
			rt.Fatalf("rotating back differs by %v", d)
		}
		c.NonTrivial("%v %v", tens, rot)
		c.Note("rotation %v, tensor elements 0000=%v 0101=%v 0011=%v", rot, tens[0][0][0][0], tens[0][1][0][1], tens[0][0][1][1])
	})
}

func TestE01_RotationMatrix(t *testing.T) {
	pbt.Check(t, "angle not zero", 60000, 600000, func(rt *rapid.T, c *pbt.Case) {
		a, b := gen.F(rt, "a", -20, 20), gen.F(rt, "b", -20, 20)
		ax := rapid.IntRange(0, 2).Draw(rt, "axis")
		ra, rb, rab := undense(elasticity.RotationMatrix(a, ax)), undense(elasticity.RotationMatrix(b, ax)), undense(elasticity.RotationMatrix(a+b, ax))
		id := m3{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}
		if d := mdiff(mm(ra, tr(ra)), id); !(d <= 1e-12) {
			rt.Fatalf("rotation by %v around %d is not orthogonal: %v", a, ax, ra)
		}
		if d := mdiff(mm(ra, rb), rab); !(d <= 1e-12) {
			rt.Fatalf("rotations by %v and %v around %d do not add up", a, b, ax)
		}
		for i := 0; i < 3; i++ {
			if ra[i][ax] != id[i][ax] || ra[ax][i] != id[ax][i] {
				rt.Fatalf("the axis %d is not left alone: %v", ax, ra)
			}
		}
		if d := mdiff(ra, rotM(a, ax)); !(d <= 1e-13) {
			rt.Fatalf("rotation by %v around %d is %v want %v", a, ax, ra, rotM(a, ax))
		}
		if a != 0 {
			c.NonTrivial("%v %v %d", a, b, ax)
		}
	})
}
