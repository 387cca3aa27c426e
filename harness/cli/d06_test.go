package cli

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"testing"

	"github.com/davidkleiven/gopf/elasticity"
	"pgregory.net/rapid"
	"verifharness/gen"
	"verifharness/pbt"
)

func isoVoigt(b, nu, f float64) []float64 {
	g := 1.5 * b * (1 - 2*nu) / (1 + nu)
	c11, c12 := f*(b+4*g/3), f*(b-2*g/3)
	out := make([]float64, 36)
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			out[6*i+j] = c12
		}
		out[7*i] = c11
		out[7*(i+3)] = f * g
	}
	return out
}

// The energy command reports the energy of the inclusion in the file
func TestD06_Energy(t *testing.T) {
	pbt.Check(t, "JSON files with isotropic materials, misfits, half axes and small domains; non-trivial: half axes differ", 260, 6000, func(rt *rapid.T, c *pbt.Case) {
		dir := tempDir(rt)
		defer os.RemoveAll(dir)
		mis := gen.Vec(rt, "misfit", 6, -1, 1)
		p := elasticity.StrainEnergyInput{
			HalfA: gen.F(rt, "a", 1, 3), HalfB: gen.F(rt, "b", 1, 3), HalfC: gen.F(rt, "c", 1, 3),
			Misfit:            mis,
			MatPropMatrix:     isoVoigt(gen.F(rt, "B", 5, 60), gen.F(rt, "nu", 0, 0.4), 1),
			MatPropInc:        isoVoigt(gen.F(rt, "B2", 5, 60), gen.F(rt, "nu2", 0, 0.4), 1),
			DomainSize:        rapid.IntRange(5, 9).Draw(rt, "N"),
			ApplyPerturbation: rapid.Bool().Draw(rt, "perturb"),
		}
		text := fmt.Sprintf(`{"HalfA": %g, "HalfB": %g, "HalfC": %g, "Misfit": %s, "MatPropMatrix": %s, "MatPropInc": %s, "DomainSize": %d, "ApplyPerturbation": %v}`,
			p.HalfA, p.HalfB, p.HalfC, drawNumbers(p.Misfit), drawNumbers(p.MatPropMatrix), drawNumbers(p.MatPropInc), p.DomainSize, p.ApplyPerturbation)
		os.WriteFile(filepath.Join(dir, "in.json"), []byte(text), 0644)
		_, e, code := gopf(rt, dir, "elast", "energy", "-i", "in.json")
		m := energyLine.FindStringSubmatch(e)
		if code != 0 || m == nil {
			rt.Fatalf("%s\nended with %d: %s", text, code, e)
		}
		got, err := strconv.ParseFloat(m[1], 64)
		want := elasticity.CalculateStrainEnergy(p)
		if err != nil || !(math.Abs(got-want) <= 5.1e-7+1e-9*math.Abs(want)) {
			rt.Fatalf("%s\nenergy %s want %g", text, m[1], want)
		}
		if p.HalfA != p.HalfB {
			c.NonTrivial("%s", text)
		}
		c.LabelIf(p.ApplyPerturbation, "perturbation")
	})
}

// The template is a complete input file: a sphere of twice the stiffness of the isotropic matrix
func TestD06_Template(t *testing.T) {
	pbt.Check(t, "the template under random names; its domain is made smaller and the energy calculated; non-trivial: all", 130, 520, func(rt *rapid.T, c *pbt.Case) {
		dir := tempDir(rt)
		defer os.RemoveAll(dir)
		name := rapid.SampledFrom([]string{"elasticTemplate.json", "in put.json", "x"}).Draw(rt, "name")
		args := []string{"elast", "template"}
		if name != "elasticTemplate.json" || rapid.Bool().Draw(rt, "explicit") {
			args = append(args, "-o", name)
		}
		ok(rt, dir, args...)
		raw, err := os.ReadFile(filepath.Join(dir, name))
		if err != nil {
			rt.Fatalf("%s", err)
		}
		var p elasticity.StrainEnergyInput
		var gen map[string]interface{}
		if json.Unmarshal(raw, &p) != nil || json.Unmarshal(raw, &gen) != nil {
			rt.Fatalf("the template is not valid: %s", raw)
		}
		if rapid.IntRange(0, 4).Draw(rt, "full") == 0 {
			full(rt, dir, name, args...)
		}
		a, b := isoVoigt(60, 0.3, 1), isoVoigt(60, 0.3, 2)
		if len(p.MatPropMatrix) != 36 || len(p.MatPropInc) != 36 || len(p.Misfit) != 6 || p.DomainSize < 8 || p.HalfA <= 0 || p.HalfA != p.HalfB || p.HalfB != p.HalfC {
			rt.Fatalf("template %s", raw)
		}
		for i := range a {
			if !(math.Abs(a[i]-p.MatPropMatrix[i]) < 1e-9) || !(math.Abs(b[i]-p.MatPropInc[i]) < 1e-9) {
				rt.Fatalf("element %d of the elastic tensors is %g and %g, want %g and %g", i, p.MatPropMatrix[i], p.MatPropInc[i], a[i], b[i])
			}
		}
		n := rapid.IntRange(8, 12).Draw(rt, "N")
		gen["DomainSize"] = n
		gen["HalfA"], gen["HalfB"], gen["HalfC"] = 2, 2, 2
		small, _ := json.Marshal(gen)
		os.WriteFile(filepath.Join(dir, "small"), small, 0644)
		_, e, code := gopf(rt, dir, "elast", "energy", "-i", "small")
		m := energyLine.FindStringSubmatch(e)
		p.DomainSize, p.HalfA, p.HalfB, p.HalfC = n, 2, 2, 2
		if code != 0 || m == nil {
			rt.Fatalf("ended with %d: %s", code, e)
		}
		got, _ := strconv.ParseFloat(m[1], 64)
		if want := elasticity.CalculateStrainEnergy(p); !(math.Abs(got-want) <= 5.1e-7) {
			rt.Fatalf("energy %s want %g", m[1], want)
		}
		c.NonTrivial("%s %d", name, n)
	})
}

// A file that cannot be decoded is refused instead of being read as something else
func TestD06_Refuse(t *testing.T) {
	pbt.Check(t, "input files that were cut off, or where one value has the wrong type; non-trivial: a value has the wrong type", 1200, 5000, func(rt *rapid.T, c *pbt.Case) {
		dir := tempDir(rt)
		defer os.RemoveAll(dir)
		in := map[string]interface{}{
			"HalfA": 2, "HalfB": 2, "HalfC": 2, "DomainSize": 6, "ApplyPerturbation": false,
			"Misfit": []interface{}{0.1, 0.1, 0.1, 0.0, 0.0, 0.0}, "MatPropMatrix": isoVoigt(60, 0.3, 1), "MatPropInc": isoVoigt(60, 0.3, 2),
		}
		raw, _ := json.Marshal(in)
		text := string(raw)
		if rapid.Bool().Draw(rt, "cut") {
			text = text[:rapid.IntRange(0, len(text)-1).Draw(rt, "keep")]
		} else {
			key := rapid.SampledFrom([]string{"HalfA", "HalfB", "HalfC", "DomainSize", "ApplyPerturbation", "Misfit", "MatPropMatrix", "MatPropInc"}).Draw(rt, "key")
			in[key] = rapid.SampledFrom([]interface{}{"3", "a", map[string]int{"a": 1}, []interface{}{"0.5", 1, 2, 3, 4, 5}}).Draw(rt, "value")
			raw, _ = json.Marshal(in)
			text = string(raw)
			c.NonTrivial("%s = %v", key, in[key])
		}
		os.WriteFile(filepath.Join(dir, "in"), []byte(text), 0644)
		if o, e, code := gopf(rt, dir, "elast", "energy", "-i", "in"); code == 0 || energyLine.MatchString(o+e) {
			rt.Fatalf("%q is taken: %s", text, e)
		}
	})
}
