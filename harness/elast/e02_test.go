package elast

import (
	"fmt"
	"math"
	"math/cmplx"
	"testing"

	"github.com/davidkleiven/gopf/elasticity"
	"github.com/davidkleiven/gopf/pfutil"
	"pgregory.net/rapid"
	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
)

func freqFn(dims []int) elasticity.Frequency {
	return func(i int) []float64 {
		f := freq3(dims, i)
		return f[:]
	}
}

func TestE02_Equilibrium(t *testing.T) {
	pbt.Check(t, "non-zero force on a mode other than the constant one", 12000, 120000, func(rt *rapid.T, c *pbt.Case) {
		dim := rapid.IntRange(2, 3).Draw(rt, "dim")
		dims := gen.DimsRange(rt, dim, 1, 7-dim)
		if rapid.IntRange(0, 39).Draw(rt, "huge") == 39 {
			dims[rapid.IntRange(0, dim-1).Draw(rt, "hugeside")] = rapid.IntRange(60, 130).Draw(rt, "hugelength")
		}
		if rapid.IntRange(0, 499).Draw(rt, "large") == 499 {
			dims = gen.DimsRange(rt, 2, 24, 36)
		}
		n := ref.Size(dims)
		v, kind := drawStable(rt)
		tens := voigt4(v)
		if rapid.Bool().Draw(rt, "rotated") {
			tens = tens.rotate(drawRot(rt))
		}
		c.Label(kind)
		force := make([][]complex128, n)
		for i := range force {
			force[i] = make([]complex128, 3)
		}
		for comp := 0; comp < 3; comp++ {
			f := gen.CField(rt, "force", n, -3, 3)
			for i := range force {
				force[i][comp] = f[i]
			}
		}
		keep := fmt.Sprint(force)
		rk := tens.gopf()
		disp := elasticity.Displacements(force, freqFn(dims), &rk)
		if fmt.Sprint(force) != keep {
			rt.Fatalf("Displacements changed the force")
		}
		if len(disp) != n {
			rt.Fatalf("%d displacements for %d nodes", len(disp), n)
		}
		for i := range disp {
			f := freq3(dims, i)
			if i == 0 {
				for comp := range disp[i] {
					if disp[i][comp] != 0 {
						rt.Fatalf("the mean displacement is %v", disp[i])
					}
				}
				continue
			}
			for m := 0; m < 3; m++ {
				sum := complex(0, 0)
				for k := 0; k < 3; k++ {
					el := 0.0
					for j := 0; j < 3; j++ {
						for l := 0; l < 3; l++ {
							el += tens[m][j][k][l] * f[j] * f[l] * 4 * math.Pi * math.Pi
						}
					}
					if g := elasticity.DisplacementMatrixElement(m, k, f[:], &rk); !(math.Abs(g-el) <= 1e-10*(1+tens.max())*40) {
						rt.Fatalf("matrix element (%d,%d) for frequency %v is %v want %v", m, k, f, g, el)
					}
					sum += complex(el, 0) * disp[i][k]
				}
				if d := cmplx.Abs(sum - force[i][m]); !(d <= 1e-8*(1+cmplx.Abs(force[i][m]))) {
					rt.Fatalf("dims %v %s node %d frequency %v: stress divergence %v does not balance the force %v (component %d)", dims, kind, i, f, sum, force[i][m], m)
				}
			}
		}
		freq := freqFn(dims)
		if rapid.Bool().Draw(rt, "negative half") {
			// half the sampling frequency is as well -1/2
			freq = func(i int) []float64 {
				f := freq3(dims, i)
				for d := range f {
					if f[d] == 0.5 {
						f[d] = -0.5
					}
				}
				return f[:]
			}
		}
		for m := 0; m < 3; m++ {
			for q := 0; q < 3; q++ {
				s := elasticity.Strain(disp, freq, m, q)
				for i := range s {
					f := freq3(dims, i)
					for d := range f {
						if math.Abs(f[d]-0.5) < 1e-12 {
							f[d] = 0 // no derivative halfway the sampling frequency
						}
					}
					want := complex(0, math.Pi) * (complex(f[q], 0)*disp[i][m] + complex(f[m], 0)*disp[i][q])
					if d := cmplx.Abs(s[i] - want); !(d <= 1e-10*(1+cmplx.Abs(want))) {
						rt.Fatalf("dims %v node %d: strain %d%d is %v want %v", dims, i, m, q, s[i], want)
					}
				}
			}
		}
		if n > 1 {
			c.NonTrivial("%v %v", dims, keep)
		}
		c.Note("dims %v %s Voigt %v", dims, kind, v)
	})
}

// blob draws a region of ones
func blob(rt *rapid.T, dims []int) []float64 {
	n := ref.Size(dims)
	out := make([]float64, n)
	if rapid.Bool().Draw(rt, "box") {
		var lo, hi [3]int
		for d := range dims {
			lo[d] = rapid.IntRange(0, dims[d]-1).Draw(rt, "lo")
			hi[d] = rapid.IntRange(lo[d], dims[d]-1).Draw(rt, "hi")
		}
		for i := range out {
			in := true
			for d, p := range ref.Pos(dims, i) {
				in = in && p >= lo[d] && p <= hi[d]
			}
			if in {
				out[i] = 1
			}
		}
		return out
	}
	v := gen.Field(rt, "blob", n, 0, 1)
	for i := range out {
		if v[i] > 0.6 {
			out[i] = 1
		}
	}
	out[rapid.IntRange(0, n-1).Draw(rt, "one")] = 1
	return out
}

func TestE02_EffectiveForce(t *testing.T) {
	pbt.Check(t, "more than one node", 7600, 120000, func(rt *rapid.T, c *pbt.Case) {
		dim := rapid.IntRange(2, 3).Draw(rt, "dim")
		dims := gen.DimsRange(rt, dim, 1, 8-dim)
		n := ref.Size(dims)
		v := gen.Vec(rt, "voigt", 36, -3, 3)
		mis := drawM(rt, "misfit", -1, 1)
		if rapid.Bool().Draw(rt, "sym") {
			mis = drawSym(rt, "misfits", -1, 1)
		}
		eff := elasticity.NewEffectiveForceFromMisfit(voigt4(v).gopf(), dense(mis))
		st := voigt4(v).contract(mis)
		ind := gen.CField(rt, "ind", n, -1, 1)
		keep := append([]complex128{}, ind...)
		ft := pfutil.NewFFTW(dims)
		for comp := 0; comp < 3; comp++ {
			got := eff.Get(comp, ft.Freq, ind)
			want := make([]complex128, n)
			for i := range want {
				f := freq3(dims, i)
				for j := 0; j < 3; j++ {
					want[i] -= complex(0, 2*math.Pi*st[comp][j]*f[j]) * keep[i]
				}
			}
			if d := pbt.Diff(got, want, 1e-10); d != "" {
				rt.Fatalf("dims %v voigt %v misfit %v component %d: %s", dims, v, mis, comp, d)
			}
		}
		if d := pbt.Diff(ind, keep, 0); d != "" {
			rt.Fatalf("the indicator was changed")
		}
		if n > 1 {
			c.NonTrivial("%v %v %v %v", dims, v, mis, ind)
		}
		c.Note("dims %v misfit %v", dims, mis)
	})
}

func TestE02_PerturbedForce(t *testing.T) {
	pbt.Check(t, "shape and strain both non-zero", 5200, 80000, func(rt *rapid.T, c *pbt.Case) {
		dim := rapid.IntRange(2, 3).Draw(rt, "dim")
		dims := make([]int, dim)
		for d := range dims {
			dims[d] = rapid.SampledFrom([]int{1, 3, 5, 7, 4, 6}[:10-2*dim]).Draw(rt, "side")
		}
		n := ref.Size(dims)
		v := gen.Vec(rt, "voigt", 36, -3, 3)
		tens := voigt4(v)
		mis := drawSym(rt, "misfit", -1, 1)
		if dim == 2 {
			for i := 0; i < 3; i++ {
				mis[i][2], mis[2][i] = 0, 0
			}
		}
		shape := gen.Field(rt, "shape", n, -1, 3)
		disp := make([][]complex128, n)
		for i := range disp {
			disp[i] = make([]complex128, 3)
		}
		var ftu [3][]complex128
		for comp := 0; comp < dim; comp++ {
			u := gen.Field(rt, "u", n, -1, 1)
			ftu[comp] = ref.DFT(dims, gen.Cmplx(u))
			for i := range disp {
				disp[i][comp] = ftu[comp][i]
			}
		}
		ft := pfutil.NewFFTW(dims)
		rk := tens.gopf()
		got := elasticity.PerturbedForce(ft, dense(mis), disp, func(i int) float64 { return shape[i] }, &rk)
		// -dC_ijkl i k_j FT((misfit_kl - eps_kl) shape)
		want := [3][]complex128{make([]complex128, n), make([]complex128, n), make([]complex128, n)}
		for k := 0; k < dim; k++ {
			for l := 0; l < dim; l++ {
				eps := make([]complex128, n)
				for i := range eps {
					f := freq3(dims, i)
					for d := range f {
						if math.Abs(f[d]-0.5) < 1e-12 {
							f[d] = 0
						}
					}
					eps[i] = complex(0, math.Pi) * (complex(f[l], 0)*ftu[k][i] + complex(f[k], 0)*ftu[l][i])
				}
				e := ref.InvDFT(dims, eps)
				for i := range e {
					e[i] = complex((mis[k][l]-real(e[i]))*shape[i], 0)
				}
				e = ref.DFT(dims, e)
				for i := range e {
					f := freq3(dims, i)
					for comp := 0; comp < dim; comp++ {
						for j := 0; j < dim; j++ {
							want[comp][i] -= complex(0, 2*math.Pi*tens[comp][j][k][l]*f[j]) * e[i]
						}
					}
				}
			}
		}
		for comp := 0; comp < 3; comp++ {
			g := make([]complex128, n)
			for i := range g {
				g[i] = got[i][comp]
			}
			if d := pbt.Diff(g, want[comp], 1e-9); d != "" {
				rt.Fatalf("dims %v voigt %v misfit %v shape %v component %d: %s", dims, v, mis, shape, comp, d)
			}
		}
		if n > 1 {
			c.NonTrivial("%v %v %v %v", dims, v, mis, shape)
		}
		c.Label(fmt.Sprintf("%dD", dim))
		c.Note("dims %v misfit %v", dims, mis)
	})
}

// inclusionStrain returns the total strain for a homogeneous modulus
func inclusionStrain(dims []int, c t4, mis m3, ind []float64) []m3 {
	st := c.contract(mis)
	h := ref.DFT(dims, gen.Cmplx(ind))
	var es [3][3][]complex128
	for i := range st {
		for j := range st {
			es[i][j] = make([]complex128, len(h))
			for k := range h {
				es[i][j][k] = complex(st[i][j], 0) * h[k]
			}
		}
	}
	return refStrain(dims, c, es)
}

func elasticStrain(total []m3, mis m3, ind []float64) []m3 {
	out := make([]m3, len(total))
	for k := range out {
		out[k] = total[k]
		if ind[k] > 0.5 {
			for i := range mis {
				for j := range mis {
					out[k][i][j] -= mis[i][j]
				}
			}
		}
	}
	return out
}

func TestE02_HomogeneousEnergy(t *testing.T) {
	pbt.Check(t, "non-zero misfit, inclusion smaller than the domain", 5000, 50000, func(rt *rapid.T, c *pbt.Case) {
		dim := rapid.IntRange(2, 3).Draw(rt, "dim")
		dims := make([]int, dim)
		for d := range dims {
			dims[d] = rapid.SampledFrom([]int{1, 3, 5, 7}[:7-dim-1]).Draw(rt, "side")
		}
		if rapid.IntRange(0, 399).Draw(rt, "large") == 399 {
			dims = []int{33, 37}
		}
		v, kind := drawStable(rt)
		mis := drawSym(rt, "misfit", -1, 1)
		ind := blob(rt, dims)
		if rapid.IntRange(0, 2).Draw(rt, "fractional") == 2 {
			// a diffuse inclusion. Nodes above one half belong to it
			for i := range ind {
				if ind[i] == 1 {
					ind[i] = gen.F(rt, "inside", 0.6, 1.2)
				} else {
					ind[i] = gen.F(rt, "outside", -0.1, 0.4)
				}
			}
			s := 0.0
			for _, x := range ind {
				s += x
			}
			if s < 0.3 {
				ind[0] += 3 - s
			}
			c.Label("diffuse")
		}
		want, vol := 0.0, 0.0
		tens := voigt4(v)
		for _, e := range elasticStrain(inclusionStrain(dims, tens, mis, ind), mis, ind) {
			want += tens.energy(e)
		}
		for _, x := range ind {
			vol += x
		}
		want /= vol
		data := gen.Cmplx(ind)
		got := elasticity.HomogeneousModulusEnergy(data, dims, dense(mis), tens.gopf())
		if !(math.Abs(got-want) <= 1e-9*(1+want)) {
			rt.Fatalf("dims %v %s Voigt %v misfit %v inclusion %v: energy per volume %v want %v", dims, kind, v, mis, ind, got, want)
		}
		if d := pbt.Diff(data, gen.Cmplx(ind), 1e-11); d != "" {
			rt.Fatalf("the indicator is not given back: %s", d)
		}
		c.Label(kind)
		c.Label(fmt.Sprintf("%dD", dim))
		if mmax(mis) > 0 && vol < float64(len(ind)) {
			c.NonTrivial("%v %v %v %v", dims, v, mis, ind)
		}
		c.Note("dims %v %s misfit %v inclusion of %v nodes: energy %v", dims, kind, mis, vol, got)
	})
}

// The energy of a precipitate does not depend on the names of the axes, nor on whether a flat domain is
// described with two or three sides, and scales with the moduli and the squared misfit
func TestE02_HomogeneousSymmetry(t *testing.T) {
	pbt.Check(t, "precipitate moved, axes exchanged, domain with an extra side of one, moduli and misfit scaled; odd and even sides, indicators of any value; non-trivial: the axes are exchanged and the misfit is not zero", 4000, 40000, func(rt *rapid.T, c *pbt.Case) {
		dim := rapid.IntRange(2, 3).Draw(rt, "dim")
		dims := gen.DimsRange(rt, dim, 1, 10-2*dim)
		n := ref.Size(dims)
		v, kind := drawStable(rt)
		mis := drawSym(rt, "misfit", -1, 1)
		ind := blob(rt, dims)
		frac := rapid.Bool().Draw(rt, "fractional")
		if frac {
			f := gen.Field(rt, "fraction", n, 0.05, 0.45)
			for i := range ind {
				ind[i] += f[i] * (1 - 2*ind[i])
			}
		}
		energy := func(dims []int, ind []float64, mis m3, v []float64) float64 {
			data := gen.Cmplx(ind)
			e := elasticity.HomogeneousModulusEnergy(data, append([]int{}, dims...), dense(mis), voigt4(v).gopf())
			if d := pbt.Diff(data, gen.Cmplx(ind), 1e-11); d != "" {
				rt.Fatalf("dims %v: the indicator %v is not given back: %s", dims, ind, d)
			}
			return e
		}
		e0 := energy(dims, ind, mis, v)
		tol := 1e-9 * (1 + math.Abs(e0))
		s, m := gen.F(rt, "scale", 0.1, 3), gen.F(rt, "mscale", -3, 3)
		vs, ms := make([]float64, 36), mis
		for i := range v {
			vs[i] = v[i] * s
		}
		for i := range ms {
			for j := range ms {
				ms[i][j] *= m
			}
		}
		if e := energy(dims, ind, ms, vs); !(math.Abs(e-s*m*m*e0) <= 30*tol) {
			rt.Fatalf("dims %v misfit %v Voigt %v indicator %v: energy %v; with moduli times %v and misfit times %v it is %v", dims, mis, v, ind, e0, s, m, e)
		}
		// Move the precipitate
		move := make([]int, dim)
		for i := range move {
			move[i] = rapid.IntRange(0, dims[i]-1).Draw(rt, "move")
		}
		im := make([]float64, n)
		for i := range ind {
			q := ref.Pos(dims, i)
			for a := range q {
				q[a] = (q[a] + move[a]) % dims[a]
			}
			im[ref.Node(dims, q)] = ind[i]
		}
		if e := energy(dims, im, mis, v); !(math.Abs(e-e0) <= tol) {
			rt.Fatalf("dims %v misfit %v Voigt %v indicator %v: energy %v; moved by %v it is %v", dims, mis, v, ind, e0, move, e)
		}
		// Exchange the axes
		perm := rapid.SampledFrom(perms).Draw(rt, "perm")
		d3 := [3]int{1, 1, 1}
		copy(d3[:], dims)
		var dp [3]int
		for i := range d3 {
			dp[perm[i]] = d3[i]
		}
		ip := make([]float64, n)
		for i := range ind {
			var q [3]int
			for a, x := range ref.Pos(dims, i) {
				q[perm[a]] = x
			}
			ip[ref.Node(dp[:], q[:])] = ind[i]
		}
		var mp m3
		for i := range mis {
			for j := range mis {
				mp[perm[i]][perm[j]] = mis[i][j]
			}
		}
		vp := make([]float64, 36)
		for i := 0; i < 6; i++ {
			for j := 0; j < 6; j++ {
				vp[6*permVoigt(perm, i)+permVoigt(perm, j)] = v[6*i+j]
			}
		}
		what := "three sides"
		if e := energy(dp[:], ip, mp, vp); !(math.Abs(e-e0) <= tol) {
			rt.Fatalf("dims %v misfit %v Voigt %v indicator %v: energy %v; with the axes exchanged (%v, dims %v) it is %v", dims, mis, v, ind, e0, perm, dp, e)
		}
		if dp[2] == 1 {
			i2 := make([]float64, n)
			for i := range i2 {
				i2[i] = ip[ref.Node(dp[:], append(ref.Pos(dp[:2], i), 0))]
			}
			if e := energy(dp[:2], i2, mp, vp); !(math.Abs(e-e0) <= tol) {
				rt.Fatalf("dims %v misfit %v Voigt %v indicator %v: energy %v; with the axes exchanged (%v, dims %v) it is %v", dims, mis, v, ind, e0, perm, dp[:2], e)
			}
			what = "two sides"
		}
		c.Label(what)
		c.Label(kind)
		c.LabelIf(frac, "fractional")
		if perm != perms[0] && mmax(mis) > 0 {
			c.NonTrivial("%v %v %v %v %v", dims, v, mis, ind, perm)
		}
		c.Note("dims %v %s misfit %v exchange %v: energy %v", dims, kind, mis, perm, e0)
	})
}

func drawEllipsoid(rt *rapid.T, n int) (float64, float64, float64) {
	h := float64(n)/2 - 0.25
	// The offset keeps the surface away from the nodes
	const off = math.Pi * 1e-4
	return gen.F(rt, "a", 0.5, h) + off, gen.F(rt, "b", 0.5, h) + off, gen.F(rt, "c", 0.5, h) + off
}

func ellipsoid(n int, a, b, cc float64) []float64 {
	dims := []int{n, n, n}
	ind := make([]float64, n*n*n)
	for i := range ind {
		p := ref.Pos(dims, i)
		x, y, z := float64(p[0]-n/2)/a, float64(p[1]-n/2)/b, float64(p[2]-n/2)/cc
		if x*x+y*y+z*z <= 1 {
			ind[i] = 1
		}
	}
	return ind
}

func TestE02_StrainEnergy(t *testing.T) {
	pbt.Check(t, "three different half axes and an anisotropic misfit", 2300, 30000, func(rt *rapid.T, c *pbt.Case) {
		n := rapid.SampledFrom([]int{3, 5, 7}).Draw(rt, "n")
		if rapid.IntRange(0, 59).Draw(rt, "wide") == 59 {
			n = rapid.SampledFrom([]int{9, 13, 21}).Draw(rt, "nwide")
		}
		dims := []int{n, n, n}
		a, b, cc := drawEllipsoid(rt, n)
		v, kind := drawStable(rt)
		mv := gen.Vec(rt, "misfit", 6, -1, 1)
		mis := m3{{mv[0], mv[5] / 2, mv[4] / 2}, {mv[5] / 2, mv[1], mv[3] / 2}, {mv[4] / 2, mv[3] / 2, mv[2]}}
		ind := ellipsoid(n, a, b, cc)
		if vox := elasticity.Ellipsoid(n, a, b, cc); pbt.Diff(vox.Data, gen.Cmplx(ind), 0) != "" {
			rt.Fatalf("Ellipsoid(%d, %v, %v, %v): %s", n, a, b, cc, pbt.Diff(vox.Data, gen.Cmplx(ind), 0))
		}
		p := elasticity.StrainEnergyInput{HalfA: a, HalfB: b, HalfC: cc, Misfit: mv, MatPropMatrix: v, DomainSize: n}
		tens := voigt4(v)
		total := inclusionStrain(dims, tens, mis, ind)
		var dt t4
		inc := rapid.IntRange(0, 2).Draw(rt, "inc")
		if inc > 0 {
			w, _ := drawStable(rt)
			p.MatPropInc = w
			wt := voigt4(w)
			for i := 0; i < 81; i++ {
				q := [4]int{i / 27, (i / 9) % 3, (i / 3) % 3, i % 3}
				dt[q[0]][q[1]][q[2]][q[3]] = wt[q[0]][q[1]][q[2]][q[3]] - tens[q[0]][q[1]][q[2]][q[3]]
			}
			if inc == 2 {
				p.ApplyPerturbation = true
				var es [3][3][]complex128
				for i := 0; i < 3; i++ {
					for j := 0; j < 3; j++ {
						es[i][j] = make([]complex128, len(ind))
					}
				}
				for k := range ind {
					var e m3
					for i := 0; i < 3; i++ {
						for j := 0; j < 3; j++ {
							e[i][j] = (mis[i][j] - total[k][i][j]) * ind[k]
						}
					}
					s := dt.contract(e)
					for i := 0; i < 3; i++ {
						for j := 0; j < 3; j++ {
							es[i][j][k] = complex(s[i][j], 0)
						}
					}
				}
				for i := 0; i < 3; i++ {
					for j := 0; j < 3; j++ {
						es[i][j] = ref.DFT(dims, es[i][j])
					}
				}
				for k, e := range refStrain(dims, tens, es) {
					for i := 0; i < 3; i++ {
						for j := 0; j < 3; j++ {
							total[k][i][j] += e[i][j]
						}
					}
				}
			}
		}
		eMat, eInc, eAll := 0.0, 0.0, 0.0
		for k, e := range elasticStrain(total, mis, ind) {
			eMat += tens.energy(e)
			eAll += dt.energy(e)
			if ind[k] > 0.5 {
				eInc += dt.energy(e)
			}
		}
		vol := 4 * math.Pi * a * b * cc / 3
		got := elasticity.CalculateStrainEnergy(p)
		want := (eMat + eInc) / vol
		tol := 1e-9 * (1 + eMat/vol)
		if !(math.Abs(got-want) <= tol) {
			// Listed: the difference in moduli is applied in the whole domain
			if !(math.Abs(got-(eMat+eAll)/vol) <= tol) || !c.Known("KF-INCENERGY") {
				rt.Fatalf("n %d half axes %v %v %v misfit %v matrix %v inclusion %v perturbation %v: energy %v want %v", n, a, b, cc, mv, v, p.MatPropInc, p.ApplyPerturbation, got, want)
			}
			c.Label("difference in moduli")
		}
		c.Label(fmt.Sprintf("inclusion %d", inc))
		c.Label(kind)
		if a != b && b != cc && mv[0] != mv[1] {
			c.NonTrivial("%d %v %v %v %v %v", n, a, b, cc, mv, v)
		}
		c.Note("n %d half axes %v %v %v misfit %v %s inclusion tensor %d: energy %v", n, a, b, cc, mv, kind, inc, got)
	})
}

var perms = [][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}

// permVoigt gives the index of the Voigt component after the axes are exchanged
func permVoigt(perm [3]int, i int) int {
	p := voigtPair[i]
	a, b := perm[p[0]], perm[p[1]]
	for k, q := range voigtPair {
		if (q[0] == a && q[1] == b) || (q[0] == b && q[1] == a) {
			return k
		}
	}
	return -1
}

func TestE02_StrainEnergySymmetry(t *testing.T) {
	pbt.Check(t, "axes exchanged or misfit scaled on a domain with even or odd sides", 1500, 39000, func(rt *rapid.T, c *pbt.Case) {
		n := rapid.IntRange(2, 8).Draw(rt, "n")
		h := [3]float64{}
		h[0], h[1], h[2] = drawEllipsoid(rt, n)
		v, kind := drawStable(rt)
		w, _ := drawStable(rt)
		mv := gen.Vec(rt, "misfit", 6, -1, 1)
		p := elasticity.StrainEnergyInput{HalfA: h[0], HalfB: h[1], HalfC: h[2], Misfit: mv, MatPropMatrix: v, DomainSize: n}
		inc := rapid.IntRange(0, 2).Draw(rt, "inc")
		if inc > 0 {
			p.MatPropInc = w
			p.ApplyPerturbation = inc == 2
		}
		e0 := elasticity.CalculateStrainEnergy(p)
		// all moduli times s, misfit times m
		s, m := gen.F(rt, "scale", 0.1, 3), gen.F(rt, "mscale", -3, 3)
		mul := func(x []float64, f float64) []float64 {
			if x == nil {
				return nil
			}
			o := make([]float64, len(x))
			for i := range x {
				o[i] = x[i] * f
			}
			return o
		}
		q := p
		q.Misfit, q.MatPropMatrix, q.MatPropInc = mul(mv, m), mul(v, s), mul(p.MatPropInc, s)
		scale := 1 + math.Abs(e0)
		if g := elasticity.CalculateStrainEnergy(q); !(math.Abs(g-s*m*m*e0) <= 1e-9*scale*30) {
			rt.Fatalf("n %d half axes %v misfit %v matrix %v inclusion %v: energy %v; with moduli times %v and misfit times %v it is %v", n, h, mv, v, p.MatPropInc, e0, s, m, g)
		}
		// exchange the axes of everything
		perm := rapid.SampledFrom(perms).Draw(rt, "perm")
		var hp [3]float64
		mp := make([]float64, 6)
		vp, wp := make([]float64, 36), make([]float64, 36)
		for i := range h {
			hp[perm[i]] = h[i]
		}
		for i := 0; i < 6; i++ {
			mp[permVoigt(perm, i)] = mv[i]
			for j := 0; j < 6; j++ {
				vp[6*permVoigt(perm, i)+permVoigt(perm, j)] = v[6*i+j]
				wp[6*permVoigt(perm, i)+permVoigt(perm, j)] = w[6*i+j]
			}
		}
		q = p
		q.HalfA, q.HalfB, q.HalfC, q.Misfit, q.MatPropMatrix = hp[0], hp[1], hp[2], mp, vp
		if inc > 0 {
			q.MatPropInc = wp
		}
		if g := elasticity.CalculateStrainEnergy(q); !(math.Abs(g-e0) <= 1e-9*scale) {
			rt.Fatalf("n %d half axes %v misfit %v matrix %v inclusion %v: energy %v; with the axes exchanged (%v) it is %v", n, h, mv, v, p.MatPropInc, e0, perm, g)
		}
		c.Label(kind)
		c.LabelIf(n%2 == 0, "even side")
		c.NonTrivial("%d %v %v %v %v", n, h, mv, v, perm)
		c.Note("n %d half axes %v misfit %v %s inclusion tensor %d exchange %v: energy %v", n, h, mv, kind, inc, perm, e0)
	})
}

// A voxel belongs to the ellipsoid if its distance from the centre node N/2 is within the half axes
func TestE02_Ellipsoid(t *testing.T) {
	pbt.Check(t, "half axes and sizes, odd and even, also larger than the domain; non-trivial: three different half axes and some voxels inside, some outside", 6000, 50000, func(rt *rapid.T, c *pbt.Case) {
		n := rapid.IntRange(1, 14).Draw(rt, "N")
		half := gen.Vec(rt, "half", 3, 0.2, 9)
		v := elasticity.Ellipsoid(n, half[0], half[1], half[2])
		if a, b, d := v.Dims(); a != n || b != n || d != n {
			rt.Fatalf("voxels %d x %d x %d for N = %d", a, b, d, n)
		}
		in, out := 0, 0
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				for k := 0; k < n; k++ {
					r := 0.0
					for ax, x := range []int{i, j, k} {
						u := float64(x-n/2) / half[ax]
						r += u * u
					}
					if math.Abs(r-1) < 1e-12 {
						continue
					}
					want := complex128(0)
					if r < 1 {
						want, in = 1, in+1
					} else {
						out++
					}
					if got := v.At(i, j, k); got != want {
						rt.Fatalf("half axes %v, N = %d: voxel (%d, %d, %d) is %v, want %v", half, n, i, j, k, got, want)
					}
				}
			}
		}
		if half[0] != half[1] && half[1] != half[2] && half[0] != half[2] && in > 1 && out > 0 {
			c.NonTrivial("%d %v: %d inside", n, half, in)
		}
	})
}
