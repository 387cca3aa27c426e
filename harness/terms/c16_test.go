package terms

import (
	"fmt"
	"math"
	"math/cmplx"
	"math/rand"
	"testing"

	"github.com/davidkleiven/gopf/pf"
	"pgregory.net/rapid"
	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
)

const sigmas = 7.0

// drawStrength draws strengths over several orders of magnitude
func drawStrength(rt *rapid.T) float64 {
	return gen.F(rt, "strength", 0.5, 4) * math.Pow(10, float64(rapid.IntRange(-6, 2).Draw(rt, "order")))
}

// normalTails compares the number of draws beyond 1, 2 and 3 standard deviations with the normal distribution
type normalTails struct {
	n    float64
	seen [4]float64
}

func (q *normalTails) add(x float64) {
	q.n++
	for k := 1; k < 4; k++ {
		if math.Abs(x) > float64(k) {
			q.seen[k]++
		}
	}
	if x > 0 {
		q.seen[0]++
	}
}

func (q *normalTails) check(rt *rapid.T, what string) {
	for k := range q.seen {
		p := math.Erfc(float64(k) / math.Sqrt2)
		if k == 0 {
			p = 0.5
		}
		sd := math.Sqrt(q.n * p * (1 - p))
		if q.n*p < 100 {
			continue
		}
		if !(math.Abs(q.seen[k]-q.n*p) <= sigmas*sd) {
			rt.Fatalf("%s: %g of %g draws are beyond %d standard deviations (0: positive), want %g +- %g", what, q.seen[k], q.n, k, q.n*p, sd)
		}
	}
}

// The increments of a field driven by white noise are independent in space and time with variance 2*Strength*dt^2
func TestC16_WhiteNoise(t *testing.T) {
	pbt.Check(t, "random domains, strengths and seeds, 300 steps; mean, variance, correlation between neighbours and in time within 7 standard deviations; non-trivial: all", 500, 5000,
		func(rt *rapid.T, c *pbt.Case) {
			dims := gen.DimsRange(rt, 2, 2, 9)
			if rapid.Bool().Draw(rt, "3d") {
				dims = gen.DimsRange(rt, 3, 2, 5)
			}
			if rapid.IntRange(0, 29).Draw(rt, "large") == 29 {
				dims = gen.LargeDims(rt)
			}
			n := ref.Size(dims)
			w := pf.WhiteNoise{Strength: drawStrength(rt)}
			dt := rapid.SampledFrom([]float64{0.1, 1}).Draw(rt, "dt")
			rand.Seed(int64(rapid.IntRange(1, 1<<30).Draw(rt, "rngseed")))
			m := pf.NewModel()
			m.AddField(pf.NewField("conc", n, nil))
			m.RegisterFunction("NOISE", w.Generate)
			m.AddEquation("dconc/dt = NOISE")
			sv := pf.NewSolver(&m, dims, dt)
			const reps = 300
			last := make([]complex128, n)
			prev := make([]float64, n)
			var s1, s2, lag, nb float64
			std := math.Sqrt(2 * w.Strength)
			tails := normalTails{}
			n1, n2 := make([]float64, n), make([]float64, n)
			for r := 0; r < reps; r++ {
				sv.Propagate(1)
				cur := make([]float64, n)
				for i, v := range m.Fields[0].Data {
					d := (v - last[i]) / complex(dt, 0)
					if math.Abs(imag(d)) > 1e-8*(std+cmplx.Abs(v)/dt) {
						rt.Fatalf("the noise has an imaginary part: %v", d)
					}
					cur[i] = real(d) / std
					tails.add(cur[i])
					s1 += cur[i]
					s2 += cur[i] * cur[i]
					n1[i] += cur[i] / reps
					n2[i] += cur[i] * cur[i] / reps
					lag += cur[i] * prev[i]
				}
				for i := range cur {
					nb += cur[i] * cur[(i+1)%n]
				}
				copy(last, m.Fields[0].Data)
				prev = cur
			}
			tails.check(rt, "white noise")
			N := float64(n * reps)
			chk := func(what string, got, want, sd float64) {
				if !(math.Abs(got-want) <= sigmas*sd) {
					rt.Fatalf("dims %v strength %g dt %g: %s is %g, want %g +- %g", dims, w.Strength, dt, what, got, want, sd)
				}
			}
			chk("mean", s1/N, 0, math.Sqrt(1/N))
			chk("variance/(2 strength)", s2/N, 1, math.Sqrt(2/N))
			for i := range n1 {
				chk(fmt.Sprintf("mean at node %d", i), n1[i], 0, math.Sqrt(1.0/reps))
				// few draws: the distribution has a longer tail than a normal one
				chk(fmt.Sprintf("variance at node %d", i), n2[i], 1, 1.4*math.Sqrt(2.0/reps))
			}
			chk("correlation in time", lag/N, 0, math.Sqrt(1/N))
			if n > 2 {
				chk("correlation of neighbours", nb/N, 0, math.Sqrt(1/N))
			}
			c.NonTrivial("%v %g %g", dims, w.Strength, s1)
		})
}

// Conservative noise is the divergence of independent white currents
func TestC16_ConservativeNoise(t *testing.T) {
	pbt.Check(t, "random domains, strengths and seeds, 300 steps; power of the modes (total, per axis) and correlation in time within 7 standard deviations; non-trivial: all", 270, 5000,
		func(rt *rapid.T, c *pbt.Case) {
			dims := gen.DimsRange(rt, 2, 3, 9)
			if rapid.Bool().Draw(rt, "3d") {
				dims = gen.DimsRange(rt, 3, 3, 5)
			}
			n := ref.Size(dims)
			strength := drawStrength(rt)
			rand.Seed(int64(rapid.IntRange(1, 1<<30).Draw(rt, "rngseed")))
			two := rapid.Bool().Draw(rt, "two")
			m := pf.NewModel()
			m.AddField(pf.NewField("conc", n, nil))
			noise := pf.NewConservativeNoise(strength, len(dims))
			m.RegisterExplicitTerm("NOISE", asTerm(rt, &noise), noise.RequiredDerivedFields(n))
			m.AddEquation("dconc/dt = NOISE")
			if two {
				// a second, independent source of noise on another field
				m.AddField(pf.NewField("eta", n, nil))
				noise2 := pf.NewConservativeNoise(strength, len(dims))
				m.RegisterExplicitTerm("OTHER", asTerm(rt, &noise2), noise2.RequiredDerivedFields(n))
				m.AddEquation("deta/dt = OTHER")
			}
			sv := pf.NewSolver(&m, dims, 1.0)
			power := make([]float64, n)
			axis := make([]int, n) // -2: no power, -1: several axes
			for i := range power {
				axis[i] = -2
				for d, f := range ref.Freq(dims, i) {
					if math.Abs(math.Abs(f)-0.5) < 1e-9 || f == 0 {
						continue
					}
					s := 2 * math.Sin(math.Pi*f)
					power[i] += float64(n) * 2 * strength * s * s
					if axis[i] == -2 {
						axis[i] = d
					} else {
						axis[i] = -1
					}
				}
			}
			const reps = 300
			last := make([][]complex128, 2)
			prev := make([]complex128, n)
			sum := make([]float64, len(dims)+2)
			cnt := make([]float64, len(dims)+2)
			lag, cross := 0.0, 0.0
			for r := 0; r < reps; r++ {
				sv.Propagate(1)
				var fts [2][]complex128
				for f := range m.Fields {
					if last[f] == nil {
						last[f] = make([]complex128, n)
					}
					diff := make([]complex128, n)
					for i, v := range m.Fields[f].Data {
						diff[i] = v - last[f][i]
						if math.Abs(imag(diff[i])) > 1e-8*(math.Sqrt(strength)+cmplx.Abs(v)) {
							rt.Fatalf("dims %v: the noise has an imaginary part: %v", dims, diff[i])
						}
					}
					copy(last[f], m.Fields[f].Data)
					fts[f] = ref.DFT(dims, diff)
				}
				for i, v := range fts[0] {
					if axis[i] == -2 {
						if cmplx.Abs(v) > 1e-6*math.Sqrt(strength)*float64(n) {
							rt.Fatalf("dims %v: mode %v should have no noise, has %v", dims, ref.Freq(dims, i), v)
						}
						continue
					}
					g := axis[i]
					if g < 0 {
						g = len(dims)
					}
					x := real(v*cmplx.Conj(v)) / power[i]
					sum[g] += x
					cnt[g]++
					sum[len(dims)+1] += x
					cnt[len(dims)+1]++
					lag += real(v*cmplx.Conj(prev[i])) / power[i]
					if two {
						cross += real(v*cmplx.Conj(fts[1][i])) / power[i]
					}
				}
				copy(prev, fts[0])
			}
			for g := range sum {
				if cnt[g] == 0 {
					continue
				}
				// a mode and its conjugate carry the same information
				if got, sd := sum[g]/cnt[g], math.Sqrt(2/cnt[g]); !(math.Abs(got-1) <= sigmas*sd) {
					rt.Fatalf("dims %v strength %g: power of the modes of group %d is %g times the expected one (+- %g)", dims, strength, g, got, sd)
				}
			}
			tot := cnt[len(dims)+1]
			if tot == 0 {
				return
			}
			if got, sd := lag/tot, math.Sqrt(1/tot); !(math.Abs(got) <= sigmas*sd) {
				rt.Fatalf("dims %v: correlation in time %g +- %g", dims, got, sd)
			}
			if got, sd := cross/tot, math.Sqrt(1/tot); !(math.Abs(got) <= sigmas*sd) {
				rt.Fatalf("dims %v: correlation %g +- %g between independent noise terms", dims, got, sd)
			}
			c.NonTrivial("%v %g %g", dims, strength, sum[0])
			c.LabelIf(two, "two terms")
		})
}

// checkUnitCovariance compares the covariance of all pairs of numbers returned by draw with the unit matrix
func checkUnitCovariance(rt *rapid.T, what string, num, reps int, draw func(out []float64)) {
	mean := make([]float64, num)
	lag := make([]float64, num)
	cov := make([][]float64, num)
	for i := range cov {
		cov[i] = make([]float64, num)
	}
	x, prev := make([]float64, num), make([]float64, num)
	fourth := 0.0
	tails := normalTails{}
	for r := 0; r < reps; r++ {
		draw(x)
		for i := range x {
			mean[i] += x[i]
			lag[i] += x[i] * prev[i]
			tails.add(x[i])
			fourth += x[i] * x[i] * x[i] * x[i]
			for j := 0; j <= i; j++ {
				cov[i][j] += x[i] * x[j]
			}
		}
		copy(prev, x)
	}
	N := float64(reps)
	chk := func(name string, i, j int, got, want, sd float64) {
		if !(math.Abs(got-want) <= sigmas*sd) {
			rt.Fatalf("%s: %s of node %d and %d (counting all components) is %g, want %g +- %g", what, name, i, j, got, want, sd)
		}
	}
	for i := range x {
		chk("mean", i, i, mean[i]/N, 0, math.Sqrt(1/N))
		chk("correlation in time", i, i, lag[i]/N, 0, math.Sqrt(1/N))
		chk("variance", i, i, cov[i][i]/N, 1, math.Sqrt(2/N))
		for j := 0; j < i; j++ {
			chk("covariance", i, j, cov[i][j]/N, 0, math.Sqrt(1/N))
		}
	}
	// normal distribution
	tails.check(rt, what)
	tot := N * float64(num)
	if tot >= 20000 {
		// the distribution of the sum has a longer tail
		chk("fourth moment", 0, num-1, fourth/tot, 3, 1.5*math.Sqrt(96/tot))
	}
}

// All nodes and components of the random currents are independent
func TestC16_Currents(t *testing.T) {
	pbt.Check(t, "currents and white noise on up to 40 nodes, 2000 draws; mean, variance, fourth moment, covariance of all pairs of nodes and components, correlation in time; non-trivial: all", 600, 4000,
		func(rt *rapid.T, c *pbt.Case) {
			n := rapid.IntRange(1, 40).Draw(rt, "n")
			dim := rapid.IntRange(2, 3).Draw(rt, "dim")
			strength := drawStrength(rt)
			rand.Seed(int64(rapid.IntRange(1, 1<<30).Draw(rt, "rngseed")))
			std := complex(math.Sqrt(2*strength), 0)
			if rapid.IntRange(0, 3).Draw(rt, "white") == 0 {
				w := pf.WhiteNoise{Strength: strength}
				checkUnitCovariance(rt, "white noise", n, 2000, func(out []float64) {
					for i := range out {
						out[i] = real(w.Generate(i, nil) / std)
					}
				})
			} else {
				noise := pf.NewConservativeNoise(strength, dim)
				fields := noise.RequiredDerivedFields(n)
				checkUnitCovariance(rt, "currents", n*dim, 2000, func(out []float64) {
					for d := range fields {
						fields[d].Update()
						for i, v := range fields[d].Data {
							if imag(v) != 0 {
								rt.Fatalf("complex current %v", v)
							}
							out[d*n+i] = real(v / std)
						}
					}
				})
			}
			c.NonTrivial("%d %d %g", n, dim, strength)
		})
}

// A noise term without its fields is refused
func TestC16_Unregistered(t *testing.T) {
	pbt.Check(t, "conservative noise with all, some or none of its fields registered; non-trivial: some are missing", 1200, 6000,
		func(rt *rapid.T, c *pbt.Case) {
			dim := rapid.IntRange(2, 3).Draw(rt, "dim")
			noise := pf.NewConservativeNoise(1, dim)
			fields := noise.RequiredDerivedFields(8)
			if len(fields) != dim {
				rt.Fatalf("%d fields for %d dimensions", len(fields), dim)
			}
			b := map[string]pf.Brick{}
			miss := 0
			for i := range fields {
				if rapid.IntRange(0, 3).Draw(rt, "drop") == 0 {
					miss++
					continue
				}
				b[fields[i].Name] = &fields[i]
			}
			msg := pbt.Panics(func() { noise.Construct(b) })
			if (miss > 0) != (msg != "") || noise.CurrentFieldsAreRegistered(b) != (miss == 0) {
				rt.Fatalf("%d of %d fields missing, panic %q", miss, dim, msg)
			}
			if miss > 0 {
				c.NonTrivial("%d %v", dim, b)
			}
		})
}
