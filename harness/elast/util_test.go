package elast

import (
	"math"

	"github.com/davidkleiven/gopf/elasticity"
	"gonum.org/v1/gonum/mat"
	"pgregory.net/rapid"
	"verifharness/gen"
	"verifharness/ref"
)

type t4 [3][3][3][3]float64
type m3 [3][3]float64

var voigtPair = [6][2]int{{0, 0}, {1, 1}, {2, 2}, {1, 2}, {0, 2}, {0, 1}}

// voigt4 writes out the tensor of a 6x6 matrix
func voigt4(v []float64) t4 {
	var t t4
	idx := [3][3]int{{0, 5, 4}, {5, 1, 3}, {4, 3, 2}}
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			for k := 0; k < 3; k++ {
				for l := 0; l < 3; l++ {
					t[i][j][k][l] = v[6*idx[i][j]+idx[k][l]]
				}
			}
		}
	}
	return t
}

func isoT(b, nu float64) t4 {
	mu := 3 * b * (1 - 2*nu) / (2 * (1 + nu))
	la := b - 2*mu/3
	return voigt4([]float64{la + 2*mu, la, la, 0, 0, 0, la, la + 2*mu, la, 0, 0, 0, la, la, la + 2*mu, 0, 0, 0,
		0, 0, 0, mu, 0, 0, 0, 0, 0, 0, mu, 0, 0, 0, 0, 0, 0, mu})
}

func cubT(c11, c12, c44 float64) t4 {
	return voigt4([]float64{c11, c12, c12, 0, 0, 0, c12, c11, c12, 0, 0, 0, c12, c12, c11, 0, 0, 0,
		0, 0, 0, c44, 0, 0, 0, 0, 0, 0, c44, 0, 0, 0, 0, 0, 0, c44})
}

func (t t4) gopf() elasticity.Rank4 {
	r := elasticity.NewRank4()
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			for k := 0; k < 3; k++ {
				for l := 0; l < 3; l++ {
					r.Set(i, j, k, l, t[i][j][k][l])
				}
			}
		}
	}
	return r
}

func fromGopf(r elasticity.Rank4) t4 {
	var t t4
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			for k := 0; k < 3; k++ {
				for l := 0; l < 3; l++ {
					t[i][j][k][l] = r.At(i, j, k, l)
				}
			}
		}
	}
	return t
}

func (t t4) contract(e m3) m3 {
	var s m3
	for i := range s {
		for j := range s {
			for k := range s {
				for l := range s {
					s[i][j] += t[i][j][k][l] * e[k][l]
				}
			}
		}
	}
	return s
}

func ddot(a, b m3) float64 {
	s := 0.0
	for i := range a {
		for j := range a {
			s += a[i][j] * b[i][j]
		}
	}
	return s
}

func (t t4) energy(e m3) float64 { return 0.5 * ddot(e, t.contract(e)) }

func (t t4) max() float64 {
	m := 0.0
	for i := range t {
		for j := range t {
			for k := range t {
				for l := range t {
					m = math.Max(m, math.Abs(t[i][j][k][l]))
				}
			}
		}
	}
	return m
}

func (t t4) diff(o t4) float64 {
	var d t4
	for i := range t {
		for j := range t {
			for k := range t {
				for l := range t {
					d[i][j][k][l] = t[i][j][k][l] - o[i][j][k][l]
				}
			}
		}
	}
	return d.max()
}

// rotate applies the rotation one index at a time
func (t t4) rotate(r m3) t4 {
	for ax := 0; ax < 4; ax++ {
		var o t4
		var ix [4]int
		for ix[0] = 0; ix[0] < 3; ix[0]++ {
			for ix[1] = 0; ix[1] < 3; ix[1]++ {
				for ix[2] = 0; ix[2] < 3; ix[2]++ {
					for ix[3] = 0; ix[3] < 3; ix[3]++ {
						q := ix
						s := 0.0
						for m := 0; m < 3; m++ {
							q[ax] = m
							s += r[ix[ax]][m] * t[q[0]][q[1]][q[2]][q[3]]
						}
						o[ix[0]][ix[1]][ix[2]][ix[3]] = s
					}
				}
			}
		}
		t = o
	}
	return t
}

func mm(a, b m3) m3 {
	var c m3
	for i := range c {
		for j := range c {
			for k := range c {
				c[i][j] += a[i][k] * b[k][j]
			}
		}
	}
	return c
}

func tr(a m3) m3 {
	var c m3
	for i := range c {
		for j := range c {
			c[i][j] = a[j][i]
		}
	}
	return c
}

func dense(a m3) *mat.Dense {
	d := mat.NewDense(3, 3, nil)
	for i := range a {
		for j := range a {
			d.Set(i, j, a[i][j])
		}
	}
	return d
}

func undense(d mat.Matrix) m3 {
	var a m3
	for i := range a {
		for j := range a {
			a[i][j] = d.At(i, j)
		}
	}
	return a
}

func mdiff(a, b m3) float64 {
	m := 0.0
	for i := range a {
		for j := range a {
			if d := math.Abs(a[i][j] - b[i][j]); !(d <= m) {
				m = d
			}
		}
	}
	return m
}

func mmax(a m3) float64 { return mdiff(a, m3{}) }

func drawM(rt *rapid.T, label string, lo, hi float64) m3 {
	var a m3
	for i := range a {
		for j := range a {
			a[i][j] = gen.F(rt, label, lo, hi)
		}
	}
	return a
}

func drawSym(rt *rapid.T, label string, lo, hi float64) m3 {
	a := drawM(rt, label, lo, hi)
	for i := range a {
		for j := 0; j < i; j++ {
			a[i][j] = a[j][i]
		}
	}
	return a
}

// drawRot draws a product of rotations from gopf's own matrices
func drawRot(rt *rapid.T) m3 {
	r := m3{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}
	for k := rapid.IntRange(1, 3).Draw(rt, "nrot"); k > 0; k-- {
		a := gen.F(rt, "angle", -7, 7)
		ax := rapid.IntRange(0, 2).Draw(rt, "axis")
		r = mm(rotM(a, ax), r)
	}
	return r
}

// rotM is the convention of RotationMatrix, written out
func rotM(a float64, axis int) m3 {
	s, c := math.Sincos(a)
	switch axis {
	case 0:
		return m3{{1, 0, 0}, {0, c, s}, {0, -s, c}}
	case 1:
		return m3{{c, 0, s}, {0, 1, 0}, {-s, 0, c}}
	}
	return m3{{c, s, 0}, {-s, c, 0}, {0, 0, 1}}
}

// spdVoigt draws the 6x6 matrix of a stable material
func spdVoigt(rt *rapid.T) []float64 {
	b := gen.Vec(rt, "chol", 36, -1, 1)
	v := make([]float64, 36)
	for i := 0; i < 6; i++ {
		for j := 0; j < 6; j++ {
			for k := 0; k < 6; k++ {
				v[6*i+j] += b[6*i+k] * b[6*j+k]
			}
		}
		v[6*i+i] += 1.5
	}
	return v
}

// drawStable draws a stable isotropic, cubic or triclinic material and its Voigt matrix
func drawStable(rt *rapid.T) ([]float64, string) {
	var t t4
	kind := rapid.SampledFrom([]string{"isotropic", "cubic", "triclinic"}).Draw(rt, "material")
	switch kind {
	case "isotropic":
		t = isoT(gen.F(rt, "bulk", 1, 5), gen.F(rt, "poisson", -0.5, 0.45))
	case "cubic":
		c11 := gen.F(rt, "c11", 2, 5)
		t = cubT(c11, gen.F(rt, "c12", -0.4*c11, 0.8*c11), gen.F(rt, "c44", 0.5, 3))
	default:
		return spdVoigt(rt), kind
	}
	v := make([]float64, 36)
	for i, p := range voigtPair {
		for j, q := range voigtPair {
			v[6*i+j] = t[p[0]][p[1]][q[0]][q[1]]
		}
	}
	return v, kind
}

// solve3 solves a 3x3 complex system by cramer's rule
func solve3(a [3][3]float64, b [3]complex128) [3]complex128 {
	det := func(x [3][3]complex128) complex128 {
		return x[0][0]*(x[1][1]*x[2][2]-x[1][2]*x[2][1]) - x[0][1]*(x[1][0]*x[2][2]-x[1][2]*x[2][0]) + x[0][2]*(x[1][0]*x[2][1]-x[1][1]*x[2][0])
	}
	var c [3][3]complex128
	for i := range a {
		for j := range a {
			c[i][j] = complex(a[i][j], 0)
		}
	}
	d := det(c)
	var out [3]complex128
	for k := range out {
		e := c
		for i := range e {
			e[i][k] = b[i]
		}
		out[k] = det(e) / d
	}
	return out
}

func freq3(dims []int, i int) [3]float64 {
	var f [3]float64
	copy(f[:], ref.Freq(dims, i))
	return f
}

// refStrain returns the real space strain at each node that balances the stress C:E(r), where
// E is a field of eigenstrains with transformed stress s(node). Odd sides only
func refStrain(dims []int, c t4, eigStress [3][3][]complex128) []m3 {
	n := ref.Size(dims)
	ft := [3][3][]complex128{}
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			ft[i][j] = make([]complex128, n)
		}
	}
	for nd := 1; nd < n; nd++ {
		f := freq3(dims, nd)
		var a [3][3]float64
		var b [3]complex128
		for i := 0; i < 3; i++ {
			for k := 0; k < 3; k++ {
				for j := 0; j < 3; j++ {
					for l := 0; l < 3; l++ {
						a[i][k] += c[i][j][k][l] * f[j] * f[l] * 4 * math.Pi * math.Pi
					}
				}
			}
			for j := 0; j < 3; j++ {
				b[i] -= complex(0, 2*math.Pi*f[j]) * eigStress[i][j][nd]
			}
		}
		u := solve3(a, b)
		for i := 0; i < 3; i++ {
			for j := 0; j < 3; j++ {
				ft[i][j][nd] = complex(0, math.Pi*f[j])*u[i] + complex(0, math.Pi*f[i])*u[j]
			}
		}
	}
	out := make([]m3, n)
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			v := ref.InvDFT(dims, ft[i][j])
			for k := range out {
				out[k][i][j] = real(v[k])
			}
		}
	}
	return out
}
