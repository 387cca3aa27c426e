// Package gen holds the generators shared by the checks
package gen

import (
	"math"

	"pgregory.net/rapid"
)

// Dims draws a 2D or 3D domain size with at most maxN nodes. Sides differ,
// and odd and even sides both occur
func Dims(t *rapid.T, maxN int) []int {
	if maxN >= 16 && rapid.IntRange(0, 24).Draw(t, "large") == 24 {
		// now and then a longer domain
		nx := rapid.IntRange(1, 64).Draw(t, "nx")
		d := []int{nx, rapid.IntRange(1, max(1, min(64, 8*maxN/nx))).Draw(t, "ny")}
		if rapid.Bool().Draw(t, "turn") {
			d[0], d[1] = d[1], d[0]
		}
		if rapid.IntRange(0, 3).Draw(t, "deep") == 3 {
			d = append(d, rapid.IntRange(1, max(1, 8*maxN/(d[0]*d[1]))).Draw(t, "nz"))
		}
		return d
	}
	if rapid.IntRange(0, 3).Draw(t, "dim3") == 0 {
		return Dims3(t, maxN)
	}
	return Dims2(t, maxN)
}

// Dims2 draws a 2D domain
func Dims2(t *rapid.T, maxN int) []int {
	nx := rapid.IntRange(1, min(12, maxN)).Draw(t, "nx")
	return []int{nx, rapid.IntRange(1, min(12, maxN/nx)).Draw(t, "ny")}
}

// Dims3 draws a 3D domain
func Dims3(t *rapid.T, maxN int) []int {
	nx := rapid.IntRange(1, min(6, maxN)).Draw(t, "nx")
	ny := rapid.IntRange(1, min(6, maxN/nx)).Draw(t, "ny")
	return []int{nx, ny, rapid.IntRange(1, min(6, maxN/(nx*ny))).Draw(t, "nz")}
}

// DimsRange draws a domain with all sides between lo and hi
func DimsRange(t *rapid.T, dim, lo, hi int) []int {
	d := make([]int, dim)
	for i := range d {
		d[i] = rapid.IntRange(lo, hi).Draw(t, "side")
	}
	if hi >= 5 && rapid.IntRange(0, 24).Draw(t, "stretch") == 24 {
		// now and then a longer side
		d[rapid.IntRange(0, dim-1).Draw(t, "longside")] = rapid.IntRange(hi, 5*hi).Draw(t, "length")
	}
	return d
}

// F draws a float in [lo, hi] with three decimals, now and then 0, 1, -1, 0.5 or
// an end of the range. It shrinks towards the value closest to zero
func F(t *rapid.T, label string, lo, hi float64) float64 {
	const res = 1000.0
	l, h := int(math.Ceil(lo*res-1e-9)), int(math.Floor(hi*res+1e-9))
	if h-l > 10 && rapid.IntRange(0, 15).Draw(t, label+"_special") == 15 {
		// now and then a value where formulas like to have a special case
		v := rapid.SampledFrom([]int{0, 1000, -1000, 500, l, h}).Draw(t, label+"_at")
		if v >= l && v <= h {
			return float64(v) / res
		}
	}
	return float64(rapid.IntRange(l, h).Draw(t, label)) / res
}

// Vec draws n values in [lo, hi]
func Vec(t *rapid.T, label string, n int, lo, hi float64) []float64 {
	out := make([]float64, n)
	for i := range out {
		out[i] = F(t, label, lo, hi)
	}
	return out
}

// Field draws n values. Few bits are drawn: the values follow from one seed or,
// now and then, from a few explicit spikes on a constant
func Field(t *rapid.T, label string, n int, lo, hi float64) []float64 {
	out := make([]float64, n)
	kind := rapid.IntRange(0, 5).Draw(t, label+"_kind")
	switch kind {
	case 0: // constant with spikes
		c := F(t, label+"_c", lo, hi)
		for i := range out {
			out[i] = c
		}
		for k := rapid.IntRange(0, 3).Draw(t, label+"_ns"); k > 0; k-- {
			out[rapid.IntRange(0, n-1).Draw(t, label+"_at")] = F(t, label+"_v", lo, hi)
		}
	default:
		s := uint64(rapid.IntRange(1, 1<<20).Draw(t, label+"_seed"))
		for i := range out {
			s = s*6364136223846793005 + 1442695040888963407
			u := float64(s>>33) / float64(1<<31)
			out[i] = lo + (hi-lo)*math.Round(u*4096.0)/4096.0
		}
	}
	return out
}

// Cmplx converts to complex
func Cmplx(v []float64) []complex128 {
	out := make([]complex128, len(v))
	for i := range v {
		out[i] = complex(v[i], 0.0)
	}
	return out
}

// Real returns the real part
func Real(v []complex128) []float64 {
	out := make([]float64, len(v))
	for i := range v {
		out[i] = real(v[i])
	}
	return out
}

// CField draws a complex vector
func CField(t *rapid.T, label string, n int, lo, hi float64) []complex128 {
	re := Field(t, label+"_re", n, lo, hi)
	im := Field(t, label+"_im", n, lo, hi)
	out := make([]complex128, n)
	for i := range out {
		out[i] = complex(re[i], im[i])
	}
	return out
}

// Step draws the number of a time step: mostly up to small, now and then one
// with more digits
func Step(t *rapid.T, label string, small int) int {
	if rapid.IntRange(0, 5).Draw(t, label+"_digits") == 5 {
		return rapid.SampledFrom([]int{9, 10, 11, 20, 99, 100, 101, 255, 256, 999, 1000, 1024, 9999, 10000, 65536, 123456, 1000000, 2147483647}).Draw(t, label+"_big")
	}
	return rapid.IntRange(0, small).Draw(t, label)
}

// Count draws a number between lo and hi, now and then one up to far
func Count(t *rapid.T, label string, lo, hi, far int) int {
	if rapid.IntRange(0, 14).Draw(t, label+"_many") == 14 {
		return rapid.IntRange(hi, far).Draw(t, label+"_far")
	}
	return rapid.IntRange(lo, hi).Draw(t, label)
}

// LargeDims draws a 2D or 3D domain with some hundred nodes
func LargeDims(t *rapid.T) []int {
	nx := rapid.IntRange(2, 40).Draw(t, "nx")
	d := []int{nx, rapid.IntRange((250+nx-1)/nx, 700/nx).Draw(t, "ny")}
	if d[1]%3 == 0 && rapid.Bool().Draw(t, "deep") {
		d = append(d, 3)
		d[1] /= 3
	}
	return d
}
