package terms

import (
	"math"

	"github.com/davidkleiven/gopf/pf"
	"pgregory.net/rapid"
	"verifharness/gen"
	"verifharness/ref"
)

// derivS returns the transform of d/dx_comp of a transformed field. The mode
// halfway the sampling frequency has no odd derivative
func derivS(dims []int, ft []complex128, comp int) []complex128 {
	out := make([]complex128, len(ft))
	for i := range ft {
		f := ref.Freq(dims, i)[comp]
		if math.Abs(math.Abs(f)-0.5) < 1e-12 {
			f = 0
		}
		out[i] = ft[i] * complex(0, 2*math.Pi*f)
	}
	return out
}

// deriv returns d/dx_comp of a real space field
func deriv(dims []int, v []complex128, comp int) []complex128 {
	return ref.InvDFT(dims, derivS(dims, ref.DFT(dims, v), comp))
}

func mul(a, b []complex128) []complex128 {
	out := make([]complex128, len(a))
	for i := range a {
		out[i] = a[i] * b[i]
	}
	return out
}

func add(dst, src []complex128) {
	for i := range dst {
		dst[i] += src[i]
	}
}

func lap(dims []int, v []complex128) []complex128 {
	return ref.InvDFT(dims, ref.Lap(dims, ref.DFT(dims, v), 1))
}

func maxImag(v []complex128) float64 {
	m := 0.0
	for _, x := range v {
		if a := math.Abs(imag(x)); !(a <= m) {
			m = a
		}
	}
	return m
}

// termDims draws domains where even, odd and unequal sides occur
func termDims(rt *rapid.T) []int {
	if rapid.IntRange(0, 29).Draw(rt, "longdomain") == 29 {
		d := []int{rapid.IntRange(45, 70).Draw(rt, "long"), rapid.IntRange(1, 4).Draw(rt, "short")}
		if rapid.Bool().Draw(rt, "turn") {
			d[0], d[1] = d[1], d[0]
		}
		if rapid.IntRange(0, 2).Draw(rt, "deep") == 2 {
			d = append(d, rapid.IntRange(1, 3).Draw(rt, "depth"))
			if rapid.Bool().Draw(rt, "turndeep") {
				d[0], d[2] = d[2], d[0]
			}
		}
		return d
	}
	if rapid.IntRange(0, 2).Draw(rt, "dim3") == 0 {
		return gen.DimsRange(rt, 3, 1, 5)
	}
	return gen.DimsRange(rt, 2, 1, 9)
}

// asTerm converts a term to the interface all terms have to satisfy in order to be registered
func asTerm(rt *rapid.T, x interface{}) pf.PureTerm {
	p, ok := x.(pf.PureTerm)
	if !ok {
		rt.Fatalf("%T can not be registered as a term of a model", x)
	}
	return p
}

// noNyquist removes the modes halfway the sampling frequency
func noNyquist(dims []int, v []float64) []float64 {
	ft := ref.DFT(dims, gen.Cmplx(v))
	for i := range ft {
		for _, f := range ref.Freq(dims, i) {
			if math.Abs(math.Abs(f)-0.5) < 1e-12 {
				ft[i] = 0
			}
		}
	}
	return gen.Real(ref.InvDFT(dims, ft))
}
