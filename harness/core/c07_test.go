package core

import (
	"fmt"
	"math"
	"math/cmplx"
	"testing"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"pgregory.net/rapid"
	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
)

func fftDims(rt *rapid.T) []int {
	if rapid.IntRange(0, 29).Draw(rt, "long") == 29 {
		dims := gen.DimsRange(rt, rapid.IntRange(2, 3).Draw(rt, "dim"), 1, 3)
		dims[rapid.IntRange(0, len(dims)-1).Draw(rt, "axis")] = rapid.IntRange(20, 270).Draw(rt, "side")
		return dims
	}
	switch rapid.IntRange(0, 3).Draw(rt, "kind") {
	case 0:
		return gen.DimsRange(rt, 3, 1, 9)
	case 1:
		return gen.DimsRange(rt, 3, 1, 5)
	}
	return gen.DimsRange(rt, 2, 1, 20)
}

// The transform is the discrete fourier transform of the grid, and the inverse undoes it
func TestC07_Transform(t *testing.T) {
	pbt.Check(t, "complex data on random 2D and 3D domains; non-trivial: the sides differ", 1400, 37000,
		func(rt *rapid.T, c *pbt.Case) {
			dims := fftDims(rt)
			n := ref.Size(dims)
			data := gen.CField(rt, "data", n, -3, 3)
			other := gen.CField(rt, "other", n, -3, 3)
			ft := pfutil.NewFFTW(dims)
			ft2 := pfutil.NewFFTW(dims)
			rt.Logf("dims %v", dims)
			buf := append([]complex128{}, data...)
			ret := ft.FFT(buf)
			buf2 := append([]complex128{}, other...)
			ft2.FFT(buf2)
			tol := 1e-12 * float64(n)
			want := ref.DFT(dims, data)
			if d := pbt.Diff(buf, want, tol); d != "" {
				rt.Fatalf("dims %v: forward transform, %s", dims, d)
			}
			if d := pbt.Diff(ret, buf, 0); d != "" {
				rt.Fatalf("dims %v: returned slice differs from the in-place result, %s", dims, d)
			}
			if d := pbt.Diff(buf2, ref.DFT(dims, other), tol); d != "" {
				rt.Fatalf("dims %v: second transformer, %s", dims, d)
			}
			at := rapid.IntRange(0, n-1).Draw(rt, "mode")
			if d := cmplx.Abs(want[at] - ref.DirectDFT(dims, data, at)); d > 1e-9*float64(n) {
				rt.Fatalf("HARNESS-ERROR: reference transforms disagree by %g", d)
			}
			ft.IFFT(buf)
			for i := range buf {
				buf[i] /= complex(float64(n), 0)
			}
			if d := pbt.Diff(buf, data, tol); d != "" {
				rt.Fatalf("dims %v: inverse of forward, %s", dims, d)
			}
			// the other order, with reuse of the same transformer
			ft.IFFT(buf2)
			ft.FFT(buf2)
			for i := range buf2 {
				buf2[i] /= complex(float64(n), 0)
			}
			if d := pbt.Diff(buf2, ref.DFT(dims, other), tol); d != "" {
				rt.Fatalf("dims %v: forward of inverse, %s", dims, d)
			}
			c.LabelIf(len(dims) == 3, "3D")
			if dims[0] != dims[1] || (len(dims) == 3 && dims[1] != dims[2]) {
				c.NonTrivial("%v %v", dims, data[0])
			}
		})
}

func sameFreq(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		d := a[i] - b[i]
		if math.Abs(d) > 1e-12 && !(math.Abs(math.Abs(d)-1.0) < 1e-12 && math.Abs(math.Abs(a[i])-0.5) < 1e-12) {
			return false
		}
	}
	return true
}

// Frequencies, node numbers, positions and conjugate nodes agree with each other and with the transform
func TestC07_Indexing(t *testing.T) {
	pbt.Check(t, "all nodes of random 2D and 3D domains; non-trivial: more than one node", 1300, 33000,
		func(rt *rapid.T, c *pbt.Case) {
			dims := fftDims(rt)
			n := ref.Size(dims)
			ft := pfutil.NewFFTW(dims)
			if n > 1 {
				c.NonTrivial("%v", dims)
			}
			for i := 0; i < n; i++ {
				if f := ft.Freq(i); !sameFreq(f, ref.Freq(dims, i)) {
					rt.Fatalf("dims %v: frequency of node %d is %v, want %v", dims, i, f, ref.Freq(dims, i))
				}
				p := pfutil.Pos(dims, i)
				if fmt.Sprint(p) != fmt.Sprint(ref.Pos(dims, i)) {
					rt.Fatalf("dims %v: position of node %d is %v, want %v", dims, i, p, ref.Pos(dims, i))
				}
				if k := pfutil.NodeIdx(dims, p); k != i {
					rt.Fatalf("dims %v: node %d is at %v, which is node %d", dims, i, p, k)
				}
				q := make([]int, len(dims))
				for d := range q {
					q[d] = -p[d]
				}
				if k := ft.ConjugateNode(i); k != ref.Node(dims, q) {
					rt.Fatalf("dims %v: conjugate of node %d is %d, want %d", dims, i, k, ref.Node(dims, q))
				}
			}
			// the spectrum of a real field
			data := gen.Cmplx(gen.Field(rt, "data", n, -1, 1))
			ft.FFT(data)
			for i := range data {
				if d := cmplx.Abs(data[i] - cmplx.Conj(data[ft.ConjugateNode(i)])); d > 1e-10*float64(n) {
					rt.Fatalf("dims %v: modes %d and %d are not conjugate (%g)", dims, i, ft.ConjugateNode(i), d)
				}
			}
		})
}

// The iterators over the modes of a real field visit what they promise, once
func TestC07_Iterators(t *testing.T) {
	pbt.Check(t, "all modes of random domains; non-trivial: more than one node", 1400, 35000,
		func(rt *rapid.T, c *pbt.Case) {
			dims := fftDims(rt)
			n := ref.Size(dims)
			ft := pfutil.NewFFTW(dims)
			conj := func(i int) int {
				p := ref.Pos(dims, i)
				for d := range p {
					p[d] = -p[d]
				}
				return ref.Node(dims, p)
			}
			if n > 1 {
				c.NonTrivial("%v", dims)
			}
			seen := make([]int, n)
			it := pf.UniqueFreqIterator{Freq: ft.Freq, End: n}
			steps := 0
			for i := it.Next(); i != -1; i = it.Next() {
				if i < 0 || i >= n {
					rt.Fatalf("dims %v: unique frequency iterator returned %d", dims, i)
				}
				seen[i]++
				if steps++; steps > n {
					rt.Fatalf("dims %v: unique frequency iterator does not end", dims)
				}
			}
			for i := range seen {
				want := 1
				if got := seen[i] + seen[conj(i)]; conj(i) != i && got != want {
					rt.Fatalf("dims %v: the pair %d, %d was visited %d times", dims, i, conj(i), got)
				} else if conj(i) == i && seen[i] != 1 {
					rt.Fatalf("dims %v: the real mode %d was visited %d times", dims, i, seen[i])
				}
			}
			seen = make([]int, n)
			rit := pf.RealAmplitudeIterator{Freq: ft.Freq, End: n}
			steps = 0
			for i := rit.Next(); i != -1; i = rit.Next() {
				seen[i]++
				if steps++; steps > n {
					rt.Fatalf("dims %v: real amplitude iterator does not end", dims)
				}
			}
			for i := range seen {
				want := 0
				if conj(i) == i {
					want = 1
				}
				if seen[i] != want {
					rt.Fatalf("dims %v: real amplitude iterator visited mode %d %d times, want %d", dims, i, seen[i], want)
				}
			}
		})
}
