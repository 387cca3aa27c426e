// Package ref holds the independent reference implementations the checks
// compare gopf with. Nothing in here calls gopf.
package ref

import (
	"math"
	"math/cmplx"
)

// Layout: 2D node = x*ny + y, 3D node = z*nx*ny + x*ny + y, for dims = [nx, ny(, nz)]

// Size returns the number of nodes
func Size(dims []int) int {
	n := 1
	for _, d := range dims {
		n *= d
	}
	return n
}

// Pos returns the coordinates of a node
func Pos(dims []int, node int) []int {
	nx, ny := dims[0], dims[1]
	p := []int{(node / ny) % nx, node % ny}
	if len(dims) == 3 {
		p = append(p, node/(nx*ny))
	}
	return p
}

// Node returns the node of the (periodically wrapped) coordinates
func Node(dims []int, p []int) int {
	q := make([]int, len(p))
	for i := range p {
		q[i] = ((p[i] % dims[i]) + dims[i]) % dims[i]
	}
	n := q[0]*dims[1] + q[1]
	if len(dims) == 3 {
		n += q[2] * dims[0] * dims[1]
	}
	return n
}

// Freq returns the frequency in cycles per node, in the interval (-0.5, 0.5]
func Freq(dims []int, node int) []float64 {
	p := Pos(dims, node)
	f := make([]float64, len(dims))
	for i := range f {
		k := p[i]
		if 2*k > dims[i] {
			k -= dims[i]
		}
		f[i] = float64(k) / float64(dims[i])
	}
	return f
}

// K2 returns (2 pi |f|)^2
func K2(dims []int, node int) float64 {
	s := 0.0
	for _, v := range Freq(dims, node) {
		s += 4.0 * math.Pi * math.Pi * v * v
	}
	return s
}

func dft1(in []complex128, sign float64) []complex128 {
	n := len(in)
	out := make([]complex128, n)
	tw := make([]complex128, n)
	for k := range tw {
		s, c := math.Sincos(sign * 2.0 * math.Pi * float64(k) / float64(n))
		tw[k] = complex(c, s)
	}
	for k := range out {
		for j := range in {
			out[k] += in[j] * tw[(k*j)%n]
		}
	}
	return out
}

func dft(dims []int, in []complex128, sign float64) []complex128 {
	out := append([]complex128{}, in...)
	for ax := range dims {
		done := make([]bool, len(out))
		for i := range out {
			if done[i] {
				continue
			}
			p := Pos(dims, i)
			line := make([]complex128, dims[ax])
			idx := make([]int, dims[ax])
			for k := range line {
				p[ax] = k
				idx[k] = Node(dims, p)
				line[k] = out[idx[k]]
				done[idx[k]] = true
			}
			res := dft1(line, sign)
			for k := range line {
				out[idx[k]] = res[k]
			}
		}
	}
	return out
}

// DFT returns sum_r in(r) exp(-2 pi i f.r)
func DFT(dims []int, in []complex128) []complex128 { return dft(dims, in, -1.0) }

// InvDFT is the inverse of DFT
func InvDFT(dims []int, in []complex128) []complex128 {
	out := dft(dims, in, 1.0)
	n := complex(float64(len(in)), 0.0)
	for i := range out {
		out[i] /= n
	}
	return out
}

// DirectDFT evaluates the definition of the transform, mode by mode
func DirectDFT(dims []int, in []complex128, node int) complex128 {
	f := Pos(dims, node)
	sum := complex(0.0, 0.0)
	for r := range in {
		p := Pos(dims, r)
		ph := 0.0
		for d := range dims {
			ph += float64((p[d]*f[d])%dims[d]) / float64(dims[d])
		}
		sum += in[r] * cmplx.Exp(complex(0.0, -2.0*math.Pi*ph))
	}
	return sum
}

// Lap applies (-(2 pi f)^2)^n to a transformed field
func Lap(dims []int, in []complex128, n int) []complex128 {
	out := make([]complex128, len(in))
	for i := range in {
		s := 1.0
		for k := 0; k < n; k++ {
			s *= -K2(dims, i)
		}
		out[i] = in[i] * complex(s, 0.0)
	}
	return out
}
