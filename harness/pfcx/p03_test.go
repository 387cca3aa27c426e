package pfcx

import (
	"fmt"
	"math"
	"testing"

	"github.com/davidkleiven/gopf/pfc"
	"github.com/davidkleiven/gopf/pfutil"
	"gonum.org/v1/gonum/mat"
	"pgregory.net/rapid"
	"verifharness/gen"
	"verifharness/pbt"
	"verifharness/ref"
)

// The scaled coordinates of the corners are those that the cell maps to the corners of the box
func TestP03_Corners(t *testing.T) {
	pbt.Check(t, "random cells and domains in 2D and 3D; non-trivial: all", 20000, 200000, func(rt *rapid.T, c *pbt.Case) {
		dim := rapid.IntRange(2, 3).Draw(rt, "dim")
		dims := gen.DimsRange(rt, dim, 1, 50)
		cv := drawCell(rt, dim)
		keep := mat.DenseCopyOf(cv)
		got := pfc.CornersScaledCrd(pfc.Cell{CellVec: cv}, dims)
		r, n := got.Dims()
		if r != dim || n != 1<<uint(dim) {
			rt.Fatalf("%d x %d corner matrix", r, n)
		}
		if !mat.Equal(keep, cv) {
			rt.Fatalf("the cell was changed")
		}
		seen := map[string]bool{}
		for k := 0; k < n; k++ {
			key := ""
			for i := 0; i < dim; i++ {
				x := 0.0
				for j := 0; j < dim; j++ {
					x += keep.At(i, j) * got.At(j, k)
				}
				switch {
				case math.Abs(x) < 1e-6:
					key += "0"
				case math.Abs(x-float64(dims[i])) < 1e-6:
					key += "1"
				default:
					rt.Fatalf("cell %v domain %v: corner %d has component %g", keep, dims, k, x)
				}
			}
			seen[key] = true
		}
		if len(seen) != n {
			rt.Fatalf("cell %v domain %v: only the corners %v", keep, dims, seen)
		}
		c.NonTrivial("%v %v", dims, keep)
		c.LabelIf(dim == 3, "3D")
	})
}

func TestP03_Kernels(t *testing.T) {
	pbt.Check(t, "random widths and distances; non-trivial: distance inside the cutoff", 20000, 200000, func(rt *rapid.T, c *pbt.Case) {
		w := gen.F(rt, "w", 0.1, 10)
		x := w * gen.F(rt, "x", -5, 5)
		g := pfc.GaussianKernel{Width: w}
		if v, want := g.Eval(x), math.Exp(-0.5*x*x/(w*w)); !(math.Abs(v-want) <= 1e-12) {
			rt.Fatalf("width %g at %g: %g want %g", w, x, v, want)
		}
		if v := g.Eval(g.Cutoff()); !(v < 0.05) || !(g.Cutoff() > 0) {
			rt.Fatalf("width %g: %g at the cutoff", w, v)
		}
		k := pfc.CircleKernel{Radius: w}
		v := k.Eval(math.Abs(x))
		if (math.Abs(x) <= w && v != 1) || (math.Abs(x) >= w+1 && v != 0) || (v != 0 && v != 1) {
			rt.Fatalf("circle of radius %g at %g: %g", w, x, v)
		}
		if k.Cutoff() != w || !(math.Abs(k.Area()-math.Pi*w*w) <= 1e-10*w*w) {
			rt.Fatalf("circle of radius %g: cutoff %g area %g", w, k.Cutoff(), k.Area())
		}
		if math.Abs(x) < w {
			c.NonTrivial("%g %g", w, x)
		}
	})
}

// Every atom of the crystal is a copy of the kernel
func TestP03_Crystal(t *testing.T) {
	pbt.Check(t, "rectangular and primitive FCC, BCC and triangular cells with a basis, in 2D and 3D, one kernel; non-trivial: an atom whose surrounding does not cross the border of the domain at zero", 6000, 60000, func(rt *rapid.T, c *pbt.Case) {
		dim := 2
		if rapid.IntRange(0, 3).Draw(rt, "3d") == 0 {
			dim = 3
		}
		// The kernel reaches less than 3 nodes
		var kern pfc.AtomicKernel
		reach := 0.0
		if rapid.Bool().Draw(rt, "circle") {
			reach = rapid.SampledFrom([]float64{1, 2, 0.5, 1.5}).Draw(rt, "radius")
			kern = &pfc.CircleKernel{Radius: reach}
		} else {
			w := gen.F(rt, "w", 0.3, 0.9)
			kern = &pfc.GaussianKernel{Width: w}
			reach = 3 * w
		}
		side := make([]float64, dim)
		cells := make([]int, dim)
		dims := make([]int, dim)
		vol := 1.0
		for i := range side {
			side[i] = float64(rapid.IntRange(12, 30).Draw(rt, "side")) / 2
			if dim == 3 {
				side[i] = float64(rapid.IntRange(6, 9).Draw(rt, "side3"))
			} else if i == 0 && rapid.IntRange(0, 5).Draw(rt, "longcell") == 5 {
				side[i] = float64(rapid.IntRange(30, 80).Draw(rt, "longcellside")) / 2
			}
			cells[i] = rapid.IntRange(1, 3).Draw(rt, "cells")
			dims[i] = int(math.Ceil(side[i]*float64(cells[i]))) + rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(rt, "more")
			vol *= side[i]
		}
		many := rapid.IntRange(0, 5).Draw(rt, "many")
		if many == 5 && dim == 2 {
			// Many cells along one axis
			i := rapid.IntRange(0, 1).Draw(rt, "axis")
			cells[i] = rapid.IntRange(4, 14).Draw(rt, "manycells")
			dims[i] = int(math.Ceil(side[i]*float64(cells[i]))) + rapid.IntRange(0, 2).Draw(rt, "manymore")
			c.Label("many cells")
		}
		cv := mat.NewDense(dim, dim, nil)
		for i := range side {
			cv.Set(i, i, side[i])
		}
		oblique := many != 5 && rapid.IntRange(0, 3).Draw(rt, "oblique") == 0
		if oblique {
			// primitive cells of lattices that fit into the domain
			for i := range side {
				side[i] = math.Ceil(side[0])
				dims[i] = int(side[i]) * cells[i]
			}
			cell := pfc.Triangular2D(side[0])
			if dim == 3 {
				cell = pfc.FCC(side[0])
				if rapid.Bool().Draw(rt, "bcc") {
					cell = pfc.BCC(side[0])
				}
			}
			cv = cell.CellVec
			vol = math.Abs(mat.Det(cv))
		}
		// One or two atoms, far enough from each other that they do not overlap
		two := rapid.Bool().Draw(rt, "two")
		nb := 1
		if two {
			for i := range side {
				two = two && side[i] > 4*reach+4
			}
			if two && !oblique {
				nb = 2
			}
		}
		if k := int(side[0] / (2*reach + 2)); !oblique && k > 2 && rapid.Bool().Draw(rt, "several") {
			nb = rapid.IntRange(3, min(k, 6)).Draw(rt, "natoms")
		}
		basis := mat.NewDense(dim, nb, nil)
		for i := 0; i < dim; i++ {
			b := float64(rapid.IntRange(0, 3).Draw(rt, "basis")) / 8
			if nb > 2 {
				b /= 4
			}
			basis.Set(i, 0, b)
			for k := 1; k < nb; k++ {
				if nb == 2 {
					basis.Set(i, k, b+0.5)
				} else if i == 0 {
					basis.Set(i, k, b+float64(k)/float64(nb))
				} else {
					basis.Set(i, k, float64(rapid.IntRange(0, 15).Draw(rt, "along"))/16)
				}
			}
		}
		grid := pfutil.NewGrid(append([]int{}, dims...))
		back := gen.F(rt, "background", -1, 0)
		for i := range grid.Data {
			grid.Data[i] = back
		}
		pfc.BuildCrystal(pfc.UnitCell{Cell: pfc.Cell{CellVec: cv}, Basis: basis}, kern, &grid)
		what := fmt.Sprintf("kernel %+v cell %v domain %v basis %v", kern, mat.Formatted(cv, mat.Squeeze()), dims, mat.Formatted(basis.T(), mat.Squeeze()))
		// expected atoms
		thr := math.Pow(vol, 1.0/3.0) / 2
		var atoms [][]float64
		idx := make([]int, dim)
		var loop func(d int)
		amb := false
		loop = func(d int) {
			if d == dim {
				org := make([]float64, dim)
				for i := range org {
					for j := range idx {
						org[i] += float64(idx[j]) * cv.At(i, j)
					}
					if math.Abs(org[i]+thr-float64(dims[i])) < 1e-6 {
						amb = true
					}
					if org[i] < -1e-9 || org[i]+thr > float64(dims[i]) {
						return
					}
				}
				for b := 0; b < nb; b++ {
					at := append([]float64{}, org...)
					for i := range at {
						for j := range idx {
							at[i] += basis.At(j, b) * cv.At(i, j)
						}
					}
					atoms = append(atoms, at)
				}
				return
			}
			lo, hi := 0, 0
			if oblique {
				lo = -9
				hi = 9
			} else {
				hi = int(float64(dims[d])/side[d]) + 1
			}
			for idx[d] = lo; idx[d] <= hi; idx[d]++ {
				loop(d + 1)
			}
			idx[d] = 0
		}
		loop(0)
		if amb {
			return
		}
		num := int(2 * reach)
		n := ref.Size(dims)
		want := make([]float64, n)
		state := make([]int, n) // 0 untouched, 1 known, 2 not judged
		for i := range want {
			want[i] = back
		}
		nt := false
		// Part of an atom below zero: the nodes have to be written, but it is not judged
		// whether they are the nodes below or above the point (KF-CRYSTAL)
		type point struct {
			atom, f, t int
			val        float64
			judged     bool
		}
		var points []point
		for ia, at := range atoms {
			low := false
			for i := range at {
				for k := 0; k < num; k++ {
					x := at[i] + float64(k) - reach + 0.5
					if math.Abs(x-math.Round(x)) < 1e-6 {
						return // the node is decided by rounding
					}
					low = low || x < 0
				}
			}
			off := make([]int, dim)
			for k := 0; k < int(math.Pow(float64(num), float64(dim))+0.5); k++ {
				q := k
				r := 0.0
				pos := make([]int, dim)
				for i := range off {
					off[i] = q % num
					q /= num
					d := float64(off[i]) - reach + 0.5
					r += d * d
					pos[i] = (int(math.Floor(at[i]+d)) + 10*dims[i]) % dims[i]
				}
				node := ref.Node(dims, pos)
				judged := true
				tpos := make([]int, dim)
				for i := range off {
					x := at[i] + float64(off[i]) - reach + 0.5
					judged = judged && (x < -1 || x > 0)
					tpos[i] = (int(x) + 10*dims[i]) % dims[i]
				}
				points = append(points, point{ia, node, ref.Node(dims, tpos), kern.Eval(math.Sqrt(r)), low && judged})
				if low {
					// KF-CRYSTAL: rounding towards zero moves the part below zero by one node
					for i := range pos {
						for _, s := range []int{0, 1} {
							p2 := append([]int{}, pos...)
							p2[i] = (p2[i] + s) % dims[i]
							for j := range pos {
								for _, s2 := range []int{0, 1} {
									p3 := append([]int{}, p2...)
									p3[j] = (pos[j] + s2) % dims[j]
									for l := range pos {
										for _, s3 := range []int{0, 1} {
											p4 := append([]int{}, p3...)
											p4[l] = (pos[l] + s3) % dims[l]
											state[ref.Node(dims, p4)] = 2
										}
									}
								}
							}
						}
					}
					continue
				}
				if state[node] == 1 {
					state[node] = 2 // two atoms overlap
				} else if state[node] == 0 {
					state[node] = 1
					want[node] = kern.Eval(math.Sqrt(r))
					nt = true
				}
			}
		}
		for i, s := range state {
			if s < 2 && !(math.Abs(grid.Data[i]-want[i]) <= 1e-9) {
				rt.Fatalf("%s: node %v has %g want %g", what, ref.Pos(dims, i), grid.Data[i], want[i])
			}
		}
		owner := make(map[int]int)
		for _, p := range points {
			for _, q := range []int{p.f, p.t} {
				if o, ok := owner[q]; ok && o != p.atom {
					owner[q] = -1
				} else {
					owner[q] = p.atom
				}
			}
		}
		for _, p := range points {
			if p.judged && owner[p.f] == p.atom && owner[p.t] == p.atom {
				if !(math.Abs(grid.Data[p.f]-p.val) <= 1e-9) && !(math.Abs(grid.Data[p.t]-p.val) <= 1e-9) {
					rt.Fatalf("%s: nodes %v and %v have %g and %g, one of them should have %g", what, ref.Pos(dims, p.f), ref.Pos(dims, p.t), grid.Data[p.f], grid.Data[p.t], p.val)
				}
				c.Label("part below zero")
			}
		}
		if nt {
			c.NonTrivial("%s", what)
		}
		c.LabelIf(dim == 3, "3D")
		c.LabelIf(oblique, "oblique cell")
		c.LabelIf(nb == 2, "two atoms per cell")
		c.LabelIf(nb > 2, "more than two atoms per cell")
		c.Note("%s", what)
	})
}

func TestP03_CrystalKnown(t *testing.T) {
	pbt.KnownFinding(t, "KF-CRYSTAL", func() string {
		grid := pfutil.NewGrid([]int{16, 16})
		cell := pfc.SC2D(8)
		pfc.BuildCrystal(pfc.UnitCell{Cell: cell, Basis: mat.NewDense(2, 1, nil)}, &pfc.GaussianKernel{Width: 0.667}, &grid)
		for i := 0; i < 8; i++ {
			for j := 0; j < 8; j++ {
				for s := 1; s < 4; s++ {
					if a, b := grid.Get([]int{i, j}), grid.Get([]int{i + 8*(s&1), j + 4*(s&2)}); math.Abs(a-b) > 1e-9 {
						return fmt.Sprintf("the crystal is not periodic: %g and %g", a, b)
					}
				}
			}
		}
		return ""
	})
}

// near returns true if the node is within one node of the position
func near(dims []int, pos []int, at [2]float64) bool {
	for i := range pos {
		d := float64(pos[i]) - at[i]
		d -= math.Round(d/float64(dims[i])) * float64(dims[i])
		if math.Abs(d) > 1+1e-6 {
			return false
		}
	}
	return true
}

func rotated(dims []int, pos []int, angle float64) [2]float64 {
	cx, cy := float64(dims[0]/2), float64(dims[1]/2)
	x, y := float64(pos[0])-cx, float64(pos[1])-cy
	s, c := math.Sincos(angle)
	return [2]float64{x*c - y*s + cx, y*c + x*s + cy}
}

func TestP03_TiltGB(t *testing.T) {
	pbt.Check(t, "random 2D domains and angles, every node with its own value; non-trivial: angle not zero", 10000, 100000, func(rt *rapid.T, c *pbt.Case) {
		dims := gen.DimsRange(rt, 2, 1, 12)
		angle := gen.F(rt, "angle", -7, 7)
		grid := pfutil.NewGrid(append([]int{}, dims...))
		for i := range grid.Data {
			grid.Data[i] = float64(i)
		}
		pfc.TiltGB(&grid, angle)
		for i, v := range grid.Data {
			pos := ref.Pos(dims, i)
			a := -angle / 2
			if pos[0] < dims[0]/2 {
				a = angle / 2
			}
			if v != math.Trunc(v) || v < 0 || int(v) >= len(grid.Data) {
				rt.Fatalf("dims %v angle %g: node %v has a value that was not there", dims, angle, pos)
			}
			if src := ref.Pos(dims, int(v)); !near(dims, src, rotated(dims, pos, a)) {
				rt.Fatalf("dims %v angle %g: node %v comes from %v, want about %v", dims, angle, pos, src, rotated(dims, pos, a))
			}
			if angle == 0 && int(v) != i {
				rt.Fatalf("dims %v: no tilt, but node %d comes from %g", dims, i, v)
			}
		}
		g3 := pfutil.NewGrid([]int{2, 2, 2})
		if pbt.Panics(func() { pfc.TiltGB(&g3, angle) }) == "" {
			rt.Fatalf("3D grids are not refused")
		}
		if angle != 0 {
			c.NonTrivial("%v %g", dims, angle)
		}
	})
}
