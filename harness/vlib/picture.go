package vlib

import "fmt"

// Picture is three planes of samples.
type Picture [3][][]int

// NewPicture makes planes of h rows and w columns each, drawn from one of a
// few kinds of content: noise, ramps, flat areas with edges, extremes.
func NewPicture(r *RNG, h, w, depth int) Picture {
	var p Picture
	for i := range p {
		p[i] = Texture(r, h, w, depth)
	}
	return p
}

func Texture(r *RNG, h, w, depth int) [][]int {
	top := 1<<uint(depth) - 1
	kind := r.N(6)
	amp := r.Pick(2, 6, 20, 60, top/4+1)
	base := r.N(top + 1)
	gx, gy := r.In(-12, 12), r.In(-12, 12)
	bs := r.Pick(3, 4, 5, 8, 11)
	cell := map[[2]int]int{}
	g := make([][]int, h)
	for y := range g {
		g[y] = make([]int, w)
		for x := range g[y] {
			v := 0
			switch kind {
			case 0:
				v = r.N(top + 1)
			case 1: // ramp in any direction with noise
				v = base + (gx*x+gy*y)*(1<<uint(depth-8))/2 + r.In(-2, 2)
			case 2: // patches
				k := [2]int{y / bs, x / bs}
				c, ok := cell[k]
				if !ok {
					c = base + r.In(-amp, amp)
					cell[k] = c
				}
				v = c + r.In(-1, 1)
			case 3:
				v = base + r.In(-amp, amp)
			case 4: // stripes
				v = base
				if ((gx*x+gy*y)/16)&1 == 1 {
					v += amp
				}
				v += r.In(-1, 1)
			case 5:
				v = r.Pick(0, top, base, base, base+1)
			}
			if v < 0 {
				v = 0
			}
			if v > top {
				v = top
			}
			g[y][x] = v
		}
	}
	return g
}

func (p Picture) Copy() Picture {
	var o Picture
	for i := range p {
		o[i] = CopyGrid(p[i])
	}
	return o
}

func CopyGrid(g [][]int) [][]int {
	o := make([][]int, len(g))
	for y := range g {
		o[y] = append([]int{}, g[y]...)
	}
	return o
}

// Filled makes planes of one value.
func Filled(h, w, x int) Picture {
	var p Picture
	for i := range p {
		p[i] = make([][]int, h)
		for y := range p[i] {
			p[i][y] = make([]int, w)
			for k := range p[i][y] {
				p[i][y][k] = x
			}
		}
	}
	return p
}

// DiffGrid names the first difference within the h x w area of got and want.
func DiffGrid(got, want [][]int, h, w int) string {
	if len(got) < h {
		return fmt.Sprintf("%d rows, want %d", len(got), h)
	}
	for y := 0; y < h; y++ {
		if len(got[y]) < w {
			return fmt.Sprintf("row %d has %d samples, want %d", y, len(got[y]), w)
		}
		for x := 0; x < w; x++ {
			if got[y][x] != want[y][x] {
				return fmt.Sprintf("sample row %d column %d is %d, want %d", y, x, got[y][x], want[y][x])
			}
		}
	}
	return ""
}
