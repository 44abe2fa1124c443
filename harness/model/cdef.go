package model

import (
	"fmt"

	v "github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

// CdefFrame is what the filter works on.
type CdefFrame struct {
	MiRows, MiCols int
	W, H           int
	Depth          int
	Planes         int
	SubX, SubY     int
	Cur            v.Picture
	Skip           [][]int
	Idx            [][]int // per 64x64
	Damping        int
	Pri, Sec       [2][8]int // luma, chroma
}

// cdefLine gives, for a direction, the number of the line through a pixel of an 8x8 block.
func cdefLine(d, i, j int) int {
	switch d {
	case 0:
		return i + j
	case 1:
		return i + j/2
	case 2:
		return i
	case 3:
		return i - j/2 + 3
	case 4:
		return i - j + 7
	case 5:
		return j - i/2 + 3
	case 6:
		return j
	}
	return j + i/2
}

// direction is the one along whose lines the block varies least, and how much
// better it is than the perpendicular.
func (f *CdefFrame) direction(y0, x0 int) (int, int) {
	var cost [8]int
	for d := range cost {
		var sum, n [16]int
		for i := 0; i < 8; i++ {
			for j := 0; j < 8; j++ {
				l := cdefLine(d, i, j)
				sum[l] += f.Cur[0][y0+i][x0+j]>>uint(f.Depth-8) - 128
				n[l]++
			}
		}
		for l := range sum {
			if n[l] > 0 {
				cost[d] += sum[l] * sum[l] * (840 / n[l])
			}
		}
	}
	best := 0
	for d := range cost {
		if cost[d] > cost[best] {
			best = d
		}
	}
	return best, (cost[best] - cost[(best+4)%8]) >> 10
}

// cdefStep is where the k-th tap of a direction lies: dy, dx.
func cdefStep(dir, k int) (int, int) {
	dir &= 7
	near := [8][2]int{{-1, 1}, {0, 1}, {0, 1}, {0, 1}, {1, 1}, {1, 0}, {1, 0}, {1, 0}}
	far := [8][2]int{{-2, 2}, {-1, 2}, {0, 2}, {1, 2}, {2, 2}, {2, 1}, {2, 0}, {2, -1}}
	if k == 0 {
		return near[dir][0], near[dir][1]
	}
	return far[dir][0], far[dir][1]
}

func cdefLimit(diff, strength, damping int) int {
	if strength == 0 {
		return 0
	}
	sh := damping - log2(strength)
	if sh < 0 {
		sh = 0
	}
	m := strength - iabs(diff)>>uint(sh)
	if m < 0 {
		m = 0
	}
	if m > iabs(diff) {
		m = iabs(diff)
	}
	if diff < 0 {
		return -m
	}
	return m
}

func (f *CdefFrame) filter(out v.Picture, plane, r, c, pri, sec, damping, dir int, ev map[string]int64) {
	sx, sy := uint(0), uint(0)
	if plane > 0 {
		sx, sy = uint(f.SubX), uint(f.SubY)
	}
	H, W := f.MiRows*4>>sy, f.MiCols*4>>sx
	tap := [2]int{4, 2}
	if pri>>uint(f.Depth-8)&1 == 1 {
		tap = [2]int{3, 3}
	}
	for y := r * 4 >> sy; y < (r*4>>sy)+(8>>sy); y++ {
		for x := c * 4 >> sx; x < (c*4>>sx)+(8>>sx); x++ {
			p := f.Cur[plane][y][x]
			lo, hi, sum := p, p, 0
			see := func(dir, k, sign, strength, weight int) {
				dy, dx := cdefStep(dir, k)
				yy, xx := y+sign*dy, x+sign*dx
				if yy < 0 || xx < 0 || yy >= H || xx >= W {
					ev["taps outside the frame"]++
					return
				}
				q := f.Cur[plane][yy][xx]
				sum += weight * cdefLimit(q-p, strength, damping)
				if q < lo {
					lo = q
				}
				if q > hi {
					hi = q
				}
			}
			for k := 0; k < 2; k++ {
				for _, sign := range []int{-1, 1} {
					see(dir, k, sign, pri, tap[k])
					see(dir+2, k, sign, sec, 2-k)
					see(dir-2, k, sign, sec, 2-k)
				}
			}
			q := sum + 8
			if sum < 0 {
				q--
			}
			q = p + q>>4
			if q < lo {
				q = lo
				ev["limited by the neighbourhood"]++
			}
			if q > hi {
				q = hi
				ev["limited by the neighbourhood"]++
			}
			if q != p {
				ev[fmt.Sprintf("samples changed in plane %d", plane)]++
			}
			out[plane][y][x] = q
		}
	}
}

// Run filters the frame.
func (f *CdefFrame) Run(ev map[string]int64) v.Picture {
	out := f.Cur.Copy()
	up := uint(f.Depth - 8)
	// chroma directions of 4:2:2 and 4:4:0
	uvDir := map[[2]int][8]int{
		{0, 0}: {0, 1, 2, 3, 4, 5, 6, 7}, {1, 1}: {0, 1, 2, 3, 4, 5, 6, 7},
		{1, 0}: {7, 0, 2, 4, 5, 6, 6, 6}, {0, 1}: {1, 2, 2, 2, 3, 4, 6, 0},
	}
	for r := 0; r < f.MiRows; r += 2 {
		for c := 0; c < f.MiCols; c += 2 {
			idx := f.Idx[r/16][c/16]
			if idx < 0 {
				ev["blocks without a filter index"]++
				continue
			}
			if f.Skip[r][c]+f.Skip[r+1][c]+f.Skip[r][c+1]+f.Skip[r+1][c+1] == 4 {
				ev["blocks skipped"]++
				continue
			}
			best, vr := f.direction(r*4, c*4)
			ev[fmt.Sprintf("direction %d", best)]++
			pri, sec := f.Pri[0][idx]<<up, f.Sec[0][idx]<<up
			dir := best
			if pri == 0 {
				dir = 0
			}
			adj := 0
			if vr > 0 {
				k := 0
				if vr>>6 > 0 {
					k = log2(vr >> 6)
					if k > 12 {
						k = 12
					}
				}
				adj = (pri*(4+k) + 8) >> 4
			}
			f.filter(out, 0, r, c, adj, sec, f.Damping+int(up), dir, ev)
			if f.Planes == 1 {
				continue
			}
			pri, sec = f.Pri[1][idx]<<up, f.Sec[1][idx]<<up
			dir = 0
			if pri != 0 {
				dir = uvDir[[2]int{f.SubX, f.SubY}][best]
			}
			f.filter(out, 1, r, c, pri, sec, f.Damping+int(up)-1, dir, ev)
			f.filter(out, 2, r, c, pri, sec, f.Damping+int(up)-1, dir, ev)
		}
	}
	return out
}
