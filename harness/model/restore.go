package model

import (
	"fmt"

	v "github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

const (
	LrNone   = 0
	LrWiener = 1
	LrSgr    = 2
)

// LrUnit is the filter of one restoration unit.
type LrUnit struct {
	Kind int
	Wie  [2][3]int // vertical, horizontal
	Set  int
	Xqd  [2]int
}

// LrFrame is what loop restoration works on.
type LrFrame struct {
	W, H       int // upscaled width
	Depth      int
	Planes     int
	SubX, SubY int
	LrType     [3]int
	Size       [3]int
	Units      [3][][]LrUnit
	Deblocked  v.Picture
	Cdef       v.Picture
}

// LrSets: radius and strength of the two passes of each set; strength as the divisor table of encoders has it
var LrSets = [16][4]int{
	{2, 140, 1, 3236}, {2, 112, 1, 2158}, {2, 93, 1, 1618}, {2, 80, 1, 1438},
	{2, 70, 1, 1295}, {2, 58, 1, 1177}, {2, 47, 1, 1079}, {2, 37, 1, 996},
	{2, 30, 1, 925}, {2, 25, 1, 863}, {0, 0, 1, 2589}, {0, 0, 1, 1618},
	{0, 0, 1, 1177}, {0, 0, 1, 925}, {2, 56, 0, 0}, {2, 22, 0, 0},
}

func lrRnd(x, n int) int {
	if n == 0 {
		return x
	}
	return (x + 1<<uint(n-1)) >> uint(n)
}

// Dims are the rows and columns of a plane and its subsampling.
func (f *LrFrame) Dims(p int) (h, w int, sy, sx uint) {
	if p > 0 {
		sy, sx = uint(f.SubY), uint(f.SubX)
	}
	return (f.H + 1<<sy - 1) >> sy, (f.W + 1<<sx - 1) >> sx, sy, sx
}

// lrWindow is a stripe as the filters see it: 64 luma rows (shifted up by 8) of
// the filtered frame with two rows of the unfiltered frame above and below,
// everything else repeating the nearest row or column.
type lrWindow struct {
	f        *LrFrame
	p        int
	top, end int // stripe in rows of the plane
	h, w     int
}

func (s *lrWindow) at(y, x int) int {
	x = clip(0, s.w-1, x)
	y = clip(0, s.h-1, y)
	switch {
	case y < s.top:
		if y < s.top-2 {
			y = s.top - 2
		}
		return s.f.Deblocked[s.p][y][x]
	case y >= s.end:
		if y > s.end+1 {
			y = s.end + 1
		}
		return s.f.Deblocked[s.p][y][x]
	}
	return s.f.Cdef[s.p][y][x]
}

func lrTaps(c [3]int) [7]int {
	return [7]int{c[0], c[1], c[2], 128 - 2*(c[0]+c[1]+c[2]), c[2], c[1], c[0]}
}

func (s *lrWindow) wiener(y, x int, u *LrUnit) int {
	d := s.f.Depth
	r0, r1 := 3, 11
	if d == 12 {
		r0, r1 = 5, 9
	}
	lo := -(1 << uint(d+7-r0-1))
	hi := 1<<uint(d+8-r0) - 1 + lo
	vf, hf := lrTaps(u.Wie[0]), lrTaps(u.Wie[1])
	sum := 0
	for i := -3; i <= 3; i++ {
		row := 0
		for j := -3; j <= 3; j++ {
			row += hf[j+3] * s.at(y+i, x+j)
		}
		sum += vf[i+3] * clip(lo, hi, lrRnd(row, r0))
	}
	return clip(0, 1<<uint(d)-1, lrRnd(sum, r1))
}

// box is the pair (a, b) of a square of radius r around a pixel.
func (s *lrWindow) box(y, x, r, strength int, memo map[[4]int][2]int) (int, int) {
	k := [4]int{y, x, r, strength}
	if m, ok := memo[k]; ok {
		return m[0], m[1]
	}
	n := (2*r + 1) * (2*r + 1)
	sq, sum := 0, 0
	for i := -r; i <= r; i++ {
		for j := -r; j <= r; j++ {
			c := s.at(y+i, x+j)
			sq += c * c
			sum += c
		}
	}
	d := s.f.Depth - 8
	p := lrRnd(sq, 2*d)*n - lrRnd(sum, d)*lrRnd(sum, d)
	if p < 0 {
		p = 0
	}
	z := lrRnd(p*strength, 20)
	a := 256
	if z == 0 {
		a = 1
	} else if z < 255 {
		a = (z*256 + z/2) / (z + 1)
	}
	b := lrRnd((256-a)*sum*((4096+n/2)/n), 12)
	memo[k] = [2]int{a, b}
	return a, b
}

func (s *lrWindow) guided(y, x int, u *LrUnit, memo map[[4]int][2]int) int {
	st := LrSets[u.Set]
	px := s.f.Cdef[s.p][y][x]
	up := px << 4
	var flt [2]int
	for pass := 0; pass < 2; pass++ {
		r := st[2*pass]
		if r == 0 {
			flt[pass] = up
			continue
		}
		a, b, shift := 0, 0, 5
		add := func(dy, dx, w int) {
			m, n := s.box(y+dy, x+dx, r, st[2*pass+1], memo)
			a += w * m
			b += w * n
		}
		odd := (y-s.top)&1 == 1
		switch {
		case pass == 0 && odd: // only every second row of boxes is used
			add(0, -1, 5)
			add(0, 0, 6)
			add(0, 1, 5)
			shift = 4
		case pass == 0:
			for _, dy := range []int{-1, 1} {
				add(dy, -1, 5)
				add(dy, 0, 6)
				add(dy, 1, 5)
			}
		default:
			for dy := -1; dy <= 1; dy++ {
				for dx := -1; dx <= 1; dx++ {
					w := 4
					if dy*dx != 0 {
						w = 3
					}
					add(dy, dx, w)
				}
			}
		}
		flt[pass] = lrRnd(a*px+b, 8+shift-4)
	}
	w0, w1 := u.Xqd[0], u.Xqd[1]
	out := w1*up + w0*flt[0] + (128-w0-w1)*flt[1]
	return clip(0, 1<<uint(s.f.Depth)-1, lrRnd(out, 11))
}

// LrCount is the number of units in a dimension.
func LrCount(size, n int) int {
	c := (n + size/2) / size
	if c < 1 {
		c = 1
	}
	return c
}

// Run restores the frame.
func (f *LrFrame) Run(ev map[string]int64) v.Picture {
	out := f.Cdef.Copy()
	for p := 0; p < f.Planes; p++ {
		if f.LrType[p] == LrNone {
			continue
		}
		h, w, sy, _ := f.Dims(p)
		memo := map[[4]int][2]int{}
		last := -1
		for y := 0; y < h; y++ {
			stripe := (y<<sy + 8) / 64
			if stripe != last {
				memo = map[[4]int][2]int{}
				last = stripe
				ev["stripes"]++
			}
			s := &lrWindow{f: f, p: p, h: h, w: w, top: (stripe*64 - 8) >> sy, end: (stripe*64 + 56) >> sy}
			for x := 0; x < w; x++ {
				ur := (y + 8>>sy) / f.Size[p]
				uc := x / f.Size[p]
				if ur >= len(f.Units[p]) {
					ur = len(f.Units[p]) - 1
				}
				if uc >= len(f.Units[p][ur]) {
					uc = len(f.Units[p][ur]) - 1
				}
				u := &f.Units[p][ur][uc]
				switch u.Kind {
				case LrWiener:
					out[p][y][x] = s.wiener(y, x, u)
					ev["samples through the Wiener filter"]++
				case LrSgr:
					out[p][y][x] = s.guided(y, x, u, memo)
					ev[fmt.Sprintf("samples through the guided filter, set %d", u.Set)]++
				default:
					ev["samples left alone"]++
				}
			}
		}
	}
	return out
}
