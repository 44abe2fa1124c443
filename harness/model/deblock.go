package model

import (
	"github.com/m4tthewde/gov1/internal/shared"
	v "github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

// LfBlk is a coded block.
type LfBlk struct {
	X, Y, W, H int // luma samples
	Size       int
	Skip       int
	Ref        int
	Mode       int
	Seg        int
	Delta      [4]int
}

// LfTx is a transform block of a plane.
type LfTx struct {
	Id, Size int
}

// LfFrame is what deblocking works on.
type LfFrame struct {
	W, H           int
	MiRows, MiCols int
	Depth          int
	Planes         int
	SubX, SubY     uint
	Cur            v.Picture
	At             [][]*LfBlk   // per 4x4 of luma
	Tx             [3][][]*LfTx // per 4x4 of the plane
	Level          [4]int
	Sharp          int
	Multi          bool
	Deltas         bool
	RefDelta       [8]int
	ModeDelta      [2]int
	Seg            bool
	SegOn          [8][8]int
	SegVal         [8][8]int
}

// Sub is the subsampling of a plane.
func (f *LfFrame) Sub(p int) (uint, uint) {
	if p == 0 {
		return 0, 0
	}
	return f.SubX, f.SubY
}

func (f *LfFrame) strength(b *LfBlk, p, pass int) int {
	i := pass
	if p > 0 {
		i = p + 1
	}
	d := b.Delta[0]
	if f.Multi {
		d = b.Delta[i]
	}
	l := clip(0, 63, f.Level[i]+d)
	if f.Seg && f.SegOn[b.Seg][1+i] == 1 {
		l = clip(0, 63, l+f.SegVal[b.Seg][1+i])
	}
	if f.Deltas {
		n := uint(l / 32)
		l += f.RefDelta[b.Ref] * (1 << n)
		if b.Ref > 0 {
			k := 1
			if b.Mode == shared.GLOBALMV || b.Mode == shared.GLOBAL_GLOBALMV {
				k = 0
			}
			l += f.ModeDelta[k] * (1 << n)
		}
		l = clip(0, 63, l)
	}
	return l
}

// edge filters one line of samples across an edge: get(i) and set(i) address
// sample i of the q side for i >= 0, sample -1-i of the p side below.
func (f *LfFrame) edge(get func(int) int, set func(int, int), size, level, plane int, ev map[string]int64) {
	up := uint(f.Depth - 8)
	sh := uint(0)
	if f.Sharp > 4 {
		sh = 2
	} else if f.Sharp > 0 {
		sh = 1
	}
	lim := level >> sh
	if f.Sharp > 0 && lim > 9-f.Sharp {
		lim = 9 - f.Sharp
	}
	if lim < 1 {
		lim = 1
	}
	blim := 2*(level+2) + lim
	thr := level >> 4
	d := func(i, j int) int { return iabs(get(i) - get(j)) }
	// how many samples of each side have to be smooth
	reach := 4
	switch {
	case size == 4:
		reach = 2
	case plane > 0:
		reach = 3
	}
	for i := 0; i < reach-1; i++ {
		if d(i+1, i) > lim<<up || d(-2-i, -1-i) > lim<<up {
			ev["edges too rough"]++
			return
		}
	}
	if d(0, -1)*2+d(1, -2)/2 > blim<<up {
		ev["edges too strong"]++
		return
	}
	flat := func(from, to int) bool {
		for i := from; i <= to; i++ {
			if d(i, 0) > 1<<up || d(-1-i, -1) > 1<<up {
				return false
			}
		}
		return true
	}
	smooth := func(n, shift int, kernel []int) {
		var out []int
		for i := -n; i < n; i++ {
			s := 1 << uint(shift-1)
			for k, w := range kernel {
				s += w * get(clip(-n-1, n, i+k-len(kernel)/2))
			}
			out = append(out, s>>uint(shift))
		}
		for i := -n; i < n; i++ {
			set(i, out[i+n])
		}
	}
	if size > 4 && flat(1, reach-1) {
		switch {
		case plane > 0:
			smooth(2, 3, []int{1, 2, 2, 2, 1})
			ev["lines through the 6 tap filter"]++
		case size >= 16 && flat(4, 6):
			smooth(6, 4, []int{1, 1, 1, 1, 1, 2, 2, 2, 1, 1, 1, 1, 1})
			ev["lines through the 14 tap filter"]++
		default:
			smooth(3, 3, []int{1, 1, 1, 2, 1, 1, 1})
			ev["lines through the 8 tap filter"]++
		}
		return
	}
	// narrow filter on signed samples
	half := 128 << up
	sat := func(x int) int { return clip(-half, half-1, x) }
	p1, p0, q0, q1 := get(-2)-half, get(-1)-half, get(0)-half, get(1)-half
	hev := iabs(p1-p0) > thr<<up || iabs(q1-q0) > thr<<up
	a := 3 * (q0 - p0)
	if hev {
		a += sat(p1 - q1)
	}
	a = sat(a)
	f1, f2 := sat(a+4)>>3, sat(a+3)>>3
	set(0, sat(q0-f1)+half)
	set(-1, sat(p0+f2)+half)
	if !hev {
		k := (f1 + 1) >> 1
		set(1, sat(q1-k)+half)
		set(-2, sat(p1+k)+half)
		ev["lines through the narrow filter"]++
	} else {
		ev["lines with high edge variance"]++
	}
}

// Run deblocks the frame.
func (f *LfFrame) Run(ev map[string]int64) v.Picture {
	out := f.Cur.Copy()
	for p := 0; p < f.Planes; p++ {
		if p > 0 && f.Level[p+1] == 0 {
			continue
		}
		sx, sy := f.Sub(p)
		for pass := 0; pass < 2; pass++ {
			for y := 0; y<<sy < f.H; y += 4 {
				for x := 0; x<<sx < f.W; x += 4 {
					dx, dy := 1, 0
					if pass == 1 {
						dx, dy = 0, 1
					}
					if x*dx+y*dy == 0 {
						continue
					}
					cur, prev := f.Tx[p][y/4][x/4], f.Tx[p][y/4-dy][x/4-dx]
					if cur == prev {
						continue
					}
					// chroma takes the modes of the last block it covers
					at := func(x, y int) *LfBlk { return f.At[(y<<sy)/4|int(sy)][(x<<sx)/4|int(sx)] }
					b, a := at(x, y), at(x-4*dx, y-4*dy)
					if a == b && b.Skip == 1 && b.Ref > 0 {
						ev["inner edges of skipped blocks"]++
						continue
					}
					dim := TxW
					if pass == 1 {
						dim = TxH
					}
					size := 1 << uint(dim[cur.Size])
					if n := 1 << uint(dim[prev.Size]); n < size {
						size = n
					}
					if size > 16 {
						size = 16
					}
					level := f.strength(b, p, pass)
					if level == 0 {
						level = f.strength(a, p, pass)
						if level > 0 {
							ev["edges with the level of the block before"]++
						}
					}
					if level == 0 {
						ev["edges without level"]++
						continue
					}
					for k := 0; k < 4; k++ {
						yy, xx := y+k*dx, x+k*dy
						get := func(i int) int { return out[p][yy+i*dy][xx+i*dx] }
						set := func(i, s int) { out[p][yy+i*dy][xx+i*dx] = s }
						f.edge(get, set, size, level, p, ev)
					}
				}
			}
		}
	}
	return out
}
