package model

// Intra prediction (section 7.11.2 of the AV1 specification), written from the
// definition of each predictor over two edges that are addressed with negative
// indices.

// Edge is a line of neighbouring samples, addressed from -16 up.
type Edge [16 + 288]int

func (e *Edge) at(i int) int     { return e[i+16] }
func (e *Edge) set(i int, v int) { e[i+16] = v }

// IntraReq is one block to be predicted.
type IntraReq struct {
	Plane, X, Y, W, H, Depth int
	MaxX, MaxY               int // last sample of the plane
	Left, Above              bool
	AboveRight, BelowLeft    bool
	Mode, Delta              int
	Filter                   int // recursive filter mode, -1 for none
	EdgeFilter               bool
	Smooth                   bool // a neighbour is smooth
}

const (
	DC = iota
	VPred
	HPred
	D45
	D135
	D113
	D157
	D203
	D67
	Smooth
	SmoothV
	SmoothH
	Paeth
	CFL
)

var angleOf = map[int]int{VPred: 90, HPred: 180, D45: 45, D135: 135, D113: 113, D157: 157, D203: 203, D67: 67}

// derivative is 64 / tan(angle), as tabulated by the specification.
var derivative = map[int]int{
	3: 1023, 6: 547, 9: 372, 14: 273, 17: 215, 20: 178, 23: 151, 26: 132, 29: 116, 32: 102, 36: 90, 39: 80, 42: 71,
	45: 64, 48: 57, 51: 51, 54: 45, 58: 40, 61: 35, 64: 31, 67: 27, 70: 23, 73: 19, 76: 15, 81: 11, 84: 7, 87: 3,
}

var smoothWeights = map[int][]int{
	4:  {255, 149, 85, 64},
	8:  {255, 197, 146, 105, 73, 50, 37, 32},
	16: {255, 225, 196, 170, 145, 123, 102, 84, 68, 54, 43, 33, 26, 20, 17, 16},
	32: {255, 240, 225, 210, 196, 182, 169, 157, 145, 133, 122, 111, 101, 92, 83, 74, 66, 59, 52, 45, 39, 34, 29, 25, 21, 17, 14, 12, 10, 9, 8, 8},
	64: {255, 248, 240, 233, 225, 218, 210, 203, 196, 189, 182, 176, 169, 163, 156, 150, 144, 138, 133, 127, 121, 116, 111, 106, 101, 96, 91, 86, 82, 77, 73, 69,
		65, 61, 57, 54, 50, 47, 44, 41, 38, 35, 32, 29, 27, 25, 22, 20, 18, 16, 15, 13, 12, 10, 9, 8, 7, 6, 6, 5, 5, 4, 4, 4},
}

// taps of the recursive filters: mode, output sample (two rows of four), input
// (corner, four above, two left)
var filterTaps = [5][8][7]int{
	{{-6, 10, 0, 0, 0, 12, 0}, {-5, 2, 10, 0, 0, 9, 0}, {-3, 1, 1, 10, 0, 7, 0}, {-3, 1, 1, 2, 10, 5, 0},
		{-4, 6, 0, 0, 0, 2, 12}, {-3, 2, 6, 0, 0, 2, 9}, {-3, 2, 2, 6, 0, 2, 7}, {-3, 1, 2, 2, 6, 3, 5}},
	{{-10, 16, 0, 0, 0, 10, 0}, {-6, 0, 16, 0, 0, 6, 0}, {-4, 0, 0, 16, 0, 4, 0}, {-2, 0, 0, 0, 16, 2, 0},
		{-10, 16, 0, 0, 0, 0, 10}, {-6, 0, 16, 0, 0, 0, 6}, {-4, 0, 0, 16, 0, 0, 4}, {-2, 0, 0, 0, 16, 0, 2}},
	{{-8, 8, 0, 0, 0, 16, 0}, {-8, 0, 8, 0, 0, 16, 0}, {-8, 0, 0, 8, 0, 16, 0}, {-8, 0, 0, 0, 8, 16, 0},
		{-4, 4, 0, 0, 0, 0, 16}, {-4, 0, 4, 0, 0, 0, 16}, {-4, 0, 0, 4, 0, 0, 16}, {-4, 0, 0, 0, 4, 0, 16}},
	{{-2, 8, 0, 0, 0, 10, 0}, {-1, 3, 8, 0, 0, 6, 0}, {-1, 2, 3, 8, 0, 4, 0}, {0, 1, 2, 3, 8, 2, 0},
		{-1, 4, 0, 0, 0, 3, 10}, {-1, 3, 4, 0, 0, 4, 6}, {-1, 2, 3, 4, 0, 4, 4}, {-1, 2, 2, 3, 4, 3, 3}},
	{{-12, 14, 0, 0, 0, 14, 0}, {-10, 0, 14, 0, 0, 12, 0}, {-9, 0, 0, 14, 0, 11, 0}, {-8, 0, 0, 0, 14, 10, 0},
		{-10, 12, 0, 0, 0, 0, 14}, {-9, 1, 12, 0, 0, 0, 12}, {-8, 0, 0, 12, 0, 1, 11}, {-7, 0, 0, 1, 12, 1, 9}},
}

func iabs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

func iclip(lo, hi, x int) int { return imax(lo, imin(hi, x)) }

// round2 divides by 2^n, halves up; signed2 rounds halves away from zero.
func round2(x int, n uint) int {
	if n == 0 {
		return x
	}
	return (x + 1<<(n-1)) >> n
}

func signed2(x int, n uint) int {
	if x < 0 {
		return -round2(-x, n)
	}
	return round2(x, n)
}

// strength of the edge filter.
func edgeStrength(w, h, d int, smooth bool) int {
	d = iabs(d)
	type step struct{ d, s int }
	rule := func(steps ...step) int {
		s := 0
		for _, p := range steps {
			if d >= p.d {
				s = p.s
			}
		}
		return s
	}
	n := w + h
	if smooth {
		switch {
		case n <= 8:
			return rule(step{40, 1}, step{64, 2})
		case n <= 16:
			return rule(step{20, 1}, step{48, 2})
		case n <= 24:
			return rule(step{4, 3})
		}
		return 3
	}
	switch {
	case n <= 8:
		return rule(step{56, 1})
	case n <= 16:
		return rule(step{40, 1})
	case n <= 24:
		return rule(step{8, 1}, step{16, 2}, step{32, 3})
	case n <= 32:
		return rule(step{0, 1}, step{4, 2}, step{32, 3})
	}
	return 3
}

func useUpsample(w, h, d int, smooth bool) bool {
	d = iabs(d)
	if d == 0 || d >= 40 {
		return false
	}
	if smooth {
		return w+h <= 8
	}
	return w+h <= 16
}

// filter smooths n samples from index -1 on; the first one stays.
func (e *Edge) filter(n, strength int) {
	if strength == 0 {
		return
	}
	k := [][]int{{0, 4, 8, 4, 0}, {0, 5, 6, 5, 0}, {2, 4, 4, 4, 2}}[strength-1]
	in := make([]int, n)
	for i := range in {
		in[i] = e.at(i - 1)
	}
	for i := 1; i < n; i++ {
		s := 8
		for j, c := range k {
			s += c * in[iclip(0, n-1, i+j-2)]
		}
		e.set(i-1, s>>4)
	}
}

// upsample doubles the resolution of n samples from index 0 on.
func (e *Edge) upsample(n, top int) {
	old := *e
	in := func(i int) int { return old.at(iclip(-1, n-1, i)) }
	e.set(-2, in(-1))
	for i := 0; i < n; i++ {
		v := 9*(in(i-1)+in(i)) - in(i-2) - in(i+1)
		e.set(2*i-1, iclip(0, top, round2(v, 4)))
		e.set(2*i, in(i))
	}
}

// Predict gives the predicted samples of the block; cur is its plane.
func (q IntraReq) Predict(cur [][]int) [][]int {
	var above, left Edge
	mid := 1 << uint(q.Depth-1)
	top := 2*mid - 1
	n := q.W + q.H
	for i := 0; i < n; i++ {
		switch {
		case q.Above:
			last := q.X + q.W - 1
			if q.AboveRight {
				last += q.W
			}
			above.set(i, cur[q.Y-1][imin(imin(last, q.MaxX), q.X+i)])
		case q.Left:
			above.set(i, cur[q.Y][q.X-1])
		default:
			above.set(i, mid-1)
		}
		switch {
		case q.Left:
			last := q.Y + q.H - 1
			if q.BelowLeft {
				last += q.H
			}
			left.set(i, cur[imin(imin(last, q.MaxY), q.Y+i)][q.X-1])
		case q.Above:
			left.set(i, cur[q.Y-1][q.X])
		default:
			left.set(i, mid+1)
		}
	}
	corner := mid
	switch {
	case q.Above && q.Left:
		corner = cur[q.Y-1][q.X-1]
	case q.Above:
		corner = cur[q.Y-1][q.X]
	case q.Left:
		corner = cur[q.Y][q.X-1]
	}
	above.set(-1, corner)
	left.set(-1, corner)

	out := make([][]int, q.H)
	for i := range out {
		out[i] = make([]int, q.W)
	}
	each := func(f func(i, j int) int) [][]int {
		for i := range out {
			for j := range out[i] {
				out[i][j] = f(i, j)
			}
		}
		return out
	}
	if q.Filter >= 0 {
		at := func(i, j int) int {
			if i < 0 {
				return above.at(j)
			}
			if j < 0 {
				return left.at(i)
			}
			return out[i][j]
		}
		for y := 0; y < q.H; y += 2 {
			for x := 0; x < q.W; x += 4 {
				p := [7]int{at(y-1, x-1), at(y-1, x), at(y-1, x+1), at(y-1, x+2), at(y-1, x+3), at(y, x-1), at(y+1, x-1)}
				for k := 0; k < 8; k++ {
					s := 0
					for i, c := range filterTaps[q.Filter][k] {
						s += c * p[i]
					}
					out[y+k/4][x+k%4] = iclip(0, top, signed2(s, 4))
				}
			}
		}
		return out
	}
	if a, ok := angleOf[q.Mode]; ok {
		return q.directional(a+3*q.Delta, &above, &left, top, each)
	}
	wx, wy := smoothWeights[q.W], smoothWeights[q.H]
	switch q.Mode {
	case Smooth:
		return each(func(i, j int) int {
			return round2(wy[i]*above.at(j)+(256-wy[i])*left.at(q.H-1)+wx[j]*left.at(i)+(256-wx[j])*above.at(q.W-1), 9)
		})
	case SmoothV:
		return each(func(i, j int) int { return round2(wy[i]*above.at(j)+(256-wy[i])*left.at(q.H-1), 8) })
	case SmoothH:
		return each(func(i, j int) int { return round2(wx[j]*left.at(i)+(256-wx[j])*above.at(q.W-1), 8) })
	case DC:
		sum, cnt := 0, 0
		if q.Above {
			for j := 0; j < q.W; j++ {
				sum += above.at(j)
			}
			cnt += q.W
		}
		if q.Left {
			for i := 0; i < q.H; i++ {
				sum += left.at(i)
			}
			cnt += q.H
		}
		v := mid
		if cnt > 0 {
			v = (sum + cnt/2) / cnt
		}
		return each(func(i, j int) int { return v })
	}
	return each(func(i, j int) int { // Paeth
		a, l := above.at(j), left.at(i)
		base := a + l - corner
		dl, da, dc := iabs(base-l), iabs(base-a), iabs(base-corner)
		if dl <= da && dl <= dc {
			return l
		}
		if da <= dc {
			return a
		}
		return corner
	})
}

func (q IntraReq) directional(angle int, above, left *Edge, top int, each func(func(i, j int) int) [][]int) [][]int {
	if angle == 90 {
		return each(func(i, j int) int { return above.at(j) })
	}
	if angle == 180 {
		return each(func(i, j int) int { return left.at(i) })
	}
	ua, ul := uint(0), uint(0)
	if q.EdgeFilter {
		if angle > 90 && angle < 180 && q.W+q.H >= 24 {
			c := round2(5*left.at(0)+6*above.at(-1)+5*above.at(0), 4)
			above.set(-1, c)
			left.set(-1, c)
		}
		na, nl := q.W, q.H // samples used of each edge
		if angle < 90 {
			na += q.H
		}
		if angle > 180 {
			nl += q.W
		}
		if q.Above {
			above.filter(imin(q.W, q.MaxX-q.X+1)+na-q.W+1, edgeStrength(q.W, q.H, angle-90, q.Smooth))
		}
		if q.Left {
			left.filter(imin(q.H, q.MaxY-q.Y+1)+nl-q.H+1, edgeStrength(q.W, q.H, angle-180, q.Smooth))
		}
		if useUpsample(q.W, q.H, angle-90, q.Smooth) {
			ua = 1
			above.upsample(na, top)
		}
		if useUpsample(q.W, q.H, angle-180, q.Smooth) {
			ul = 1
			left.upsample(nl, top)
		}
	}
	// a position along an edge in 1/64 of a sample
	interp := func(e *Edge, pos int, up uint) int {
		base := pos >> (6 - up)
		f := (pos << up >> 1) & 31
		return round2(e.at(base)*(32-f)+e.at(base+1)*f, 5)
	}
	switch {
	case angle < 90:
		dx := derivative[angle]
		last := (q.W + q.H - 1) << ua
		return each(func(i, j int) int {
			pos := (i+1)*dx + j<<6
			if pos>>(6-ua) >= last {
				return above.at(last)
			}
			return interp(above, pos, ua)
		})
	case angle > 180:
		dy := derivative[270-angle]
		return each(func(i, j int) int { return interp(left, (j+1)*dy+i<<6, ul) })
	}
	dx, dy := derivative[180-angle], derivative[angle-90]
	return each(func(i, j int) int {
		pos := j<<6 - (i+1)*dx
		if pos>>(6-ua) >= -(1 << ua) {
			return interp(above, pos, ua)
		}
		return interp(left, i<<6-(j+1)*dy, ul)
	})
}
