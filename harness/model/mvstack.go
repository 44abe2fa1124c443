package model

// Prediction of motion vectors (section 7.10 of the AV1 specification).

// NoMotion marks blocks without motion in the motion field.
const NoMotion = -1 << 15

// MvCand is a predicted motion vector, or a pair of them.
type MvCand struct {
	Mv     [2][2]int
	Weight int
}

// MvStack is the list of predicted motion vectors of a block.
type MvStack struct {
	List                     []MvCand
	Found                    int // entries that count; a single reference always has two to use
	Global                   [2][2]int
	NewCtx, RefCtx, ZeroCtx  int
	Drl                      []int
	compound                 bool
	t                        *Tile
	b                        *Blk
	matched                  bool
	newMvs                   int
	near, closeBy, allAround int
}

// Precise drops the bits of a motion vector that the frame does not have.
func (t *TileCfg) Precise(mv [2]int) [2]int {
	if t.HighPrec {
		return mv
	}
	for i, x := range mv {
		a := iabs(x)
		if t.ForceInt {
			a = (a + 3) / 8 * 8
		} else {
			a -= a & 1
		}
		if x < 0 {
			a = -a
		}
		mv[i] = a
	}
	return mv
}

// globalMv is the motion of the middle of a block under the global motion of ref.
func (t *Tile) globalMv(b *Blk, ref int) (mv [2]int) {
	if ref <= 0 || t.GmType[ref] == 0 {
		return
	}
	g := t.Gm[ref]
	if t.GmType[ref] == 1 {
		return t.Precise([2]int{g[0] >> 13, g[1] >> 13})
	}
	x, y := b.C*4+b.W/2-1, b.R*4+b.H/2-1
	dx := (g[2]-65536)*x + g[3]*y + g[0]
	dy := g[4]*x + (g[5]-65536)*y + g[1]
	if t.HighPrec {
		mv = [2]int{rnds(dy, 13), rnds(dx, 13)}
	} else {
		mv = [2]int{rnds(dy, 14) * 2, rnds(dx, 14) * 2}
	}
	return t.Precise(mv)
}

func newMv(mode int) bool {
	switch mode {
	case NewMv, NewNewMv, NearNewMv, NewNearMv, NearestNewMv, NewNearestMv:
		return true
	}
	return false
}

// add gives weight to a candidate, which may be new.
func (s *MvStack) add(mv [2][2]int, weight int) {
	for i := range s.List {
		if s.List[i].Mv == mv {
			s.List[i].Weight += weight
			return
		}
	}
	if len(s.List) < 8 {
		s.List = append(s.List, MvCand{mv, weight})
	}
}

// consider looks at a neighbour.
func (s *MvStack) consider(n *Blk, weight int) {
	if n == nil || !n.Inter {
		return
	}
	b, t := s.b, s.t
	global := func(i int) bool {
		return isGlobal(n.YMode) && imin(n.W, n.H) >= 8 && b.Ref[i] > 0 && t.GmType[b.Ref[i]] > 1
	}
	if s.compound {
		if n.Ref != b.Ref {
			return
		}
		mv := n.Mv
		for i := range mv {
			if n.YMode == GlobalGlobalMv && global(i) {
				mv[i] = s.Global[i]
			}
			mv[i] = t.Precise(mv[i])
		}
		s.matched = true
		s.add(mv, weight)
		s.newMvs += b2i(newMv(n.YMode))
		return
	}
	for i, ref := range n.Ref {
		if ref != b.Ref[0] {
			continue
		}
		mv := n.Mv[i]
		if global(0) {
			mv = s.Global[0]
		}
		s.matched = true
		s.newMvs += b2i(newMv(n.YMode))
		s.add([2][2]int{t.Precise(mv)}, weight)
	}
}

// line looks at the neighbours in a row above (dr < 0) or a column to the left.
func (s *MvStack) line(dr, dc int) bool {
	t, b := s.t, s.b
	s.matched = false
	far := dr < -1 || dc < -1
	size, left := b.w4(), t.Cols-b.C
	if dc < 0 {
		size, left = b.h4(), t.Rows-b.R
	}
	end := imin(imin(size, left), 16)
	r, c := b.R+dr, b.C+dc
	if far {
		// in units of 8x8 samples
		if dr < 0 {
			r, c = b.R+dr+b.R&1, b.C|1
		} else {
			r, c = b.R|1, b.C+dc+b.C&1
		}
	}
	for i := 0; i < end; {
		y, x := r, c+i
		if dc < 0 {
			y, x = r+i, c
		}
		if !t.inside(y, x) {
			break
		}
		n := t.Grid[y][x]
		step := n.w4()
		if dc < 0 {
			step = n.h4()
		}
		step = imin(step, size)
		if far {
			step = imax(step, 2)
		}
		if size >= 16 {
			step = imax(step, 4)
		}
		s.consider(n, 2*step)
		i += step
	}
	return s.matched
}

// point looks at the block at a corner, if it was decoded.
func (s *MvStack) point(dr, dc int) bool {
	s.matched = false
	s.consider(s.t.at(s.b.R+dr, s.b.C+dc), 4)
	return s.matched
}

// temporal looks at the motion of the references.
func (s *MvStack) temporal() {
	t, b := s.t, s.b
	look := func(dr, dc int) {
		y, x := (b.R+dr)|1, (b.C+dc)|1
		if !t.inside(y, x) {
			return
		}
		first := dr == 0 && dc == 0
		if first {
			s.ZeroCtx = 1
		}
		var mv [2][2]int
		moved := false
		for i := 0; i < 1+b2i(s.compound); i++ {
			mv[i] = t.Motion[b.Ref[i]][y>>1][x>>1]
			if mv[i][0] == NoMotion {
				return
			}
			mv[i] = t.Precise(mv[i])
			for k := range mv[i] {
				moved = moved || iabs(mv[i][k]-s.Global[i][k]) >= 16
			}
		}
		if first {
			s.ZeroCtx = b2i(moved)
		}
		s.add(mv, 2)
		t.Ev["temporal candidates"]++
	}
	step := func(n int) int {
		if n >= 16 {
			return 4
		}
		return 2
	}
	h, w := b.h4(), b.w4()
	for dr := 0; dr < imin(h, 16); dr += step(h) {
		for dc := 0; dc < imin(w, 16); dc += step(w) {
			look(dr, dc)
		}
	}
	if imin(h, w) >= 2 && imax(h, w) < 16 {
		// below and to the right, within the same 64x64 samples
		for _, d := range [][2]int{{h, -2}, {h, w}, {h - 2, w}} {
			if y, x := b.R&15+d[0], b.C&15+d[1]; y < 16 && x >= 0 && x < 16 {
				look(d[0], d[1])
			}
		}
	}
}

// extra fills the list from neighbours with other references.
func (s *MvStack) extra() {
	t, b := s.t, s.b
	n := imin(imin(imin(16, b.w4()), t.Cols-b.C), imin(imin(16, b.h4()), t.Rows-b.R))
	var same, other [2][][2]int
	turn := func(mv [2]int, ref, want int) [2]int {
		if t.SignBias[ref] != t.SignBias[want] {
			return [2]int{-mv[0], -mv[1]}
		}
		return mv
	}
	for pass := 0; pass < 2; pass++ {
		for i := 0; i < n && len(s.List) < 2; {
			y, x := b.R-1, b.C+i
			if pass == 1 {
				y, x = b.R+i, b.C-1
			}
			c := t.at(y, x)
			if c == nil {
				break
			}
			for k, ref := range c.Ref {
				if ref <= 0 {
					continue
				}
				t.Ev["candidates with other references"]++
				if !s.compound {
					s.add([2][2]int{turn(c.Mv[k], ref, b.Ref[0])}, 0)
					continue
				}
				for l := range same {
					if ref == b.Ref[l] && len(same[l]) < 2 {
						same[l] = append(same[l], c.Mv[k])
					} else if len(other[l]) < 2 {
						other[l] = append(other[l], turn(c.Mv[k], ref, b.Ref[l]))
					}
				}
			}
			if pass == 0 {
				i += c.w4()
			} else {
				i += c.h4()
			}
		}
	}
	for i := range s.List {
		if s.List[i].Weight == 0 {
			s.List[i].Weight = 2
		}
	}
	if !s.compound {
		s.Found = len(s.List)
		for len(s.List) < 2 {
			s.List = append(s.List, MvCand{Mv: [2][2]int{s.Global[0]}})
		}
		return
	}
	var two [2][2][2]int
	for l := range same {
		all := append(append(same[l], other[l]...), s.Global[l], s.Global[l])
		two[0][l], two[1][l] = all[0], all[1]
	}
	switch {
	case len(s.List) == 0:
		s.List = []MvCand{{two[0], 2}, {two[1], 2}}
	case two[0] == s.List[0].Mv:
		s.List = append(s.List, MvCand{two[1], 2})
	default:
		s.List = append(s.List, MvCand{two[0], 2})
	}
	s.Found = 2
}

// MvStack finds the predicted motion vectors of a block with the references b.Ref.
func (t *Tile) MvStack(b *Blk) *MvStack {
	s := &MvStack{t: t, b: b, compound: b.Ref[1] > 0}
	s.Global[0] = t.globalMv(b, b.Ref[0])
	if s.compound {
		s.Global[1] = t.globalMv(b, b.Ref[1])
	}
	above := s.line(-1, 0)
	left := s.line(0, -1)
	if imax(b.W, b.H) <= 64 {
		above = s.point(-1, b.w4()) || above
	}
	s.closeBy = b2i(above) + b2i(left)
	near, fresh := len(s.List), s.newMvs
	for i := range s.List {
		s.List[i].Weight += 640
	}
	if t.UseRefMvs {
		s.temporal()
	}
	above = s.point(-1, -1) || above
	above = s.line(-3, 0) || above
	left = s.line(0, -3) || left
	if b.H > 4 {
		above = s.line(-5, 0) || above
	}
	if b.W > 4 {
		left = s.line(0, -5) || left
	}
	s.allAround = b2i(above) + b2i(left)
	for _, part := range [][]MvCand{s.List[:near], s.List[near:]} {
		// heavier ones first
		for i := range part {
			for j := i; j > 0 && part[j].Weight > part[j-1].Weight; j-- {
				part[j], part[j-1] = part[j-1], part[j]
			}
		}
	}
	s.Found = len(s.List)
	if s.Found < 2 {
		s.extra()
	}
	for i := 0; i < s.Found; i++ {
		z := 0
		if i+1 < s.Found {
			switch a, b := s.List[i].Weight >= 640, s.List[i+1].Weight >= 640; {
			case !a:
				z = 2
			case !b:
				z = 1
			}
		}
		s.Drl = append(s.Drl, z)
		for l := 0; l < 1+b2i(s.compound); l++ {
			mv := &s.List[i].Mv[l]
			// at most 16 samples and the size of the block outside the frame
			mv[0] = iclip(-b.R*32-128-8*b.H, (t.Rows-b.h4()-b.R)*32+128+8*b.H, mv[0])
			mv[1] = iclip(-b.C*32-128-8*b.W, (t.Cols-b.w4()-b.C)*32+128+8*b.W, mv[1])
		}
	}
	fresh = imin(fresh, 1)
	switch s.closeBy {
	case 0:
		s.NewCtx, s.RefCtx = imin(s.allAround, 1), s.allAround
	case 1:
		s.NewCtx, s.RefCtx = 3-fresh, 2+s.allAround
	default:
		s.NewCtx, s.RefCtx = 5-fresh, 5
	}
	t.Ev["motion vector lists"]++
	t.Ev["predicted motion vectors"] += int64(s.Found)
	return s
}

// overlappable tells whether a neighbour of a block is an inter block.
func (t *Tile) overlappable(b *Blk) bool {
	for i := 1; i < 16*16; i += 2 {
		if i-1 < b.w4() && b.C+i-1 < t.Cols {
			if n := t.at(b.R-1, imin(b.C+i, t.Cols-1)); n != nil && n.Ref[0] > 0 {
				return true
			}
		}
		if i-1 < b.h4() && b.R+i-1 < t.Rows {
			if n := t.at(imin(b.R+i, t.Rows-1), b.C-1); n != nil && n.Ref[0] > 0 {
				return true
			}
		}
	}
	return false
}

// WarpSamples finds the neighbours the warp of a block can be estimated from.
func (t *Tile) WarpSamples(b *Blk) (list [][4]int) {
	scanned, good := 0, 0
	add := func(dr, dc int) {
		n := t.at(b.R+dr, b.C+dc)
		if scanned >= 8 || n == nil || n.Ref != [2]int{b.Ref[0], -1} {
			return
		}
		scanned++
		limit := iclip(16, 112, imax(b.W, b.H))
		valid := iabs(n.Mv[0][0]-b.Mv[0][0])+iabs(n.Mv[0][1]-b.Mv[0][1]) <= limit
		y, x := 8*(n.R*4+n.H/2-1), 8*(n.C*4+n.W/2-1)
		s := [4]int{y, x, y + n.Mv[0][0], x + n.Mv[0][1]}
		if valid || scanned == 1 {
			list = append(list[:good], s)
		}
		if valid {
			good++
		}
	}
	corner, right := true, true
	if n := t.at(b.R-1, b.C); n != nil {
		if n.W >= b.W {
			corner = n.C == b.C
			right = n.C+n.w4() <= b.C+b.w4()
			add(-1, 0)
		} else {
			for i := 0; i < imin(b.w4(), t.Cols-b.C); {
				add(-1, i)
				i += t.Grid[b.R-1][b.C+i].w4()
			}
		}
	}
	if n := t.at(b.R, b.C-1); n != nil {
		if n.H >= b.H {
			corner = corner && n.R == b.R
			add(0, -1)
		} else {
			for i := 0; i < imin(b.h4(), t.Rows-b.R); {
				add(i, -1)
				i += t.Grid[b.R+i][b.C-1].h4()
			}
		}
	}
	if corner {
		add(-1, -1)
	}
	if right && imax(b.W, b.H) <= 64 {
		add(-1, b.w4())
	}
	return list
}
