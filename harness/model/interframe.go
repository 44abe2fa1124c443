package model

// The mode info of inter frames (section 5.11.18 and following of the AV1
// specification), intra block copies, and the trees of transforms of inter blocks.

// Switchable says that every block has its own interpolation filter.
const Switchable = 4

// Segment features.
const (
	segRef    = 5
	segSkip   = 6
	segGlobal = 7
)

func (b *Blk) compound() bool { return b.Ref[1] > 0 }

func (b *Blk) short() int { return imin(b.W, b.H) }

// interFrameMode codes the modes of a block of an inter frame.
func (t *Tile) interFrameMode(b *Blk) {
	t.interSegment(b, true)
	t.skipMode(b)
	if b.SkipMode {
		b.Skip = true
	} else {
		t.skip(b)
	}
	if !t.PreSkip {
		t.interSegment(b, false)
	}
	b.Lossless = t.Lossless[b.Seg]
	t.cdef(b)
	t.deltaQ(b)
	t.deltaLf(b)
	t.deltas = false
	t.isInter(b)
	if b.Inter {
		t.Ev["inter blocks"]++
		t.interBlock(b)
		return
	}
	t.Ev["intra blocks of inter frames"]++
	cdf := t.S.YModeCdf[imin(3, log2(b.short())-2)]
	b.YMode = t.K.Draw(cdf)
	if (t.PPalette > 0 || t.PFilter > 0) && t.X.P(50) {
		b.YMode = DC
	}
	t.K.Put(cdf, b.YMode)
	t.intraModes(b)
}

// interSegment codes the segment, before or after the skip flag.
func (t *Tile) interSegment(b *Blk, before bool) {
	if !t.Seg {
		return
	}
	if !t.UpdateMap {
		b.Seg = t.oldSegment(b)
		t.Ev["segments kept"]++
		return
	}
	if before && !t.PreSkip {
		b.Seg = 0
		return
	}
	predicted := 0
	switch {
	case !before && b.Skip:
		t.readSegment(b)
	case t.Temporal:
		cdf := t.S.SegmentIdPredictedCdf[t.segA[b.C]+t.segL[b.R]]
		predicted = t.K.Sym(cdf)
		t.Ev["segment prediction flags"]++
		if predicted == 1 {
			b.Seg = t.oldSegment(b)
			t.Ev["segments of the previous frame"]++
		} else {
			t.readSegment(b)
		}
	default:
		t.readSegment(b)
		return
	}
	for i := 0; i < b.w4(); i++ {
		t.segA[b.C+i] = predicted
	}
	for i := 0; i < b.h4(); i++ {
		t.segL[b.R+i] = predicted
	}
}

// oldSegment is the lowest segment the block had in the previous frame.
func (t *Tile) oldSegment(b *Blk) int {
	seg := 7
	for r := b.R; r < imin(t.Rows, b.R+b.h4()); r++ {
		for c := b.C; c < imin(t.Cols, b.C+b.w4()); c++ {
			seg = imin(seg, t.PrevSegs[r][c])
		}
	}
	return seg
}

func (t *Tile) skipMode(b *Blk) {
	if !t.SkipModeOn || b.short() < 8 || t.segFeature(b, segRef) || t.segFeature(b, segSkip) || t.segFeature(b, segGlobal) {
		return
	}
	ctx := 0
	for _, n := range t.neighbours(b) {
		ctx += b2i(n != nil && n.SkipMode)
	}
	b.SkipMode = t.K.Bool(t.S.SkipModeCdf[ctx], t.PSkipMode)
	t.Ev["skip mode flags"]++
	if b.SkipMode {
		t.Ev["blocks in skip mode"]++
	}
}

// neighbours are the blocks above and to the left, nil if there are none.
func (t *Tile) neighbours(b *Blk) [2]*Blk { return [2]*Blk{t.at(b.R-1, b.C), t.at(b.R, b.C-1)} }

func intraOf(n *Blk) bool  { return n.Ref[0] <= 0 }
func singleOf(n *Blk) bool { return n.Ref[1] <= 0 }
func backward(ref int) int { return b2i(ref >= 5) }

func (t *Tile) isInter(b *Blk) {
	switch {
	case b.SkipMode:
		b.Inter = true
		return
	case t.segFeature(b, segRef):
		b.Inter = t.SegData[b.Seg][segRef] != 0
		return
	case t.segFeature(b, segGlobal):
		b.Inter = true
		return
	}
	have, intra := 0, 0
	for _, n := range t.neighbours(b) {
		if n != nil {
			have++
			intra += b2i(intraOf(n))
		}
	}
	ctx := 0
	switch {
	case have == 2 && intra == 2:
		ctx = 3
	case have == 2:
		ctx = intra
	case have == 1:
		ctx = 2 * intra
	}
	b.Inter = t.K.Bool(t.S.IsInterCdf[ctx], t.PInter)
}

// interBlock codes how an inter block is predicted.
func (t *Tile) interBlock(b *Blk) {
	t.references(b)
	b.Compound, b.CompIdx = CompAverage, 1
	m := t.MvStack(b)
	t.interMode(b, m)
	t.assignMvs(b, m)
	t.interIntra(b)
	t.motionMode(b)
	t.compoundType(b)
	t.filters(b)
}

// count counts the neighbours' references in a set.
func (t *Tile) count(b *Blk, set ...int) int {
	n := 0
	for _, x := range t.neighbours(b) {
		if x == nil {
			continue
		}
		n += b2i(has(set, x.Ref[0])) + b2i(has(set, x.Ref[1]))
	}
	return n
}

// more compares how often two sets of references are used by the neighbours.
func (t *Tile) more(b *Blk, first, second []int) int {
	switch x, y := t.count(b, first...), t.count(b, second...); {
	case x < y:
		return 0
	case x > y:
		return 2
	}
	return 1
}

func (t *Tile) references(b *Blk) {
	switch {
	case b.SkipMode:
		b.Ref = t.SkipModeRefs
		return
	case t.segFeature(b, segRef):
		b.Ref = [2]int{t.SegData[b.Seg][segRef], -1}
		return
	case t.segFeature(b, segSkip), t.segFeature(b, segGlobal):
		b.Ref = [2]int{1, -1}
		return
	}
	const last, last2, last3, gold, bwd, alt2, alt = 1, 2, 3, 4, 5, 6, 7
	bit := func(cdfs [][][]int, i int, first, second []int) bool {
		return t.K.Sym(cdfs[t.more(b, first, second)][i]) == 1
	}
	l := func(x ...int) []int { return x }
	if t.RefSelect && b.short() >= 8 && t.K.Bool(t.S.CompModeCdf[t.compModeCtx(b)], t.PCompound) {
		t.Ev["compound references"]++
		if t.K.Sym(t.S.CompRefTypeCdf[t.compRefTypeCtx(b)]) == 0 {
			t.Ev["references on the same side"]++
			uni := t.S.UniCompRefCdf
			switch {
			case bit(uni, 0, l(last, last2, last3, gold), l(bwd, alt2, alt)):
				b.Ref = [2]int{bwd, alt}
			case !bit(uni, 1, l(last2), l(last3, gold)):
				b.Ref = [2]int{last, last2}
			case !bit(uni, 2, l(last3), l(gold)):
				b.Ref = [2]int{last, last3}
			default:
				b.Ref = [2]int{last, gold}
			}
			return
		}
		if !bit(t.S.CompRefCdf, 0, l(last, last2), l(last3, gold)) {
			b.Ref[0] = last + b2i(bit(t.S.CompRefCdf, 1, l(last), l(last2)))
		} else {
			b.Ref[0] = last3 + b2i(bit(t.S.CompRefCdf, 2, l(last3), l(gold)))
		}
		if bit(t.S.CompBwdRefCdf, 0, l(bwd, alt2), l(alt)) {
			b.Ref[1] = alt
		} else {
			b.Ref[1] = bwd + b2i(bit(t.S.CompBwdRefCdf, 1, l(bwd), l(alt2)))
		}
		return
	}
	one := t.S.SingleRefCdf
	b.Ref[1] = -1
	switch {
	case bit(one, 0, l(last, last2, last3, gold), l(bwd, alt2, alt)):
		if bit(one, 1, l(bwd, alt2), l(alt)) {
			b.Ref[0] = alt
		} else {
			b.Ref[0] = bwd + b2i(bit(one, 5, l(bwd), l(alt2)))
		}
	case bit(one, 2, l(last, last2), l(last3, gold)):
		b.Ref[0] = last3 + b2i(bit(one, 4, l(last3), l(gold)))
	default:
		b.Ref[0] = last + b2i(bit(one, 3, l(last), l(last2)))
	}
	t.Ev["single references"]++
}

func (t *Tile) compModeCtx(b *Blk) int {
	var list []*Blk
	for _, n := range t.neighbours(b) {
		if n != nil {
			list = append(list, n)
		}
	}
	switch len(list) {
	case 0:
		return 1
	case 1:
		if singleOf(list[0]) {
			return backward(list[0].Ref[0])
		}
		return 3
	}
	a, c := list[0], list[1]
	if !singleOf(a) && !singleOf(c) {
		return 4
	}
	if singleOf(a) && singleOf(c) {
		return backward(a.Ref[0]) ^ backward(c.Ref[0])
	}
	if !singleOf(a) {
		a = c
	}
	return 2 + b2i(backward(a.Ref[0]) == 1 || intraOf(a))
}

func (t *Tile) compRefTypeCtx(b *Blk) int {
	var list, inter []*Blk
	for _, n := range t.neighbours(b) {
		if n != nil {
			list = append(list, n)
			if !intraOf(n) {
				inter = append(inter, n)
			}
		}
	}
	side := func(n *Blk) int { return backward(n.Ref[0]) }
	uni := func(n *Blk) bool { return !singleOf(n) && side(n) == backward(n.Ref[1]) }
	switch {
	case len(inter) == 0 || len(list) == 1 && singleOf(inter[0]):
		return 2
	case len(list) == 1:
		return 4 * b2i(uni(inter[0]))
	case len(inter) == 1 && singleOf(inter[0]):
		return 2
	case len(inter) == 1:
		return 1 + 2*b2i(uni(inter[0]))
	}
	a, c := inter[0], inter[1]
	same := b2i(side(a) == side(c))
	switch {
	case singleOf(a) && singleOf(c):
		return 1 + 2*same
	case singleOf(a) != singleOf(c):
		if uni(a) || uni(c) {
			return 3 + same
		}
		return 1
	case !uni(a) && !uni(c):
		return 0
	case uni(a) != uni(c):
		return 2
	}
	return 3 + b2i((a.Ref[0] == 5) == (c.Ref[0] == 5))
}

var interModeNames = []string{"NEAREST", "NEAR", "GLOBAL", "NEW", "NEAREST_NEAREST", "NEAR_NEAR", "NEAREST_NEW", "NEW_NEAREST", "NEAR_NEW", "NEW_NEAR", "GLOBAL_GLOBAL", "NEW_NEW"}

// interMode codes the mode and which of the predicted motion vectors it means.
func (t *Tile) interMode(b *Blk, m *MvStack) {
	switch {
	case b.SkipMode:
		b.YMode = NearestNearestMv
	case t.segFeature(b, segSkip), t.segFeature(b, segGlobal):
		b.YMode = GlobalMv
	case b.compound():
		map1 := [3][5]int{{0, 1, 1, 1, 1}, {1, 2, 3, 4, 4}, {4, 4, 5, 6, 7}}
		cdf := t.S.CompoundModeCdf[map1[m.RefCtx>>1][imin(m.NewCtx, 4)]]
		x := t.K.Draw(cdf)
		// not specified clearly: whether a filter is coded if only the first one only moves
		for NearestNearestMv+x == GlobalGlobalMv && t.GmType[b.Ref[0]] == 1 && t.GmType[b.Ref[1]] != 1 {
			x = t.X.N(8)
		}
		t.K.Put(cdf, x)
		b.YMode = NearestNearestMv + x
	case t.K.Sym(t.S.NewMvCdf[m.NewCtx]) == 0:
		b.YMode = NewMv
	case t.K.Sym(t.S.ZeroMvCdf[m.ZeroCtx]) == 0:
		b.YMode = GlobalMv
	case t.K.Sym(t.S.RefMvCdf[m.RefCtx]) == 0:
		b.YMode = NearestMv
	default:
		b.YMode = NearMv
	}
	t.Ev["mode "+interModeNames[b.YMode-NearestMv]]++
	first := 0
	switch b.YMode {
	case NewMv, NewNewMv:
	case NearMv, NearNearMv, NearNewMv, NewNearMv:
		first = 1
	default:
		return
	}
	b.mvIdx = first
	for i := first; i < first+2 && m.Found > i+1; i++ {
		t.Ev["motion vector indices"]++
		if t.K.Sym(t.S.DrlModeCdf[m.Drl[i]]) == 0 {
			break
		}
		b.mvIdx = i + 1
	}
}

// parts are the modes of the two references of a mode.
func parts(mode int) [2]int {
	switch mode {
	case NearestNearestMv:
		return [2]int{NearestMv, NearestMv}
	case NearNearMv:
		return [2]int{NearMv, NearMv}
	case NearestNewMv:
		return [2]int{NearestMv, NewMv}
	case NewNearestMv:
		return [2]int{NewMv, NearestMv}
	case NearNewMv:
		return [2]int{NearMv, NewMv}
	case NewNearMv:
		return [2]int{NewMv, NearMv}
	case GlobalGlobalMv:
		return [2]int{GlobalMv, GlobalMv}
	case NewNewMv:
		return [2]int{NewMv, NewMv}
	}
	return [2]int{mode, mode}
}

func (t *Tile) assignMvs(b *Blk, m *MvStack) {
	modes := parts(b.YMode)
	for i := 0; i <= b2i(b.compound()); i++ {
		mode := modes[i]
		pos := b.mvIdx
		if mode == NearestMv || mode == NewMv && m.Found <= 1 {
			pos = 0
		}
		switch mode {
		case GlobalMv:
			b.Mv[i] = m.Global[i]
		case NewMv:
			pred := m.List[pos].Mv[i]
			b.Mv[i] = t.pickMv(pred)
			t.putMv(b.Mv[i], pred, 0)
		default:
			b.Mv[i] = m.List[pos].Mv[i]
		}
	}
	t.used = append(t.used, b.Mv[0])
}

const mvLimit = 1 << 14

// pickMv draws a motion vector the frame may have.
func (t *Tile) pickMv(pred [2]int) [2]int {
	for {
		span := t.X.Pick(0, 8, 8, 40, 200, 1000, mvLimit-1)
		d := [2]int{t.X.In(-span, span), t.X.In(-span, span)}
		mv := [2]int{pred[0] + d[0], pred[1] + d[1]}
		switch {
		case t.X.P(30) && len(t.used) > 0:
			mv = t.used[t.X.N(len(t.used))]
		case t.X.P(20):
			mv = d
		}
		if t.X.P(15) {
			i := t.X.N(2)
			mv[i] = pred[i]
		}
		mv = t.Precise(mv)
		if imax(iabs(mv[0]), iabs(mv[1])) < mvLimit && imax(iabs(mv[0]-pred[0]), iabs(mv[1]-pred[1])) <= mvLimit {
			return mv
		}
	}
}

// putMv codes a motion vector as its difference from the predicted one.
func (t *Tile) putMv(mv, pred [2]int, ctx int) {
	d := [2]int{mv[0] - pred[0], mv[1] - pred[1]}
	t.K.Put(t.S.MvJointCdf[ctx], 2*b2i(d[0] != 0)+b2i(d[1] != 0))
	t.Ev["motion vectors coded"]++
	for i, x := range d {
		if x == 0 {
			continue
		}
		t.K.Put(t.S.MvSignCdf[ctx][i], b2i(x < 0))
		m := iabs(x) - 1
		class := imax(0, log2(imax(1, m>>3)))
		if m < 16 {
			class = 0
		}
		t.K.Put(t.S.MvClassCdf[ctx][i], class)
		whole, fr, hp := m>>3, m>>1&3, m&1
		frCdf, hpCdf := t.S.MvFrCdf[ctx][i], t.S.MvHpCdf[ctx][i]
		if class == 0 {
			t.K.Put(t.S.MvClass0BitCdf[ctx][i], whole)
			frCdf, hpCdf = t.S.MvClass0FrCdf[ctx][i][whole], t.S.MvClass0HpCdf[ctx][i]
		} else {
			for k := 0; k < class; k++ {
				t.K.Put(t.S.MvBitCdf[ctx][i][k], whole>>uint(k)&1)
			}
		}
		if !t.ForceInt {
			t.K.Put(frCdf, fr)
		}
		if t.HighPrec {
			t.K.Put(hpCdf, hp)
		}
	}
}

func (t *Tile) interIntra(b *Blk) {
	if b.SkipMode || !t.InterIntra || b.compound() || b.short() < 8 || imax(b.W, b.H) > 32 || b.Size > 9 {
		return
	}
	g := imin(3, log2(b.short())-2) - 1
	if !t.K.Bool(t.S.InterIntraCdf[g], t.PInterIntra) {
		return
	}
	t.Ev["inter-intra blocks"]++
	b.Ref[1] = 0
	b.IIMode = t.K.Sym(t.S.InterIntraModeCdf[g])
	b.Compound = CompIntra
	if t.K.Sym(t.S.WedgeInterIntraCdf[b.Size]) == 1 {
		b.Compound = CompWedge
		b.WedgeIdx = t.K.Sym(t.S.WedgeIndexCdf[b.Size])
	}
}

func (t *Tile) motionMode(b *Blk) {
	switch {
	case b.SkipMode, !t.SwitchMotion, b.short() < 8, b.Ref[1] >= 0:
		return
	case !t.ForceInt && isGlobal(b.YMode) && t.GmType[b.Ref[0]] > 1:
		return
	case !t.overlappable(b):
		return
	}
	b.Samples = t.WarpSamples(b)
	if t.ForceInt || len(b.Samples) == 0 || !t.AllowWarp || t.Scaled(b.Ref[0]) {
		b.Motion = b2i(t.K.Sym(t.S.UseObmcCdf[b.Size]) == 1) * Obmc
	} else {
		b.Motion = t.K.Sym(t.S.MotionModeCdf[b.Size])
		t.Ev["motion modes"]++
	}
	t.Ev[[]string{"simple motion", "overlapped motion", "local warp motion"}[b.Motion]]++
}

func (t *Tile) compoundType(b *Blk) {
	if b.SkipMode || !b.compound() {
		return
	}
	if t.Masked {
		ctx := 0
		for _, n := range t.neighbours(b) {
			switch {
			case n == nil:
			case !singleOf(n):
				ctx += n.CompGroup
			case n.Ref[0] == 7:
				ctx += 3
			}
		}
		b.CompGroup = t.K.Sym(t.S.CompGroupIdxCdf[imin(5, ctx)])
	}
	if b.CompGroup == 0 {
		if t.Jnt {
			ctx := 0
			var d [2]int
			for i := range d {
				d[i] = iabs(t.RelDist(t.Refs[b.Ref[i]].Hint, t.Hint))
			}
			if d[0] == d[1] {
				ctx = 3
			}
			for _, n := range t.neighbours(b) {
				switch {
				case n == nil:
				case !singleOf(n):
					ctx += n.CompIdx
				case n.Ref[0] == 7:
					ctx++
				}
			}
			b.CompIdx = t.K.Sym(t.S.CompoundIdxCdf[ctx])
			if b.CompIdx == 0 {
				b.Compound = CompDistance
			}
		}
	} else {
		b.Compound = CompDiffWtd
		if imax(b.W, b.H) <= 32 {
			b.Compound = t.K.Sym(t.S.CompoundTypeCdf[b.Size])
		}
		if b.Compound == CompWedge {
			b.WedgeIdx, b.WedgeSign = t.K.Sym(t.S.WedgeIndexCdf[b.Size]), t.K.Lit(1)
		} else {
			b.MaskType = t.K.Lit(1)
		}
	}
	t.Ev["compound type "+[]string{"wedge", "difference", "average", "", "distance"}[b.Compound]]++
}

func (t *Tile) filters(b *Blk) {
	if t.InterpFilter != Switchable {
		b.Filt = [2]int{t.InterpFilter, t.InterpFilter}
		return
	}
	large := b.short() >= 8
	switch {
	case b.SkipMode, b.Motion == LocalWarp,
		large && b.YMode == GlobalMv && t.GmType[b.Ref[0]] != 1,
		large && b.YMode == GlobalGlobalMv && t.GmType[b.Ref[0]] != 1 && t.GmType[b.Ref[1]] != 1:
		t.Ev["blocks without a filter"]++
		return
	}
	for dir := 0; dir < 1+b2i(t.Dual); dir++ {
		var kinds []int
		for _, n := range t.neighbours(b) {
			if n != nil && (n.Ref[0] == b.Ref[0] || n.Ref[1] == b.Ref[0]) && !has(kinds, n.Filt[dir]) {
				kinds = append(kinds, n.Filt[dir])
			}
		}
		ctx := 8*dir + 4*b2i(b.compound())
		if len(kinds) == 1 {
			ctx += kinds[0]
		} else {
			ctx += 3
		}
		b.Filt[dir] = t.K.Sym(t.S.InterpFilterCdf[ctx])
		t.Ev["interpolation filters"]++
	}
	if !t.Dual {
		b.Filt[1] = b.Filt[0]
	}
}

// blockCopy codes whether a block of an intra frame is a copy of another part of it.
func (t *Tile) blockCopy(b *Blk) bool {
	mv, ok := [2]int{}, false
	if t.X.P(t.PCopy) {
		for i := 0; i < 20 && !ok; i++ {
			y, x := t.X.In(t.R0*4, t.R1*4-b.H), t.X.In(t.C0*4, t.C1*4-b.W)
			if t.X.P(20) && len(t.used) > 0 {
				d := t.used[t.X.N(len(t.used))]
				y, x = b.R*4+d[0]/8, b.C*4+d[1]/8
			}
			mv, ok = [2]int{8 * (y - b.R*4), 8 * (x - b.C*4)}, t.mayCopy(b, y, x)
		}
	}
	t.K.Put(t.S.IntrabcCdf, b2i(ok))
	if !ok {
		return false
	}
	t.Ev["blocks copied"]++
	b.IntraBc, b.Inter, b.YMode, b.UVMode = true, true, DC, DC
	b.Compound, b.Filt, b.Mv[0] = CompAverage, [2]int{3, 3}, mv
	m := t.MvStack(b)
	pred := m.List[0].Mv[0]
	if pred == [2]int{} {
		pred = m.List[1].Mv[0]
	}
	if pred == [2]int{} {
		n := t.sbSize()
		if b.R-n < t.R0 {
			pred[1] = -8 * (4*n + 256)
		} else {
			pred[0] = -8 * 4 * n
		}
		t.Ev["copies without prediction"]++
	}
	t.putMv(mv, pred, 1)
	t.used = append(t.used, mv)
	return true
}

// mayCopy tells whether a block may be copied from (x, y).
func (t *Tile) mayCopy(b *Blk, y, x int) bool {
	bottom, right := y+b.H, x+b.W
	if y < t.R0*4 || x < t.C0*4 || bottom > t.R1*4 || right > t.C1*4 {
		return false
	}
	if b.Chroma && (b.W < 8 && t.SX == 1 && x < t.C0*4+4 || b.H < 8 && t.SY == 1 && y < t.R0*4+4) {
		return false
	}
	// at least 256 samples ahead, and not above the wavefront
	sb := 4 * t.sbSize()
	perRow := (t.C1-t.C0-1)>>4 + 1
	row, col := b.R*4/sb, b.C*4/64
	srcRow, srcCol := (bottom-1)/sb, (right-1)/64
	slope := 5 + b2i(t.SB128)
	return srcRow*perRow+srcCol < row*perRow+col-4 && srcRow <= row && srcCol < col-4+slope*(row-srcRow)
}

// varTx codes the tree of transforms of an inter block.
func (t *Tile) varTx(b *Blk, r, c, w, h, depth int) {
	if r >= t.Rows || c >= t.Cols {
		return
	}
	split := false
	if w*h > 16 && depth < 2 {
		n := imin(64, imax(b.W, b.H))
		ctx := 6 * (6 - log2(n))
		if imax(w, h) != n {
			ctx += 3
		}
		ctx += b2i(t.txAbove(b, r, c) < w) + b2i(t.txLeft(b, r, c) < h)
		split = t.K.Bool(t.S.TxfmSplitCdf[ctx], t.PTxSplit)
		t.Ev["transform split flags"]++
	}
	if split {
		t.Ev["transforms split"]++
		sw, sh := splitTx(w, h)
		for i := 0; i < h; i += sh {
			for j := 0; j < w; j += sw {
				t.varTx(b, r+i/4, c+j/4, sw, sh, depth+1)
			}
		}
		return
	}
	b.Tx = txOf(w, h)
	for i := 0; i < h/4; i++ {
		for j := 0; j < w/4; j++ {
			t.InterTx[r+i][c+j] = b.Tx
		}
	}
}

func (t *Tile) txAbove(b *Blk, r, c int) int {
	if r == b.R {
		n := t.at(r-1, c)
		if n == nil {
			return 64
		}
		if n.Skip && n.Inter {
			return n.W
		}
	}
	return 1 << uint(TxW[t.InterTx[r-1][c]])
}

func (t *Tile) txLeft(b *Blk, r, c int) int {
	if c == b.C {
		n := t.at(r, c-1)
		if n == nil {
			return 64
		}
		if n.Skip && n.Inter {
			return n.H
		}
	}
	return 1 << uint(TxH[t.InterTx[r][c-1]])
}

// txTree codes the transform blocks of an area of an inter block.
func (t *Tile) txTree(b *Blk, x, y, w, h int) {
	if x >= 4*t.Cols || y >= 4*t.Rows {
		return
	}
	size := t.InterTx[y/4][x/4]
	if w <= 1<<uint(TxW[size]) && h <= 1<<uint(TxH[size]) {
		t.transformBlock(b, 0, x, y, txOf(w, h))
		return
	}
	sw, sh := w, h
	if w >= h {
		sw = w / 2
	}
	if h >= w {
		sh = h / 2
	}
	for i := 0; i < h; i += sh {
		for j := 0; j < w; j += sw {
			t.txTree(b, x+j, y+i, sw, sh)
		}
	}
}
