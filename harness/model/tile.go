package model

import (
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

// A second decoder for the contents of a tile (sections 5.11 and 7.10 to 7.13 of
// the AV1 specification) that chooses every symbol itself and encodes it. What
// it ends up with is what a decoder of the encoded tile must end up with.

// TileCfg is what the headers say about the frame and the tile.
type TileCfg struct {
	Rows, Cols     int // in 4x4 luma blocks
	R0, R1, C0, C1 int // the tile
	Planes, SX, SY int
	Depth          int

	SB128, FilterIntra, EdgeFilter bool
	Screen, IntraBc                bool

	Seg, PreSkip  bool
	LastSeg       int
	Strict        bool // nothing beyond what conforming streams hold
	SegOn         [8][8]int
	SegData       [8][8]int
	Lossless      [8]bool
	CodedLossless bool

	BaseQ                   int
	YDc, UDc, UAc, VDc, VAc int
	Qm                      bool
	QmLevel                 [3]int
	DeltaQ                  bool
	DeltaQRes               int
	DeltaLf, DeltaLfMulti   bool
	DeltaLfRes              int
	Cdef                    bool
	CdefBits                int
	TxSelect, ReducedTx     bool
	LrType, LrUnit          [3]int
	FrameH, UpscaledW       int
	SuperRes                bool
	Denom                   int
	NoAdapt                 bool

	FrameW         int // before upscaling
	Refs           [8]*RefPic
	Gm             [8][6]int
	GmType         [8]int
	ForceInt       bool
	HighPrec       bool
	UseRefMvs      bool
	Motion         [8][][][2]int // by 8x8 luma samples: the motion of the references
	SignBias       [8]bool
	Hint, HintBits int

	Inter                         bool // an inter frame
	UpdateMap, Temporal           bool // of segments, in inter frames
	PrevSegs                      [][]int
	RefSelect, SkipModeOn         bool
	SkipModeRefs                  [2]int
	SwitchMotion, AllowWarp       bool
	InterpFilter                  int
	Dual, Masked, Jnt, InterIntra bool
	PInter, PSkipMode, PCompound  int
	PInterIntra, PCopy, PTxSplit  int

	// how the generator chooses, in percent
	PSkip, PSplit, PNone, PPalette, PFilter, PCfl, PZero int
	MaxCoefs                                             int
}

func (c *TileCfg) sbSize() int {
	if c.SB128 {
		return 32
	}
	return 16
}

func (c *TileCfg) sub(plane int) (uint, uint) {
	if plane == 0 {
		return 0, 0
	}
	return uint(c.SX), uint(c.SY)
}

// Block sizes in samples, in AV1 order.
var BlockDims = [][2]int{
	{4, 4}, {4, 8}, {8, 4}, {8, 8}, {8, 16}, {16, 8}, {16, 16}, {16, 32}, {32, 16}, {32, 32}, {32, 64}, {64, 32}, {64, 64},
	{64, 128}, {128, 64}, {128, 128}, {4, 16}, {16, 4}, {8, 32}, {32, 8}, {16, 64}, {64, 16},
}

func blockOf(w, h int) int {
	for i, d := range BlockDims {
		if d == [2]int{w, h} {
			return i
		}
	}
	return -1
}

func txOf(w, h int) int {
	for i := range TxW {
		if 1<<uint(TxW[i]) == w && 1<<uint(TxH[i]) == h {
			return i
		}
	}
	return -1
}

func log2(n int) int {
	k := 0
	for 1<<uint(k+1) <= n {
		k++
	}
	return k
}

// Blk is a block.
type Blk struct {
	R, C, W, H int // position in 4x4 blocks, size in samples
	Size       int
	Chroma     bool
	Seg        int
	Skip       bool
	SkipMode   bool
	Inter      bool
	IntraBc    bool
	Ref        [2]int
	YMode      int
	UVMode     int
	AngleY     int
	AngleUV    int
	Alpha      [2]int
	Filter     int // -1 for none
	Tx         int
	Pal        [2][]int // colours of Y and U, sorted
	PalV       []int
	DeltaLF    [4]int
	QIdx       int
	Lossless   bool
	colorY     [][]int
	colorUV    [][]int
	lumaW      int // end of the luma predicted so far
	lumaH      int
	Mv         [2][2]int // row and column
	Filt       [2]int    // vertical and horizontal interpolation filter
	Motion     int
	Compound   int
	IIMode     int
	WedgeIdx   int
	WedgeSign  int
	MaskType   int
	CompGroup  int
	CompIdx    int
	mvIdx      int
	Samples    [][4]int // for a local warp: where samples are and where they come from
	warpOk     bool
	warp       [6]int
	mask       [][]int
	UpC, LeftC bool // availability of the chroma above and to the left
}

func (b *Blk) w4() int { return b.W / 4 }
func (b *Blk) h4() int { return b.H / 4 }

// Tile is a tile being decoded.
type Tile struct {
	*TileCfg
	K *Coder
	S *state.State // holds the CDFs under their plain names
	X *vlib.RNG

	Grid    [][]*Blk
	Cur     [3][][]int
	LfTx    [3][][]int // -1: not coded
	InterTx [][]int
	TxTypes [][]int
	Cdefs   [][]int // -1: not read
	LrKind  [3][][]int
	LrTaps  [3][][][2][3]int
	LrSet   [3][][]int
	LrXqd   [3][][][2]int
	QIdx    int
	DeltaLF [4]int
	Ev      map[string]int64
	Each    func(b *Blk) // codes a block instead of this package

	done           [3][][]bool
	levelA, levelL [3][]int
	dcA, dcL       [3][]int
	deltas         bool
	refTaps        [3][2][3]int
	refXqd         [3][2]int
	segA, segL     []int // whether segments were predicted
	used           [][2]int
}

func grid(h, w, x int) [][]int {
	g := make([][]int, h)
	for i := range g {
		g[i] = make([]int, w)
		for j := range g[i] {
			g[i][j] = x
		}
	}
	return g
}

// NewTile prepares a tile; cur holds whatever the frame held before.
func NewTile(c *TileCfg, k *Coder, s *state.State, cur [3][][]int) *Tile {
	t := &Tile{TileCfg: c, K: k, S: s, X: k.R, Cur: cur, Ev: map[string]int64{}}
	h, w := c.Rows+64, c.Cols+64
	t.Grid = make([][]*Blk, h)
	for i := range t.Grid {
		t.Grid[i] = make([]*Blk, w)
	}
	t.InterTx, t.TxTypes, t.Cdefs = grid(h, w, 0), grid(h, w, -1), grid(h, w, -1)
	t.segA, t.segL = make([]int, w), make([]int, h)
	for p := 0; p < 3; p++ {
		t.LfTx[p] = grid(h, w, -1)
		t.done[p] = make([][]bool, h)
		for i := range t.done[p] {
			t.done[p][i] = make([]bool, w)
		}
		t.levelA[p], t.levelL[p] = make([]int, w), make([]int, h)
		t.dcA[p], t.dcL[p] = make([]int, w), make([]int, h)
		if p < c.Planes && c.LrType[p] != 0 {
			r, n := t.lrUnits(p)
			t.LrKind[p], t.LrSet[p] = grid(r, n, -1), grid(r, n, -1)
			t.LrTaps[p], t.LrXqd[p] = make([][][2][3]int, r), make([][][2]int, r)
			for i := 0; i < r; i++ {
				t.LrTaps[p][i], t.LrXqd[p][i] = make([][2][3]int, n), make([][2]int, n)
			}
		}
	}
	return t
}

// Code generates the whole tile.
func (t *Tile) Code() {
	t.QIdx = t.BaseQ
	t.DeltaLF = [4]int{}
	for p := range t.refTaps {
		for pass := 0; pass < 2; pass++ {
			t.refTaps[p][pass] = [3]int{3, -7, 15}
		}
		t.refXqd[p] = [2]int{-32, 31}
	}
	sb := t.sbSize()
	for r := t.R0; r < t.R1; r += sb {
		for i := range t.segL {
			t.segL[i] = 0
		}
		for p := range t.levelL {
			for i := range t.levelL[p] {
				t.levelL[p][i], t.dcL[p][i] = 0, 0
			}
		}
		for c := t.C0; c < t.C1; c += sb {
			t.deltas = t.DeltaQ
			t.readLr(r, c)
			t.partition(r, c, 4*sb)
		}
	}
}

func (t *Tile) inside(r, c int) bool { return r >= t.R0 && r < t.R1 && c >= t.C0 && c < t.C1 }

func (t *Tile) at(r, c int) *Blk {
	if !t.inside(r, c) {
		return nil
	}
	return t.Grid[r][c]
}

// partition codes the square block of n samples at (r, c).
func (t *Tile) partition(r, c, n int) {
	if r >= t.Rows || c >= t.Cols {
		return
	}
	if n == 4 {
		t.block(r, c, 4, 4)
		return
	}
	half, q := n/8, n/16
	ctx := 0
	if a := t.at(r-1, c); a != nil && a.W < n {
		ctx++
	}
	if l := t.at(r, c-1); l != nil && l.H < n {
		ctx += 2
	}
	cdf := map[int][][]int{8: t.S.PartitionW8Cdf, 16: t.S.PartitionW16Cdf, 32: t.S.PartitionW32Cdf, 64: t.S.PartitionW64Cdf, 128: t.S.PartitionW128Cdf}[n][ctx]
	const (
		none = iota
		horz
		vert
		split
		horzA
		horzB
		vertA
		vertB
		horz4
		vert4
	)
	tall := func(p int) bool { return p == vert || p == vertA || p == vertB || p == vert4 }
	forbidden := func(p int) bool { return t.Planes > 1 && t.SX == 1 && t.SY == 0 && tall(p) }
	rows, cols := r+half < t.Rows, c+half < t.Cols
	p := split
	prob := func(s int) int { return cdf[s] - cdf[s-1] }
	two := func(set []int) int {
		sum := 0
		for _, s := range set {
			if s < len(cdf)-1 {
				sum += prob(s)
			}
		}
		return sum
	}
	switch {
	case rows && cols:
		for {
			p = t.K.Draw(cdf)
			if t.X.P(t.PSplit) && n > 8 {
				p = split
			} else if t.X.P(t.PNone) {
				p = none
			}
			if !forbidden(p) {
				break
			}
		}
		t.K.Put(cdf, p)
		t.Ev["partition symbols"]++
	case cols:
		// split or horz
		sum := two([]int{vert, split, horzA, vertA, vertB, vert4})
		x := b2i(t.X.P(50))
		t.K.E.Put([]int{32768 - sum, 32768, 0}, x)
		p = []int{horz, split}[x]
		t.Ev["partition at the bottom edge"]++
	case rows:
		sum := two([]int{horz, split, horzA, horzB, vertA, horz4})
		x := b2i(t.X.P(50))
		if forbidden(vert) {
			x = 1
		}
		t.K.E.Put([]int{32768 - sum, 32768, 0}, x)
		p = []int{vert, split}[x]
		t.Ev["partition at the right edge"]++
	default:
		t.Ev["partition in the corner"]++
	}
	t.Ev[[]string{"none", "horz", "vert", "split", "horz_a", "horz_b", "vert_a", "vert_b", "horz_4", "vert_4"}[p]+" partitions"]++
	h := n / 2
	switch p {
	case none:
		t.block(r, c, n, n)
	case horz:
		t.block(r, c, n, h)
		if rows {
			t.block(r+half, c, n, h)
		}
	case vert:
		t.block(r, c, h, n)
		if cols {
			t.block(r, c+half, h, n)
		}
	case split:
		for i := 0; i < 4; i++ {
			t.partition(r+i/2*half, c+i%2*half, h)
		}
	case horzA:
		t.block(r, c, h, h)
		t.block(r, c+half, h, h)
		t.block(r+half, c, n, h)
	case horzB:
		t.block(r, c, n, h)
		t.block(r+half, c, h, h)
		t.block(r+half, c+half, h, h)
	case vertA:
		t.block(r, c, h, h)
		t.block(r+half, c, h, h)
		t.block(r, c+half, h, n)
	case vertB:
		t.block(r, c, h, n)
		t.block(r, c+half, h, h)
		t.block(r+half, c+half, h, h)
	case horz4:
		for i := 0; i < 4; i++ {
			if r+i*q < t.Rows {
				t.block(r+i*q, c, n, n/4)
			}
		}
	case vert4:
		for i := 0; i < 4; i++ {
			if c+i*q < t.Cols {
				t.block(r, c+i*q, n/4, n)
			}
		}
	}
}

// block codes one block of w x h samples.
func (t *Tile) block(r, c, w, h int) {
	b := &Blk{R: r, C: c, W: w, H: h, Size: blockOf(w, h), Ref: [2]int{0, -1}, Filter: -1}
	if b.Size < 0 {
		panic("model: no such block size")
	}
	t.Ev["blocks"]++
	b.Chroma = t.Planes > 1
	if w == 4 && t.SX == 1 && c&1 == 0 || h == 4 && t.SY == 1 && r&1 == 0 {
		b.Chroma = false
	}
	b.UpC, b.LeftC = t.inside(r-1, c), t.inside(r, c-1)
	if b.Chroma && h == 4 && t.SY == 1 {
		b.UpC = t.inside(r-2, c)
	}
	if b.Chroma && w == 4 && t.SX == 1 {
		b.LeftC = t.inside(r, c-2)
	}
	if t.Each != nil {
		t.place(b)
		t.Each(b)
		return
	}
	if t.Inter {
		t.interFrameMode(b)
	} else {
		t.intraFrameMode(b)
	}
	b.DeltaLF, b.QIdx = t.DeltaLF, t.QIdx
	t.colorMaps(b)
	t.txSize(b)
	if b.Skip {
		t.forget(b)
	}
	t.place(b)
	if b.Inter {
		t.InterPrediction(b)
	}
	t.residual(b)
}

func (t *Tile) place(b *Blk) {
	for i := 0; i < b.h4(); i++ {
		for j := 0; j < b.w4(); j++ {
			t.Grid[b.R+i][b.C+j] = b
		}
	}
}

// forget clears the coefficient contexts a block covers.
func (t *Tile) forget(b *Blk) {
	for p := 0; p < 3; p++ {
		if p > 0 && !b.Chroma {
			break
		}
		sx, sy := t.sub(p)
		for i := b.C >> sx; i <= (b.C+b.w4()-1)>>sx; i++ {
			t.levelA[p][i], t.dcA[p][i] = 0, 0
		}
		for i := b.R >> sy; i <= (b.R+b.h4()-1)>>sy; i++ {
			t.levelL[p][i], t.dcL[p][i] = 0, 0
		}
	}
}

func (t *Tile) segFeature(b *Blk, f int) bool { return t.Seg && t.SegOn[b.Seg][f] == 1 }

func (t *Tile) intraFrameMode(b *Blk) {
	if t.PreSkip {
		t.segmentId(b)
	}
	t.skip(b)
	if !t.PreSkip {
		t.segmentId(b)
	}
	t.cdef(b)
	t.deltaQ(b)
	t.deltaLf(b)
	t.deltas = false
	if t.IntraBc && t.blockCopy(b) {
		return
	}
	up, left := t.at(b.R-1, b.C), t.at(b.R, b.C-1)
	class := func(n *Blk) int {
		if n == nil {
			return 0
		}
		return map[int]int{VPred: 1, HPred: 2, D45: 3, D67: 3, D135: 4, D113: 4, D157: 4, D203: 4, SmoothV: 1, SmoothH: 2}[n.YMode]
	}
	cdf := t.S.IntraFrameYModeCdf[class(up)][class(left)]
	b.YMode = t.K.Draw(cdf)
	if (t.PPalette > 0 || t.PFilter > 0) && t.X.P(50) {
		b.YMode = DC
	}
	t.K.Put(cdf, b.YMode)
	t.intraModes(b)
}

// intraModes codes what follows the luma mode of an intra block.
func (t *Tile) intraModes(b *Blk) {
	angle := func(mode int) int {
		if mode < VPred || mode > D67 || b.W*b.H < 64 {
			return 0
		}
		t.Ev["angle deltas"]++
		return t.K.Sym(t.S.AngleDeltaCdf[mode-VPred]) - 3
	}
	b.AngleY = angle(b.YMode)
	t.Ev["y mode "+modeNames[b.YMode]]++
	if b.Chroma {
		cfl := imax(b.W, b.H) <= 32
		if b.Lossless {
			cfl = b.W>>uint(t.SX) <= 4 && b.H>>uint(t.SY) <= 4
		}
		cdf := t.S.UVModeCflNotAllowedCdf[b.YMode]
		if cfl {
			cdf = t.S.UVModeCflAllowedCdf[b.YMode]
		}
		b.UVMode = t.K.Draw(cdf)
		if cfl && t.X.P(t.PCfl) {
			b.UVMode = CFL
		}
		if t.PPalette > 0 && t.X.P(40) {
			b.UVMode = DC
		}
		t.K.Put(cdf, b.UVMode)
		t.Ev["uv mode "+modeNames[b.UVMode]]++
		if b.UVMode == CFL {
			joint := t.K.Sym(t.S.CflSignCdf) + 1
			sign := [2]int{joint / 3, joint % 3} // zero, negative, positive
			for i := range sign {
				if sign[i] == 0 {
					continue
				}
				a := t.K.Sym(t.S.CflAlphaCdf[3*(sign[i]-1)+sign[1-i]]) + 1
				if sign[i] == 1 {
					a = -a
				}
				b.Alpha[i] = a
			}
		}
		b.AngleUV = angle(b.UVMode)
	}
	if t.Screen && b.W*b.H >= 64 && b.W <= 64 && b.H <= 64 {
		t.palettes(b)
	}
	if t.FilterIntra && b.YMode == DC && len(b.Pal[0]) == 0 && imax(b.W, b.H) <= 32 {
		if t.K.Bool(t.S.FilterIntraCdf[b.Size], imax(30, t.PFilter)) {
			b.Filter = t.K.Sym(t.S.FilterIntraModeCdf)
			t.Ev["filter intra blocks"]++
		}
	}
}

var modeNames = []string{"DC", "V", "H", "D45", "D135", "D113", "D157", "D203", "D67", "SMOOTH", "SMOOTH_V", "SMOOTH_H", "PAETH", "CFL"}

func (t *Tile) skip(b *Blk) {
	if t.PreSkip && t.segFeature(b, 6) {
		b.Skip = true
		t.Ev["skipped by segment"]++
		return
	}
	ctx := 0
	for _, n := range []*Blk{t.at(b.R-1, b.C), t.at(b.R, b.C-1)} {
		if n != nil && n.Skip {
			ctx++
		}
	}
	b.Skip = t.K.Bool(t.S.SkipCdf[ctx], t.PSkip)
	if b.Skip {
		t.Ev["skipped blocks"]++
	}
}

// segmentId codes the segment of a block of an intra frame.
func (t *Tile) segmentId(b *Blk) {
	if t.Seg {
		t.readSegment(b)
	}
	b.Lossless = t.Lossless[b.Seg]
}

func (t *Tile) readSegment(b *Blk) {
	id := func(n *Blk) int {
		if n == nil {
			return -1
		}
		return n.Seg
	}
	u, l := id(t.at(b.R-1, b.C)), id(t.at(b.R, b.C-1))
	ul := -1
	if u >= 0 && l >= 0 {
		ul = id(t.at(b.R-1, b.C-1))
	}
	pred := 0
	switch {
	case u < 0 && l >= 0:
		pred = l
	case u >= 0 && l < 0:
		pred = u
	case u >= 0 && ul == u:
		pred = u
	case u >= 0:
		pred = l
	}
	if b.Skip {
		b.Seg = pred
		t.Ev["segments predicted"]++
		return
	}
	ctx := 0
	if ul >= 0 {
		if ul == u && u == l {
			ctx = 2
		} else if ul == u || ul == l || u == l {
			ctx = 1
		}
	}
	s := t.K.Draw(t.S.SegmentIdCdf[ctx])
	if t.Strict && s > t.LastSeg {
		s = t.K.R.N(t.LastSeg + 1)
	}
	t.K.Put(t.S.SegmentIdCdf[ctx], s)
	b.Seg = iclip(0, t.LastSeg, fromDiff(s, pred, t.LastSeg+1))
	t.Ev["segments read"]++
	if b.Seg != pred {
		t.Ev["segments other than predicted"]++
	}
}

// fromDiff lists the values 0..max-1 by their distance from ref, larger first,
// and gives the one at position d.
func fromDiff(d, ref, max int) int {
	if d >= max {
		if ref == 0 || 2*ref < max && ref < max-1 {
			return d
		}
		return max - d - 1
	}
	list := []int{ref}
	for k := 1; len(list) < max; k++ {
		if ref+k < max {
			list = append(list, ref+k)
		}
		if ref-k >= 0 {
			list = append(list, ref-k)
		}
	}
	return list[d]
}

func (t *Tile) cdef(b *Blk) {
	if b.Skip || t.CodedLossless || !t.Cdef || t.IntraBc {
		return
	}
	r, c := b.R&^15, b.C&^15
	if t.Cdefs[r][c] != -1 {
		return
	}
	x := t.K.Lit(t.CdefBits)
	for y := r; y < r+b.h4(); y += 16 {
		for z := c; z < c+b.w4(); z += 16 {
			t.Cdefs[y][z] = x
		}
	}
	t.Ev["cdef indices"]++
}

func (t *Tile) bigSkip(b *Blk) bool { return b.Skip && b.W == 4*t.sbSize() && b.H == b.W }

// delta codes a signed number with an escape for large ones.
func (t *Tile) delta(cdf []int) int {
	a := t.K.Sym(cdf)
	if a == 3 {
		n := t.K.Lit(3) + 1
		a = t.K.Lit(n) + 1<<uint(n) + 1
	}
	if a != 0 && t.K.Lit(1) == 1 {
		a = -a
	}
	return a
}

func (t *Tile) deltaQ(b *Blk) {
	if !t.deltas || t.bigSkip(b) {
		return
	}
	if d := t.delta(t.S.DeltaQCdf); d != 0 {
		t.QIdx = iclip(1, 255, t.QIdx+d<<uint(t.DeltaQRes))
	}
	t.Ev["quantiser deltas"]++
}

func (t *Tile) deltaLf(b *Blk) {
	if !t.deltas || t.bigSkip(b) || !t.DeltaLf {
		return
	}
	n := 1
	if t.DeltaLfMulti {
		n = 2
		if t.Planes > 1 {
			n = 4
		}
	}
	for i := 0; i < n; i++ {
		cdf := t.S.DeltaLFCdf
		if t.DeltaLfMulti {
			cdf = t.S.DeltaLFMultiCdf[i]
		}
		if d := t.delta(cdf); d != 0 {
			t.DeltaLF[i] = iclip(-63, 63, t.DeltaLF[i]+d<<uint(t.DeltaLfRes))
		}
		t.Ev["loop filter deltas"]++
	}
}

// txSize codes the transform size.
func (t *Tile) txSize(b *Blk) {
	w, h := imin(b.W, 64), imin(b.H, 64)
	max := [2]int{w, h}
	if t.TxSelect && b.W*b.H > 16 && b.Inter && !b.Skip && !b.Lossless {
		for i := 0; i < b.H; i += h {
			for j := 0; j < b.W; j += w {
				t.varTx(b, b.R+i/4, b.C+j/4, w, h, 0)
			}
		}
		return
	}
	if b.Lossless {
		w, h = 4, 4
	} else if t.TxSelect && b.W*b.H > 16 && (!b.Skip || !b.Inter) {
		ctx := 0
		if t.aboveTxW(b) >= max[0] {
			ctx++
		}
		if t.leftTxH(b) >= max[1] {
			ctx++
		}
		var cdf []int
		switch imax(w, h) {
		case 64:
			cdf = t.S.Tx64x64Cdf[ctx]
		case 32:
			cdf = t.S.Tx32x32Cdf[ctx]
		case 16:
			cdf = t.S.Tx16x16Cdf[ctx]
		default:
			cdf = t.S.Tx8x8Cdf[ctx]
		}
		depth := t.K.Sym(cdf)
		for i := 0; i < depth; i++ {
			w, h = splitTx(w, h)
		}
		t.Ev["transform depths"]++
		if depth > 0 {
			t.Ev["split transforms"]++
		}
	}
	b.Tx = txOf(w, h)
	for i := 0; i < b.h4(); i++ {
		for j := 0; j < b.w4(); j++ {
			t.InterTx[b.R+i][b.C+j] = b.Tx
		}
	}
}

func splitTx(w, h int) (int, int) {
	switch {
	case w > h:
		return w / 2, h
	case h > w:
		return w, h / 2
	case w > 4:
		return w / 2, h / 2
	}
	return w, h
}

func (t *Tile) aboveTxW(b *Blk) int {
	n := t.at(b.R-1, b.C)
	if n == nil {
		return 0
	}
	if n.Inter {
		return n.W
	}
	return 1 << uint(TxW[t.InterTx[b.R-1][b.C]])
}

func (t *Tile) leftTxH(b *Blk) int {
	n := t.at(b.R, b.C-1)
	if n == nil {
		return 0
	}
	if n.Inter {
		return n.H
	}
	return 1 << uint(TxH[t.InterTx[b.R][b.C-1]])
}

// lrUnits is the number of restoration units of a plane.
func (t *Tile) lrUnits(p int) (rows, cols int) {
	sx, sy := t.sub(p)
	n := t.LrUnit[p]
	count := func(size int) int { return imax(1, (size+n/2)/n) }
	return count((t.FrameH + int(sy)) >> sy), count((t.UpscaledW + int(sx)) >> sx)
}

// readLr codes the parameters of the restoration units that start in the
// superblock.
func (t *Tile) readLr(r, c int) {
	if t.IntraBc {
		return
	}
	n := t.sbSize()
	for p := 0; p < t.Planes; p++ {
		if t.LrType[p] == 0 {
			continue
		}
		sx, sy := t.sub(p)
		rows, cols := t.lrUnits(p)
		for i := 0; i < rows; i++ {
			y := i * t.LrUnit[p]
			if y < r*4>>sy || y >= (r+n)*4>>sy {
				continue
			}
			for j := 0; j < cols; j++ {
				// superblocks are in units of the downscaled frame
				num, x := 4>>sx, j*t.LrUnit[p]
				if t.SuperRes {
					num, x = num*t.Denom, x*8
				}
				if x < c*num || x >= (c+n)*num {
					continue
				}
				t.lrUnit(p, i, j)
			}
		}
	}
}

func (t *Tile) lrUnit(p, i, j int) {
	const wiener, selfGuided = 1, 2
	kind := 0
	switch t.LrType[p] {
	case wiener:
		kind = wiener * b2i(t.K.Bool(t.S.UseWienerCdf, 60))
	case selfGuided:
		kind = selfGuided * b2i(t.K.Bool(t.S.UseSgrprojCdf, 60))
	default:
		kind = t.K.Sym(t.S.RestorationTypeCdf)
	}
	t.LrKind[p][i][j] = kind
	t.Ev["restoration units"]++
	switch kind {
	case wiener:
		t.Ev["wiener units"]++
		for pass := 0; pass < 2; pass++ {
			first := 0
			if p > 0 {
				first = 1
			}
			var taps [3]int
			for k := first; k < 3; k++ {
				lo, hi := []int{-5, -23, -17}[k], []int{10, 8, 46}[k]
				taps[k] = t.subexp(lo, hi, k+1, t.refTaps[p][pass][k])
				t.refTaps[p][pass][k] = taps[k]
			}
			t.LrTaps[p][i][j][pass] = taps
		}
	case selfGuided:
		t.Ev["self guided units"]++
		set := t.K.Lit(4)
		t.LrSet[p][i][j] = set
		var xqd [2]int
		if set < 10 || set >= 14 {
			xqd[0] = t.subexp(-96, 31, 4, t.refXqd[p][0])
		}
		if set < 14 {
			xqd[1] = t.subexp(-32, 95, 4, t.refXqd[p][1])
		} else {
			xqd[1] = iclip(-32, 95, 128-xqd[0])
		}
		t.LrXqd[p][i][j], t.refXqd[p] = xqd, xqd
	}
}

// subexp codes a value of lo..hi near ref.
func (t *Tile) subexp(lo, hi, k, ref int) int {
	x := t.X.In(lo, hi)
	if t.X.P(40) {
		x = iclip(lo, hi, ref+t.X.In(-4, 4))
	}
	n, v, r := hi-lo+1, x-lo, ref-lo
	if 2*r > n {
		v, r = n-1-v, n-1-r
	}
	d := recenter(r, v)
	base, width := 0, uint(k)
	for {
		if n <= base+3<<width {
			t.K.PutNS(n-base, d-base)
			return x
		}
		if d < base+1<<width {
			t.K.PutLit(1, 0)
			t.K.PutLit(int(width), d-base)
			return x
		}
		t.K.PutLit(1, 1)
		base += 1 << width
		if base > 1<<uint(k) {
			width++
		}
	}
}
