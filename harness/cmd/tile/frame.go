package main

import (
	"fmt"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/model"
	v "github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

// frame is a frame with one tile to decode.
type frame struct {
	c      *model.TileCfg
	sh     sequenceheader.SequenceHeader
	uh     uncompressedheader.UncompressedHeader
	st     *state.State
	t      *tilegroup.TileGroup
	m      *model.Tile
	before before
	data   []byte
	pos    int
	where  string
}

// before is what the frame held before the tile was decoded.
type before struct {
	cur                                                    [3][][]int
	yModes, uvModes, inters, skipModes, skips, tx, interTx [][]int
	sizes, segs, palY, palUV                               [][]int
	lfTx                                                   [3][][]int
	lrType, lrSet                                          [3][][]int
	refs                                                   [][][2]int
	deltas                                                 [][][4]int
}

// bias steers the generator towards what a property is about.
type bias struct {
	skip      int // percent of skipped blocks, -1 for any
	seg       bool
	palette   bool
	modes     bool
	tx        bool
	lr        bool
	coefs     bool
	txType    bool
	partition bool
	deltas    bool
	small     bool
	pixels    bool
	inter     int // percent of inter frames
	copies    int // percent of frames with block copies
}

func newFrame(r *v.RNG, b bias) *frame {
	c := &model.TileCfg{Depth: r.Pick(8, 8, 10, 12), Planes: 3}
	switch r.N(5) {
	case 0:
		c.SX, c.SY, c.Planes = 1, 1, 1
	case 1:
		c.SX = 1
	case 2:
	default:
		c.SX, c.SY = 1, 1
	}
	c.SB128 = r.P(40)
	sb := 16
	if c.SB128 {
		sb = 32
	}
	dim := func() int {
		n := 2 * r.In(1, r.Pick(3, 8, 16, 24, 30))
		if b.small {
			n = 2 * r.In(1, r.Pick(4, 12, 18))
		}
		if b.inter > 0 {
			n = 2 * r.In(1, r.Pick(3, 12, 16, 20))
		}
		if b.partition && r.P(50) {
			n = 2 * r.In(1, 48)
		}
		return n
	}
	tile := func() (start, end, size int) {
		n := dim()
		start = sb * r.Pick(0, 0, 0, 1, 2)
		if n%sb == 0 && r.P(70) || r.P(20) {
			// tiles follow
			n = (n + sb - 1) / sb * sb
			return start, start + n, start + n + dim()
		}
		return start, start + n, start + n
	}
	c.R0, c.R1, c.Rows = tile()
	c.C0, c.C1, c.Cols = tile()
	c.FilterIntra, c.EdgeFilter = r.P(60), r.P(70)
	c.Screen = b.palette || r.P(25)
	switch x := r.N(100); {
	case x < b.inter:
		c.Inter = true
	case x < b.inter+b.copies:
		c.Screen, c.IntraBc = true, true
		copySize(r, c)
	default:
		c.IntraBc = c.Screen && r.P(8) && !b.lr && !b.deltas
	}
	c.NoAdapt = r.P(15)

	// segments and quantisers
	c.Seg = b.seg || r.P(25)
	if c.Seg {
		on := r.Pick(10, 30, 60)
		for i := range c.SegOn {
			for f := range c.SegOn[i] {
				if r.P(on) && (f < 5 || r.P(20)) {
					c.SegOn[i][f] = 1
					c.LastSeg = i
					if f >= 5 {
						c.PreSkip = true
					}
					switch {
					case f == 0:
						c.SegData[i][f] = r.In(-255, 255)
					case f < 5:
						c.SegData[i][f] = r.In(-63, 63)
					case f == 5:
						c.SegData[i][f] = r.N(8)
					}
				}
			}
		}
	}
	c.BaseQ = r.Pick(r.N(256), r.N(256), r.N(256), r.N(40), 255, 0)
	if r.P(60) {
		dq := func() int { return r.Pick(0, 0, r.In(-64, 63)) }
		c.YDc = dq()
		if c.Planes > 1 {
			c.UDc, c.UAc, c.VDc, c.VAc = dq(), dq(), dq(), dq()
		}
	}
	c.Qm = r.P(25)
	for p := range c.QmLevel {
		c.QmLevel[p] = r.N(16)
	}
	if c.BaseQ > 0 {
		c.DeltaQ = b.deltas || r.P(25)
	}
	if c.Seg && (b.txType && r.P(15) || r.P(5)) {
		// segments with quantiser zero where deltas move the quantiser
		c.BaseQ, c.DeltaQ = r.In(1, 40), true
		for i := range c.SegOn {
			if r.P(50) {
				c.SegOn[i][0], c.SegData[i][0] = 1, -r.In(c.BaseQ-1, c.BaseQ+10)
				if i > c.LastSeg {
					c.LastSeg = i
				}
			}
		}
		if r.P(80) {
			c.YDc = r.In(-10, 10)
		}
	}
	if c.DeltaQ {
		c.DeltaQRes = r.N(4)
		c.DeltaLf = !c.IntraBc && r.P(70)
		if c.DeltaLf {
			c.DeltaLfRes, c.DeltaLfMulti = r.N(4), r.Bool()
		}
	}
	c.CodedLossless = true
	for i := range c.Lossless {
		q := c.BaseQ
		if c.Seg && c.SegOn[i][0] == 1 {
			q = clip(0, 255, q+c.SegData[i][0])
		}
		c.Lossless[i] = q == 0 && c.YDc|c.UDc|c.UAc|c.VDc|c.VAc == 0
		c.CodedLossless = c.CodedLossless && c.Lossless[i]
	}
	c.TxSelect = !c.CodedLossless && (b.tx || r.P(70))
	c.ReducedTx = r.P(20)
	c.Cdef, c.CdefBits = r.P(75), r.N(4)

	// restoration
	c.FrameH, c.UpscaledW = c.Rows*4-r.N(8), c.Cols*4-r.N(8)
	if (r.P(25) || b.lr && r.P(50)) && !c.IntraBc {
		c.SuperRes, c.Denom = true, r.In(9, 16)
		w := c.UpscaledW
		c.UpscaledW = w * c.Denom / 8
		for (c.UpscaledW*8+c.Denom/2)/c.Denom < w {
			c.UpscaledW++
		}
	}
	if (b.lr || r.P(40)) && !c.CodedLossless && !c.IntraBc {
		shift := r.N(3)
		if c.SB128 {
			shift = r.In(1, 2)
		}
		for p := 0; p < c.Planes; p++ {
			c.LrType[p] = r.N(4)
			c.LrUnit[p] = 64 << uint(shift)
			if p > 0 && c.SX == 1 && c.SY == 1 && r.Bool() {
				c.LrUnit[p] /= 2
			}
		}
		if c.Planes == 3 {
			c.LrUnit[2] = c.LrUnit[1]
		}
	}

	// how blocks are chosen
	c.PSkip = r.Pick(0, 20, 50, 90)
	if b.skip >= 0 {
		c.PSkip = b.skip
	}
	c.PSplit, c.PNone = r.Pick(0, 20, 60), r.Pick(0, 0, 20, 50)
	c.PPalette = r.Pick(0, 20, 60)
	if b.palette {
		c.PPalette = r.Pick(50, 80)
	}
	c.PFilter, c.PCfl = r.Pick(0, 50), r.Pick(0, 30, 70)
	c.PZero = r.Pick(5, 30, 60)

	c.PTxSplit = r.Pick(20, 50, 80)
	if c.IntraBc {
		c.ForceInt = true
		if b.copies > 0 {
			c.PCopy = r.Pick(30, 90)
			c.PPalette = r.Pick(0, 0, c.PPalette)
		}
	}
	if c.Inter {
		interChoices(r, c)
	}

	f := &frame{c: c, pos: r.N(20)}
	f.headers(r)
	f.memory(r)
	if c.Inter {
		f.references(r)
	}
	if c.Inter || c.IntraBc {
		f.interMemory(r)
	}
	f.where = fmt.Sprintf("%dx%d mi, tile rows %d-%d columns %d-%d, depth %d, planes %d, subsampling %d%d, 128 %v, qidx %d", c.Cols, c.Rows, c.R0, c.R1, c.C0, c.C1,
		c.Depth, c.Planes, c.SX, c.SY, c.SB128, c.BaseQ)
	return f
}

func clip(lo, hi, x int) int {
	if x < lo {
		return lo
	}
	if x > hi {
		return hi
	}
	return x
}

func bit(b bool) int {
	if b {
		return 1
	}
	return 0
}

// headers tells the decoder about the frame.
func (f *frame) headers(r *v.RNG) {
	c, sh, uh := f.c, &f.sh, &f.uh
	st := &state.State{MiRows: c.Rows, MiCols: c.Cols}
	f.st, f.t = st, &tilegroup.TileGroup{}
	cc := &sh.ColorConfig
	cc.BitDepth, cc.NumPlanes, cc.MonoChrome = c.Depth, c.Planes, c.Planes == 1
	cc.SubsamplingX, cc.SubsamplingY = c.SX == 1, c.SY == 1
	sh.Use128x128SuperBlock, sh.EnableFilterIntra, sh.EnableIntraEdgeFilter, sh.EnableCdef = c.SB128, c.FilterIntra, c.EdgeFilter, c.Cdef
	uh.FrameIsIntra, uh.FrameType = true, 2*r.N(2)
	uh.AllowScreenContentTools, uh.AllowIntraBc = bit(c.Screen), c.IntraBc
	uh.SegmentationEnabled, uh.SegIdPreSkip, uh.LastActiveSegId = c.Seg, bit(c.PreSkip), c.LastSeg
	uh.SegmentationUpdateMap = 1
	st.FeatureEnabled, st.FeatureData = c.SegOn, c.SegData
	uh.LosslessArray, uh.CodedLossless = c.Lossless, c.CodedLossless
	uh.BaseQIdx, uh.DeltaQYDc, uh.DeltaQUDc, uh.DeltaQUAc, uh.DeltaQVDc, uh.DeltaQVAc = c.BaseQ, c.YDc, c.UDc, c.UAc, c.VDc, c.VAc
	uh.UsingQMatrix = c.Qm
	uh.Qmy, uh.Qmu, uh.Qmv = c.QmLevel[0], c.QmLevel[1], c.QmLevel[2]
	for p := range uh.SegQMLevel {
		for i := range uh.SegQMLevel[p] {
			uh.SegQMLevel[p][i] = c.QmLevel[p]
			if c.Lossless[i] || !c.Qm {
				uh.SegQMLevel[p][i] = 15
			}
		}
	}
	uh.DeltaQPresent, uh.DeltaQRes = c.DeltaQ, c.DeltaQRes
	uh.DeltaLfPresent, uh.DeltaLfRes, uh.DeltaLfMulti = c.DeltaLf, c.DeltaLfRes, bit(c.DeltaLfMulti)
	uh.TxMode = 1 + bit(c.TxSelect)
	if c.CodedLossless {
		uh.TxMode = 0
	}
	uh.ReducedTxSet = c.ReducedTx
	uh.CdefBits = c.CdefBits
	uh.FrameRestorationType = c.LrType
	st.LoopRestorationSize = c.LrUnit
	uh.FrameHeight, uh.UpscaledWidth = c.FrameH, c.UpscaledW
	uh.FrameWidth = c.UpscaledW
	uh.UseSuperRes, uh.SuperResDenom = c.SuperRes, 8
	if c.SuperRes {
		uh.SuperResDenom = c.Denom
		uh.FrameWidth = (c.UpscaledW*8 + c.Denom/2) / c.Denom
	}
	c.FrameW = uh.FrameWidth
	uh.DisableCdfUpdate = c.NoAdapt
	if c.IntraBc {
		uh.ForceIntegerMv = true
	}
	if c.Inter {
		f.interHeaders(r)
	}
	st.MiRowStart, st.MiRowEnd, st.MiColStart, st.MiColEnd = c.R0, c.R1, c.C0, c.C1
	st.CurrFrame = v.NewPicture(r, c.Rows*4+128, c.Cols*4+128, c.Depth)
	tilegroup.ZzAllocateFrame(f.t, st, *uh, *sh)
	model.InitCdfs(st, uh.BaseQIdx)
	if r.P(60) {
		model.RandomCdfs(st, r)
	}
}

// memory fills what decoding the tile must not look at.
func (f *frame) memory(r *v.RNG) {
	c, t, st, b := f.c, f.t, f.st, &f.before
	fill := func(g [][]int, n int) [][]int {
		for i := range g {
			for j := range g[i] {
				g[i][j] = r.N(n)
			}
		}
		return v.CopyGrid(g)
	}
	for p := range b.cur {
		b.cur[p] = v.CopyGrid(st.CurrFrame[p])
	}
	b.yModes, b.uvModes = fill(t.YModes, 13), fill(t.UVModes, 14)
	b.inters, b.skipModes, b.skips = fill(t.IsInters, 2), fill(t.SkipModes, 2), fill(t.Skips, 2)
	b.tx, b.interTx = fill(t.TxSizes, 19), fill(t.InterTxSizes, 19)
	fill(t.TxTypes, 16)
	b.sizes, b.segs = fill(st.MiSizes, 22), fill(t.SegmentIds, 8)
	b.palY, b.palUV = fill(t.PaletteSizes[0], 9), fill(t.PaletteSizes[1], 9)
	for p := range b.lfTx {
		b.lfTx[p] = fill(t.LoopFilterTxSizes[p], 19)
		b.lrType[p], b.lrSet[p] = fill(t.LrType[p], 3), fill(t.LrSgrSet[p], 16)
	}
	for i := range st.RefFrames {
		for j := range st.RefFrames[i] {
			st.RefFrames[i][j] = [2]int{r.N(8), r.In(-1, 7)}
			for k := range st.DeltaLFs[i][j] {
				st.DeltaLFs[i][j][k] = r.In(-63, 63)
			}
		}
		b.refs = append(b.refs, append([][2]int{}, st.RefFrames[i]...))
		b.deltas = append(b.deltas, append([][4]int{}, st.DeltaLFs[i]...))
	}
	for p := range st.BlockDecoded {
		for i := range st.BlockDecoded[p] {
			for j := range st.BlockDecoded[p][i] {
				st.BlockDecoded[p][i][j] = r.Bool()
			}
		}
	}
	for i := range st.DeltaLF {
		st.DeltaLF[i] = r.In(-63, 63)
	}
	// what the tile before left behind
	if c.R0 > 0 || c.C0 > 0 {
		st.TileNum = r.In(1, 4)
	}
	line := func(n int) []int {
		l := make([]int, n+32)
		for i := range l {
			l[i] = r.N(2)
		}
		return l
	}
	lines := func(n int) [][]int { return [][]int{line(n), line(n), line(n)} }
	t.AboveLevelContext, t.AboveDcContext, t.AboveSegPredContext = lines(c.Cols), lines(c.Cols), line(c.Cols)
	t.LeftLevelContext, t.LeftSegPredContext = lines(c.Rows), line(c.Rows)
	for p := range t.LeftDcContext {
		t.LeftDcContext[p] = line(c.Rows)
	}
	for p := range t.RefLrWiener {
		for pass := range t.RefLrWiener[p] {
			t.RefSgrXqd[p][pass] = r.In(-96, 95)
			for i := range t.RefLrWiener[p][pass] {
				t.RefLrWiener[p][pass][i] = r.In(-5, 10)
			}
		}
	}
	st.ReadDeltas, st.RefFrame = r.Bool(), [2]int{r.N(8), r.N(8)}
	t.UseFilterIntra, t.FilterIntraMode = r.Bool(), r.N(5)
	t.PaletteSizeY, t.PaletteSizeUV = r.N(9), r.N(9)
	t.AngleDeltaY, t.AngleDeltaUV, t.CflAlphaU, t.CflAlphaV = r.In(-3, 3), r.In(-3, 3), r.In(-16, 16), r.In(-16, 16)
	t.YMode, t.UVMode, t.SegmentId, t.Skip, t.SkipMode, t.IsInter = r.N(13), r.N(14), r.N(8), r.N(2), r.N(2), r.N(2)
	t.TxSize, t.Lossless = r.N(19), r.Bool()
	_ = c
}

// code generates the tile and its data.
func (f *frame) code(r *v.RNG) {
	cdfs := &state.State{}
	model.CopyCdfs(cdfs, f.st)
	k := &model.Coder{E: model.NewEncoder(), R: r, NoAdapt: f.c.NoAdapt, Uniform: r.Pick(0, 20, 60)}
	var cur [3][][]int
	for p := range cur {
		cur[p] = v.CopyGrid(f.st.CurrFrame[p])
	}
	f.m = model.NewTile(f.c, k, cdfs, cur)
	f.m.Code()
	f.data = k.E.Finish(1, func() int { return r.N(3) })
}

func (f *frame) decode() {
	data := append(make([]byte, f.pos), f.data...)
	data = append(data, 0xff, 0x55, 0xaa, 0xff, 0xff)
	b := bitstream.NewBitStream(data)
	b.Position = 8 * f.pos
	tilegroup.ZzDecodeTile(f.t, len(f.data), &b, f.st, f.uh, f.sh)
}
