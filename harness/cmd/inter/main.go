// Inter prediction monitor (I01 to I04).
package main

import (
	"fmt"
	"os"

	"go.uber.org/zap"

	"github.com/m4tthewde/gov1/internal/logger"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/model"
	v "github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

// bias says how often blocks use what a property is about, in percent.
type bias struct {
	scaled, warp, global, compound, ii, obmc, intrabc int
}

// frame is a frame of blocks to predict, one after the other.
type frame struct {
	c      *model.TileCfg
	sh     sequenceheader.SequenceHeader
	uh     uncompressedheader.UncompressedHeader
	st     *state.State
	t      *tilegroup.TileGroup
	m      *model.Tile
	b      bias
	r      *v.RNG
	bc     bool // intra block copy
	n      int
	tags   map[string]bool
	failed string
	where  string
}

func newFrame(r *v.RNG, b bias) *frame {
	c := &model.TileCfg{Depth: r.Pick(8, 8, 10, 12), Planes: 3}
	switch r.N(5) {
	case 0:
		c.SX, c.SY, c.Planes = 1, 1, 1
	case 1:
		c.SX = 1
	case 2:
	default:
		c.SX, c.SY = 1, 1
	}
	c.SB128 = r.P(40)
	sb := 16
	if c.SB128 {
		sb = 32
	}
	dim := func() int { return 2 * r.In(1, r.Pick(2, 5, 9, 17)) }
	tile := func() (start, end, size int) {
		n := dim()
		start = sb * r.Pick(0, 0, 0, 1)
		if r.P(15) {
			n = sb
			return start, start + n, start + n + dim()
		}
		return start, start + n, start + n
	}
	c.R0, c.R1, c.Rows = tile()
	c.C0, c.C1, c.Cols = tile()
	c.FrameH, c.FrameW = c.Rows*4-r.N(8), c.Cols*4-r.N(8)
	c.UpscaledW = c.FrameW
	bc := r.P(b.intrabc)
	if !bc && r.P(10) {
		c.UpscaledW = c.FrameW * r.In(9, 16) / 8
	}
	c.ForceInt = r.P(5)
	c.HintBits = r.Pick(0, 3, 5, 7, 8, 8)
	c.Hint = r.N(1 << uint(c.HintBits))
	c.PSplit, c.PNone = r.Pick(0, 20, 60), r.Pick(0, 20, 50)

	f := &frame{c: c, b: b, r: r, bc: bc, tags: map[string]bool{}}
	f.c.IntraBc = f.bc
	f.headers()
	f.references()
	f.where = fmt.Sprintf("%dx%d frame, tile rows %d-%d columns %d-%d, depth %d, planes %d, subsampling %d%d", c.FrameW, c.FrameH, c.R0, c.R1, c.C0, c.C1, c.Depth, c.Planes, c.SX, c.SY)
	return f
}

func (f *frame) headers() {
	c, sh, uh, r := f.c, &f.sh, &f.uh, f.r
	st := &state.State{MiRows: c.Rows, MiCols: c.Cols}
	f.st, f.t = st, &tilegroup.TileGroup{}
	cc := &sh.ColorConfig
	cc.BitDepth, cc.NumPlanes, cc.MonoChrome = c.Depth, c.Planes, c.Planes == 1
	cc.SubsamplingX, cc.SubsamplingY = c.SX == 1, c.SY == 1
	sh.Use128x128SuperBlock, sh.EnableIntraEdgeFilter = c.SB128, r.Bool()
	sh.EnableOrderHint, sh.OrderHintBits = c.HintBits > 0, c.HintBits
	uh.FrameIsIntra = f.bc
	uh.FrameType = 1
	if f.bc {
		uh.AllowIntraBc = true
		uh.FrameType = 0
	}
	uh.ForceIntegerMv = c.ForceInt
	uh.FrameWidth, uh.FrameHeight, uh.UpscaledWidth = c.FrameW, c.FrameH, c.UpscaledW
	uh.OrderHint, uh.EnableOrderHint = c.Hint, sh.EnableOrderHint
	st.MiRowStart, st.MiRowEnd, st.MiColStart, st.MiColEnd = c.R0, c.R1, c.C0, c.C1
	st.CurrFrame = v.NewPicture(r, c.Rows*4+128, c.Cols*4+128, c.Depth)
	tilegroup.ZzAllocateFrame(f.t, st, *uh, *sh)
	model.InitCdfs(st, r.N(256))
}

// references gives the frame seven references out of eight stored frames.
func (f *frame) references() {
	c, r := f.c, f.r
	var stored [8]*model.RefPic
	for i := range stored {
		p := &model.RefPic{W: c.UpscaledW, H: c.FrameH, Hint: r.N(1 << uint(c.HintBits))}
		if c.UpscaledW > 2*c.FrameW {
			p.W = c.FrameW
		}
		if r.P(f.b.scaled) {
			size := func(n int) int {
				lo, hi := (n+15)/16, 2*n
				return r.Pick(r.In(lo, hi), r.In(lo, hi), n, clip(lo, hi, n+r.In(-8, 8)), hi, clip(lo, hi, n/2), lo)
			}
			p.W, p.H = size(c.FrameW), size(c.FrameH)
		} else if r.P(80) {
			p.W = c.FrameW
		}
		p.Pic = v.NewPicture(r, p.H, p.W, c.Depth)
		if r.P(10) {
			p.Hint = c.Hint
		}
		stored[i] = p
		f.t.FrameStore[i] = p.Pic
		f.st.RefUpscaledWidth[i], f.st.RefFrameHeight[i] = p.W, p.H
		f.st.RefFrameWidth[i] = r.In(1, 300) // before its upscaling
		f.st.RefMiCols[i], f.st.RefMiRows[i] = 2*((p.W+7)>>3), 2*((p.H+7)>>3)
		f.st.RefOrderHint[i] = p.Hint
	}
	for ref := 1; ref < 8; ref++ {
		i := r.N(8)
		f.uh.RefFrameIdx[ref-1] = i
		c.Refs[ref] = stored[i]
		f.uh.OrderHints[ref] = stored[i].Hint
	}
	for ref := range c.Gm {
		c.Gm[ref] = [6]int{0, 0, 1 << 16, 0, 0, 1 << 16}
		if ref == 0 {
			continue
		}
		g := &c.Gm[ref]
		c.GmType[ref] = r.Pick(0, 1, 2, 2, 3, 3)
		small := r.Pick(40, 400, 2000, 8192)
		switch c.GmType[ref] {
		case 1:
			g[0], g[1] = r.In(-1<<15, 1<<15), r.In(-1<<15, 1<<15)
		case 2, 3:
			span := r.Pick(1<<12, 1<<18, 1<<23)
			g[0], g[1] = r.In(-span, span), r.In(-span, span)
			g[2], g[3] = 1<<16+2*r.In(-small/2, small/2), 2*r.In(-small/2, small/2)
			g[4], g[5] = -g[3], g[2]
			if c.GmType[ref] == 3 {
				g[4], g[5] = 2*r.In(-small/2, small/2), 1<<16+2*r.In(-small/2, small/2)
			}
		}
		f.uh.GmParams[ref] = *g
		f.st.GmType[ref] = c.GmType[ref]
	}
	f.uh.GmParams[0] = c.Gm[0]
}

func clip(lo, hi, x int) int {
	if x < lo {
		return lo
	}
	if x > hi {
		return hi
	}
	return x
}

func bit(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (f *frame) mv() [2]int {
	r := f.r
	span := r.Pick(0, 7, 64, 300, 300, 1000, 1<<14-1)
	mv := [2]int{r.In(-span, span), r.In(-span, span)}
	if f.c.ForceInt || r.P(15) {
		mv[0], mv[1] = mv[0]&^7, mv[1]&^7
	}
	if r.P(10) {
		mv[r.N(2)] = 0
	}
	return mv
}

// choose decides how a block is predicted.
func (f *frame) choose(b *model.Blk) {
	r := f.r
	b.Ref, b.Compound = [2]int{0, -1}, model.CompAverage
	b.YMode = r.N(13)
	if f.bc {
		// from above or from the left, within the tile
		y, x, y1, x1 := b.R*4, b.C*4, f.c.R1*4-b.H, f.c.C1*4-b.W
		if above := r.Bool(); above {
			y1 = y - b.H
		} else {
			x1 = x - b.W
		}
		if y1 < f.c.R0*4 || x1 < f.c.C0*4 {
			return
		}
		b.IntraBc, b.Inter, b.YMode = true, true, 0
		b.Filt = [2]int{3, 3}
		b.Mv[0] = [2]int{8 * (r.In(f.c.R0*4, y1) - y), 8 * (r.In(f.c.C0*4, x1) - x)}
		return
	}
	if r.P(10) {
		return
	}
	b.Inter = true
	w, h := b.W, b.H
	short := w
	if h < w {
		short = h
	}
	b.Ref[0] = r.In(1, 7)
	b.YMode = r.In(model.NearestMv, model.NewMv)
	if r.P(f.b.global) {
		b.YMode = model.GlobalMv
	}
	b.Mv = [2][2]int{f.mv(), f.mv()}
	b.Filt = [2]int{r.N(4), r.N(4)}
	if r.P(60) {
		b.Filt[1] = b.Filt[0]
	}
	wedge := short >= 8 && w <= 32 && h <= 32
	switch {
	case short >= 8 && r.P(f.b.compound):
		b.Ref[1] = r.In(1, 7)
		b.YMode = r.In(model.NearestNearestMv, model.NewNewMv)
		if r.P(f.b.global) {
			b.YMode = model.GlobalGlobalMv
		}
		b.Compound = r.Pick(model.CompWedge, model.CompDiffWtd, model.CompAverage, model.CompDistance)
		if b.Compound == model.CompWedge && !wedge {
			b.Compound = model.CompDiffWtd
		}
		b.WedgeIdx, b.WedgeSign, b.MaskType = r.N(16), r.N(2), r.N(2)
	case short >= 8 && w <= 32 && h <= 32 && r.P(f.b.ii):
		b.Ref[1] = 0
		b.IIMode = r.N(4)
		b.Compound = model.CompIntra
		if wedge && r.Bool() {
			b.Compound = model.CompWedge
			b.WedgeIdx = r.N(16)
		}
	case short >= 8 && r.P(f.b.obmc):
		b.Motion = model.Obmc
	case short >= 8 && !f.c.ForceInt && !f.m.Scaled(b.Ref[0]) && r.P(f.b.warp):
		b.Motion = model.LocalWarp
		f.samples(b)
	}
	if b.Motion != model.SimpleMotion && b.YMode == model.GlobalMv && f.c.GmType[b.Ref[0]] > 1 {
		b.YMode = model.NewMv
	}
}

// samples gives a block neighbours to estimate its warp from.
func (f *frame) samples(b *model.Blk) {
	r := f.r
	y, x := (b.R*4+b.H/2-1)*8, (b.C*4+b.W/2-1)*8
	var lin [4]int // change of the motion over 256 eighths
	small := r.Pick(0, 4, 8, 20, 60)
	for i := range lin {
		lin[i] = r.In(-small, small)
	}
	noise := r.Pick(0, 0, 1, 3, 20, 300)
	n := r.In(1, 8)
	line := r.P(10)
	for i := 0; i < n; i++ {
		sy, sx := 8*r.In(-b.H/2-32, b.H/2), 8*r.In(-b.W/2-32, b.W/2)
		if line {
			sx = sy
		}
		dy := sy + b.Mv[0][0] + (lin[0]*sy+lin[1]*sx)/256 + r.In(-noise, noise)
		dx := sx + b.Mv[0][1] + (lin[2]*sy+lin[3]*sx)/256 + r.In(-noise, noise)
		b.Samples = append(b.Samples, [4]int{y + sy, x + sx, y + dy, x + dx})
	}
}

// install gives the decoder the block, as its syntax elements would.
func (f *frame) install(b *model.Blk) {
	t, st, r := f.t, f.st, f.r
	st.MiRow, st.MiCol, st.MiSize = b.R, b.C, b.Size
	t.HasChroma = b.Chroma
	st.AvailU, st.AvailL = b.R > f.c.R0, b.C > f.c.C0
	st.AvailUChroma, st.AvailLChroma = b.Chroma && b.UpC, b.Chroma && b.LeftC
	st.RefFrame = b.Ref
	t.YMode, t.IsInter, t.MotionMode, t.CompoundType = b.YMode, bit(b.Inter), b.Motion, b.Compound
	t.Mv, t.InterpFilter = b.Mv, b.Filt
	ii := b.Inter && b.Ref[1] == 0
	t.InterIntra = bit(ii)
	t.InterIntraMode, t.WedgeInterIntra = b.IIMode, bit(ii && b.Compound == model.CompWedge)
	if !ii {
		t.InterIntraMode, t.WedgeInterIntra = r.N(4), r.N(2)
	}
	t.WedgeIndex, t.WedgeSign, t.MaskType = b.WedgeIdx, b.WedgeSign, b.MaskType
	t.NumSamples, t.NumSamplesScanned = len(b.Samples), len(b.Samples)
	t.CandList = nil
	for i := 0; i < 8; i++ {
		s := []int{r.N(3000), r.N(3000), r.N(3000), r.N(3000)}
		if i < len(b.Samples) {
			copy(s, b.Samples[i][:])
		}
		t.CandList = append(t.CandList, s)
	}
	if b.Inter {
		t.UseFilterIntra, t.AngleDeltaY, t.AngleDeltaUV, t.PaletteSizeY, t.PaletteSizeUV = false, 0, 0, 0, 0
	}
	for y := 0; y < b.H/4; y++ {
		for x := 0; x < b.W/4; x++ {
			i, j := b.R+y, b.C+x
			t.YModes[i][j] = b.YMode
			st.RefFrames[i][j] = b.Ref
			t.InterpFilters[i][j] = b.Filt
			t.Mvs[i][j] = b.Mv
			if b.Ref[1] <= 0 {
				t.Mvs[i][j][1] = [2]int{r.In(-99, 99), r.In(-99, 99)}
			}
			t.IsInters[i][j] = t.IsInter
			st.MiSizes[i][j] = b.Size
		}
	}
}

func (f *frame) describe(b *model.Blk) string {
	s := fmt.Sprintf("%dx%d block at %d,%d of a %s: references %v, vectors %v, filters %v", b.W, b.H, b.C*4, b.R*4, f.where, b.Ref, b.Mv, b.Filt)
	if b.IntraBc {
		s += ", intra block copy"
	}
	for i, ref := range b.Ref {
		if ref > 0 {
			p := f.c.Refs[ref]
			s += fmt.Sprintf(", reference %d of %dx%d", i, p.W, p.H)
		}
	}
	s += fmt.Sprintf(", mode %d, motion mode %d, compound type %d", b.YMode, b.Motion, b.Compound)
	if b.Inter && b.Ref[1] >= 0 {
		s += fmt.Sprintf(" (inter-intra %d, wedge %d %d, mask %d)", b.IIMode, b.WedgeIdx, b.WedgeSign, b.MaskType)
	}
	return s
}

// predict is called for every block.
func (f *frame) predict(b *model.Blk) {
	if f.failed != "" {
		return
	}
	f.choose(b)
	f.install(b)
	if !b.Inter {
		return
	}
	f.n++
	f.m.InterPrediction(b)
	if e := v.Catch(func() { tilegroup.ZzPrediction(f.t, b.IntraBc, f.st, f.sh, f.uh) }); e != nil {
		f.failed = fmt.Sprintf("predicting a %s panics: %v\n%s", f.describe(b), e.Value, v.Cut(e.Stack, 1200))
		return
	}
	f.compare(b.R*4, b.C*4, b.H, b.W, "predicting a "+f.describe(b))
}

// compare compares a part of the pictures, given in luma samples.
func (f *frame) compare(y, x, h, w int, what string) {
	c := f.c
	for p := 0; p < c.Planes; p++ {
		sx, sy := 0, 0
		if p > 0 {
			sx, sy = c.SX, c.SY
		}
		for i := y >> uint(sy); i < (y+h)>>uint(sy) && i < c.Rows*4>>uint(sy); i++ {
			for j := x >> uint(sx); j < (x+w)>>uint(sx) && j < c.Cols*4>>uint(sx); j++ {
				if got, want := f.st.CurrFrame[p][i][j], f.m.Cur[p][i][j]; got != want {
					f.failed = fmt.Sprintf("%s: plane %d sample %d,%d is %d, want %d", what, p, j, i, got, want)
					return
				}
			}
		}
	}
}

func (f *frame) run() {
	cdfs := &state.State{}
	model.CopyCdfs(cdfs, f.st)
	var cur [3][][]int
	for p := range cur {
		cur[p] = v.CopyGrid(f.st.CurrFrame[p])
	}
	f.m = model.NewTile(f.c, &model.Coder{E: model.NewEncoder(), R: f.r, Uniform: 50}, cdfs, cur)
	f.m.Each = f.predict
	f.m.Code()
	if f.failed == "" {
		f.compare(0, 0, f.c.Rows*4, f.c.Cols*4, "after predicting the blocks of a "+f.where)
	}
}

func check(run *v.Run, b bias, nontrivial string) {
	run.Par("frames", run.Scale(6000, 120000), func(i int, r *v.RNG) {
		f := newFrame(r, b)
		f.run()
		run.Events(f.m.Ev)
		run.EventN("blocks predicted", int64(f.n))
		run.Eval(v.HashBytes([]byte(fmt.Sprint(f.where, f.st.CurrFrame[0][f.c.R0*4]))), f.m.Ev[nontrivial] > 0)
		if run.WantSample() {
			run.Sample(map[string]interface{}{"frame": f.where, "blocks": f.n, "events": f.m.Ev})
		}
		if f.failed != "" {
			run.Violation(f.failed, map[string]interface{}{"case": i})
		}
	})
}

func main() {
	logger.Initialize()
	logger.Logger = zap.NewNop()
	run := v.Start(os.Args[1])
	switch run.Prop {
	case "I01":
		run.Rule = "blocks predicted from references of the same and of other sizes, and from the frame itself; nontrivial: a translated prediction"
		check(run, bias{scaled: 40, intrabc: 15, compound: 10}, "translated predictions")
	case "I02":
		run.Rule = "blocks warped by global motion and by warps fitted to samples; nontrivial: a warped prediction"
		check(run, bias{scaled: 5, warp: 70, global: 40, compound: 20}, "warped predictions")
	case "I03":
		run.Rule = "compound and inter-intra blocks of all types; nontrivial: an inter predicted block"
		check(run, bias{scaled: 5, global: 5, compound: 60, ii: 70}, "translated predictions")
	case "I04":
		run.Rule = "blocks overlapped with the motion of the blocks above and to the left; nontrivial: an overlapped prediction"
		check(run, bias{scaled: 15, compound: 10, ii: 5, obmc: 90}, "overlapped predictions")
	}
	run.Finish()
}
