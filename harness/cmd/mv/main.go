// Motion vector prediction monitor (N01, N02).
package main

import (
	"fmt"
	"os"

	"go.uber.org/zap"

	"github.com/m4tthewde/gov1/internal/logger"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/model"
	v "github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

// frame is a frame of blocks whose motion is predicted, one after the other.
type frame struct {
	c      *model.TileCfg
	uh     uncompressedheader.UncompressedHeader
	sh     sequenceheader.SequenceHeader
	st     *state.State
	t      *tilegroup.TileGroup
	m      *model.Tile
	r      *v.RNG
	warps  bool
	refs   []int // the references in use
	pool   [][2]int
	pIntra int
	hash   uint64
	failed string
	where  string
}

func newFrame(r *v.RNG, warps bool, st *state.State, t *tilegroup.TileGroup) *frame {
	c := &model.TileCfg{Depth: 8, Planes: 1, SX: 1, SY: 1}
	c.SB128 = r.P(40)
	sb := 16
	if c.SB128 {
		sb = 32
	}
	dim := func() int { return 2 * r.In(1, r.Pick(2, 5, 9, 17)) }
	tile := func() (start, end, size int) {
		n := dim()
		start = sb * r.Pick(0, 0, 0, 1)
		if r.P(15) {
			n = sb
			return start, start + n, start + n + dim()
		}
		return start, start + n, start + n
	}
	c.R0, c.R1, c.Rows = tile()
	c.C0, c.C1, c.Cols = tile()
	c.FrameH, c.FrameW = c.Rows*4-r.N(8), c.Cols*4-r.N(8)
	c.UpscaledW = c.FrameW
	c.IntraBc = !warps && r.P(10)
	c.ForceInt = c.IntraBc || r.P(15)
	c.HighPrec = !c.ForceInt && r.P(60)
	c.PSplit, c.PNone = r.Pick(0, 20, 60), r.Pick(0, 20, 50)
	f := &frame{c: c, r: r, st: st, t: t, warps: warps, pIntra: r.Pick(0, 10, 10, 30, 70)}
	f.headers()
	f.motion()
	f.where = fmt.Sprintf("%dx%d frame, tile rows %d-%d columns %d-%d, high precision %v, integers %v, intra block copy %v", c.FrameW, c.FrameH, c.R0, c.R1, c.C0, c.C1, c.HighPrec, c.ForceInt, c.IntraBc)
	return f
}

func (f *frame) headers() {
	c, sh, uh, r, st := f.c, &f.sh, &f.uh, f.r, f.st
	st.MiRows, st.MiCols = c.Rows, c.Cols
	cc := &sh.ColorConfig
	cc.BitDepth, cc.NumPlanes, cc.MonoChrome = 8, 1, true
	cc.SubsamplingX, cc.SubsamplingY = true, true
	sh.Use128x128SuperBlock = c.SB128
	uh.FrameIsIntra, uh.AllowIntraBc = c.IntraBc, c.IntraBc
	uh.FrameType = 1 - bit(c.IntraBc)
	uh.ForceIntegerMv, uh.AllowHighPrecisionMv = c.ForceInt, c.HighPrec
	uh.FrameWidth, uh.FrameHeight, uh.UpscaledWidth = c.FrameW, c.FrameH, c.UpscaledW
	st.MiRowStart, st.MiRowEnd, st.MiColStart, st.MiColEnd = c.R0, c.R1, c.C0, c.C1
	st.CurrFrame = [3][][]int{}
	for ref := range c.Gm {
		g := &c.Gm[ref]
		*g = [6]int{0, 0, 1 << 16, 0, 0, 1 << 16}
		if ref == 0 {
			continue
		}
		c.GmType[ref] = r.Pick(0, 0, 1, 2, 3)
		small := r.Pick(40, 400, 2000, 8192)
		if c.GmType[ref] > 0 {
			span := r.Pick(1<<15, 1<<15, 1<<18)
			g[0], g[1] = r.In(-span, span), r.In(-span, span)
		}
		if c.GmType[ref] > 1 {
			g[2], g[3] = 1<<16+2*r.In(-small/2, small/2), 2*r.In(-small/2, small/2)
			g[4], g[5] = -g[3], g[2]
			if c.GmType[ref] == 3 {
				g[4], g[5] = 2*r.In(-small/2, small/2), 1<<16+2*r.In(-small/2, small/2)
			}
		}
		c.SignBias[ref] = r.P(40)
		uh.RefFrameSignBias[ref] = c.SignBias[ref]
		st.GmType[ref] = c.GmType[ref]
	}
	uh.GmParams = c.Gm
	tilegroup.ZzAllocateFrame(f.t, st, *uh, *sh)
	model.InitCdfs(st, r.N(256))
}

// mv is a motion vector the frame may hold.
func (f *frame) mv() [2]int {
	r := f.r
	if len(f.pool) > 0 && r.P(50) {
		return f.pool[r.N(len(f.pool))]
	}
	span := r.Pick(1, 7, 16, 64, 300, 2000, 1<<14-1)
	mv := [2]int{r.In(-span, span), r.In(-span, span)}
	if r.P(10) {
		mv[r.N(2)] = 0
	}
	return f.c.Precise(mv)
}

// motion prepares the motion vectors around and in the references.
func (f *frame) motion() {
	c, r, t, st := f.c, f.r, f.t, f.st
	for n := r.Pick(0, 2, 6, 20); n > 0; n-- {
		f.pool = append(f.pool, f.mv())
	}
	for n := r.In(1, 4); n > 0; n-- {
		f.refs = append(f.refs, r.In(1, 7))
	}
	if c.IntraBc {
		f.refs = []int{0}
	}
	// whatever other tiles hold must not matter
	for i := 0; i < c.Rows; i++ {
		for j := 0; j < c.Cols; j++ {
			if i >= c.R0 && i < c.R1 && j >= c.C0 && j < c.C1 {
				continue
			}
			b := &model.Blk{R: i, C: j, W: 4, H: 4, Size: r.N(22), Inter: true, Ref: [2]int{f.refs[0], -1}, YMode: model.NewMv}
			b.Mv = [2][2]int{f.mv(), f.mv()}
			f.install(b)
			st.MiSizes[i][j] = b.Size
		}
	}
	c.UseRefMvs = !c.IntraBc && !f.warps && r.P(40)
	f.uh.UseRefFrameMvs = c.UseRefMvs
	if !c.UseRefMvs {
		return
	}
	t.MotionFieldMvs = make([][][][2]int, 8)
	none := r.Pick(0, 20, 70)
	for ref := range c.Motion {
		for i := 0; i < c.Rows>>1; i++ {
			var row, other [][2]int
			for j := 0; j < c.Cols>>1; j++ {
				mv := f.mv()
				if len(f.pool) == 0 || r.P(60) {
					mv = [2]int{r.In(-400, 400), r.In(-400, 400)}
				}
				if r.P(none) {
					mv = [2]int{model.NoMotion, model.NoMotion}
				}
				row, other = append(row, mv), append(other, mv)
			}
			c.Motion[ref] = append(c.Motion[ref], row)
			t.MotionFieldMvs[ref] = append(t.MotionFieldMvs[ref], other)
		}
	}
}

func bit(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (f *frame) ref() int { return f.refs[f.r.N(len(f.refs))] }

// install gives the decoder a block, as decoding it would.
func (f *frame) install(b *model.Blk) {
	t, st, r := f.t, f.st, f.r
	for y := 0; y < b.H/4; y++ {
		for x := 0; x < b.W/4; x++ {
			i, j := b.R+y, b.C+x
			t.YModes[i][j] = b.YMode
			st.RefFrames[i][j] = b.Ref
			t.Mvs[i][j] = b.Mv
			if b.Ref[1] <= 0 {
				t.Mvs[i][j][1] = [2]int{r.In(-99, 99), r.In(-99, 99)}
			}
			t.IsInters[i][j] = bit(b.Inter)
			st.MiSizes[i][j] = b.Size
		}
	}
}

func (f *frame) describe(b *model.Blk) string {
	return fmt.Sprintf("%dx%d block at %d,%d with references %v of a %s", b.W, b.H, b.C*4, b.R*4, b.Ref, f.where)
}

// block is called for every block.
func (f *frame) block(b *model.Blk) {
	if f.failed != "" {
		return
	}
	r, st := f.r, f.st
	st.MiRow, st.MiCol, st.MiSize = b.R, b.C, b.Size
	st.AvailU, st.AvailL = b.R > f.c.R0, b.C > f.c.C0
	b.Ref = [2]int{0, -1}
	b.YMode = r.N(13)
	if r.P(f.pIntra) {
		f.install(b)
		return
	}
	short := b.W
	if b.H < short {
		short = b.H
	}
	b.Inter = true
	b.Ref[0] = f.ref()
	if b.Ref[0] > 0 && short >= 8 && r.P(40) {
		b.Ref[1] = f.ref()
		if b.Ref[1] <= b.Ref[0] && r.P(70) {
			b.Ref[1] = -1
		}
	}
	st.RefFrame = b.Ref
	b.IntraBc = f.c.IntraBc
	s := f.stack(b)
	if f.failed != "" {
		return
	}
	compound := b.Ref[1] > 0
	if compound {
		b.YMode = r.In(model.NearestNearestMv, model.NewNewMv)
	} else {
		b.YMode = r.In(model.NearestMv, model.NewMv)
	}
	if f.c.IntraBc {
		b.YMode = 0
	}
	for i := range b.Mv {
		b.Mv[i] = s.List[r.N(len(s.List))].Mv[i]
		switch {
		case b.YMode == model.GlobalMv || b.YMode == model.GlobalGlobalMv:
			b.Mv[i] = s.Global[i]
		case r.P(30):
			b.Mv[i] = f.mv()
		case r.P(30):
			b.Mv[i] = f.c.Precise([2]int{b.Mv[i][0] + r.In(-80, 80), b.Mv[i][1] + r.In(-80, 80)})
		}
	}
	if f.warps && !compound && short >= 8 {
		f.samples(b)
	}
	if b.Ref[0] > 0 && !compound && short >= 8 && r.P(10) {
		b.Ref[1] = 0
	}
	f.install(b)
}

func (f *frame) stack(b *model.Blk) *model.MvStack {
	t := f.t
	s := f.m.MvStack(b)
	if f.warps {
		return s
	}
	compound := b.Ref[1] > 0
	what := "the motion vectors predicted for a " + f.describe(b)
	if e := v.Catch(func() { tilegroup.ZzFindMvStack(t, compound, f.st, f.uh) }); e != nil {
		f.failed = fmt.Sprintf("%s: panic: %v\n%s", what, e.Value, v.Cut(e.Stack, 1200))
		return s
	}
	// no more than four can be used
	min := func(n int) int {
		if n > 4 {
			return 4
		}
		return n
	}
	found := min(s.Found)
	if min(t.NumMvFound) != found {
		f.failed = fmt.Sprintf("%s: %d, want %d", what, t.NumMvFound, s.Found)
		return s
	}
	for i := 0; i < len(s.List) && i < 4; i++ {
		for l := 0; l < 1+bit(compound); l++ {
			if got, want := t.RefStackMv[i][l], s.List[i].Mv[l]; got != want {
				f.failed = fmt.Sprintf("%s: entry %d for reference %d is %v, want %v", what, i, l, got, want)
			}
			f.hash = f.hash*31 + uint64(s.List[i].Mv[l][0]*65599+s.List[i].Mv[l][1])
		}
		if i+1 < found && t.DrlCtxStack[i] != s.Drl[i] {
			f.failed = fmt.Sprintf("%s: context of entry %d is %d, want %d", what, i, t.DrlCtxStack[i], s.Drl[i])
		}
	}
	for l := 0; l < 1+bit(compound); l++ {
		if t.GlobalMvs[l] != s.Global[l] {
			f.failed = fmt.Sprintf("%s: global motion of reference %d is %v, want %v", what, l, t.GlobalMvs[l], s.Global[l])
		}
	}
	got, want := [3]int{t.NewMvContext, t.RefMvContext, t.ZeroMvContext}, [3]int{s.NewCtx, s.RefCtx, s.ZeroCtx}
	if compound {
		got[2], want[2] = 0, 0
	}
	if got != want && !f.c.IntraBc {
		f.failed = fmt.Sprintf("%s: contexts are %v, want %v", what, got, want)
	}
	return s
}

func (f *frame) samples(b *model.Blk) {
	t := f.t
	t.Mv = b.Mv
	what := fmt.Sprintf("the samples for a warp of a %s with motion %v", f.describe(b), b.Mv[0])
	want := f.m.WarpSamples(b)
	f.m.Ev["samples for warps"] += int64(len(want))
	f.m.Ev["searches for samples"]++
	if e := v.Catch(func() { tilegroup.ZzFindWarpSamples(t, f.st) }); e != nil {
		f.failed = fmt.Sprintf("%s: panic: %v\n%s", what, e.Value, v.Cut(e.Stack, 1200))
		return
	}
	if t.NumSamples != len(want) {
		f.failed = fmt.Sprintf("%s: %d, want %d", what, t.NumSamples, len(want))
		return
	}
	for i, s := range want {
		for j, x := range s {
			if t.CandList[i][j] != x {
				f.failed = fmt.Sprintf("%s: sample %d is %v, want %v", what, i, t.CandList[i], s)
			}
			f.hash = f.hash*31 + uint64(x)
		}
	}
}

func (f *frame) run() {
	cdfs := &state.State{}
	model.CopyCdfs(cdfs, f.st)
	f.m = model.NewTile(f.c, &model.Coder{E: model.NewEncoder(), R: f.r, Uniform: 50}, cdfs, [3][][]int{})
	f.m.Each = f.block
	f.m.Code()
}

func check(run *v.Run, warps bool, nontrivial string) {
	run.Par("frames", run.Scale(8000, 400000), func(i int, r *v.RNG) {
		// the second frame finds the state the first one leaves
		st, t := &state.State{}, &tilegroup.TileGroup{}
		for k := 0; k < 2; k++ {
			f := newFrame(r, warps, st, t)
			f.run()
			run.Events(f.m.Ev)
			run.Eval(v.HashBytes([]byte(fmt.Sprint(f.where, f.hash))), f.m.Ev[nontrivial] > 0)
			if run.WantSample() {
				run.Sample(map[string]interface{}{"frame": f.where, "events": f.m.Ev})
			}
			if f.failed != "" {
				run.Violation(f.failed, map[string]interface{}{"case": i, "frame": k})
				return
			}
		}
	})
}

func main() {
	logger.Initialize()
	logger.Logger = zap.NewNop()
	run := v.Start(os.Args[1])
	switch run.Prop {
	case "N01":
		run.Rule = "random frames of inter blocks; nontrivial: motion vectors were predicted"
		check(run, false, "predicted motion vectors")
	case "N02":
		run.Rule = "random frames of inter blocks; nontrivial: samples for a warp were found"
		check(run, true, "samples for warps")
	}
	run.Finish()
}
