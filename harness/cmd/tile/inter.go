package main

import (
	"github.com/m4tthewde/gov1/internal/zzverif/model"
	v "github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

// copySize gives a frame with block copies room for them: sources are at least
// 256 samples behind.
func copySize(r *v.RNG, c *model.TileCfg) {
	if r.P(60) {
		c.Rows, c.Cols = 2*r.In(34, 60), 2*r.In(1, r.Pick(4, 10))
	} else {
		c.Rows, c.Cols = 2*r.In(1, r.Pick(4, 16)), 2*r.In(42, 70)
	}
	c.R0, c.R1, c.C0, c.C1 = 0, c.Rows, 0, c.Cols
	sb := 16
	if c.SB128 {
		sb = 32
	}
	if r.P(20) {
		// tiles follow and come before
		c.R0 = sb * r.N(3)
		c.Rows, c.R1 = c.Rows+c.R0, c.R1+c.R0
		c.Cols = (c.Cols+sb-1)/sb*sb + 2*r.In(1, 8)
		c.C1 = c.Cols / sb * sb
	}
}

// interChoices decides what an inter frame may use.
func interChoices(r *v.RNG, c *model.TileCfg) {
	c.ForceInt = r.P(10)
	c.HighPrec = !c.ForceInt && r.P(60)
	c.HintBits = r.Pick(0, 3, 5, 7, 8, 8)
	c.Hint = r.N(1 << uint(c.HintBits))
	c.UpdateMap = r.P(80)
	c.Temporal = c.UpdateMap && r.P(60)
	c.RefSelect = r.P(85)
	c.SkipModeOn = c.RefSelect && r.P(50)
	c.SkipModeRefs = [2]int{r.In(1, 4), r.In(5, 7)}
	c.SwitchMotion, c.AllowWarp = r.P(75), r.P(75)
	c.InterpFilter = r.Pick(0, 1, 2, 3, model.Switchable, model.Switchable, model.Switchable, model.Switchable)
	c.Dual, c.Masked, c.Jnt, c.InterIntra = r.P(60), r.P(75), c.HintBits > 0 && r.P(75), r.P(70)
	c.PInter, c.PSkipMode, c.PCompound = r.Pick(50, 80, 95), r.Pick(10, 50), r.Pick(20, 50, 80)
	c.PInterIntra = r.Pick(10, 50)
	for ref := range c.Gm {
		g := &c.Gm[ref]
		*g = [6]int{0, 0, 1 << 16, 0, 0, 1 << 16}
		if ref == 0 {
			continue
		}
		c.GmType[ref] = r.Pick(0, 0, 1, 2, 3)
		small := r.Pick(40, 400, 2000, 8192)
		if c.GmType[ref] > 0 {
			span := r.Pick(1<<15, 1<<15, 1<<18)
			g[0], g[1] = r.In(-span, span), r.In(-span, span)
		}
		if c.GmType[ref] > 1 {
			g[2], g[3] = 1<<16+2*r.In(-small/2, small/2), 2*r.In(-small/2, small/2)
			g[4], g[5] = -g[3], g[2]
			if c.GmType[ref] == 3 {
				g[4], g[5] = 2*r.In(-small/2, small/2), 1<<16+2*r.In(-small/2, small/2)
			}
		}
		c.SignBias[ref] = r.P(40)
	}
}

// interHeaders tells the decoder about an inter frame.
func (f *frame) interHeaders(r *v.RNG) {
	c, sh, uh, st := f.c, &f.sh, &f.uh, f.st
	uh.FrameIsIntra, uh.FrameType = false, 1
	uh.ForceIntegerMv, uh.AllowHighPrecisionMv = c.ForceInt, c.HighPrec
	uh.SkipModePresent, uh.SkipModeFrame = bit(c.SkipModeOn), c.SkipModeRefs
	uh.ReferenceSelect, uh.IsMotionModeSwitchable, uh.AllowWarpedMotion = c.RefSelect, c.SwitchMotion, c.AllowWarp
	uh.InterpolationFilter = c.InterpFilter
	uh.SegmentationUpdateMap, uh.SegmentationTemporalUpdate = bit(c.UpdateMap), bit(c.Temporal)
	sh.EnableDualFilter, sh.EnableMaskedCompound, sh.EnableJntComp, sh.EnableInterIntraCompound = c.Dual, c.Masked, c.Jnt, c.InterIntra
	sh.EnableOrderHint, sh.OrderHintBits = c.HintBits > 0, c.HintBits
	uh.EnableOrderHint, uh.OrderHint = sh.EnableOrderHint, c.Hint
	uh.GmParams, uh.RefFrameSignBias = c.Gm, c.SignBias
	st.GmType = c.GmType
	c.PrevSegs = make([][]int, c.Rows)
	st.PrevSegmentIds = make([][]int, c.Rows)
	far := r.Pick(10, 40, 90)
	for i := range c.PrevSegs {
		c.PrevSegs[i] = make([]int, c.Cols)
		for j := range c.PrevSegs[i] {
			x := r.N(c.LastSeg + 1)
			switch {
			case r.P(far):
			case j > 0:
				x = c.PrevSegs[i][j-1]
			case i > 0:
				x = c.PrevSegs[i-1][j]
			}
			c.PrevSegs[i][j] = x
		}
		st.PrevSegmentIds[i] = append([]int{}, c.PrevSegs[i]...)
	}
}

// references gives the frame seven references out of eight stored frames, and
// their motion.
func (f *frame) references(r *v.RNG) {
	c := f.c
	var stored [8]*model.RefPic
	scaled := r.Pick(0, 0, 20, 50)
	for i := range stored {
		p := &model.RefPic{W: c.FrameW, H: c.FrameH, Hint: r.N(1 << uint(c.HintBits))}
		if c.UpscaledW <= 2*c.FrameW && r.P(30) {
			p.W = c.UpscaledW
		}
		if r.P(scaled) {
			size := func(n int) int {
				lo, hi := (n+15)/16, 2*n
				return r.Pick(r.In(lo, hi), n, clip(lo, hi, n+r.In(-8, 8)), hi, clip(lo, hi, n/2), lo)
			}
			p.W, p.H = size(c.FrameW), size(c.FrameH)
		}
		p.Pic = v.NewPicture(r, p.H, p.W, c.Depth)
		if r.P(10) {
			p.Hint = c.Hint
		}
		stored[i] = p
		f.t.FrameStore[i] = p.Pic
		f.st.RefUpscaledWidth[i], f.st.RefFrameHeight[i] = p.W, p.H
		f.st.RefFrameWidth[i] = r.In(1, 300)
		f.st.RefMiCols[i], f.st.RefMiRows[i] = 2*((p.W+7)>>3), 2*((p.H+7)>>3)
		f.st.RefOrderHint[i] = p.Hint
	}
	for ref := 1; ref < 8; ref++ {
		i := r.N(8)
		f.uh.RefFrameIdx[ref-1] = i
		c.Refs[ref] = stored[i]
		f.uh.OrderHints[ref] = stored[i].Hint
	}
	c.UseRefMvs = r.P(35)
	f.uh.UseRefFrameMvs = c.UseRefMvs
	if !c.UseRefMvs {
		return
	}
	f.t.MotionFieldMvs = make([][][][2]int, 8)
	none := r.Pick(0, 20, 70)
	for ref := range c.Motion {
		for i := 0; i < c.Rows>>1; i++ {
			var row, other [][2]int
			for j := 0; j < c.Cols>>1; j++ {
				span := r.Pick(16, 100, 400, 1000)
				mv := [2]int{r.In(-span, span), r.In(-span, span)}
				if r.P(none) {
					mv = [2]int{model.NoMotion, model.NoMotion}
				}
				row, other = append(row, mv), append(other, mv)
			}
			c.Motion[ref] = append(c.Motion[ref], row)
			f.t.MotionFieldMvs[ref] = append(f.t.MotionFieldMvs[ref], other)
		}
	}
}

// interMemory fills what only inter frames hold.
func (f *frame) interMemory(r *v.RNG) {
	c, t, st := f.c, f.t, f.st
	mv := func() [2]int { return [2]int{r.In(-2000, 2000), r.In(-2000, 2000)} }
	for i := 0; i < c.Rows; i++ {
		for j := 0; j < c.Cols; j++ {
			t.Mvs[i][j] = [2][2]int{mv(), mv()}
			t.InterpFilters[i][j] = [2]int{r.N(4), r.N(4)}
			t.CompGroupIdxs[i][j], t.CompoundIdxs[i][j] = r.N(2), r.N(2)
			if f.inTile(i, j) {
				// nothing there was decoded yet
				st.RefFrames[i][j] = [2]int{-1, -1}
			}
		}
	}
	t.Mv, t.InterpFilter = [2][2]int{mv(), mv()}, [2]int{r.N(4), r.N(4)}
	t.InterIntra, t.WedgeInterIntra, t.InterIntraMode = r.N(2), r.N(2), r.N(4)
	t.MotionMode, t.CompoundType, t.WedgeIndex, t.WedgeSign, t.MaskType = r.N(3), r.N(5), r.N(16), r.N(2), r.N(2)
	t.CompGroupIdx, t.CompoundIdx, t.RefMvIdx = r.N(2), r.N(2), r.N(4)
}
