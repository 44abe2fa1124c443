package model

import (
	"fmt"
	"reflect"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/header"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

// Install puts a reference state where the decoder keeps it.
func (f *Refs) Install(s *state.State) {
	for i := 0; i < 8; i++ {
		s.RefValid[i] = f.Valid[i]
		s.RefOrderHint[i] = f.OrderHint[i]
		s.RefFrameId[i] = f.FrameId[i]
		s.RefFrameType[i] = f.Type[i]
		k := &f.Saved[i]
		s.RefUpscaledWidth[i], s.RefFrameWidth[i], s.RefFrameHeight[i] = k.Upscaled, k.Width, k.Height
		s.RefRenderWidth[i], s.RefRenderHeight[i] = k.RenderW, k.RenderH
		s.RefMiCols[i], s.RefMiRows[i] = k.MiCols, k.MiRows
		s.SavedGmParams[i] = k.Gm
		s.SavedLoopFilterRefDeltas[i], s.SavedLoopFilterModeDeltas[i] = k.RefDeltas, k.ModeDeltas
		s.SavedFeatureEnabled[i], s.SavedFeatureData[i] = k.FeatEn, k.FeatData
		s.SavedSegmentIds[i] = nil
		for _, row := range k.Seg {
			s.SavedSegmentIds[i] = append(s.SavedSegmentIds[i], append([]int{}, row...))
		}
	}
	s.CurrentFrameId = f.CurrentId
}

// Dirty fills the state a header has to set or reset with garbage.
func Dirty(s *state.State, r *vlib.RNG) {
	for i := range s.FeatureEnabled {
		for j := range s.FeatureEnabled[i] {
			s.FeatureEnabled[i][j] = r.N(2)
			s.FeatureData[i][j] = r.In(-20, 20)
		}
	}
	for i := range s.PrevGmParams {
		s.GmType[i] = r.N(4)
		for j := range s.PrevGmParams[i] {
			s.PrevGmParams[i][j] = r.In(-1<<16, 1<<16)
		}
	}
	s.MiCols, s.MiRows = r.N(999), r.N(999)
	s.TileCols, s.TileRows, s.TileColsLog2, s.TileRowsLog2 = r.N(9), r.N(9), r.N(4), r.N(4)
	s.TileSizeBytes = r.N(5)
	s.TileNum = r.N(5)
	s.LoopRestorationSize = [3]int{r.N(999), r.N(999), r.N(999)}
	s.MiColStarts = []int{r.N(99), 4, 9}
	s.MiRowStarts = []int{r.N(99), 4, 9, 12}
}

// ParseSeq runs the decoder on a sequence header.
func ParseSeq(b *bitstream.BitStream, s *state.State) (sh sequenceheader.SequenceHeader, p *vlib.Panic) {
	p = vlib.Catch(func() { sh = sequenceheader.NewSequenceHeader(b, s) })
	return
}

// ParseFrame runs the decoder on a frame header.
func ParseFrame(b *bitstream.BitStream, s *state.State, sh sequenceheader.SequenceHeader, e Ext) (u uncompressedheader.UncompressedHeader, p *vlib.Panic) {
	h := header.Header{}
	h.ExtensionHeader.TemporalID = e.Temporal
	h.ExtensionHeader.SpatialID = e.Spatial
	p = vlib.Catch(func() { u = uncompressedheader.NewUncompressedHeader(h, sh, b, s) })
	return
}

// Place puts bits at a bit offset of a buffer between random bits.
func Place(w *vlib.Writer, r *vlib.RNG, offset int) []byte {
	o := &vlib.Writer{Quiet: true}
	for i := 0; i < offset; i++ {
		o.F("", 1, r.N(2))
	}
	o.Bit = append(o.Bit, w.Bit...)
	for i := r.N(40); i > 0; i-- {
		o.F("", 1, r.N(2))
	}
	return o.Bytes(func() int { return r.N(2) })
}

// Parts of a sequence header.
func (m *Seq) CmpGeneral(c *vlib.Cmp, h *sequenceheader.SequenceHeader) {
	c.Eq("seq_profile", h.SeqProfile, m.Profile)
	c.Eq("still_picture", h.StillPicture, m.Still)
	c.Eq("reduced_still_picture_header", h.ReducedStillPictureHeader, m.Reduced)
	c.Eq("frame_width_bits_minus_1", h.FrameWidthBitsMinusOne, m.WBits1)
	c.Eq("frame_height_bits_minus_1", h.FrameHeightBitsMinusOne, m.HBits1)
	c.Eq("max_frame_width_minus_1", h.MaxFrameWidthMinusOne, m.MaxW1)
	c.Eq("max_frame_height_minus_1", h.MaxFrameHeightMinusOne, m.MaxH1)
	c.Eq("frame_id_numbers_present_flag", h.FrameIdNumbersPresent, m.FrameIds)
	if m.FrameIds == 1 {
		c.Eq("delta_frame_id_length_minus_2", h.DeltaFrameIdLengthMinusTwo, m.DeltaIdLen2)
		c.Eq("additional_frame_id_length_minus_1", h.AdditionalFrameIdLengthMinusOne, m.AddIdLen1)
	}
	c.Eq("use_128x128_superblock", h.Use128x128SuperBlock, m.Sb128)
	c.Eq("enable_filter_intra", h.EnableFilterIntra, m.FilterIntra)
	c.Eq("enable_intra_edge_filter", h.EnableIntraEdgeFilter, m.IntraEdge)
	c.Eq("enable_interintra_compound", h.EnableInterIntraCompound, m.InterIntra)
	c.Eq("enable_masked_compound", h.EnableMaskedCompound, m.Masked)
	c.Eq("enable_warped_motion", h.EnableWarpedMotion, m.Warped)
	c.Eq("enable_dual_filter", h.EnableDualFilter, m.Dual)
	c.Eq("enable_order_hint", h.EnableOrderHint, m.OrderHint)
	c.Eq("enable_jnt_comp", h.EnableJntComp, m.Jnt)
	c.Eq("enable_ref_frame_mvs", h.EnableRefFrameMvs, m.RefMvs)
	c.Eq("seq_force_screen_content_tools", h.SeqForceScreenContentTools, m.ForceSct)
	c.Eq("seq_force_integer_mv", h.SeqForceIntegerMv, m.ForceImv)
	c.Eq("OrderHintBits", h.OrderHintBits, m.OrderHintBits)
	c.Eq("enable_superres", h.EnableSuperRes, m.SuperRes)
	c.Eq("enable_cdef", h.EnableCdef, m.Cdef)
	c.Eq("enable_restoration", h.EnableRestoration, m.Restoration)
	c.Eq("film_grain_params_present", h.FilmGrainParamsPresent, m.FilmGrain)
}

func (m *Seq) CmpOperating(c *vlib.Cmp, h *sequenceheader.SequenceHeader, s *state.State) {
	if m.TimingPresent == 1 {
		c.Eq("num_units_in_display_tick", h.TimingInfo.NumUnitsInDisplayTick, m.UnitsInTick)
		c.Eq("time_scale", h.TimingInfo.TimeScale, m.TimeScale)
		if m.EqualInterval == 1 {
			c.Eq("num_ticks_per_picture_minus_1", h.TimingInfo.NumTicksPerMinuteMinusOne, m.TicksPerPic1)
		}
	}
	c.Eq("equal_picture_interval", h.TimingInfo.EqualPictureInterval, m.EqualInterval)
	c.Eq("decoder_model_info_present_flag", h.DecoderModelInfoPresent, m.DecModel)
	if m.DecModel == 1 {
		c.Eq("buffer_delay_length_minus_1", h.DecoderModelInfo.BufferDelayLengthMinusOne, m.BufDelayLen1)
		c.Eq("num_units_in_decoding_tick", h.DecoderModelInfo.NumUnitsInDecodingTick, m.UnitsInDec)
		c.Eq("buffer_removal_time_length_minus_1", h.DecoderModelInfo.BufferRemovalTimeLengthMinusOne, m.RemovalLen1)
		c.Eq("frame_presentation_time_length_minus_1", h.DecoderModelInfo.FramePresentationTimeLengthMinusOne, m.PresLen1)
	}
	c.Eq("initial_display_delay_present_flag", h.InitialDisplayDelayPresent, m.InitDelay)
	c.Eq("operating_points_cnt_minus_1", h.OperatingPointsCountMinusOne, m.OpCnt1)
	at := func(name string, n int, i int, got func() interface{}, want int) {
		if i >= n {
			c.Eq(fmt.Sprintf("%s[%d]", name, i), "missing", want)
			return
		}
		c.Eq(fmt.Sprintf("%s[%d]", name, i), got(), want)
	}
	for i := 0; i <= m.OpCnt1; i++ {
		i := i
		at("operating_point_idc", len(h.OperatingPointIdc), i, func() interface{} { return h.OperatingPointIdc[i] }, m.Idc[i])
		at("seq_level_idx", len(h.SeqLevelIdx), i, func() interface{} { return h.SeqLevelIdx[i] }, m.Level[i])
		at("seq_tier", len(h.SeqTier), i, func() interface{} { return h.SeqTier[i] }, m.Tier[i])
		at("decoder_model_present_for_this_op", len(h.DecoderModelPresentForThisOp), i, func() interface{} { return h.DecoderModelPresentForThisOp[i] }, m.OpDecModel[i])
		if m.OpDecModel[i] == 1 {
			at("decoder_buffer_delay", len(h.DecoderBufferDelay), i, func() interface{} { return h.DecoderBufferDelay[i] }, m.DecDelay[i])
			at("encoder_buffer_delay", len(h.EncoderBufferDelay), i, func() interface{} { return h.EncoderBufferDelay[i] }, m.EncDelay[i])
			at("low_delay_mode_flag", len(h.LowDelayModeFlag), i, func() interface{} { return h.LowDelayModeFlag[i] }, m.LowDelay[i])
		}
		at("initial_display_delay_present_for_this_op", len(h.InitialDisplayDelayPresentForThisOp), i, func() interface{} { return h.InitialDisplayDelayPresentForThisOp[i] }, m.OpInit[i])
		if m.OpInit[i] == 1 {
			at("initial_display_delay_minus_1", len(h.InitialDisplayDelayMinusOne), i, func() interface{} { return h.InitialDisplayDelayMinusOne[i] }, m.OpInit1[i])
		}
	}
	c.Eq("OperatingPointIdc", s.OperatingPointIdc, m.Idc[0])
}

func (m *Color) Cmp(c *vlib.Cmp, h *sequenceheader.ColorConfig) {
	c.Eq("high_bitdepth", h.HighBitDepth, m.HighBitDepth)
	c.Eq("BitDepth", h.BitDepth, m.BitDepth)
	c.Eq("mono_chrome", h.MonoChrome, m.Mono)
	c.Eq("NumPlanes", h.NumPlanes, m.NumPlanes)
	c.Eq("color_primaries", h.ColorPrimaries, m.Cp)
	c.Eq("transfer_characteristics", h.TransferCharacteristics, m.Tc)
	c.Eq("matrix_coefficients", h.MatrixCoefficients, m.Mc)
	c.Eq("color_range", h.ColorRange, m.Range)
	c.Eq("subsampling_x", h.SubsamplingX, m.Ssx)
	c.Eq("subsampling_y", h.SubsamplingY, m.Ssy)
	c.Eq("chroma_sample_position", h.ChromaSamplePosition, m.Pos)
	c.Eq("separate_uv_delta_q", h.SeparateUvDeltaQ, m.SepUv)
}

// Header gives the model's values as the decoder's sequence header, for
// checks of what follows a sequence header.
func (m *Seq) Header() sequenceheader.SequenceHeader {
	b := func(v int) bool { return v != 0 }
	bs := func(v []int) []bool {
		o := []bool{}
		for _, x := range v {
			o = append(o, x != 0)
		}
		return o
	}
	h := sequenceheader.SequenceHeader{}
	h.SeqProfile = m.Profile
	h.StillPicture = b(m.Still)
	h.ReducedStillPictureHeader = b(m.Reduced)
	h.TimingInfo.EqualPictureInterval = b(m.EqualInterval)
	h.DecoderModelInfoPresent = b(m.DecModel)
	h.DecoderModelInfo.BufferDelayLengthMinusOne = m.BufDelayLen1
	h.DecoderModelInfo.BufferRemovalTimeLengthMinusOne = m.RemovalLen1
	h.DecoderModelInfo.FramePresentationTimeLengthMinusOne = m.PresLen1
	h.OperatingPointsCountMinusOne = m.OpCnt1
	h.OperatingPointIdc = m.Idc
	h.SeqLevelIdx = m.Level
	h.SeqTier = m.Tier
	h.DecoderModelPresentForThisOp = bs(m.OpDecModel)
	h.FrameWidthBitsMinusOne = m.WBits1
	h.FrameHeightBitsMinusOne = m.HBits1
	h.MaxFrameWidthMinusOne = m.MaxW1
	h.MaxFrameHeightMinusOne = m.MaxH1
	h.FrameIdNumbersPresent = b(m.FrameIds)
	h.AdditionalFrameIdLengthMinusOne = m.AddIdLen1
	h.DeltaFrameIdLengthMinusTwo = m.DeltaIdLen2
	h.Use128x128SuperBlock = b(m.Sb128)
	h.EnableFilterIntra = b(m.FilterIntra)
	h.EnableIntraEdgeFilter = b(m.IntraEdge)
	h.EnableInterIntraCompound = b(m.InterIntra)
	h.EnableMaskedCompound = b(m.Masked)
	h.EnableWarpedMotion = b(m.Warped)
	h.EnableDualFilter = b(m.Dual)
	h.EnableOrderHint = b(m.OrderHint)
	h.EnableJntComp = b(m.Jnt)
	h.EnableRefFrameMvs = b(m.RefMvs)
	h.SeqChooseScreenContentTools = b(m.ChooseSct)
	h.SeqForceScreenContentTools = m.ForceSct
	h.SeqChooseIntegerMv = b(m.ChooseImv)
	h.SeqForceIntegerMv = m.ForceImv
	h.OrderHintBits = m.OrderHintBits
	h.EnableSuperRes = b(m.SuperRes)
	h.EnableCdef = b(m.Cdef)
	h.EnableRestoration = b(m.Restoration)
	h.FilmGrainParamsPresent = b(m.FilmGrain)
	h.ColorConfig.HighBitDepth = b(m.Color.HighBitDepth)
	h.ColorConfig.TwelveBit = b(m.Color.TwelveBit)
	h.ColorConfig.MonoChrome = b(m.Color.Mono)
	h.ColorConfig.ColorPrimaries = m.Color.Cp
	h.ColorConfig.TransferCharacteristics = m.Color.Tc
	h.ColorConfig.MatrixCoefficients = m.Color.Mc
	h.ColorConfig.ColorRange = b(m.Color.Range)
	h.ColorConfig.SubsamplingX = b(m.Color.Ssx)
	h.ColorConfig.SubsamplingY = b(m.Color.Ssy)
	h.ColorConfig.ChromaSamplePosition = m.Color.Pos
	h.ColorConfig.SeparateUvDeltaQ = b(m.Color.SepUv)
	h.ColorConfig.NumPlanes = m.Color.NumPlanes
	h.ColorConfig.BitDepth = m.Color.BitDepth
	return h
}

// Parts of a frame header.
func (f *Frame) CmpGeneral(c *vlib.Cmp, u *uncompressedheader.UncompressedHeader, s *state.State, sq *Seq) {
	c.Eq("show_existing_frame", u.ShowExistingFrame, f.ShowExisting)
	c.Eq("frame_type", u.FrameType, f.Type)
	c.Eq("refresh_frame_flags", u.RefreshFrameFlags, f.RefreshFlags)
	if f.PresTimeRead {
		c.Eq("frame_presentation_time", u.FramePresentationTime, f.PresTime)
	}
	if f.ShowExisting == 1 {
		c.Eq("frame_to_show_map_idx", u.FrameToShowMapIdx, f.ToShow)
		if sq.FrameIds == 1 {
			c.Eq("display_frame_id", u.DisplayFrameId, f.DisplayId)
		}
		return
	}
	c.Eq("FrameIsIntra", u.FrameIsIntra, f.Intra)
	c.Eq("show_frame", u.ShowFrame, f.Show)
	c.Eq("showable_frame", u.ShowableFrame, f.Showable)
	c.Eq("disable_cdf_update", u.DisableCdfUpdate, f.DisableCdf)
	c.Eq("allow_screen_content_tools", u.AllowScreenContentTools, f.Sct)
	c.Eq("force_integer_mv", u.ForceIntegerMv, f.ForceImv)
	c.Eq("frame_size_override_flag", u.FrameSizeOverrideFlag, f.Override)
	c.Eq("order_hint", u.OrderHint, f.OrderHint)
	c.Eq("primary_ref_frame", u.PrimaryRefFrame, f.Primary)
	c.Eq("disable_frame_end_update_cdf", u.DisableFrameEndUpdateCdf, f.DisableEnd)
	c.Eq("use_ref_frame_mvs", u.UseRefFrameMvs, 0)
	if f.Intra == 0 {
		c.Eq("allow_high_precision_mv", u.AllowHighPrecisionMv, f.HighPrec)
		c.Eq("interpolation_filter", u.InterpolationFilter, f.Interp)
		c.Eq("is_motion_mode_switchable", u.IsMotionModeSwitchable, f.MotionSwitch)
	}
	c.Eq("reference_select", u.ReferenceSelect, f.RefSelect)
	c.Eq("allow_warped_motion", u.AllowWarpedMotion, f.Warped)
	c.Eq("reduced_tx_set", u.ReducedTxSet, f.ReducedTx)
}

func (f *Frame) CmpSize(c *vlib.Cmp, u *uncompressedheader.UncompressedHeader, s *state.State) {
	c.Eq("FrameWidth", u.FrameWidth, f.Width)
	c.Eq("FrameHeight", u.FrameHeight, f.Height)
	c.Eq("UpscaledWidth", u.UpscaledWidth, f.Upscaled)
	c.Eq("use_superres", u.UseSuperRes, f.UseSuperRes)
	c.Eq("SuperresDenom", u.SuperResDenom, f.Denom)
	c.Eq("RenderWidth", u.RenderWidth, f.RenderW)
	c.Eq("RenderHeight", u.RenderHeight, f.RenderH)
	c.Eq("MiCols", s.MiCols, f.MiCols)
	c.Eq("MiRows", s.MiRows, f.MiRows)
	c.Eq("allow_intrabc", u.AllowIntraBc, f.IntraBc)
}

func (f *Frame) CmpQuant(c *vlib.Cmp, u *uncompressedheader.UncompressedHeader, s *state.State) {
	c.Eq("base_q_idx", u.BaseQIdx, f.BaseQ)
	c.Eq("DeltaQYDc", u.DeltaQYDc, f.YDc)
	c.Eq("DeltaQUDc", u.DeltaQUDc, f.UDc)
	c.Eq("DeltaQUAc", u.DeltaQUAc, f.UAc)
	c.Eq("DeltaQVDc", u.DeltaQVDc, f.VDc)
	c.Eq("DeltaQVAc", u.DeltaQVAc, f.VAc)
	c.Eq("using_qmatrix", u.UsingQMatrix, f.UsingQm)
	if f.UsingQm == 1 {
		c.Eq("qm_y", u.Qmy, f.Qmy)
		c.Eq("qm_u", u.Qmu, f.Qmu)
		c.Eq("qm_v", u.Qmv, f.Qmv)
	}
	c.Eq("delta_q_present", u.DeltaQPresent, f.DeltaQ)
	c.Eq("delta_q_res", u.DeltaQRes, f.DeltaQRes)
	c.Eq("delta_lf_present", u.DeltaLfPresent, f.DeltaLf)
	c.Eq("delta_lf_res", u.DeltaLfRes, f.LfRes)
	c.Eq("delta_lf_multi", u.DeltaLfMulti, f.LfMulti)
	c.Eq("CodedLossless", u.CodedLossless, f.CodedLossless)
	c.Eq("AllLossless", u.AllLossless, f.AllLossless)
	c.Eq("LosslessArray", u.LosslessArray, f.Lossless)
	if f.UsingQm == 1 {
		for p := 0; p < 3; p++ {
			for i := 0; i < 8; i++ {
				want := [3]int{f.Qmy, f.Qmu, f.Qmv}[p]
				if f.Lossless[i] == 1 {
					want = 15
				}
				c.Eq(fmt.Sprintf("SegQMLevel[%d][%d]", p, i), u.SegQMLevel[p][i], want)
			}
		}
	}
	// get_qindex, for both values of ignoreDeltaQ
	for i := 0; i < 8; i++ {
		q, qd := f.BaseQ, f.BaseQ
		if f.DeltaQ == 1 {
			qd = s.CurrentQIndex
		}
		if f.SegEnabled == 1 && f.FeatEn[i][0] == 1 {
			q = clip(0, 255, f.BaseQ+f.FeatData[i][0])
			qd = q
			if f.DeltaQ == 1 {
				qd = clip(0, 255, s.CurrentQIndex+f.FeatData[i][0])
			}
		}
		i := i
		var g0, g1 int
		if p := vlib.Catch(func() { g1 = u.GetQIndex(1, i, s); g0 = u.GetQIndex(0, i, s) }); p != nil {
			c.Eq("get_qindex", p.Value, "a value")
		}
		c.Eq(fmt.Sprintf("get_qindex(1,%d)", i), g1, q)
		c.Eq(fmt.Sprintf("get_qindex(0,%d) with delta_q_present=%d", i, f.DeltaQ), g0, qd)
	}
}

func (f *Frame) CmpSeg(c *vlib.Cmp, u *uncompressedheader.UncompressedHeader, s *state.State) {
	c.Eq("segmentation_enabled", u.SegmentationEnabled, f.SegEnabled)
	if f.SegEnabled == 1 {
		c.Eq("segmentation_update_map", u.SegmentationUpdateMap, f.UpdateMap)
		c.Eq("segmentation_temporal_update", u.SegmentationTemporalUpdate, f.Temporal)
	}
	c.Eq("FeatureEnabled", s.FeatureEnabled, f.FeatEn)
	c.Eq("FeatureData", s.FeatureData, f.FeatData)
	c.Eq("SegIdPreSkip", u.SegIdPreSkip, f.PreSkip)
	c.Eq("LastActiveSegId", u.LastActiveSegId, f.LastActive)
	f.cmpMap(c, s)
}

func (f *Frame) cmpMap(c *vlib.Cmp, s *state.State) {
	c.Eq("rows of PrevSegmentIds", len(s.PrevSegmentIds), f.MiRows)
	for y, row := range s.PrevSegmentIds {
		if len(row) != f.MiCols {
			c.Eq(fmt.Sprintf("columns of PrevSegmentIds[%d]", y), len(row), f.MiCols)
			break
		}
		for x, v := range row {
			want := 0
			if f.PrevSegs != nil {
				want = f.PrevSegs[y][x]
			}
			if v != want {
				c.Eq(fmt.Sprintf("PrevSegmentIds[%d][%d]", y, x), v, want)
				return
			}
		}
	}
}

// CmpInherited compares what a frame takes from its primary reference frame,
// or the defaults if it has none.
func (f *Frame) CmpInherited(c *vlib.Cmp, u *uncompressedheader.UncompressedHeader, s *state.State) {
	c.Eq("primary_ref_frame", u.PrimaryRefFrame, f.Primary)
	f.cmpMap(c, s)
	c.Eq("FeatureEnabled", s.FeatureEnabled, f.FeatEn)
	c.Eq("FeatureData", s.FeatureData, f.FeatData)
	c.Eq("LastActiveSegId", u.LastActiveSegId, f.LastActive)
	c.Eq("loop_filter_ref_deltas", u.LoopFilterRefDeltas, f.RefDeltas)
	c.Eq("loop_filter_mode_deltas", u.LoopFilterModeDeltas, f.ModeDeltas)
	for ref := 1; ref <= 7; ref++ {
		c.Eq(fmt.Sprintf("PrevGmParams[%d]", ref), s.PrevGmParams[ref], f.PrevGm[ref])
		c.Eq(fmt.Sprintf("gm_params[%d] type %d", ref, f.GmType[ref]), u.GmParams[ref], f.Gm[ref])
	}
	for i := 0; i < 8; i++ {
		if c.Ok() {
			if d := vlib.DiffGrid(s.SavedSegmentIds[i], f.After.Saved[i].Seg, len(f.After.Saved[i].Seg), f.After.Saved[i].MiCols); d != "" {
				c.Diffs = append(c.Diffs, fmt.Sprintf("the segments kept in slot %d: %s", i, d))
			}
		}
	}
}

func (f *Frame) CmpFilters(c *vlib.Cmp, u *uncompressedheader.UncompressedHeader, s *state.State) {
	c.Eq("loop_filter_level[0]", u.LoopFilterLevel[0], f.LfLevel[0])
	c.Eq("loop_filter_level[1]", u.LoopFilterLevel[1], f.LfLevel[1])
	if f.LfChroma {
		c.Eq("loop_filter_level[2]", u.LoopFilterLevel[2], f.LfLevel[2])
		c.Eq("loop_filter_level[3]", u.LoopFilterLevel[3], f.LfLevel[3])
	}
	if f.LfRead {
		c.Eq("loop_filter_sharpness", u.LoopFilterSharpness, f.Sharp)
		c.Eq("loop_filter_delta_enabled", u.LoopFilterDeltaEnabled, f.LfDelta)
	}
	c.Eq("loop_filter_ref_deltas", u.LoopFilterRefDeltas, f.RefDeltas)
	c.Eq("loop_filter_mode_deltas", u.LoopFilterModeDeltas, f.ModeDeltas)
	c.Eq("CdefDamping", u.CdefDampening, f.Damping)
	c.Eq("cdef_bits", u.CdefBits, f.CdefBits)
	c.Eq("cdef_y_pri_strength", u.CdefYPriStrength, f.YPri)
	c.Eq("cdef_y_sec_strength", u.CdefYSecStrength, f.YSec)
	if !f.CdefRead || f.UvPri != nil {
		c.Eq("cdef_uv_pri_strength", u.CdefUVPriStrength, f.UvPri)
		c.Eq("cdef_uv_sec_strength", u.CdefUVSecStrength, f.UvSec)
	}
	for i := range f.LrType {
		c.Eq(fmt.Sprintf("FrameRestorationType[%d]", i), u.FrameRestorationType[i], f.LrType[i])
	}
	c.Eq("UsesLr", u.UsesLr, f.UsesLr)
	if f.UsesLr == 1 {
		c.Eq("LoopRestorationSize", s.LoopRestorationSize, f.LrSize)
	}
	c.Eq("TxMode", u.TxMode, f.TxMode)
}

func (t *Tiles) Cmp(c *vlib.Cmp, s *state.State, contextId int) {
	c.Eq("TileCols", s.TileCols, t.Cols)
	c.Eq("TileRows", s.TileRows, t.Rows)
	c.Eq("TileColsLog2", s.TileColsLog2, t.ColsLog2)
	c.Eq("TileRowsLog2", s.TileRowsLog2, t.RowsLog2)
	c.Eq("context_update_tile_id", contextId, t.ContextId)
	if t.SizeBytes > 0 {
		c.Eq("TileSizeBytes", s.TileSizeBytes, t.SizeBytes)
	}
	part := func(name string, got, want []int) {
		if len(got) < len(want) {
			c.Eq(name, got, want)
			return
		}
		c.Eq(name, got[:len(want)], want)
	}
	part("MiColStarts", s.MiColStarts, t.ColStarts)
	part("MiRowStarts", s.MiRowStarts, t.RowStarts)
}

func (f *Frame) CmpRefs(c *vlib.Cmp, u *uncompressedheader.UncompressedHeader, s *state.State, sq *Seq) {
	if sq.FrameIds == 1 {
		c.Eq("current_frame_id", u.CurrentFrameId, f.CurrentId)
		c.Eq("PrevFrameID", u.PrevFrameId, f.PrevId)
	}
	c.Eq("the frame id kept for the next frame", s.CurrentFrameId, f.After.CurrentId)
	c.Eq("RefValid", s.RefValid, f.After.Valid)
	for i := 0; i < 8; i++ {
		if !f.RefHintsRead || f.RefHintCoded[i] == f.After.OrderHint[i] {
			c.Eq(fmt.Sprintf("RefOrderHint[%d]", i), s.RefOrderHint[i], f.After.OrderHint[i])
		}
	}
	if f.Intra == 0 {
		c.Eq("ref_frame_idx", u.RefFrameIdx, f.RefIdx)
		c.Eq("OrderHints[LAST..ALTREF]", u.OrderHints[1:], f.OrderHints[1:])
		c.Eq("RefFrameSignBias[LAST..ALTREF]", u.RefFrameSignBias[1:], f.SignBias[1:])
	}
	c.Eq("skip_mode_present", u.SkipModePresent, f.SkipPresent)
	if f.SkipAllowed {
		c.Eq("SkipModeFrame", u.SkipModeFrame, f.SkipFrame)
	}
}

func (f *Frame) CmpGm(c *vlib.Cmp, u *uncompressedheader.UncompressedHeader, s *state.State) {
	for ref := 1; ref <= 7; ref++ {
		c.Eq(fmt.Sprintf("GmType[%d]", ref), s.GmType[ref], f.GmType[ref])
		c.Eq(fmt.Sprintf("gm_params[%d] type %d", ref, f.GmType[ref]), u.GmParams[ref], f.Gm[ref])
		c.Eq(fmt.Sprintf("PrevGmParams[%d]", ref), s.PrevGmParams[ref], f.PrevGm[ref])
	}
}

func (f *Frame) CmpGrain(c *vlib.Cmp, u *uncompressedheader.UncompressedHeader) {
	g := &f.Grain
	c.Eq("apply_grain", u.ApplyGrain, g.Apply)
	c.Eq("grain_seed", u.GrainSeed, g.Seed)
	c.Eq("point_y_value", u.PointYValue, g.YVal)
	c.Eq("point_y_scaling", u.PointYScaling, g.YScal)
	c.Eq("chroma_scaling_from_luma", u.ChromaScalingFromLuna, g.FromLuma)
	c.Eq("point_cb_value", u.PointCbValue, g.CbVal)
	c.Eq("point_cb_scaling", u.PointCbScaling, g.CbScal)
	c.Eq("point_cr_value", u.PointCrValue, g.CrVal)
	c.Eq("point_cr_scaling", u.PointCrScaling, g.CrScal)
	c.Eq("grain_scaling_minus_8", u.GrainScalingMinus8, g.Scaling8)
	c.Eq("ar_coeff_lag", u.ArCoeffLag, g.Lag)
	if g.ArYRead || g.Apply == 0 {
		c.Eq("ar_coeffs_y_plus_128", u.ArCoeffsYPlus128, g.ArY)
	}
	if g.CbAr || g.Apply == 0 {
		c.Eq("ar_coeffs_cb_plus_128", u.ArCoeffsCbPlus128, g.ArCb)
	}
	if g.CrAr || g.Apply == 0 {
		c.Eq("ar_coeffs_cr_plus_128", u.ArCoeffsCrPlus128, g.ArCr)
	}
	c.Eq("ar_coeff_shift_minus_6", u.ArCoeffShiftMinus6, g.Shift6)
	c.Eq("grain_scale_shift", u.GrainScaleShift, g.ScaleShift)
	if g.CbRead || g.Apply == 0 {
		c.Eq("cb_mult", u.CbMult, g.CbM)
		c.Eq("cb_luma_mult", u.CbLumaMult, g.CbL)
		c.Eq("cb_offset", u.CbOffset, g.CbO)
	}
	if g.CrRead || g.Apply == 0 {
		c.Eq("cr_mult", u.CrMult, g.CrM)
		c.Eq("cr_luma_mult", u.CrLumaMult, g.CrL)
		c.Eq("cr_offset", u.CrOffset, g.CrO)
	}
	c.Eq("overlap_flag", u.OverlapFlag, g.Overlap)
	c.Eq("clip_to_restricted_range", u.ClipToRestrictedRange, g.Clip)
}

// StoreCdfs puts the CDFs of a state into a slot; LoadedCdfs gives those of a slot.
func StoreCdfs(s *state.State, slot int, from *state.State) {
	to := reflect.ValueOf(&s.Memory[slot]).Elem()
	for _, name := range Cdfs() {
		to.FieldByName(name).Set(deep(cdfField(from, "", name)))
	}
}

func LoadedCdfs(s *state.State, slot int) *state.State {
	o := &state.State{}
	from := reflect.ValueOf(&s.Memory[slot]).Elem()
	for _, name := range Cdfs() {
		cdfField(o, "", name).Set(deep(from.FieldByName(name)))
	}
	return o
}
