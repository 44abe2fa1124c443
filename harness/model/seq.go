// Package model generates conforming headers from the syntax tables of the AV1
// specification: every function writes the syntax elements it draws and keeps
// the values a decoder has to derive from them. Nothing here calls the decoder.
package model

import (
	"github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

// Seq is a sequence header as the specification defines its variables.
type Seq struct {
	Profile       int
	Still         int
	Reduced       int
	TimingPresent int
	UnitsInTick   int
	TimeScale     int
	EqualInterval int
	TicksPerPic1  int
	DecModel      int
	BufDelayLen1  int
	UnitsInDec    int
	RemovalLen1   int
	PresLen1      int
	InitDelay     int
	OpCnt1        int
	Idc           []int
	Level         []int
	Tier          []int
	OpDecModel    []int
	DecDelay      []int
	EncDelay      []int
	LowDelay      []int
	OpInit        []int
	OpInit1       []int
	WBits1        int
	HBits1        int
	MaxW1         int
	MaxH1         int
	FrameIds      int
	DeltaIdLen2   int
	AddIdLen1     int
	Sb128         int
	FilterIntra   int
	IntraEdge     int
	InterIntra    int
	Masked        int
	Warped        int
	Dual          int
	OrderHint     int
	Jnt           int
	RefMvs        int
	ChooseSct     int
	ForceSct      int
	ChooseImv     int
	ForceImv      int
	OrderHintBits int
	SuperRes      int
	Cdef          int
	Restoration   int
	FilmGrain     int
	Color         Color
}

// Color is color_config().
type Color struct {
	HighBitDepth int
	TwelveBit    int
	BitDepth     int
	Mono         int
	NumPlanes    int
	Desc         int
	Cp, Tc, Mc   int
	Range        int
	Ssx, Ssy     int
	Pos          int
	SepUv        int
}

// SeqOpt bends the distribution; every combination stays possible.
type SeqOpt struct {
	Reduced  int  // percent
	Moving   bool // no still pictures
	Small    bool
	OneOp    bool
	MinBits  int // least number of bits of the frame size, less one
	MaxDim   int // bound for max_frame_width/height, 0 = any
	Profile  int // -1 = any
	Timing   int // percent
	FrameIds int // percent
	OrderOn  int // percent
	Grain    int // percent
	AllTools int // percent
	SuperRes int // percent
	NoLayers bool
	OneLayer bool // one spatial layer in the first operating point
	Strict   bool // with the constraints on values that do not matter to decoding
}

func DefSeq() SeqOpt {
	return SeqOpt{Reduced: 15, Profile: -1, Timing: 50, FrameIds: 50, OrderOn: 70, Grain: 50, AllTools: 50, SuperRes: 50}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// GenSeq writes sequence_header_obu().
func GenSeq(w *vlib.Writer, r *vlib.RNG, o SeqOpt) *Seq {
	s := &Seq{}
	flag := func(name string, pc int) int { return w.F(name, 1, b2i(r.P(pc))) }

	level := func() int {
		if o.Strict {
			return 31
		}
		return r.Bits(5)
	}
	p := r.N(3)
	if o.Profile >= 0 {
		p = o.Profile
	}
	s.Profile = w.F("seq_profile", 3, p)
	red := r.P(o.Reduced)
	s.Still = w.F("still_picture", 1, b2i(red || r.P(20) && !o.Moving))
	s.Reduced = w.F("reduced_still_picture_header", 1, b2i(red))
	if red {
		s.Idc = []int{0}
		s.Level = []int{w.F("seq_level_idx[0]", 5, level())}
		s.Tier = []int{0}
		s.OpDecModel = []int{0}
		s.OpInit = []int{0}
		s.OpInit1 = []int{0}
		s.DecDelay, s.EncDelay, s.LowDelay = []int{0}, []int{0}, []int{0}
	} else {
		s.TimingPresent = flag("timing_info_present_flag", o.Timing)
		if s.TimingPresent == 1 {
			s.UnitsInTick = w.F("num_units_in_display_tick", 32, 1+r.Bits(32)%0xffffffff)
			s.TimeScale = w.F("time_scale", 32, 1+r.Bits(32)%0xffffffff)
			s.EqualInterval = flag("equal_picture_interval", 40)
			if s.EqualInterval == 1 {
				v := r.Bits(r.In(1, 32))
				if v == 0xffffffff {
					v--
				}
				s.TicksPerPic1 = w.Uvlc("num_ticks_per_picture_minus_1", v)
			}
			s.DecModel = flag("decoder_model_info_present_flag", 65)
			if s.DecModel == 1 {
				s.BufDelayLen1 = w.F("buffer_delay_length_minus_1", 5, r.Bits(5))
				s.UnitsInDec = w.F("num_units_in_decoding_tick", 32, 1+r.Bits(32)%0xffffffff)
				s.RemovalLen1 = w.F("buffer_removal_time_length_minus_1", 5, r.Bits(5))
				s.PresLen1 = w.F("frame_presentation_time_length_minus_1", 5, r.Bits(5))
			}
		}
		s.InitDelay = flag("initial_display_delay_present_flag", 50)
		cnt := r.Bits(5)
		if r.P(60) {
			cnt = r.N(4)
		}
		if o.OneOp {
			cnt = 0
		}
		s.OpCnt1 = w.F("operating_points_cnt_minus_1", 5, cnt)
		for i := 0; i <= cnt; i++ {
			idc := r.Bits(12)
			if r.P(25) || i == 0 && o.NoLayers {
				idc = 0
			}
			if i == 0 && o.OneLayer {
				idc = 1<<uint(r.In(8, 11)) | r.In(1, 255)
			}
			s.Idc = append(s.Idc, w.F("operating_point_idc", 12, idc))
			lv := w.F("seq_level_idx", 5, level())
			s.Level = append(s.Level, lv)
			tier := 0
			if lv > 7 {
				tier = flag("seq_tier", 50)
			}
			s.Tier = append(s.Tier, tier)
			dm, dd, ed, ld := 0, 0, 0, 0
			if s.DecModel == 1 {
				dm = flag("decoder_model_present_for_this_op", 60)
				if dm == 1 {
					n := s.BufDelayLen1 + 1
					dd = w.F("decoder_buffer_delay", n, r.Bits(n))
					ed = w.F("encoder_buffer_delay", n, r.Bits(n))
					ld = flag("low_delay_mode_flag", 50)
				}
			}
			s.OpDecModel = append(s.OpDecModel, dm)
			s.DecDelay = append(s.DecDelay, dd)
			s.EncDelay = append(s.EncDelay, ed)
			s.LowDelay = append(s.LowDelay, ld)
			ip, iv := 0, 0
			if s.InitDelay == 1 {
				ip = flag("initial_display_delay_present_for_this_op", 50)
				if ip == 1 {
					iv = r.Bits(4)
					if o.Strict {
						iv %= 10
					}
					w.F("initial_display_delay_minus_1", 4, iv)
				}
			}
			s.OpInit = append(s.OpInit, ip)
			s.OpInit1 = append(s.OpInit1, iv)
		}
	}
	wb, hb := r.Bits(4), r.Bits(4)
	if wb < o.MinBits || hb < o.MinBits {
		wb, hb = imax(wb, o.MinBits), imax(hb, o.MinBits)
	}
	s.WBits1 = w.F("frame_width_bits_minus_1", 4, wb)
	s.HBits1 = w.F("frame_height_bits_minus_1", 4, hb)
	dim := func(bits int) int {
		v := r.Bits(bits + 1)
		if o.MaxDim > 0 && v >= o.MaxDim {
			v %= o.MaxDim
		}
		if o.MinBits > 0 {
			v |= 1 << uint(o.MinBits-2)
		}
		return v
	}
	s.MaxW1 = w.F("max_frame_width_minus_1", wb+1, dim(wb))
	s.MaxH1 = w.F("max_frame_height_minus_1", hb+1, dim(hb))
	if !red {
		s.FrameIds = flag("frame_id_numbers_present_flag", o.FrameIds)
	}
	if s.FrameIds == 1 {
		// idLen = additional_frame_id_length_minus_1 + delta_frame_id_length_minus_2 + 3 must not exceed 16
		d := r.N(14)
		a := r.N(8)
		if d+a+3 > 16 {
			a = 13 - d
		}
		s.DeltaIdLen2 = w.F("delta_frame_id_length_minus_2", 4, d)
		s.AddIdLen1 = w.F("additional_frame_id_length_minus_1", 3, a)
	}
	s.Sb128 = flag("use_128x128_superblock", 50)
	s.FilterIntra = flag("enable_filter_intra", 50)
	s.IntraEdge = flag("enable_intra_edge_filter", 50)
	s.ForceSct = 2
	s.ForceImv = 2
	if !red {
		s.InterIntra = flag("enable_interintra_compound", 50)
		s.Masked = flag("enable_masked_compound", 50)
		s.Warped = flag("enable_warped_motion", 60)
		s.Dual = flag("enable_dual_filter", 50)
		s.OrderHint = flag("enable_order_hint", o.OrderOn)
		if s.OrderHint == 1 {
			s.Jnt = flag("enable_jnt_comp", 50)
			s.RefMvs = flag("enable_ref_frame_mvs", 50)
		}
		s.ChooseSct = flag("seq_choose_screen_content_tools", 50)
		if s.ChooseSct == 0 {
			s.ForceSct = flag("seq_force_screen_content_tools", 50)
		}
		if s.ForceSct > 0 {
			s.ChooseImv = flag("seq_choose_integer_mv", 50)
			if s.ChooseImv == 0 {
				s.ForceImv = flag("seq_force_integer_mv", 50)
			}
		}
		if s.OrderHint == 1 {
			s.OrderHintBits = w.F("order_hint_bits_minus_1", 3, r.Bits(3)) + 1
		}
	}
	s.SuperRes = flag("enable_superres", o.SuperRes)
	s.Cdef = flag("enable_cdef", 60)
	s.Restoration = flag("enable_restoration", 60)
	s.Color = genColor(w, r, s.Profile, o.Strict)
	s.FilmGrain = flag("film_grain_params_present", o.Grain)
	return s
}

// GenColor writes color_config().
func GenColor(w *vlib.Writer, r *vlib.RNG, profile int) Color {
	return genColor(w, r, profile, false)
}

func genColor(w *vlib.Writer, r *vlib.RNG, profile int, strict bool) Color {
	c := Color{Cp: 2, Tc: 2, Mc: 2}
	flag := func(name string, pc int) int { return w.F(name, 1, b2i(r.P(pc))) }
	c.HighBitDepth = flag("high_bitdepth", 55)
	if profile == 2 && c.HighBitDepth == 1 {
		c.TwelveBit = flag("twelve_bit", 60)
		c.BitDepth = 10 + 2*c.TwelveBit
	} else {
		c.BitDepth = 8 + 2*c.HighBitDepth
	}
	if profile != 1 {
		c.Mono = flag("mono_chrome", 30)
	}
	c.NumPlanes = 3 - 2*c.Mono
	c.Desc = flag("color_description_present_flag", 50)
	if c.Desc == 1 {
		cp, tc, mc := r.Bits(8), r.Bits(8), r.Bits(8)
		switch r.N(8) {
		case 0, 1, 2:
			cp, tc, mc = 1, 13, 0
		case 3:
			cp, tc, mc = 1, 13, r.N(2)
		case 4:
			cp, tc, mc = r.N(3), 13, 0
		case 5:
			cp, tc, mc = 1, r.In(12, 14), 0
		}
		if strict && mc == 0 && (cp != 1 || tc != 13 || c.Mono == 1 || profile == 0 || profile == 2 && c.BitDepth != 12) {
			// identity is for 4:4:4 alone
			mc = 2
		}
		c.Cp = w.F("color_primaries", 8, cp)
		c.Tc = w.F("transfer_characteristics", 8, tc)
		c.Mc = w.F("matrix_coefficients", 8, mc)
	}
	if c.Mono == 1 {
		c.Range = flag("color_range", 50)
		c.Ssx, c.Ssy = 1, 1
		return c
	}
	if c.Cp == 1 && c.Tc == 13 && c.Mc == 0 {
		c.Range = 1
	} else {
		c.Range = flag("color_range", 50)
		switch {
		case profile == 0:
			c.Ssx, c.Ssy = 1, 1
		case profile == 1:
		case c.BitDepth == 12:
			c.Ssx = flag("subsampling_x", 60)
			if c.Ssx == 1 {
				c.Ssy = flag("subsampling_y", 60)
			}
		default:
			c.Ssx = 1
		}
		if c.Ssx == 1 && c.Ssy == 1 {
			c.Pos = w.F("chroma_sample_position", 2, r.Bits(2))
		}
	}
	c.SepUv = flag("separate_uv_delta_q", 50)
	return c
}
