package model

import (
	"fmt"

	"github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

const (
	Key = iota
	Inter
	IntraOnly
	Switch
)

// Refs is the reference state a frame header is decoded against.
type Refs struct {
	Valid     [8]int
	OrderHint [8]int
	FrameId   [8]int
	Type      [8]int
	CurrentId int
	Saved     [8]Saved
}

// Saved is what is kept of a frame for those that refer to it.
type Saved struct {
	Upscaled, Width, Height int
	RenderW, RenderH        int
	MiCols, MiRows          int
	Gm                      [8][6]int
	RefDeltas               [8]int
	ModeDeltas              [2]int
	FeatEn, FeatData        [8][8]int
	Seg                     SegMap
}

// SegMap is the segments of a frame by 4x4 luma block.
type SegMap [][]int

func (m SegMap) String() string {
	counts := map[int]int{}
	for _, row := range m {
		for _, x := range row {
			counts[x]++
		}
	}
	return fmt.Sprint("segments ", counts)
}

func (m SegMap) max() int {
	n := 0
	for _, row := range m {
		for _, x := range row {
			n = imax(n, x)
		}
	}
	return n
}

// GmDefault is the identity.
var GmDefault = [6]int{0, 0, 1 << 16, 0, 0, 1 << 16}

// sizePlan is the size of an inter frame, chosen before its references.
type sizePlan struct {
	typ, errRes, override int
	found                 int // the slot the size is taken from, -1 for none
	w, h, denom           int
	usable                []int
}

// planSize draws the size of an inter frame and the slots it may refer to.
func planSize(r *vlib.RNG, s *Seq, refs *Refs, o FrameOpt, usable []int) *sizePlan {
	p := &sizePlan{typ: r.Pick(Inter, Inter, Inter, Switch), errRes: b2i(r.P(45)), found: -1}
	if o.Inherit {
		p.errRes = b2i(r.P(25))
	}
	p.override = b2i(r.P(40) && (p.errRes == 1 || o.Inherit))
	if p.typ == Switch {
		p.errRes, p.override = 1, 1
	}
	p.w, p.h = s.MaxW1+1, s.MaxH1+1
	if o.Inherit && o.Refs != nil {
		valid := []int{}
		for _, i := range usable {
			if refs.Valid[i] == 1 {
				valid = append(valid, i)
			}
		}
		usable = valid
	}
	if len(usable) == 0 {
		return nil
	}
	if p.override == 1 {
		p.w, p.h = r.In(1, p.w), r.In(1, p.h)
		k := usable[r.N(len(usable))]
		near := refs.Saved[k]
		switch {
		case p.errRes == 0 && r.P(70):
			p.found, p.w, p.h = k, near.Upscaled, near.Height
		case o.Inherit && r.P(70):
			size := func(n, max int) int {
				return clip(1, max, r.Pick(n, n+r.In(-8, 8), r.In((n+1)/2, 2*n), r.In((n+15)/16, 2*n)))
			}
			p.w, p.h = size(near.Upscaled, p.w), size(near.Height, p.h)
		}
	}
	p.denom = drawDenom(r, s, o.Strict, p.w)
	if o.Inherit && o.Refs != nil {
		// references are at most twice as large and sixteen times smaller
		w, fit := (p.w*8+p.denom/2)/p.denom, []int{}
		for _, i := range usable {
			k := refs.Saved[i]
			if 2*w >= k.Upscaled && 2*p.h >= k.Height && w <= 16*k.Upscaled && p.h <= 16*k.Height {
				fit = append(fit, i)
			}
		}
		usable = fit
		if p.found >= 0 && !contains(fit, p.found) {
			return nil
		}
	}
	p.usable = usable
	if len(usable) == 0 {
		return nil
	}
	return p
}

func contains(l []int, x int) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// genSaved draws what was kept of the slots.
func (f *Refs) genSaved(r *vlib.RNG, s *Seq) {
	w, h := imin(300, s.MaxW1+1), imin(300, s.MaxH1+1)
	for i := range f.Saved {
		k := &f.Saved[i]
		k.Upscaled, k.Height = w, h
		if r.P(40) {
			k.Upscaled, k.Height = r.In(1, w), r.In(1, h)
		}
		k.Width = k.Upscaled
		if s.SuperRes == 1 && r.P(30) {
			d := 9 + r.N(8)
			k.Width = (k.Upscaled*8 + d/2) / d
		}
		k.RenderW, k.RenderH = r.In(1, 65536), r.In(1, 65536)
		k.MiCols, k.MiRows = (k.Width+7)/8*2, (k.Height+7)/8*2
		for ref := range k.Gm {
			k.Gm[ref] = GmDefault
			if typ := r.N(4); ref > 0 && typ > 0 {
				g := &k.Gm[ref]
				t := r.Pick(1<<22, 1<<16)
				g[0], g[1] = r.In(-t, t)>>10<<10, r.In(-t, t)>>10<<10
				if typ > 1 {
					a := r.Pick(1<<12, 1<<6)
					for j := 2; j < 6; j++ {
						g[j] = GmDefault[j] + 2*r.In(-a, a)
					}
				}
			}
		}
		for j := range k.RefDeltas {
			k.RefDeltas[j] = r.In(-64, 63)
		}
		for j := range k.ModeDeltas {
			k.ModeDeltas[j] = r.In(-64, 63)
		}
		pc := r.Pick(0, 10, 40)
		for a := range k.FeatEn {
			for b := range k.FeatEn[a] {
				if r.P(pc) {
					k.FeatEn[a][b] = 1
					if m := segMax[b]; b < 5 {
						k.FeatData[a][b] = r.In(-m, m)
					} else {
						k.FeatData[a][b] = r.N(m + 1)
					}
				}
			}
		}
	}
}

// genMap draws the segments of a slot.
func (k *Saved) genMap(r *vlib.RNG) {
	far, top := r.Pick(0, 5, 40, 90), r.In(1, 8)
	k.Seg = make(SegMap, k.MiRows)
	for i := range k.Seg {
		k.Seg[i] = make([]int, k.MiCols)
		for j := range k.Seg[i] {
			switch {
			case r.P(far) || i+j == 0:
				k.Seg[i][j] = r.N(top)
			case j > 0:
				k.Seg[i][j] = k.Seg[i][j-1]
			default:
				k.Seg[i][j] = k.Seg[i-1][j]
			}
		}
	}
}

var segBits = [8]int{8, 6, 6, 6, 6, 3, 0, 0}
var segMax = [8]int{255, 63, 63, 63, 63, 7, 0, 0}

// Frame is an uncompressed header as the specification defines its variables.
type Frame struct {
	ShowExisting, ToShow, DisplayId int
	PresTime                        int
	PresTimeRead                    bool
	Type                            int
	Intra, Show, Showable, ErrRes   int
	DisableCdf, Sct, ForceImv       int
	CurrentId, PrevId               int
	Override                        int
	OrderHint                       int
	RefreshFlags                    int
	RefHintCoded                    [8]int
	RefHintsRead                    bool
	After                           Refs
	Width, Height, Upscaled         int
	UseSuperRes, Denom              int
	RenderW, RenderH                int
	MiCols, MiRows                  int
	IntraBc                         int
	RefIdx                          [7]int
	HighPrec                        int
	Interp                          int
	MotionSwitch                    int
	OrderHints                      [8]int
	SignBias                        [8]int
	DisableEnd                      int
	Primary                         int // 7 for none
	Found                           int // the reference the size is taken from, -1 for none
	Tiles                           *Tiles

	BaseQ                    int
	YDc, UDc, UAc, VDc, VAc  int
	UsingQm, Qmy, Qmu, Qmv   int
	SegEnabled               int
	FeatEn, FeatData         [8][8]int
	PreSkip, LastActive      int
	UpdateMap, Temporal      int
	UpdateData               int
	PrevSegs                 SegMap // nil when all are 0
	PrevGm                   [8][6]int
	DeltaQ, DeltaQRes        int
	DeltaLf, LfRes, LfMulti  int
	Lossless                 [8]int
	CodedLossless            int
	AllLossless              int
	LfLevel                  [4]int
	LfChroma, LfRead         bool
	Sharp, LfDelta, LfUpdate int
	RefDeltas                [8]int
	ModeDeltas               [2]int
	CdefRead                 bool
	Damping, CdefBits        int
	YPri, YSec, UvPri, UvSec []int
	LrRead                   bool
	LrType                   [3]int
	UsesLr                   int
	LrSize                   [3]int
	TxMode                   int
	RefSelect                int
	SkipAllowed              bool
	SkipFrame                [2]int
	SkipPresent              int
	Warped, ReducedTx        int
	GmType                   [8]int
	Gm                       [8][6]int
	Grain                    Grain
	// bit offsets at which the sections end
	Marks map[string]int
}

// Grain is film_grain_params().
type Grain struct {
	Read                bool
	Apply, Seed         int
	YVal, YScal         []int
	FromLuma            int
	CbVal, CbScal       []int
	CrVal, CrScal       []int
	Scaling8, Lag       int
	ArY, ArCb, ArCr     []int
	ArYRead, CbAr, CrAr bool
	Shift6, ScaleShift  int
	CbRead, CrRead      bool
	CbM, CbL, CbO       int
	CrM, CrL, CrO       int
	Overlap, Clip       int
}

// FrameOpt bends the distribution.
type FrameOpt struct {
	InterPc    int // percent of inter or switch frames where allowed
	ExistingPc int
	BigPc      int // percent of frames wide or tall enough for several tiles
	LosslessPc int
	SegPc      int
	GmPc       int
	KeyPc      int
	ShownKey   bool  // a key frame that is shown
	Hidden     bool  // not shown; with ShownKey a hidden one that takes all slots
	Exist      int   // 1 + the slot to show again
	Refs       *Refs // the reference state, when it is given
	CopyPc     int
	Strict     bool // with the limits on sizes that do not matter to parsing
	Inherit    bool // inter frames may take state and sizes from their references
}

func DefFrame() FrameOpt {
	return FrameOpt{InterPc: 50, ExistingPc: 5, BigPc: 15, LosslessPc: 20, SegPc: 50, GmPc: 40, KeyPc: 50}
}

// RelDist is get_relative_dist by its definition: the difference of the hints
// as a signed number of OrderHintBits bits.
func RelDist(s *Seq, a, b int) int {
	if s.OrderHint == 0 {
		return 0
	}
	n := 1 << uint(s.OrderHintBits)
	d := ((a-b)%n + n) % n
	if d >= n/2 {
		d -= n
	}
	return d
}

func clip(lo, hi, v int) int {
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}

// GenRefs draws a reference state; ids lie around the current frame id cur.
func GenRefs(r *vlib.RNG, s *Seq, cur int) Refs {
	f := Refs{}
	idLen := s.AddIdLen1 + s.DeltaIdLen2 + 3
	diff := s.DeltaIdLen2 + 2
	base := r.Bits(8)
	for i := 0; i < 8; i++ {
		f.Valid[i] = b2i(r.P(85))
		f.Type[i] = r.N(4)
		if s.OrderHint == 1 {
			n := 1 << uint(s.OrderHintBits)
			switch r.N(3) {
			case 0:
				f.OrderHint[i] = r.N(n)
			case 1:
				f.OrderHint[i] = (base + r.N(4)) % n
			default:
				f.OrderHint[i] = (base - r.N(6) + 64*n) % n
			}
		}
		if s.FrameIds == 1 {
			n := 1 << uint(idLen)
			switch r.N(5) {
			case 0:
				f.FrameId[i] = r.N(n)
			case 1: // at the edge of the window
				f.FrameId[i] = ((cur-(1<<uint(diff))+r.In(-2, 2))%n + n) % n
			case 2:
				f.FrameId[i] = ((cur+r.In(-1, 2))%n + n) % n
			default:
				f.FrameId[i] = ((cur-1-r.N(1<<uint(diff)))%n + n) % n
			}
		}
	}
	return f
}

// Ext is the obu extension of the frame header.
type Ext struct{ Temporal, Spatial int }

// GenFrame writes uncompressed_header(). Only what the decoder implements is
// drawn: no short signaling, no motion field, no film grain from references.
func GenFrame(w *vlib.Writer, r *vlib.RNG, s *Seq, ext Ext, o FrameOpt) (*Frame, Refs) {
	f := &Frame{Marks: map[string]int{}, Primary: 7, Found: -1}
	flag := func(name string, pc int) int { return w.F(name, 1, b2i(r.P(pc))) }
	idLen := s.AddIdLen1 + s.DeltaIdLen2 + 3
	cur := 0
	if s.FrameIds == 1 {
		cur = r.Bits(idLen)
	}
	refs := GenRefs(r, s, cur)
	if o.Refs != nil {
		refs = *o.Refs
		if s.FrameIds == 1 && !o.ShownKey {
			// ids grow by less than half of their range
			half := 1 << uint(idLen-1)
			d := r.Pick(1, r.In(1, 3), r.In(1, imin(half-1, 1<<uint(s.DeltaIdLen2+2))), r.In(1, half-1))
			// one of the references at the edge of the window of its id
			edge := refs.FrameId[r.N(8)] + 1<<uint(s.DeltaIdLen2+2) + r.In(-1, 1) - refs.CurrentId
			if edge = (edge%(2*half) + 2*half) % (2 * half); r.P(25) && edge > 0 && edge < half {
				d = edge
			}
			cur = (refs.CurrentId + d) % (2 * half)
		}
	} else if s.FrameIds == 1 {
		refs.CurrentId = (cur + 1 + r.N(3)) % (1 << uint(idLen))
		refs.FrameId[r.N(8)] = (cur - 1 + 1<<uint(idLen)) % (1 << uint(idLen))
	}
	if o.Inherit && o.Refs == nil {
		refs.genSaved(r, s)
	}
	f.After = refs
	// a conforming inter frame does not refer to a slot whose frame id is too
	// far away to be coded
	usable := []int{}
	for i := 0; i < 8; i++ {
		n, win := 1<<uint(idLen), 1<<uint(s.DeltaIdLen2+2)
		if d := ((cur-refs.FrameId[i])%n + n) % n; s.FrameIds == 0 || (d >= 1 && d <= win) {
			usable = append(usable, i)
		}
	}
	var plan *sizePlan

	// frame type and visibility
	if s.Reduced == 1 {
		f.Type, f.Intra, f.Show, f.Showable, f.ErrRes = Key, 1, 1, 0, 1
	} else {
		exist := !o.Hidden && r.P(o.ExistingPc) && s.FilmGrain == 0 && s.Still == 0
		toShow := r.Bits(3)
		if o.Exist > 0 {
			exist, toShow = true, o.Exist-1
		}
		f.ShowExisting = w.F("show_existing_frame", 1, b2i(exist))
		if exist {
			f.ToShow = w.F("frame_to_show_map_idx", 3, toShow)
			if s.DecModel == 1 && s.EqualInterval == 0 {
				f.PresTime = w.F("frame_presentation_time", s.PresLen1+1, r.Bits(s.PresLen1+1))
				f.PresTimeRead = true
			}
			if s.FrameIds == 1 {
				id := r.Bits(idLen)
				if o.Refs != nil {
					id = refs.FrameId[toShow]
				}
				f.DisplayId = w.F("display_frame_id", idLen, id)
			}
			f.Type = refs.Type[f.ToShow]
			if f.Type == Key {
				// it is loaded and takes all slots
				f.RefreshFlags = 255
				for i := range f.After.Valid {
					f.After.Valid[i], f.After.Type[i] = 1, Key
					f.After.OrderHint[i] = refs.OrderHint[toShow]
					f.After.FrameId[i] = refs.FrameId[toShow]
				}
				f.After.CurrentId = refs.FrameId[toShow]
			}
			return f, refs
		}
		typ := Key
		if s.Still == 0 && !o.ShownKey {
			if r.P(o.InterPc) {
				plan = planSize(r, s, &refs, o, usable)
			}
			if plan != nil {
				typ = plan.typ
			} else if !r.P(o.KeyPc) {
				typ = IntraOnly
			}
		}
		f.Type = w.F("frame_type", 2, typ)
		f.Intra = b2i(typ == Key || typ == IntraOnly)
		showPc := 65
		if s.Still == 1 || o.ShownKey {
			showPc = 100
		}
		if o.Hidden {
			showPc = 0
		}
		f.Show = flag("show_frame", showPc)
		if f.Show == 1 && s.DecModel == 1 && s.EqualInterval == 0 {
			f.PresTime = w.F("frame_presentation_time", s.PresLen1+1, r.Bits(s.PresLen1+1))
			f.PresTimeRead = true
		}
		if f.Show == 1 {
			f.Showable = b2i(typ != Key)
		} else {
			f.Showable = flag("showable_frame", 50)
		}
		if typ == Switch || (typ == Key && f.Show == 1) {
			f.ErrRes = 1
		} else {
			pc := 45
			if plan != nil {
				pc = 100 * plan.errRes
			}
			f.ErrRes = flag("error_resilient_mode", pc)
		}
	}
	if f.Type == Key && f.Show == 1 {
		for i := range f.After.Valid {
			f.After.Valid[i] = 0
			f.After.OrderHint[i] = 0
		}
	}
	f.DisableCdf = flag("disable_cdf_update", 35)
	if s.ForceSct == 2 {
		f.Sct = flag("allow_screen_content_tools", 50)
	} else {
		f.Sct = s.ForceSct
	}
	if f.Sct == 1 {
		if s.ForceImv == 2 {
			f.ForceImv = flag("force_integer_mv", 50)
		} else {
			f.ForceImv = s.ForceImv
		}
	}
	if f.Intra == 1 {
		f.ForceImv = 1
	}
	if s.FrameIds == 1 {
		f.PrevId = refs.CurrentId
		f.CurrentId = w.F("current_frame_id", idLen, cur)
		f.After.CurrentId = cur
		// a reference stays valid if its id lies in the window of 2^diffLen ids before the current one
		n, win := 1<<uint(idLen), 1<<uint(s.DeltaIdLen2+2)
		for i := range f.After.Valid {
			id := refs.FrameId[i]
			in := false
			if cur > win {
				in = id <= cur && id >= cur-win
			} else {
				in = id <= cur || id >= n+cur-win
			}
			if !in {
				f.After.Valid[i] = 0
			}
		}
	} else {
		f.After.CurrentId = 0
	}
	switch {
	case f.Type == Switch:
		f.Override = 1
	case s.Reduced == 1:
	case f.Intra == 0:
		f.Override = w.F("frame_size_override_flag", 1, plan.override)
	default:
		f.Override = flag("frame_size_override_flag", 40)
	}
	f.OrderHint = 0
	if s.OrderHint == 1 {
		n := 1 << uint(s.OrderHintBits)
		v := r.N(n)
		if r.P(60) {
			v = (refs.OrderHint[r.N(8)] + r.In(-2, 2) + n) % n
		}
		f.OrderHint = w.F("order_hint", s.OrderHintBits, v)
	}
	if !(f.Intra == 1 || f.ErrRes == 1) {
		if o.Inherit && r.P(75) {
			f.Primary = r.N(7)
		}
		w.F("primary_ref_frame", 3, f.Primary)
	}
	if s.DecModel == 1 {
		if flag("buffer_removal_time_present_flag", 60) == 1 {
			for op := 0; op <= s.OpCnt1; op++ {
				if s.OpDecModel[op] == 0 {
					continue
				}
				idc := s.Idc[op]
				if idc == 0 || ((idc>>uint(ext.Temporal))&1 == 1 && (idc>>uint(ext.Spatial+8))&1 == 1) {
					w.F("buffer_removal_time", s.RemovalLen1+1, r.Bits(s.RemovalLen1+1))
				}
			}
		}
	}
	if f.Type == Switch || (f.Type == Key && f.Show == 1) {
		f.RefreshFlags = 255
	} else {
		v := r.Bits(8)
		if f.Type == IntraOnly && v == 255 {
			v = 254
		}
		if o.Hidden && o.ShownKey {
			v = 255
		}
		f.RefreshFlags = w.F("refresh_frame_flags", 8, v)
	}
	// the references of an inter frame are chosen first: a conforming frame
	// does not refer to a slot whose order hint is coded differently
	if plan != nil {
		for i := range f.RefIdx {
			f.RefIdx[i] = plan.usable[r.N(len(plan.usable))]
			if r.P(25) {
				f.RefIdx[i] = f.RefIdx[0]
			}
		}
		if plan.found >= 0 {
			f.Found = r.N(7)
			f.RefIdx[f.Found] = plan.found
		}
	}
	used := map[int]bool{}
	for _, i := range f.RefIdx {
		used[i] = true
	}
	if f.Intra == 0 || f.RefreshFlags != 255 {
		if f.ErrRes == 1 && s.OrderHint == 1 {
			f.RefHintsRead = true
			for i := 0; i < 8; i++ {
				v := f.After.OrderHint[i]
				if (f.Intra == 1 || !used[i]) && r.P(50) {
					v = r.Bits(s.OrderHintBits)
				}
				v &= 1<<uint(s.OrderHintBits) - 1
				f.RefHintCoded[i] = w.F("ref_order_hint", s.OrderHintBits, v)
				if v != f.After.OrderHint[i] {
					f.After.Valid[i] = 0
				}
			}
		}
	}
	f.Marks["general"] = w.Len()

	if f.Intra == 1 {
		f.genSize(w, r, s, nil, o.Strict)
		f.genRender(w, r)
		if f.Sct == 1 && f.Upscaled == f.Width {
			f.IntraBc = flag("allow_intrabc", imax(35, o.CopyPc))
		}
	} else {
		if s.OrderHint == 1 {
			w.F("frame_refs_short_signaling", 1, 0)
		}
		for i := range f.RefIdx {
			w.F("ref_frame_idx", 3, f.RefIdx[i])
			if s.FrameIds == 1 {
				n := s.DeltaIdLen2 + 2
				d := ((cur-refs.FrameId[f.RefIdx[i]]-1)%(1<<uint(idLen)) + (1 << uint(idLen))) % (1 << uint(idLen))
				w.F("delta_frame_id_minus_1", n, d&(1<<uint(n)-1))
			}
		}
		if f.Override == 1 && f.ErrRes == 0 {
			for i := 0; i < 7 && (f.Found < 0 || i <= f.Found); i++ {
				w.F("found_ref", 1, b2i(i == f.Found))
			}
		}
		f.genSize(w, r, s, plan, o.Strict)
		if f.Found < 0 {
			f.genRender(w, r)
		} else {
			f.RenderW, f.RenderH = refs.Saved[plan.found].RenderW, refs.Saved[plan.found].RenderH
		}
		if f.ForceImv == 0 {
			f.HighPrec = flag("allow_high_precision_mv", 50)
		}
		if flag("is_filter_switchable", 40) == 1 {
			f.Interp = 4
		} else {
			f.Interp = w.F("interpolation_filter", 2, r.Bits(2))
		}
		f.MotionSwitch = flag("is_motion_mode_switchable", 50)
		if f.ErrRes == 0 && s.RefMvs == 1 {
			w.F("use_ref_frame_mvs", 1, 0)
		}
		for i, idx := range f.RefIdx {
			h := f.After.OrderHint[idx]
			f.OrderHints[1+i] = h
			f.SignBias[1+i] = b2i(RelDist(s, h, f.OrderHint) > 0)
		}
	}
	f.Marks["size"] = w.Len()
	// what is inherited
	f.RefDeltas = [8]int{1, 0, 0, 0, -1, 0, -1, -1}
	for i := range f.PrevGm {
		f.PrevGm[i] = GmDefault
	}
	var prev *Saved
	if f.Primary < 7 {
		prev = &refs.Saved[f.RefIdx[f.Primary]]
		if o.Refs == nil {
			prev.genMap(r)
		}
		f.PrevGm, f.RefDeltas, f.ModeDeltas = prev.Gm, prev.RefDeltas, prev.ModeDeltas
		f.FeatEn, f.FeatData = prev.FeatEn, prev.FeatData
	}
	if s.Reduced == 1 || f.DisableCdf == 1 {
		f.DisableEnd = 1
	} else {
		f.DisableEnd = flag("disable_frame_end_update_cdf", 50)
	}
	narrow := 1
	if o.Strict && f.UseSuperRes == 1 {
		narrow = 2 - s.Sb128
	}
	f.Tiles = genTiles(w, r, f.MiCols, f.MiRows, s.Sb128, narrow)
	f.Marks["tiles"] = w.Len()

	lossless := r.P(o.LosslessPc)
	f.genQuant(w, r, s, lossless)
	f.Marks["quant"] = w.Len()
	f.genSeg(w, r, o, lossless, prev)
	f.Marks["seg"] = w.Len()
	if f.BaseQ > 0 {
		f.DeltaQ = flag("delta_q_present", 50)
	}
	if f.DeltaQ == 1 {
		f.DeltaQRes = w.F("delta_q_res", 2, r.Bits(2))
		if f.IntraBc == 0 {
			f.DeltaLf = flag("delta_lf_present", 60)
		}
		if f.DeltaLf == 1 {
			f.LfRes = w.F("delta_lf_res", 2, r.Bits(2))
			f.LfMulti = flag("delta_lf_multi", 50)
		}
	}
	f.Marks["delta"] = w.Len()
	f.CodedLossless = 1
	for i := 0; i < 8; i++ {
		q := f.BaseQ
		if f.SegEnabled == 1 && f.FeatEn[i][0] == 1 {
			q = clip(0, 255, f.BaseQ+f.FeatData[i][0])
		}
		f.Lossless[i] = b2i(q == 0 && f.YDc == 0 && f.UAc == 0 && f.UDc == 0 && f.VAc == 0 && f.VDc == 0)
		if f.Lossless[i] == 0 {
			f.CodedLossless = 0
		}
	}
	f.AllLossless = b2i(f.CodedLossless == 1 && f.Width == f.Upscaled)
	f.genLoopFilter(w, r, s)
	f.Marks["lf"] = w.Len()
	f.genCdef(w, r, s)
	f.genLr(w, r, s)
	f.Marks["filters"] = w.Len()
	if f.CodedLossless == 1 {
		f.TxMode = 0
	} else if flag("tx_mode_select", 50) == 1 {
		f.TxMode = 2
	} else {
		f.TxMode = 1
	}
	if f.Intra == 0 {
		f.RefSelect = flag("reference_select", 75)
	}
	f.genSkipMode(w, r, s)
	f.Marks["skip"] = w.Len()
	if !(f.Intra == 1 || f.ErrRes == 1 || s.Warped == 0) {
		f.Warped = flag("allow_warped_motion", 50)
	}
	f.ReducedTx = flag("reduced_tx_set", 50)
	f.Marks["tools"] = w.Len()
	f.genGlobalMotion(w, r, o)
	f.Marks["gm"] = w.Len()
	f.genGrain(w, r, s)
	f.Marks["grain"] = w.Len()
	return f, refs
}

// drawDenom draws the denominator of super-resolution, 8 for none. Widths stay
// at 16 or more when strict.
func drawDenom(r *vlib.RNG, s *Seq, strict bool, w int) int {
	if s.SuperRes == 1 && r.P(50) {
		d := 9 + r.N(8)
		if !strict || (w*8+d/2)/d >= 16 {
			return d
		}
	}
	return 8
}

func (f *Frame) genSize(w *vlib.Writer, r *vlib.RNG, s *Seq, plan *sizePlan, strict bool) {
	if plan == nil {
		plan = &sizePlan{w: s.MaxW1 + 1, h: s.MaxH1 + 1, found: -1, denom: 8}
		if f.Override == 1 {
			plan.w, plan.h = r.In(1, plan.w), r.In(1, plan.h)
		}
		plan.denom = drawDenom(r, s, strict, plan.w)
	}
	f.Upscaled, f.Height, f.Denom = plan.w, plan.h, plan.denom
	if f.Override == 1 && plan.found < 0 {
		w.F("frame_width_minus_1", s.WBits1+1, plan.w-1)
		w.F("frame_height_minus_1", s.HBits1+1, plan.h-1)
	}
	if s.SuperRes == 1 {
		f.UseSuperRes = w.F("use_superres", 1, b2i(plan.denom > 8))
		if f.UseSuperRes == 1 {
			w.F("coded_denom", 3, plan.denom-9)
		}
	}
	f.Width = (f.Upscaled*8 + f.Denom/2) / f.Denom
	f.MiCols = (f.Width + 7) / 8 * 2
	f.MiRows = (f.Height + 7) / 8 * 2
}

func (f *Frame) genRender(w *vlib.Writer, r *vlib.RNG) {
	f.RenderW, f.RenderH = f.Upscaled, f.Height
	if w.F("render_and_frame_size_different", 1, b2i(r.P(40))) == 1 {
		f.RenderW = w.F("render_width_minus_1", 16, r.Bits(16)) + 1
		f.RenderH = w.F("render_height_minus_1", 16, r.Bits(16)) + 1
	}
}

func (f *Frame) genQuant(w *vlib.Writer, r *vlib.RNG, s *Seq, lossless bool) {
	q := r.Bits(8)
	if r.P(10) {
		q = r.Pick(1, 20, 21, 60, 61, 120, 121, 255)
	}
	if lossless && r.P(75) {
		q = 0
	}
	f.BaseQ = w.F("base_q_idx", 8, q)
	delta := func(name string) int {
		pc := 40
		if lossless {
			pc = 3
		} else if r.P(30) {
			pc = 10
		}
		if w.F("delta_coded", 1, b2i(r.P(pc))) == 0 {
			return 0
		}
		v := r.Bits(7)
		if v >= 64 {
			v -= 128
		}
		return w.Su(name, 7, v)
	}
	f.YDc = delta("DeltaQYDc")
	if s.Color.NumPlanes > 1 {
		diff := 0
		if s.Color.SepUv == 1 {
			diff = w.F("diff_uv_delta", 1, b2i(r.P(50)))
		}
		f.UDc = delta("DeltaQUDc")
		f.UAc = delta("DeltaQUAc")
		if diff == 1 {
			f.VDc = delta("DeltaQVDc")
			f.VAc = delta("DeltaQVAc")
		} else {
			f.VDc, f.VAc = f.UDc, f.UAc
		}
	}
	f.UsingQm = w.F("using_qmatrix", 1, b2i(r.P(50)))
	if f.UsingQm == 1 {
		f.Qmy = w.F("qm_y", 4, r.Bits(4))
		f.Qmu = w.F("qm_u", 4, r.Bits(4))
		f.Qmv = f.Qmu
		if s.Color.SepUv == 1 {
			f.Qmv = w.F("qm_v", 4, r.Bits(4))
		}
	}
}

func (f *Frame) genSeg(w *vlib.Writer, r *vlib.RNG, o FrameOpt, lossless bool, prev *Saved) {
	f.SegEnabled = w.F("segmentation_enabled", 1, b2i(r.P(o.SegPc)))
	if f.SegEnabled == 0 {
		f.FeatEn, f.FeatData = [8][8]int{}, [8][8]int{}
		return
	}
	if prev != nil && prev.MiCols == f.MiCols && prev.MiRows == f.MiRows {
		f.PrevSegs = prev.Seg
	}
	f.UpdateMap, f.UpdateData = 1, 1
	f.active()
	need := -1 // segments up to this one have to have features
	if prev != nil {
		f.UpdateMap = w.F("segmentation_update_map", 1, b2i(r.P(60)))
		if f.UpdateMap == 1 {
			f.Temporal = w.F("segmentation_temporal_update", 1, b2i(r.P(60)))
		}
		if f.UpdateMap == 0 || f.Temporal == 1 {
			need = f.PrevSegs.max()
		}
		f.UpdateData = w.F("segmentation_update_data", 1, b2i(r.P(50) || f.LastActive < need))
	}
	if f.UpdateData == 0 {
		return
	}
	f.FeatEn, f.FeatData = [8][8]int{}, [8][8]int{}
	pc := r.Pick(5, 30, 60)
	for i := 0; i < 8; i++ {
		for j := 0; j < 8; j++ {
			p := pc
			if j >= 5 && r.P(50) {
				p = 4
			}
			if i == need && j == 1 {
				p = 100
			}
			f.FeatEn[i][j] = w.F("feature_enabled", 1, b2i(r.P(p)))
			if f.FeatEn[i][j] == 0 {
				continue
			}
			if j < 5 {
				n := segBits[j] + 1
				v := r.Bits(n)
				if v >= 1<<uint(n-1) {
					v -= 1 << uint(n)
				}
				if j == 0 && lossless && f.BaseQ > 0 && r.P(80) {
					v = -imin(256, f.BaseQ+r.N(3))
				}
				w.Su("feature_value", n, v)
				f.FeatData[i][j] = clip(-segMax[j], segMax[j], v)
			} else if segBits[j] > 0 {
				f.FeatData[i][j] = w.F("feature_value", segBits[j], r.Bits(segBits[j]))
			}
		}
	}
	f.active()
}

// active derives what the features in use say about the segments.
func (f *Frame) active() {
	f.LastActive, f.PreSkip = 0, 0
	for i := range f.FeatEn {
		for j, on := range f.FeatEn[i] {
			if on == 1 {
				f.LastActive = i
				if j >= 5 {
					f.PreSkip = 1
				}
			}
		}
	}
}

func (f *Frame) genLoopFilter(w *vlib.Writer, r *vlib.RNG, s *Seq) {
	if f.CodedLossless == 1 || f.IntraBc == 1 {
		f.RefDeltas, f.ModeDeltas = [8]int{1, 0, 0, 0, -1, 0, -1, -1}, [2]int{}
		return
	}
	f.LfRead = true
	lv := func(n string) int {
		v := r.Bits(6)
		if r.P(35) {
			v = 0
		}
		return w.F(n, 6, v)
	}
	f.LfLevel[0] = lv("loop_filter_level[0]")
	f.LfLevel[1] = lv("loop_filter_level[1]")
	if s.Color.NumPlanes > 1 && (f.LfLevel[0] != 0 || f.LfLevel[1] != 0) {
		f.LfChroma = true
		f.LfLevel[2] = lv("loop_filter_level[2]")
		f.LfLevel[3] = lv("loop_filter_level[3]")
	}
	f.Sharp = w.F("loop_filter_sharpness", 3, r.Bits(3))
	f.LfDelta = w.F("loop_filter_delta_enabled", 1, b2i(r.P(60)))
	if f.LfDelta == 0 {
		return
	}
	f.LfUpdate = w.F("loop_filter_delta_update", 1, b2i(r.P(60)))
	if f.LfUpdate == 0 {
		return
	}
	upd := func(n string, d *int) {
		if w.F("update_"+n, 1, b2i(r.P(50))) == 1 {
			v := r.Bits(7)
			if v >= 64 {
				v -= 128
			}
			*d = w.Su(n, 7, v)
		}
	}
	for i := range f.RefDeltas {
		upd("ref_delta", &f.RefDeltas[i])
	}
	for i := range f.ModeDeltas {
		upd("mode_delta", &f.ModeDeltas[i])
	}
}

func (f *Frame) genCdef(w *vlib.Writer, r *vlib.RNG, s *Seq) {
	f.Damping = 3
	if f.CodedLossless == 1 || f.IntraBc == 1 || s.Cdef == 0 {
		f.YPri, f.YSec, f.UvPri, f.UvSec = []int{0}, []int{0}, []int{0}, []int{0}
		return
	}
	f.CdefRead = true
	f.Damping = 3 + w.F("cdef_damping_minus_3", 2, r.Bits(2))
	f.CdefBits = w.F("cdef_bits", 2, r.Bits(2))
	sec := func(n string) int {
		v := w.F(n, 2, r.N(4))
		if v == 3 {
			return 4
		}
		return v
	}
	for i := 0; i < 1<<uint(f.CdefBits); i++ {
		f.YPri = append(f.YPri, w.F("cdef_y_pri_strength", 4, r.Bits(4)))
		f.YSec = append(f.YSec, sec("cdef_y_sec_strength"))
		if s.Color.NumPlanes > 1 {
			f.UvPri = append(f.UvPri, w.F("cdef_uv_pri_strength", 4, r.Bits(4)))
			f.UvSec = append(f.UvSec, sec("cdef_uv_sec_strength"))
		}
	}
}

func (f *Frame) genLr(w *vlib.Writer, r *vlib.RNG, s *Seq) {
	if f.AllLossless == 1 || f.IntraBc == 1 || s.Restoration == 0 {
		return
	}
	f.LrRead = true
	remap := [4]int{0, 3, 1, 2}
	chroma := false
	none := r.P(20)
	for i := 0; i < s.Color.NumPlanes; i++ {
		v := r.N(4)
		if none || r.P(30) {
			v = 0
		}
		f.LrType[i] = remap[w.F("lr_type", 2, v)]
		if v != 0 {
			f.UsesLr = 1
			chroma = chroma || i > 0
		}
	}
	if f.UsesLr == 0 {
		return
	}
	shift := w.F("lr_unit_shift", 1, b2i(r.P(60)))
	if s.Sb128 == 1 {
		shift++
	} else if shift == 1 {
		shift += w.F("lr_unit_extra_shift", 1, b2i(r.P(50)))
	}
	uv := 0
	if s.Color.Ssx == 1 && s.Color.Ssy == 1 && chroma {
		uv = w.F("lr_uv_shift", 1, b2i(r.P(50)))
	}
	f.LrSize[0] = 64 << uint(shift)
	f.LrSize[1] = f.LrSize[0] >> uint(uv)
	f.LrSize[2] = f.LrSize[1]
}

func (f *Frame) genSkipMode(w *vlib.Writer, r *vlib.RNG, s *Seq) {
	if f.Intra == 1 || f.RefSelect == 0 || s.OrderHint == 0 {
		return
	}
	// nearest past, nearest future and second nearest past reference, by distance
	hint := func(i int) int { return f.After.OrderHint[f.RefIdx[i]] }
	dist := func(i int) int { return RelDist(s, hint(i), f.OrderHint) }
	fwd, bwd := -1, -1
	for i := 0; i < 7; i++ {
		if dist(i) < 0 && (fwd < 0 || RelDist(s, hint(i), hint(fwd)) > 0) {
			fwd = i
		}
		if dist(i) > 0 && (bwd < 0 || RelDist(s, hint(i), hint(bwd)) < 0) {
			bwd = i
		}
	}
	a, b := fwd, bwd
	if fwd >= 0 && bwd < 0 {
		for i := 0; i < 7; i++ {
			if RelDist(s, hint(i), hint(fwd)) < 0 && (b < 0 || RelDist(s, hint(i), hint(b)) > 0) {
				b = i
			}
		}
	}
	if a >= 0 && b >= 0 {
		f.SkipAllowed = true
		f.SkipFrame = [2]int{1 + imin(a, b), 1 + imax(a, b)}
		f.SkipPresent = w.F("skip_mode_present", 1, b2i(r.P(50)))
	}
}

// WriteSubexp appends v, 0 <= v < n, in the sub-exponential code with k = 3.
func WriteSubexp(w *vlib.Writer, n, v int) {
	lo, bits, i := 0, 3, 0
	for {
		if i > 0 {
			bits = 3 + i - 1
		}
		size := 1 << uint(bits)
		if n <= lo+3*size {
			w.Ns("subexp_final_bits", n-lo, v-lo)
			return
		}
		if v < lo+size {
			w.F("subexp_more_bits", 1, 0)
			w.F("subexp_bits", bits, v-lo)
			return
		}
		w.F("subexp_more_bits", 1, 1)
		lo += size
		i++
	}
}

// recenter is the inverse of inverse_recenter: the code of value x around r.
func recenter(r, x int) int {
	switch {
	case x > 2*r:
		return x
	case x >= r:
		return (x - r) * 2
	default:
		return (r-x)*2 - 1
	}
}

// WriteSignedSubexpRef appends x, lo <= x < hi, coded around r.
func WriteSignedSubexpRef(w *vlib.Writer, lo, hi, r, x int) {
	mx, rr, xx := hi-lo, r-lo, x-lo
	if rr*2 <= mx {
		WriteSubexp(w, mx, recenter(rr, xx))
	} else {
		WriteSubexp(w, mx, recenter(mx-1-rr, mx-1-xx))
	}
}

func (f *Frame) genGlobalMotion(w *vlib.Writer, r *vlib.RNG, o FrameOpt) {
	for ref := 1; ref <= 7; ref++ {
		f.Gm[ref] = GmDefault
	}
	if f.Intra == 1 {
		return
	}
	for ref := 1; ref <= 7; ref++ {
		p := &f.Gm[ref]
		typ := 0
		if w.F("is_global", 1, b2i(r.P(o.GmPc))) == 1 {
			if w.F("is_rot_zoom", 1, b2i(r.P(35))) == 1 {
				typ = 2
			} else if w.F("is_translation", 1, b2i(r.P(50))) == 1 {
				typ = 1
			} else {
				typ = 3
			}
		}
		f.GmType[ref] = typ
		param := func(idx int) {
			abs, prec := 12, 15
			if idx < 2 {
				abs, prec = 12, 6
				if typ == 1 {
					abs, prec = 9-(1-f.HighPrec), 3-(1-f.HighPrec)
				}
			}
			mx := 1 << uint(abs)
			// the coded value is the parameter minus its default, in units of 2^-prec
			x := r.In(-mx, mx)
			switch r.N(6) {
			case 0:
				x = r.In(-3, 3)
			case 3, 4:
				n := r.Pick(20, 100, 250)
				x = r.In(-n, n)
			case 1:
				x = mx - r.N(3)
			case 2:
				x = -mx + r.N(3)
			}
			// around the parameter of the previous frame
			around := (f.PrevGm[ref][idx] - GmDefault[idx]) >> uint(16-prec)
			if around != 0 && r.P(40) {
				x = clip(-mx, mx, around+r.In(-4, 4))
			}
			WriteSignedSubexpRef(w, -mx, mx+1, around, x)
			v := x << uint(16-prec)
			if idx == 2 || idx == 5 {
				v += 1 << 16
			}
			p[idx] = v
		}
		if typ >= 2 {
			param(2)
			param(3)
			if typ == 3 {
				param(4)
				param(5)
			} else {
				p[4], p[5] = -p[3], p[2]
			}
		}
		if typ >= 1 {
			param(0)
			param(1)
		}
	}
}

func (f *Frame) genGrain(w *vlib.Writer, r *vlib.RNG, s *Seq) {
	g := &f.Grain
	if s.FilmGrain == 0 || (f.Show == 0 && f.Showable == 0) {
		return
	}
	g.Read = true
	g.Apply = w.F("apply_grain", 1, b2i(r.P(80)))
	if g.Apply == 0 {
		return
	}
	g.Seed = w.F("grain_seed", 16, r.Bits(16))
	if f.Type == Inter {
		w.F("update_grain", 1, 1)
	}
	points := func(n string, max int) (v, sc []int) {
		cnt := r.N(max + 1)
		if r.P(30) {
			cnt = 0
		}
		w.F("num_"+n+"_points", 4, cnt)
		x := r.N(8)
		for i := 0; i < cnt; i++ {
			v = append(v, w.F("point_"+n+"_value", 8, x))
			sc = append(sc, w.F("point_"+n+"_scaling", 8, r.Bits(8)))
			x += 1 + r.N(16)
		}
		return
	}
	g.YVal, g.YScal = points("y", 14)
	if s.Color.Mono == 0 {
		g.FromLuma = w.F("chroma_scaling_from_luma", 1, b2i(r.P(35)))
	}
	if !(s.Color.Mono == 1 || g.FromLuma == 1 || (s.Color.Ssx == 1 && s.Color.Ssy == 1 && len(g.YVal) == 0)) {
		g.CbVal, g.CbScal = points("cb", 10)
		g.CrVal, g.CrScal = points("cr", 10)
	}
	g.Scaling8 = w.F("grain_scaling_minus_8", 2, r.Bits(2))
	g.Lag = w.F("ar_coeff_lag", 2, r.N(4))
	n := 2 * g.Lag * (g.Lag + 1)
	coeffs := func(name string, n int) (c []int) {
		for i := 0; i < n; i++ {
			c = append(c, w.F(name, 8, r.Bits(8)))
		}
		return
	}
	nc := n
	if len(g.YVal) > 0 {
		nc = n + 1
		g.ArYRead = true
		g.ArY = coeffs("ar_coeffs_y_plus_128", n)
	}
	if g.FromLuma == 1 || len(g.CbVal) > 0 {
		g.CbAr = true
		g.ArCb = coeffs("ar_coeffs_cb_plus_128", nc)
	}
	if g.FromLuma == 1 || len(g.CrVal) > 0 {
		g.CrAr = true
		g.ArCr = coeffs("ar_coeffs_cr_plus_128", nc)
	}
	g.Shift6 = w.F("ar_coeff_shift_minus_6", 2, r.Bits(2))
	g.ScaleShift = w.F("grain_scale_shift", 2, r.Bits(2))
	if len(g.CbVal) > 0 {
		g.CbRead = true
		g.CbM = w.F("cb_mult", 8, r.Bits(8))
		g.CbL = w.F("cb_luma_mult", 8, r.Bits(8))
		g.CbO = w.F("cb_offset", 9, r.Bits(9))
	}
	if len(g.CrVal) > 0 {
		g.CrRead = true
		g.CrM = w.F("cr_mult", 8, r.Bits(8))
		g.CrL = w.F("cr_luma_mult", 8, r.Bits(8))
		g.CrO = w.F("cr_offset", 9, r.Bits(9))
	}
	g.Overlap = w.F("overlap_flag", 1, b2i(r.P(50)))
	g.Clip = w.F("clip_to_restricted_range", 1, b2i(r.P(50)))
}
