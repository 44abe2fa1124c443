package model

import (
	"fmt"

	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

// A video is a stream of frames with everything they decode to: headers,
// tiles, in-loop filters, references and output.

// VideoOpt bends the distribution.
type VideoOpt struct {
	MaxDim   int
	Frames   int
	ExistPc  int // percent of frames that show an existing one, where possible
	NewSeqPc int
	Simple   bool // little content: skipped blocks and few coefficients
	Groups   bool // many tile groups
	InterPc  int  // percent of inter frames, where possible
	CopyPc   int  // percent of frames with block copies, where possible
	LayerPc  int  // percent of sequences with units that are not of the operating point
	Filters  [64][8]int
	Init     func(s *state.State, baseQ int) // sets the default CDFs
}

// Slot is a stored reference frame.
type Slot struct {
	F        *Frame
	Seq      *Seq
	Pic      vlib.Picture // cropped
	Seg      [][]int
	Cdfs     *state.State
	Valid    bool
	Showable bool
	Loaded   bool // it was a key frame that was shown again
}

// VideoFrame is a decoded frame.
type VideoFrame struct {
	F     *Frame
	Seq   *Seq
	Pic   vlib.Picture // what the frame decodes to or, for an existing one, what is shown
	Shown bool
	Slots [8]*Slot // after the frame
	Last  int      // obu that completes it
	Text  string
	Tile  *Tile // the last one coded
}

// Video is a stream of frames.
type Video struct {
	Bytes  []byte
	Obus   []Obu
	Frames []*VideoFrame
	Slots  [8]*Slot
	Ev     map[string]int64
	Tiles  []Span // of tiles and their sizes within units
	data   [][]byte
	newTu  []bool
	newFu  []bool
}

// Span is a part of the payload of a unit.
type Span struct{ Obu, From, To int }

// Join makes one stream of the units of several; each starts a temporal unit.
func Join(r *vlib.RNG, streams ...*Video) *Video {
	j := &Video{}
	for _, v := range streams {
		j.data, j.Obus = append(j.data, v.data...), append(j.Obus, v.Obus...)
		j.newTu, j.newFu = append(j.newTu, v.newTu...), append(j.newFu, v.newFu...)
	}
	j.Bytes, _ = group(r, j.data, j.Obus, func(i int) bool { return !j.newTu[i] }, func(i int) bool { return !j.newFu[i] })
	return j
}

// Head is the first n units of the stream, with no notion of what they decode to.
func (v *Video) Head(n int) *Video {
	return &Video{data: v.data[:n:n], Obus: v.Obus[:n:n], newTu: v.newTu[:n:n], newFu: v.newFu[:n:n]}
}

// Within lists the numbers of units after which the stream is in the middle of a frame.
func (v *Video) Within() []int {
	l := []int{}
	for i := range v.Obus {
		if v.Obus[i].Type == ObuTileGroup && !v.Obus[i].Dropped {
			l = append(l, i)
		}
	}
	return l
}

// Flip changes bits of the stream's tiles, which are no longer what the stream says.
func (v *Video) Flip(r *vlib.RNG, n int) {
	v.data = append([][]byte{}, v.data...)
	for ; n > 0 && len(v.Tiles) > 0; n-- {
		t := v.Tiles[r.N(len(v.Tiles))]
		d := append([]byte{}, v.data[t.Obu]...)
		d[len(d)-v.Obus[t.Obu].Size+r.In(t.From, t.To-1)] ^= 1 << uint(r.N(8))
		v.data[t.Obu] = d
	}
}

func cropped(p [][]int, h, w int) [][]int {
	o := make([][]int, h)
	for y := range o {
		o[y] = append([]int{}, p[y][:w]...)
	}
	return o
}

// PlaneDims gives the size of a plane of a w x h picture.
func (s *Seq) PlaneDims(w, h, p int) (int, int) {
	if p > 0 {
		w, h = (w+s.Color.Ssx)>>uint(s.Color.Ssx), (h+s.Color.Ssy)>>uint(s.Color.Ssy)
	}
	return w, h
}

// tileCfg is what the headers say about the tiles of a frame.
func tileCfg(r *vlib.RNG, s *Seq, f *Frame, slots *[8]*Slot, o *VideoOpt) *TileCfg {
	c := &TileCfg{Rows: f.MiRows, Cols: f.MiCols, Planes: s.Color.NumPlanes, SX: s.Color.Ssx, SY: s.Color.Ssy, Depth: s.Color.BitDepth}
	c.SB128, c.FilterIntra, c.EdgeFilter = s.Sb128 == 1, s.FilterIntra == 1, s.IntraEdge == 1
	c.Screen, c.IntraBc = f.Sct == 1, f.IntraBc == 1
	c.Seg, c.PreSkip, c.LastSeg = f.SegEnabled == 1, f.PreSkip == 1, f.LastActive
	c.Strict = true
	c.SegOn, c.SegData = f.FeatEn, f.FeatData
	for i := range c.Lossless {
		c.Lossless[i] = f.Lossless[i] == 1
	}
	c.CodedLossless = f.CodedLossless == 1
	c.BaseQ, c.YDc, c.UDc, c.UAc, c.VDc, c.VAc = f.BaseQ, f.YDc, f.UDc, f.UAc, f.VDc, f.VAc
	c.Qm, c.QmLevel = f.UsingQm == 1, [3]int{f.Qmy, f.Qmu, f.Qmv}
	c.DeltaQ, c.DeltaQRes = f.DeltaQ == 1, f.DeltaQRes
	c.DeltaLf, c.DeltaLfMulti, c.DeltaLfRes = f.DeltaLf == 1, f.LfMulti == 1, f.LfRes
	c.Cdef, c.CdefBits = s.Cdef == 1, f.CdefBits
	c.TxSelect, c.ReducedTx = f.TxMode == 2, f.ReducedTx == 1
	c.LrType, c.LrUnit = f.LrType, f.LrSize
	c.FrameH, c.UpscaledW = f.Height, f.Upscaled
	c.SuperRes, c.Denom = f.UseSuperRes == 1, f.Denom
	c.NoAdapt = f.DisableCdf == 1
	c.PSkip = r.Pick(0, 20, 50, 90)
	c.PSplit, c.PNone = r.Pick(0, 20, 60), r.Pick(0, 0, 20, 50)
	c.PPalette = r.Pick(0, 20, 60)
	c.PFilter, c.PCfl = r.Pick(0, 50), r.Pick(0, 30, 70)
	c.PZero = r.Pick(5, 30, 60)
	if o.Simple {
		c.PSkip, c.PNone, c.PSplit, c.PZero = r.Pick(80, 95), r.Pick(20, 60), 0, 80
	}
	c.FrameW, c.ForceInt = f.Width, f.ForceImv == 1
	if f.IntraBc == 1 && o.InterPc > 0 {
		c.PCopy, c.PTxSplit = r.Pick(30, 90), r.Pick(20, 50, 80)
		c.PPalette = r.Pick(0, 0, c.PPalette)
	}
	if f.Intra == 1 {
		return c
	}
	if !o.Simple {
		c.PSplit, c.PNone = r.Pick(0, 20, 60, 80), r.Pick(0, 0, 20)
	}
	c.Inter, c.HighPrec = true, f.HighPrec == 1
	c.Gm, c.GmType = f.Gm, f.GmType
	for i := 1; i < 8; i++ {
		slot := slots[f.RefIdx[i-1]]
		c.Refs[i] = &RefPic{Pic: slot.Pic, W: slot.F.Upscaled, H: slot.F.Height, Hint: f.OrderHints[i]}
		c.SignBias[i] = f.SignBias[i] == 1
	}
	c.Hint = f.OrderHint
	if s.OrderHint == 1 {
		c.HintBits = s.OrderHintBits
	}
	c.UpdateMap, c.Temporal, c.PrevSegs = f.UpdateMap == 1, f.Temporal == 1, f.PrevSegs
	if c.PrevSegs == nil {
		c.PrevSegs = grid(f.MiRows, f.MiCols, 0)
	}
	c.RefSelect, c.SkipModeOn, c.SkipModeRefs = f.RefSelect == 1, f.SkipPresent == 1, f.SkipFrame
	c.SwitchMotion, c.AllowWarp, c.InterpFilter = f.MotionSwitch == 1, f.Warped == 1, f.Interp
	c.Dual, c.Masked, c.Jnt, c.InterIntra = s.Dual == 1, s.Masked == 1, s.Jnt == 1, s.InterIntra == 1
	c.PInter, c.PSkipMode, c.PCompound = r.Pick(50, 80, 95), r.Pick(10, 50), r.Pick(20, 50, 80)
	c.PInterIntra, c.PTxSplit = r.Pick(10, 50), r.Pick(20, 50, 80)
	return c
}

// coded is a frame with its tiles coded, before the in-loop filters.
type coded struct {
	t    *Tile // of the last tile; its arrays cover the frame
	data [][]byte
	cdfs *state.State
}

func codeTiles(r *vlib.RNG, s *Seq, f *Frame, slots *[8]*Slot, o *VideoOpt, ev map[string]int64) *coded {
	k := &coded{}
	base := &state.State{}
	if f.Primary < 7 {
		CopyCdfs(base, slots[f.RefIdx[f.Primary]].Cdfs)
		NoCounters(base)
		ev["frames with a primary reference frame"]++
	} else {
		o.Init(base, f.BaseQ)
	}
	cfg := tileCfg(r, s, f, slots, o)
	cur := [3][][]int(vlib.Filled(f.MiRows*4+128, f.MiCols*4+128, 0))
	k.cdfs = base
	uniform := r.Pick(0, 20, 60)
	for n := 0; n < f.Tiles.Rows*f.Tiles.Cols; n++ {
		c := *cfg
		row, col := n/f.Tiles.Cols, n%f.Tiles.Cols
		c.R0, c.R1 = f.Tiles.RowStarts[row], f.Tiles.RowStarts[row+1]
		c.C0, c.C1 = f.Tiles.ColStarts[col], f.Tiles.ColStarts[col+1]
		cdfs := &state.State{}
		CopyCdfs(cdfs, base)
		e := &Coder{E: NewEncoder(), R: r, NoAdapt: c.NoAdapt, Uniform: uniform}
		t := NewTile(&c, e, cdfs, cur)
		if p := k.t; p != nil {
			t.Grid, t.LfTx, t.InterTx, t.TxTypes, t.Cdefs = p.Grid, p.LfTx, p.InterTx, p.TxTypes, p.Cdefs
			t.LrKind, t.LrTaps, t.LrSet, t.LrXqd = p.LrKind, p.LrTaps, p.LrSet, p.LrXqd
			t.Ev = p.Ev
		}
		t.Code()
		k.t = t
		k.data = append(k.data, e.E.Close(r.Pick(0, 0, 0, r.N(4))))
		if n == f.Tiles.ContextId && f.DisableEnd == 0 {
			k.cdfs = cdfs
		}
		ev["symbols"] += int64(e.Symbols)
	}
	for name, n := range k.t.Ev {
		ev[name] += n
	}
	ev["tiles"] += int64(len(k.data))
	return k
}

// filter takes the frame through the in-loop filters.
func (k *coded) filter(s *Seq, f *Frame, o *VideoOpt, ev map[string]int64) vlib.Picture {
	col := &s.Color
	cur := vlib.Picture(k.t.Cur)
	if f.LfLevel[0] != 0 || f.LfLevel[1] != 0 {
		lf := &LfFrame{W: f.Width, H: f.Height, MiRows: f.MiRows, MiCols: f.MiCols, Depth: col.BitDepth, Planes: col.NumPlanes, SubX: uint(col.Ssx), SubY: uint(col.Ssy)}
		lf.Cur, lf.Level, lf.Sharp, lf.Multi = cur, f.LfLevel, f.Sharp, f.LfMulti == 1
		lf.Deltas, lf.RefDelta, lf.ModeDelta = f.LfDelta == 1, f.RefDeltas, f.ModeDeltas
		lf.Seg, lf.SegOn, lf.SegVal = f.SegEnabled == 1, f.FeatEn, f.FeatData
		blocks := map[*Blk]*LfBlk{}
		lf.At = make([][]*LfBlk, f.MiRows)
		for y := range lf.At {
			lf.At[y] = make([]*LfBlk, f.MiCols)
			for x := range lf.At[y] {
				b := k.t.Grid[y][x]
				if blocks[b] == nil {
					blocks[b] = &LfBlk{X: b.C * 4, Y: b.R * 4, W: b.W, H: b.H, Size: b.Size, Skip: b2i(b.Skip), Ref: imax(0, b.Ref[0]), Mode: b.YMode, Seg: b.Seg, Delta: b.DeltaLF}
				}
				lf.At[y][x] = blocks[b]
			}
		}
		for p := 0; p < col.NumPlanes; p++ {
			sx, sy := lf.Sub(p)
			ids := map[[3]int]*LfTx{}
			lf.Tx[p] = make([][]*LfTx, f.MiRows>>sy+1)
			for y := range lf.Tx[p] {
				lf.Tx[p][y] = make([]*LfTx, f.MiCols>>sx+1)
				for x := range lf.Tx[p][y] {
					n := k.t.LfTx[p][y][x]
					if n < 0 {
						continue
					}
					// transform blocks lie at multiples of their size
					w, h := uint(TxW[n]-2), uint(TxH[n]-2)
					id := [3]int{n, y >> h, x >> w}
					if ids[id] == nil {
						ids[id] = &LfTx{len(ids), n}
					}
					lf.Tx[p][y][x] = ids[id]
				}
			}
		}
		cur = lf.Run(ev)
	}
	cd := &CdefFrame{MiRows: f.MiRows, MiCols: f.MiCols, W: f.Width, H: f.Height, Depth: col.BitDepth, Planes: col.NumPlanes, SubX: col.Ssx, SubY: col.Ssy}
	cd.Cur, cd.Damping = cur, f.Damping
	copy(cd.Pri[0][:], f.YPri)
	copy(cd.Sec[0][:], f.YSec)
	copy(cd.Pri[1][:], f.UvPri)
	copy(cd.Sec[1][:], f.UvSec)
	for y := 0; y < f.MiRows; y++ {
		row := make([]int, f.MiCols)
		for x := range row {
			row[x] = b2i(k.t.Grid[y][x].Skip)
		}
		cd.Skip = append(cd.Skip, row)
	}
	for y := 0; y < f.MiRows; y += 16 {
		row := []int{}
		for x := 0; x < f.MiCols; x += 16 {
			row = append(row, k.t.Cdefs[y][x])
		}
		cd.Idx = append(cd.Idx, row)
	}
	after := cd.Run(ev)
	lr := &LrFrame{W: f.Upscaled, H: f.Height, Depth: col.BitDepth, Planes: col.NumPlanes, SubX: col.Ssx, SubY: col.Ssy, LrType: f.LrType, Size: f.LrSize}
	for p := 0; p < col.NumPlanes; p++ {
		w, h := s.PlaneDims(f.Width, f.Height, p)
		up, _ := s.PlaneDims(f.Upscaled, f.Height, p)
		mi := f.MiCols * 4
		if p > 0 {
			mi >>= uint(col.Ssx)
		}
		lr.Deblocked[p] = Upscale(cur[p], o.Filters, w, up, h, mi, f.UseSuperRes == 0, col.BitDepth, ev)
		lr.Cdef[p] = Upscale(after[p], o.Filters, w, up, h, mi, f.UseSuperRes == 0, col.BitDepth, ev)
		if f.LrType[p] == LrNone {
			continue
		}
		for y, row := range k.t.LrKind[p] {
			units := make([]LrUnit, len(row))
			for x := range row {
				units[x] = LrUnit{imax(row[x], 0), k.t.LrTaps[p][y][x], k.t.LrSet[p][y][x], k.t.LrXqd[p][y][x]}
			}
			lr.Units[p] = append(lr.Units[p], units)
		}
	}
	out := lr.Run(ev)
	var pic vlib.Picture
	for p := 0; p < col.NumPlanes; p++ {
		w, h := s.PlaneDims(f.Upscaled, f.Height, p)
		pic[p] = cropped(out[p], h, w)
	}
	return pic
}

func drawExt(r *vlib.RNG) (int, Ext) {
	if r.P(20) {
		return 1, Ext{r.N(8), r.N(4)}
	}
	return 0, Ext{}
}

// GenVideo draws a stream.
func GenVideo(r *vlib.RNG, o VideoOpt) *Video {
	v := &Video{Ev: map[string]int64{}}
	for i := range v.Slots {
		v.Slots[i] = &Slot{}
	}
	var data [][]byte
	var newTu, newFu []bool
	var sq *Seq
	var seqBits []byte
	refs := Refs{}
	tu, fu := true, true
	// all units of a frame have the same extension
	extFlag, ext, inFrame := 0, Ext{}, false
	idc := 0
	inOp := func(e Ext) bool { return idc>>uint(e.Temporal)&1 == 1 && idc>>uint(8+e.Spatial)&1 == 1 }
	emit := func(typ int, p *vlib.Writer, what string) {
		u := Obu{Type: typ, HasSize: b2i(r.P(50)), Reserved: b2i(r.P(5)), What: what}
		u.ExtFlag, u.Ext = extFlag, ext
		if !inFrame {
			u.ExtFlag, u.Ext = drawExt(r)
		}
		data = append(data, u.pack(r, p))
		v.Obus = append(v.Obus, u)
		newTu, newFu = append(newTu, tu), append(newFu, fu || tu)
		tu, fu = false, false
	}
	noise := func() {
		for r.P(8) {
			p := &vlib.Writer{Quiet: true}
			p.Raw(r.Bytes(r.N(12)))
			p.Raw([]byte{128})
			keep := inFrame
			inFrame = false
			emit(r.Pick(ObuPadding, ObuMeta, 9, 0), p, "other")
			inFrame = keep
		}
		for idc != 0 && !inFrame && r.P(15) {
			e := Ext{r.N(8), r.N(4)}
			if inOp(e) {
				continue
			}
			// of no interest, whatever it holds
			p := &vlib.Writer{Quiet: true}
			typ := r.Pick(ObuFrameHdr, ObuFrame, ObuTileGroup, ObuRedundant, 8)
			if n := len(data); n > 0 && r.Bool() {
				k := r.N(n)
				p.Raw(data[k][len(data[k])-v.Obus[k].Size:])
				if t := v.Obus[k].Type; t != ObuSeq && t != ObuTd {
					typ = t
				}
			} else {
				p.Raw(r.Bytes(r.N(40)))
			}
			extFlag, ext, inFrame = 1, e, true
			emit(typ, p, "not in the operating point")
			inFrame = false
			v.Ev["units not in the operating point"]++
		}
	}
	end := func(p *vlib.Writer) {
		p.F("", 1, 1)
		p.AlignZero()
		for r.P(10) {
			p.F("", 8, 0)
		}
	}
	least := 1
	if o.InterPc > 0 {
		least = 2
		if r.P(8) && o.MaxDim > 100 {
			// room for block copies
			o.MaxDim, o.Simple, o.InterPc, o.CopyPc = 300, true, 20, 60
		}
	}
	for n := r.In(least, o.Frames); n > 0; n-- {
		fo := DefFrame()
		fo.InterPc, fo.ExistingPc, fo.BigPc, fo.Refs, fo.Inherit = o.InterPc, 0, 0, &refs, true
		fo.CopyPc, fo.Strict = o.CopyPc, true
		if len(v.Frames) == 0 || v.Frames[len(v.Frames)-1].Shown || r.P(5) {
			tu = true
			emit(ObuTd, &vlib.Writer{Quiet: true}, "temporal delimiter")
		}
		noise()
		switch fresh := sq == nil || sq.Still == 1 || r.P(o.NewSeqPc); {
		case fresh:
			p := &vlib.Writer{Quiet: true}
			so := DefSeq()
			so.Strict, so.MaxDim, so.NoLayers, so.FrameIds, so.Grain, so.Reduced = true, o.MaxDim, true, 35, 0, 8
			if o.MaxDim < 64 {
				so.SuperRes = 70
			}
			if o.InterPc > 0 {
				so.Reduced, so.Moving, so.OrderOn = 0, true, 85
				if o.MaxDim >= 100 && r.P(70) {
					so.MinBits = 6
				}
			}
			if o.LayerPc > 0 && r.P(o.LayerPc) {
				so.NoLayers, so.OneLayer, so.Reduced = false, true, 0
			}
			sq = GenSeq(p, r, so)
			idc = sq.Idc[0]
			seqBits = append([]byte{}, p.Bit...)
			end(p)
			emit(ObuSeq, p, "sequence header")
			fo.ShownKey = true
		case r.P(10):
			p := &vlib.Writer{Quiet: true}
			p.Bit = append(p.Bit, seqBits...)
			end(p)
			emit(ObuSeq, p, "sequence header again")
		}
		// what is put out of several layers is not decided here
		fo.Hidden = idc != 0
		if !fo.ShownKey && !fo.Hidden && r.P(o.ExistPc) {
			can := []int{}
			for i, s := range v.Slots {
				if s.Valid && s.Showable {
					can = append(can, i)
				}
			}
			if len(can) > 0 {
				fo.Exist = 1 + can[r.N(len(can))]
			}
		}
		noise()
		p := &vlib.Writer{Quiet: true}
		extFlag, ext = drawExt(r)
		for idc != 0 && extFlag == 1 && !inOp(ext) {
			extFlag, ext = drawExt(r)
		}
		inFrame = true
		if idc != 0 && extFlag == 1 {
			v.Ev["frames of a layer"]++
		}
		f, _ := GenFrame(p, r, sq, ext, fo)
		vf := &VideoFrame{F: f, Seq: sq, Shown: f.Show == 1 || f.ShowExisting == 1}
		v.Frames = append(v.Frames, vf)
		if f.ShowExisting == 1 {
			end(p)
			emit(ObuFrameHdr, p, fmt.Sprintf("existing frame %d", f.ToShow))
			s := v.Slots[f.ToShow]
			vf.Pic, vf.Text = s.Pic, fmt.Sprintf("slot %d shown, type %d, %dx%d", f.ToShow, f.Type, s.F.Upscaled, s.F.Height)
			if f.Type == Key {
				for i := range v.Slots {
					k := *s
					k.Valid, k.Showable, k.Loaded = true, false, true
					v.Slots[i] = &k
				}
				v.Ev["key frames loaded"]++
			}
			v.Ev["existing frames shown"]++
		} else {
			k := codeTiles(r, sq, f, &v.Slots, &o, v.Ev)
			vf.Pic, vf.Tile = k.filter(sq, f, &o, v.Ev), k.t
			v.packFrame(r, sq, f, k, p, &o, emit, noise, end)
			vf.Text = fmt.Sprintf("frame type %d shown %d, %dx%d->%d, depth %d, planes %d, subsampling %d%d, tiles %dx%d, lossless %d", f.Type, f.Show, f.Width, f.Height, f.Upscaled,
				sq.Color.BitDepth, sq.Color.NumPlanes, sq.Color.Ssx, sq.Color.Ssy, f.Tiles.Cols, f.Tiles.Rows, f.CodedLossless)
			seg := grid(f.MiRows, f.MiCols, 0)
			for y := range seg {
				for x := range seg[y] {
					if f.SegEnabled == 0 || f.UpdateMap == 1 {
						seg[y][x] = k.t.Grid[y][x].Seg
					} else if f.PrevSegs != nil {
						seg[y][x] = f.PrevSegs[y][x]
					}
				}
			}
			for i := range v.Slots {
				s := *v.Slots[i]
				s.Valid = f.After.Valid[i] == 1
				if f.RefreshFlags>>uint(i)&1 == 1 {
					s = Slot{F: f, Seq: sq, Pic: vf.Pic, Seg: seg, Cdfs: k.cdfs, Valid: true, Showable: f.Showable == 1}
				}
				v.Slots[i] = &s
			}
			v.Ev["frames decoded"]++
			v.Ev[fmt.Sprintf("frames of type %d shown %d", f.Type, f.Show)]++
			v.Ev[fmt.Sprintf("planes %d subsampling %d%d depth %d", sq.Color.NumPlanes, sq.Color.Ssx, sq.Color.Ssy, sq.Color.BitDepth)]++
			if f.Intra == 0 {
				v.interEvents(f, &refs)
			}
			if sq.FrameIds == 1 {
				v.Ev["frames with ids"]++
				if (f.Type != Key || f.Show == 0) && len(v.Frames) > 1 {
					old := 0
					for i, ok := range v.Frames[len(v.Frames)-2].Slots {
						old += b2i(ok.Valid && f.After.Valid[i] == 0)
					}
					v.Ev["slots lost for their frame id"] += int64(old)
				}
			}
			if f.UseSuperRes == 1 {
				v.Ev["frames with super-resolution"]++
			}
		}
		vf.Last = len(v.Obus) - 1
		vf.Slots = v.Slots
		// the references of the next header
		refs = f.After
		for i, s := range v.Slots {
			refs.Valid[i] = b2i(s.Valid)
			if s.F != nil {
				f := s.F
				refs.OrderHint[i], refs.Type[i], refs.FrameId[i] = f.OrderHint, f.Type, f.CurrentId
				refs.Saved[i] = Saved{Upscaled: f.Upscaled, Width: f.Width, Height: f.Height, RenderW: f.RenderW, RenderH: f.RenderH, MiCols: f.MiCols, MiRows: f.MiRows,
					Gm: f.Gm, RefDeltas: f.RefDeltas, ModeDeltas: f.ModeDeltas, FeatEn: f.FeatEn, FeatData: f.FeatData, Seg: s.Seg}
			}
			if f.Type == Key && f.Show == 1 && !s.Valid {
				refs.OrderHint[i] = 0
			}
		}
		inFrame = false
		noise()
		fu = true
	}
	v.Bytes, _ = group(r, data, v.Obus, func(i int) bool { return !newTu[i] }, func(i int) bool { return !newFu[i] })
	v.data, v.newTu, v.newFu = data, newTu, newFu
	return v
}

// interEvents records what an inter frame takes from its references.
func (v *Video) interEvents(f *Frame, refs *Refs) {
	if f.Found >= 0 {
		v.Ev["frames of the size of a reference"]++
	}
	scaled := false
	for _, i := range f.RefIdx {
		scaled = scaled || refs.Saved[i].Upscaled != f.Width || refs.Saved[i].Height != f.Height
	}
	if scaled {
		v.Ev["frames with scaled references"]++
	}
	if f.PrevSegs != nil {
		v.Ev["frames with segments of a reference"]++
	}
	if f.SegEnabled == 1 && f.UpdateMap == 0 {
		v.Ev["frames that keep segments"]++
	}
	if f.SegEnabled == 1 && f.UpdateData == 0 {
		v.Ev["frames that keep features"]++
	}
	if f.SkipPresent == 1 {
		v.Ev["frames with skip mode"]++
	}
	for _, t := range f.GmType[1:] {
		v.Ev[fmt.Sprintf("references with global motion %d", t)]++
	}
}

// packFrame writes the units of a frame: its header and its tile groups.
func (v *Video) packFrame(r *vlib.RNG, sq *Seq, f *Frame, k *coded, hdr *vlib.Writer, o *VideoOpt, emit func(int, *vlib.Writer, string), noise func(), end func(*vlib.Writer)) {
	n := len(k.data)
	if f.Tiles.SizeBytes > 0 {
		// the tiles have to fit the size field
		need := 1
		for _, d := range k.data {
			for len(d)-1 >= 1<<uint(8*need) {
				need++
			}
		}
		if need > f.Tiles.SizeBytes {
			f.Tiles.SizeBytes = need
			at := f.Marks["tiles"]
			hdr.Bit[at-2], hdr.Bit[at-1] = byte((need-1)>>1), byte((need-1)&1)
		}
	}
	bits := append([]byte{}, hdr.Bit...)
	cuts := []int{0}
	pc := r.Pick(0, 0, 20, 60)
	if o.Groups {
		pc = r.Pick(0, 20, 50, 100)
	}
	for i := 1; i < n; i++ {
		if r.P(pc) {
			cuts = append(cuts, i)
		}
	}
	cuts = append(cuts, n)
	tileGroup := func(w *vlib.Writer, from, to int, frame bool) {
		if n > 1 {
			whole := from == 0 && to == n
			if w.F("", 1, b2i(!whole || r.P(50) && !frame)) == 1 {
				w.F("", f.Tiles.ColsLog2+f.Tiles.RowsLog2, from)
				w.F("", f.Tiles.ColsLog2+f.Tiles.RowsLog2, to-1)
			}
			w.AlignZero()
		}
		start := w.Len() / 8
		for i := from; i < to; i++ {
			if i < to-1 {
				w.Le("", f.Tiles.SizeBytes, len(k.data[i])-1)
			}
			w.Raw(k.data[i])
		}
		v.Tiles = append(v.Tiles, Span{len(v.Obus), start, w.Len() / 8})
	}
	first := 0
	if len(cuts) == 2 && r.P(50) {
		hdr.AlignZero()
		tileGroup(hdr, 0, n, true)
		emit(ObuFrame, hdr, fmt.Sprintf("frame, tiles 0-%d", cuts[1]-1))
		first = 1
	} else {
		end(hdr)
		emit(ObuFrameHdr, hdr, "frame header")
	}
	for g := first; g < len(cuts)-1; g++ {
		noise()
		if r.P(15) {
			w := &vlib.Writer{Quiet: true}
			w.Bit = append(w.Bit, bits...)
			end(w)
			emit(ObuRedundant, w, "redundant frame header")
			v.Ev["redundant headers between tile groups"]++
		}
		w := &vlib.Writer{Quiet: true}
		tileGroup(w, cuts[g], cuts[g+1], false)
		emit(ObuTileGroup, w, fmt.Sprintf("tiles %d-%d", cuts[g], cuts[g+1]-1))
	}
	v.Ev["tile groups"] += int64(len(cuts) - 1)
	if len(cuts) > 2 {
		v.Ev["frames of several tile groups"]++
	}
	if n > 1 {
		v.Ev["frames of several tiles"]++
	}
}

// Boundary tells whether a temporal unit ends at a position of the stream.
func (v *Video) Boundary(at int) bool {
	x := 0
	for x < at {
		size := 0
		for i := uint(0); ; i++ {
			b := v.Bytes[x]
			x++
			size |= int(b&127) << (7 * i)
			if b < 128 {
				break
			}
		}
		x += size
	}
	return x == at
}
