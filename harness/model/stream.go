package model

import (
	"fmt"

	"github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

// OBU types of the specification.
const (
	ObuSeq       = 1
	ObuTd        = 2
	ObuFrameHdr  = 3
	ObuTileGroup = 4
	ObuMeta      = 5
	ObuFrame     = 6
	ObuRedundant = 7
	ObuTileList  = 8
	ObuPadding   = 15
)

// Obu is one unit of a generated stream and what it has to come out as.
type Obu struct {
	Type, ExtFlag, HasSize, Reserved, Forbidden int
	Ext                                         Ext
	ExtReserved                                 int
	Size                                        int
	Dropped                                     bool
	Seq                                         *Seq   // in force after this unit
	Frame                                       *Frame // in force after this unit
	End                                         int    // byte offset of its end in the stream
	What                                        string
}

// Stream is an Annex B bitstream.
type Stream struct {
	Bytes  []byte
	Obus   []Obu
	Refs   Refs // reference state to install before it is decoded
	After  Refs
	Units  int
	Frames int
}

// StreamOpt bends the distribution.
type StreamOpt struct {
	MaxObus   int
	Layers    bool // operating points with layers, extensions on most units
	Headers   int  // percent of units that are headers
	OtherPc   int  // percent of padding, metadata, reserved
	CopyPc    int
	MaxDim    int
	DropTiles bool // dropped units may be of any type
}

// GenStream draws a stream of sequence headers, temporal delimiters, frame
// headers (with copies and redundant headers), padding, metadata and reserved
// units. There are no tile groups.
func GenStream(r *vlib.RNG, o StreamOpt) *Stream {
	st := &Stream{}
	var sq *Seq
	var cur *Frame
	var curBits []byte
	seen, vague := false, false
	idc := 0
	n := r.In(1, o.MaxObus)
	var data [][]byte
	for len(data) < n {
		u := Obu{HasSize: b2i(r.P(60)), Reserved: b2i(r.P(10)), Forbidden: 0}
		extPc := 30
		if o.Layers {
			extPc = 80
		}
		u.ExtFlag = b2i(r.P(extPc))
		if u.ExtFlag == 1 {
			u.Ext = Ext{r.N(8), r.N(4)}
			if o.Layers {
				u.Ext = Ext{r.N(3), r.N(3)}
			}
			u.ExtReserved = r.Bits(3)
		}
		switch {
		case sq == nil && !r.P(o.OtherPc):
			u.Type = ObuSeq
		case r.P(o.OtherPc) || sq == nil:
			u.Type = r.Pick(ObuPadding, ObuPadding, ObuMeta, 0, 9, 10, 11, 12, 13, 14, ObuTd)
		case seen && r.P(o.CopyPc):
			u.Type = r.Pick(ObuFrameHdr, ObuRedundant)
		default:
			u.Type = r.Pick(ObuTd, ObuTd, ObuSeq, ObuFrameHdr, ObuFrameHdr, ObuFrameHdr)
		}
		if u.ExtFlag == 1 && idc != 0 && u.Type != ObuSeq && u.Type != ObuTd {
			if (idc>>uint(u.Ext.Temporal))&1 == 0 || (idc>>uint(u.Ext.Spatial+8))&1 == 0 {
				u.Dropped = true
				if o.DropTiles {
					u.Type = r.Pick(ObuFrameHdr, ObuTileGroup, ObuFrame, ObuMeta, ObuRedundant, ObuTileList, ObuPadding, 9)
				}
			}
		}
		p := &vlib.Writer{Quiet: true}
		if u.Type == ObuFrameHdr && seen && !u.Dropped && (cur == nil || r.P(40)) {
			u.Type = ObuTd
		}
		trail := false
		switch {
		case u.Dropped:
			p.Raw(r.Bytes(r.Pick(0, 1, r.N(40), r.N(200))))
			u.What = fmt.Sprintf("dropped type %d", u.Type)
		case u.Type == ObuSeq:
			so := DefSeq()
			so.MaxDim = o.MaxDim
			so.FrameIds, so.Grain, so.Reduced, so.Timing = 30, 10, 5, 40
			if o.Layers {
				so.Timing = 60
			}
			sq = GenSeq(p, r, so)
			idc = sq.Idc[0]
			u.What, trail = "sequence header", true
		case u.Type == ObuTd:
			seen = false
			u.What = "temporal delimiter"
		case (u.Type == ObuFrameHdr || u.Type == ObuRedundant) && seen:
			p.Bit = append(p.Bit, curBits...)
			u.What, trail = fmt.Sprintf("copy of a frame header as type %d", u.Type), true
		case u.Type == ObuFrameHdr:
			fo := DefFrame()
			if st.Frames == 0 {
				st.After = GenRefs(r, sq, r.Bits(sq.AddIdLen1+sq.DeltaIdLen2+3))
				st.After.CurrentId = 0
				st.Refs = st.After
			}
			refs := st.After
			if sq.OrderHint == 1 {
				// hints of another sequence may not fit this one's bits
				for i := range refs.OrderHint {
					if refs.OrderHint[i] >= 1<<uint(sq.OrderHintBits) {
						fo.InterPc, fo.KeyPc = 0, 100
					}
				}
			}
			wide := false
			if sq.FrameIds == 1 {
				// neither may its ids
				for _, id := range append([]int{refs.CurrentId}, refs.FrameId[:]...) {
					if id >= 1<<uint(sq.AddIdLen1+sq.DeltaIdLen2+3) {
						wide = true
						fo.InterPc, fo.KeyPc = 0, 100
					}
				}
			}
			if vague {
				fo.InterPc, fo.KeyPc = 0, 100
			}
			fo.Refs, fo.ExistingPc = &refs, 12
			if idc != 0 || wide {
				fo.ExistingPc = 0 // which layer is output is not implemented
			}
			cur, _ = GenFrame(p, r, sq, u.Ext, fo)
			st.Frames++
			if cur.RefHintsRead {
				for i := range cur.RefHintCoded {
					// whether the slot takes the coded hint is left open
					vague = vague || cur.RefHintCoded[i] != cur.After.OrderHint[i]
				}
			}
			if cur.ShowExisting == 0 && cur.Type == Key && cur.Show == 1 {
				vague = false
			}
			st.After = cur.After
			curBits = append([]byte{}, p.Bit...)
			seen = cur.ShowExisting == 0
			u.What, trail = fmt.Sprintf("frame header type %d existing %d", cur.Type, cur.ShowExisting), true
		default:
			p.Raw(r.Bytes(r.Pick(0, 1, r.N(20), r.N(300))))
			if r.P(30) {
				p.Raw(make([]byte, r.N(10)))
			}
			if u.Type == ObuPadding || u.Type == ObuMeta {
				p.Raw([]byte{128})
			}
			u.What = fmt.Sprintf("type %d", u.Type)
		}
		if trail {
			p.F("", 1, 1)
			p.AlignZero()
			for r.P(15) {
				p.F("", 8, 0)
			}
		}
		u.Seq, u.Frame = sq, cur
		data = append(data, u.pack(r, p))
		st.Obus = append(st.Obus, u)
	}
	st.Bytes, st.Units = group(r, data, st.Obus, func(int) bool { return r.P(60) }, func(int) bool { return r.P(55) })
	return st
}

// pack writes a unit around its payload.
func (u *Obu) pack(r *vlib.RNG, p *vlib.Writer) []byte {
	u.Size = p.Len() / 8
	h := &vlib.Writer{Quiet: true}
	h.F("", 1, u.Forbidden)
	h.F("", 4, u.Type)
	h.F("", 1, u.ExtFlag)
	h.F("", 1, u.HasSize)
	h.F("", 1, u.Reserved)
	if u.ExtFlag == 1 {
		h.F("", 3, u.Ext.Temporal)
		h.F("", 2, u.Ext.Spatial)
		h.F("", 3, u.ExtReserved)
	}
	if u.HasSize == 1 {
		leb(h, r, u.Size)
	}
	h.Append(p)
	return h.Bytes(nil)
}

// group puts units into frame units and temporal units; inFrame and inTemporal
// tell whether a unit goes on with the one before.
func group(r *vlib.RNG, data [][]byte, obus []Obu, inTemporal, inFrame func(i int) bool) ([]byte, int) {
	n := 0
	out := []byte{}
	for i := 0; i < len(data); {
		tu := []byte{}
		type at struct{ obu, end int }
		var ends []at
		for first := true; i < len(data) && (first || inTemporal(i)); first = false {
			fu := []byte{}
			var fe []at
			for f2 := true; i < len(data) && (f2 || inFrame(i)); f2 = false {
				l := &vlib.Writer{Quiet: true}
				leb(l, r, len(data[i]))
				fu = append(fu, l.Bytes(nil)...)
				fu = append(fu, data[i]...)
				fe = append(fe, at{i, len(fu)})
				i++
			}
			l := &vlib.Writer{Quiet: true}
			leb(l, r, len(fu))
			tu = append(tu, l.Bytes(nil)...)
			for _, e := range fe {
				ends = append(ends, at{e.obu, len(tu) + e.end})
			}
			tu = append(tu, fu...)
			if r.P(4) { // an empty frame unit
				tu = append(tu, 0)
			}
		}
		l := &vlib.Writer{Quiet: true}
		leb(l, r, len(tu))
		out = append(out, l.Bytes(nil)...)
		for _, e := range ends {
			obus[e.obu].End = len(out) + e.end
		}
		out = append(out, tu...)
		n++
	}
	return out, n
}

// leb writes a size, sometimes in more bytes than it needs.
func leb(w *vlib.Writer, r *vlib.RNG, v int) {
	n := vlib.LebLen(v)
	if r.P(25) {
		n = r.In(n, 8)
	}
	w.LebN("", n, v)
}
