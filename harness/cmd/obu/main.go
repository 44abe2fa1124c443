// Bitstream-level monitors: framing (O01), operating point selection (O02),
// frame header persistence and copies (O03).
package main

import (
	"fmt"
	"os"
	"reflect"
	"strings"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/logger"
	"github.com/m4tthewde/gov1/internal/obu"
	"github.com/m4tthewde/gov1/internal/parser"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	m "github.com/m4tthewde/gov1/internal/zzverif/model"
	v "github.com/m4tthewde/gov1/internal/zzverif/vlib"
	"go.uber.org/zap"
)

func main() {
	prop := os.Args[1]
	run := v.Start(prop)
	first(run)
	logger.Initialize()
	logger.Logger = zap.NewNop()
	o := m.StreamOpt{MaxObus: 14, MaxDim: 128}
	switch prop {
	case "O01":
		o.OtherPc, o.CopyPc = 40, 20
	case "O02":
		o.OtherPc, o.CopyPc, o.Layers, o.DropTiles = 15, 15, true, true
	case "O03":
		o.OtherPc, o.CopyPc, o.MaxObus = 8, 70, 24
	}
	run.Rule = "a case is a generated Annex B stream of temporal and frame units decoded as a whole; non-trivial when it has at least two units, distinct by its bytes"
	run.Par("stream", run.Scale(9000, 120000), func(i int, r *v.RNG) { stream(run, prop, r, i, o) })
	if prop == "O01" {
		single(run)
	}
	run.Finish()
}

// first decodes a temporal delimiter as the first thing this process does: a
// parser needs nothing but its bit stream.
func first(run *v.Run) {
	b := bitstream.NewBitStream([]byte{3, 2, 1, 0x10})
	n := 0
	if e := v.Catch(func() {
		p := parser.NewParser(&b)
		n = len(parser.ZzBitstream(&p))
	}); e != nil || n != 1 {
		run.Violation(fmt.Sprintf("the first stream of a process, a temporal delimiter: %d units, panic %v", n, e), map[string]interface{}{"stream": "03020110"})
	}
}

func stream(run *v.Run, prop string, r *v.RNG, i int, o m.StreamOpt) {
	s := m.GenStream(r, o)
	keep := string(s.Bytes)
	b := bitstream.NewBitStream(s.Bytes)
	p := parser.NewParser(&b)
	s.Refs.Install(parser.ZzState(&p))
	var got []obu.Obu
	pan := v.Catch(func() { got = parser.ZzBitstream(&p) })
	run.Eval(v.HashBytes(s.Bytes), len(s.Obus) >= 2)
	kinds := []string{}
	ev := map[string]int64{}
	for _, u := range s.Obus {
		kinds = append(kinds, fmt.Sprintf("%s%s%s(%d)", u.What, map[int]string{1: "+ext"}[u.ExtFlag], map[int]string{1: "+size"}[u.HasSize], u.Size))
		ev[fmt.Sprintf("%s extension %d size field %d", u.What, u.ExtFlag, u.HasSize)]++
	}
	repro := map[string]interface{}{"case": i, "bytes": v.Hex([]byte(keep)), "obus": kinds}
	c := &v.Cmp{}
	if string(s.Bytes) != keep {
		c.Diffs = append(c.Diffs, "input modified")
	}
	if pan != nil {
		run.Violation(fmt.Sprintf("decoder panicked on a conforming stream: %v at %s", pan.Value, pan.Stack), repro)
		return
	}
	c.Eq("position at the end of the stream", b.Position, 8*len(s.Bytes))
	c.Eq("number of obus", len(got), len(s.Obus))
	for k := 0; k < len(got) && k < len(s.Obus) && c.Ok(); k++ {
		u, g := &s.Obus[k], &got[k]
		n := func(t string) string { return fmt.Sprintf("obu %d (%s) %s", k, u.What, t) }
		c.Eq(n("type"), g.Header.Type, u.Type)
		c.Eq(n("extension flag"), g.Header.ExtensionFlag, u.ExtFlag)
		c.Eq(n("has_size"), g.Header.HasSizeField, u.HasSize)
		c.Eq(n("payload size"), g.Size, u.Size)
		if u.ExtFlag == 1 {
			c.Eq(n("temporal id"), g.Header.ExtensionHeader.TemporalID, u.Ext.Temporal)
			c.Eq(n("spatial id"), g.Header.ExtensionHeader.SpatialID, u.Ext.Spatial)
		}
		if u.Seq != nil {
			in := &v.Cmp{}
			u.Seq.CmpGeneral(in, &g.SequenceHeader)
			c.N += in.N
			for _, d := range in.Diffs {
				c.Diffs = append(c.Diffs, n("sequence header in force: ")+d)
			}
		}
		if u.Frame != nil && (u.Type == m.ObuFrameHdr || u.Type == m.ObuRedundant || prop != "O01") {
			in := &v.Cmp{}
			u.Frame.CmpGeneral(in, &g.UncompressedHeader, nil, u.Seq)
			if u.Frame.ShowExisting == 0 {
				u.Frame.CmpGrain(in, &g.UncompressedHeader)
				for ref := 1; ref <= 7; ref++ {
					in.Eq(fmt.Sprintf("gm_params[%d]", ref), g.UncompressedHeader.GmParams[ref], u.Frame.Gm[ref])
				}
				in.Eq("base_q_idx", g.UncompressedHeader.BaseQIdx, u.Frame.BaseQ)
				if u.Frame.Intra == 0 {
					in.Eq("ref_frame_idx", g.UncompressedHeader.RefFrameIdx, u.Frame.RefIdx)
				}
			}
			c.N += in.N
			for _, d := range in.Diffs {
				c.Diffs = append(c.Diffs, n("frame header in force: ")+d)
			}
		}
		// a copy is the very header it repeats
		if k > 0 && strings.HasPrefix(u.What, "copy") && !reflect.DeepEqual(got[k-1].UncompressedHeader, g.UncompressedHeader) {
			c.Diffs = append(c.Diffs, n("differs from the frame header it repeats"))
		}
	}
	if last := s.Obus[len(s.Obus)-1]; c.Ok() {
		if last.Seq != nil {
			last.Seq.CmpGeneral(c, &p.SequenceHeader)
			last.Seq.CmpOperating(c, &p.SequenceHeader, parser.ZzState(&p))
		}
		if last.Frame != nil {
			last.Frame.CmpGeneral(c, &p.UncompressedHeader, nil, last.Seq)
		}
		c.Eq("references valid after the stream", parser.ZzState(&p).RefValid, s.After.Valid)
		c.Eq("reference order hints after the stream", parser.ZzState(&p).RefOrderHint, s.After.OrderHint)
	}
	ev["obus"] += int64(len(s.Obus))
	ev["temporal units"] += int64(s.Units)
	ev["fields compared"] += int64(c.N)
	run.Events(ev)
	if !c.Ok() {
		d := c.Diffs
		if len(d) > 6 {
			d = append(d[:6:6], fmt.Sprintf("and %d more", len(d)-6))
		}
		run.Violation(strings.Join(d, "; "), repro)
	}
	if run.WantSample() {
		run.Sample(repro)
	}
}

// single decodes one unit at a bit position of a larger buffer: every type and
// size, with what follows untouched.
func single(run *v.Run) {
	types := []int{0, 2, 5, 9, 10, 11, 12, 13, 14, 15}
	run.Par("single", run.Scale(6000, 60000), func(i int, r *v.RNG) {
		typ := types[i%len(types)]
		hasSize := i / len(types) % 2
		ext := i / len(types) / 2 % 2
		n := i / len(types) / 4 % 150
		if r.P(20) {
			n = r.N(5000)
		}
		if typ == 2 {
			n = 0
		}
		w := &v.Writer{Quiet: true}
		lead := r.Bytes(r.N(4))
		w.Raw(lead)
		start := w.Len()
		w.F("", 1, 0)
		w.F("", 4, typ)
		w.F("", 1, ext)
		w.F("", 1, hasSize)
		w.F("", 1, 0)
		if ext == 1 {
			w.F("", 8, r.N(256))
		}
		if hasSize == 1 {
			w.LebN("", r.In(v.LebLen(n), 8), n)
		}
		payload := r.Bytes(n)
		if r.Bool() {
			payload = make([]byte, n)
		}
		w.Raw(payload)
		end := w.Len()
		w.Raw(r.Bytes(r.N(20)))
		data := w.Bytes(nil)
		b := bitstream.NewBitStream(data)
		b.Position = start
		st := &state.State{}
		var got obu.Obu
		p := v.Catch(func() { got = obu.NewObu((end-start)/8, st, &b, m0, u0, tilegroup.TileGroup{}) })
		c := &v.Cmp{}
		if p != nil {
			c.Eq("panic", p.Value, "none")
		}
		c.Eq("type", got.Header.Type, typ)
		c.Eq("payload size", got.Size, n)
		c.Eq("position after the unit", b.Position, end)
		run.Event(fmt.Sprintf("single unit of type %d", typ))
		run.Eval(v.HashBytes(data), true)
		if !c.Ok() {
			run.Violation(fmt.Sprintf("unit of type %d, %d payload bytes, size field %d, extension %d: %s", typ, n, hasSize, ext, strings.Join(c.Diffs, "; ")), map[string]interface{}{"bytes": v.Hex(data), "start_bit": start})
		}
	})
}
