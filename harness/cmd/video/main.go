// Whole streams: of intra frames, tile groups (G01), pictures (G02), reference
// frames and frames shown again (R01); of inter frames, pictures (G03) and what
// frames inherit and keep (R02).
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/logger"
	"github.com/m4tthewde/gov1/internal/obu"
	"github.com/m4tthewde/gov1/internal/parser"
	"github.com/m4tthewde/gov1/internal/state"
	m "github.com/m4tthewde/gov1/internal/zzverif/model"
	v "github.com/m4tthewde/gov1/internal/zzverif/vlib"
	"go.uber.org/zap"
)

func main() {
	prop := os.Args[1]
	logger.Initialize()
	logger.Logger = zap.NewNop()
	if name := os.Getenv("VERIF_TRACE"); name != "" {
		w, _ := os.Create(name)
		m.Trace = func(cdf []int, s int) {
			where := ""
			for i := 2; i < 5; i++ {
				_, file, line, _ := runtime.Caller(i)
				where += fmt.Sprintf(" %s:%d", filepath.Base(file), line)
			}
			fmt.Fprintln(w, cdf, s, "|", where)
		}
	}
	run := v.Start(prop)
	run.Rule = "a case is a generated stream of shown, hidden and repeated frames decoded as a whole, every output sample and every stored reference compared with an independent decoder; non-trivial when a frame is decoded, distinct by its bytes"
	o := m.VideoOpt{Filters: m.UpscaleFilter(), Init: m.InitCdfs}
	n := 0
	o.LayerPc = 15
	if as := os.Getenv("VERIF_AS"); as != "" {
		// for a check of a part that cannot be driven alone
		prop = as
	}
	switch prop {
	case "G01":
		o.MaxDim, o.Frames, o.ExistPc, o.NewSeqPc, o.Simple, o.Groups = 420, 2, 10, 30, true, true
		n = run.Scale(2500, 30000)
	case "G02":
		o.MaxDim, o.Frames, o.ExistPc, o.NewSeqPc = 110, 2, 10, 30
		n = run.Scale(3000, 40000)
	case "R01":
		o.MaxDim, o.Frames, o.ExistPc, o.NewSeqPc, o.Simple = 40, 10, 35, 8, true
		n = run.Scale(2500, 40000)
	case "G03":
		o.MaxDim, o.Frames, o.ExistPc, o.NewSeqPc, o.InterPc = 128, 5, 5, 5, 90
		n = run.Scale(2500, 40000)
	case "R02":
		o.MaxDim, o.Frames, o.ExistPc, o.NewSeqPc, o.Simple, o.InterPc = 40, 12, 15, 3, true, 85
		n = run.Scale(2500, 40000)
	}
	each := video
	switch prop {
	case "R03":
		o.MaxDim, o.Frames, o.ExistPc, o.NewSeqPc, o.Simple = 64, 5, 15, 10, true
		n, each = run.Scale(2000, 40000), afresh
		run.Rule = "a case is a conforming stream decoded after one or two others, whole, unfinished or damaged, by the same decoder, with every output sample, stored frame and saved state compared with a fresh independent decoder; non-trivial when something came before, distinct by all bytes"
	case "B03":
		o.MaxDim, o.Frames, o.ExistPc, o.NewSeqPc = 64, 4, 15, 10
		n, each = run.Scale(1500, 40000), damaged
		run.Rule = "a case is a conforming stream with one damage (a cut, or flipped bits in its tiles) decoded twice; non-trivial when whole units precede the damage, whose output and stored frames are compared with an independent decoder, distinct by its bytes"
	}
	run.Par("video", n, func(i int, r *v.RNG) { each(run, r, i, o) })
	run.Finish()
}

func video(run *v.Run, r *v.RNG, i int, o m.VideoOpt) {
	w := m.GenVideo(r, o)
	keep := string(w.Bytes)
	b := bitstream.NewBitStream(w.Bytes)
	p := parser.NewParser(&b)
	st := parser.ZzState(&p)
	var got []obu.Obu
	pan := v.Catch(func() { got = parser.ZzBitstream(&p) })
	run.Eval(v.HashBytes(w.Bytes), len(w.Frames) > 0)
	what := []string{}
	for _, u := range w.Obus {
		what = append(what, u.What)
	}
	frames := []string{}
	for _, f := range w.Frames {
		frames = append(frames, f.Text)
	}
	repro := map[string]interface{}{"case": i, "bytes": v.Hex([]byte(keep)), "obus": what, "frames": frames}
	c := &v.Cmp{}
	if string(w.Bytes) != keep {
		c.Diffs = append(c.Diffs, "input modified")
	}
	if pan != nil {
		run.Violation(fmt.Sprintf("decoder panicked on a conforming stream: %v at %s", pan.Value, pan.Stack), repro)
		return
	}
	c.Eq("position at the end of the stream", b.Position, 8*len(w.Bytes))
	c.Eq("number of obus", len(got), len(w.Obus))
	ev := w.Ev
	units(c, got, w, ev, true)
	if c.Ok() {
		references(c, st, w, ev)
	}
	ev["frames"] += int64(len(w.Frames))
	ev["obus"] += int64(len(w.Obus))
	run.Events(ev)
	if !c.Ok() {
		d := c.Diffs
		if len(d) > 6 {
			d = append(d[:6:6], fmt.Sprintf("and %d more", len(d)-6))
		}
		run.Violation(strings.Join(d, "; "), repro)
	}
	if dir := os.Getenv("VERIF_DUMP"); dir != "" {
		dump(dir, w, w.Bytes, 0)
	}
	if dir := os.Getenv("VERIF_AOM"); dir != "" {
		records(filepath.Join(dir, fmt.Sprintf("%s-%d.rec", run.Prop, i)), w)
	}
	if run.WantSample() {
		run.Sample(map[string]interface{}{"case": i, "bytes": len(w.Bytes), "obus": what, "frames": frames})
	}
}

// units compares what the units of the stream decode to; alone says that the
// decoder has seen nothing before.
func units(c *v.Cmp, got []obu.Obu, w *m.Video, ev map[string]int64, alone bool) {
	var shown *m.VideoFrame
	next := 0
	for k := 0; k < len(got) && k < len(w.Obus) && c.Ok(); k++ {
		at := fmt.Sprintf("obu %d (%s): ", k, w.Obus[k].What)
		t := &got[k].TileGroup
		c.Eq(at+"type", got[k].Header.Type, w.Obus[k].Type)
		c.Eq(at+"size", got[k].Size, w.Obus[k].Size)
		done := next < len(w.Frames) && w.Frames[next].Last == k
		if done {
			f := w.Frames[next]
			at += f.Text + ": "
			if f.Shown {
				shown = f
			}
			for s, slot := range f.Slots {
				if !slot.Valid || slot.F == nil {
					continue
				}
				for pl := 0; pl < slot.Seq.Color.NumPlanes && c.Ok(); pl++ {
					picture(c, fmt.Sprintf("%sstored frame %d plane %d", at, s, pl), t.FrameStore[s][pl], slot.Pic[pl])
				}
				ev["stored frames compared"]++
			}
			next++
		}
		switch {
		case shown == nil:
			if alone && len(t.OutY) != 0 {
				c.Diffs = append(c.Diffs, at+"output before any frame is shown")
			}
		default:
			out := [3][][]int{t.OutY, t.OutU, t.OutV}
			for pl := 0; pl < shown.Seq.Color.NumPlanes && c.Ok(); pl++ {
				picture(c, fmt.Sprintf("%soutput plane %d", at, pl), out[pl], shown.Pic[pl])
				if done {
					ev["output samples compared"] += int64(len(out[pl]) * len(shown.Pic[pl][0]))
				}
			}
		}
	}
}

// picture compares a plane, which may be stored in a larger array.
func picture(c *v.Cmp, what string, got, want [][]int) {
	c.N++
	if len(got) < len(want) || len(got) > 0 && len(want) > 0 && len(got[0]) < len(want[0]) {
		c.Diffs = append(c.Diffs, fmt.Sprintf("%s: %d rows, want %dx%d samples", what, len(got), len(want[0]), len(want)))
		return
	}
	if d := v.DiffGrid(got, want, len(want), len(want[0])); d != "" {
		c.Diffs = append(c.Diffs, what+": "+d)
	}
}

// references compares what is kept of each reference frame.
func references(c *v.Cmp, st *state.State, w *m.Video, ev map[string]int64) {
	if len(w.Frames) == 0 {
		return
	}
	for i, s := range w.Slots {
		n := func(t string) string { return fmt.Sprintf("slot %d %s", i, t) }
		if !s.Valid {
			if s.F != nil {
				c.Eq(n("valid"), st.RefValid[i], 0)
			}
			continue
		}
		f, col := s.F, &s.Seq.Color
		c.Eq(n("valid"), st.RefValid[i], 1)
		c.Eq(n("frame id"), st.RefFrameId[i], f.CurrentId)
		c.Eq(n("type"), st.RefFrameType[i], f.Type)
		c.Eq(n("width"), st.RefFrameWidth[i], f.Width)
		c.Eq(n("height"), st.RefFrameHeight[i], f.Height)
		c.Eq(n("upscaled width"), st.RefUpscaledWidth[i], f.Upscaled)
		c.Eq(n("render width"), st.RefRenderWidth[i], f.RenderW)
		c.Eq(n("render height"), st.RefRenderHeight[i], f.RenderH)
		c.Eq(n("columns"), st.RefMiCols[i], f.MiCols)
		c.Eq(n("rows"), st.RefMiRows[i], f.MiRows)
		c.Eq(n("subsampling x"), st.RefSubsamplingX[i], col.Ssx)
		c.Eq(n("subsampling y"), st.RefSubsamplingY[i], col.Ssy)
		c.Eq(n("bit depth"), st.RefBitDepth[i], col.BitDepth)
		c.Eq(n("order hint"), st.RefOrderHint[i], f.OrderHint)
		for k := 1; k <= 7; k++ {
			if f.Intra == 0 {
				c.Eq(n(fmt.Sprintf("order hint of reference %d", k)), st.SavedOrderHints[i][k], f.OrderHints[k])
			}
			c.Eq(n(fmt.Sprintf("global motion %d", k)), st.SavedGmParams[i][k], f.Gm[k])
		}
		c.Eq(n("reference deltas"), st.SavedLoopFilterRefDeltas[i], f.RefDeltas)
		c.Eq(n("mode deltas"), st.SavedLoopFilterModeDeltas[i], f.ModeDeltas)
		c.Eq(n("features enabled"), st.SavedFeatureEnabled[i], f.FeatEn)
		c.Eq(n("feature data"), st.SavedFeatureData[i], f.FeatData)
		if d := v.DiffGrid(st.SavedSegmentIds[i], s.Seg, f.MiRows, f.MiCols); d != "" {
			c.Diffs = append(c.Diffs, n("segment ids: "+d))
		}
		saved := &state.State{}
		from, to := reflect.ValueOf(&st.Memory[i]).Elem(), reflect.ValueOf(saved).Elem()
		for _, name := range m.Cdfs() {
			to.FieldByName(name).Set(from.FieldByName(name))
		}
		got, want := &state.State{}, &state.State{}
		m.CopyCdfs(got, saved)
		m.CopyCdfs(want, s.Cdfs)
		m.NoCounters(got)
		m.NoCounters(want)
		if d := m.DiffCdfs(got, "", want); d != "" {
			c.Diffs = append(c.Diffs, n("saved "+d))
		}
		ev["reference states compared"]++
		if s.Loaded {
			ev["reference states of reloaded key frames compared"]++
		}
	}
}

// dump writes the stream and what it should decode to, for use outside of this program.
// It may follow other units.
func dump(dir string, w *m.Video, data []byte, first int) {
	os.MkdirAll(dir, 0o755)
	out := fmt.Sprintf("obus %d\n", first+len(w.Obus))
	for _, f := range w.Frames {
		if !f.Shown {
			continue
		}
		h := fnv.New64a()
		n := f.Seq.Color.NumPlanes
		for pl := 0; pl < n; pl++ {
			for _, row := range f.Pic[pl] {
				for _, x := range row {
					h.Write([]byte{byte(x), byte(x >> 8)})
				}
			}
		}
		out += fmt.Sprintf("output %d %d %d %d %016x\n", first+f.Last, n, len(f.Pic[0][0]), len(f.Pic[0]), h.Sum64())
	}
	for i, s := range w.Slots {
		if s.Valid {
			h := fnv.New64a()
			for _, row := range s.Seg {
				for _, x := range row {
					h.Write([]byte{byte(x)})
				}
			}
			out += fmt.Sprintf("slot %d %d %d %d %016x %v %v %v\n", i, s.F.OrderHint, s.F.MiRows, s.F.MiCols, h.Sum64(), s.F.RefDeltas, s.F.FeatData, s.F.Gm[1:])
		}
	}
	os.WriteFile(filepath.Join(dir, "stream.bin"), data, 0o644)
	os.WriteFile(filepath.Join(dir, "expected.txt"), []byte(out), 0o644)
}

// records writes the stream as temporal units of units with sizes, each with
// the pictures it shows, for comparison with another decoder.
func records(path string, w *m.Video) {
	out := &bytes.Buffer{}
	num := func(n int) { binary.Write(out, binary.LittleEndian, uint32(n)) }
	leb := func(b []byte) (int, []byte) {
		n := 0
		for i := 0; ; i++ {
			n |= int(b[i]&127) << uint(7*i)
			if b[i] < 128 {
				return n, b[i+1:]
			}
		}
	}
	next, k := 0, 0
	for in := w.Bytes; len(in) > 0; {
		size, rest := leb(in)
		tu := rest[:size]
		in = rest[size:]
		units, shown := []byte{}, []*m.VideoFrame{}
		for len(tu) > 0 {
			size, rest := leb(tu)
			fu := rest[:size]
			tu = rest[size:]
			for len(fu) > 0 {
				size, rest := leb(fu)
				u := w.Obus[k]
				body := rest[size-u.Size : size]
				fu = rest[size:]
				if u.Type >= 1 && u.Type <= 7 && u.Type != m.ObuMeta {
					units = append(units, byte(u.Type<<3|u.ExtFlag<<2|2))
					if u.ExtFlag == 1 {
						units = append(units, byte(u.Ext.Temporal<<5|u.Ext.Spatial<<3))
					}
					n := u.Size
					for ; n > 127; n >>= 7 {
						units = append(units, byte(n&127|128))
					}
					units = append(units, byte(n))
					units = append(units, body...)
				}
				if next < len(w.Frames) && w.Frames[next].Last == k {
					if w.Frames[next].Shown {
						shown = append(shown, w.Frames[next])
					}
					next++
				}
				k++
			}
		}
		if len(units) == 0 {
			continue
		}
		out.WriteByte('T')
		num(len(units))
		out.Write(units)
		for _, f := range shown {
			out.WriteByte('F')
			col := &f.Seq.Color
			for _, n := range []int{len(f.Pic[0][0]), len(f.Pic[0]), col.BitDepth, col.NumPlanes, col.Ssx, col.Ssy} {
				num(n)
			}
			for p := 0; p < col.NumPlanes; p++ {
				for _, row := range f.Pic[p] {
					for _, x := range row {
						out.Write([]byte{byte(x), byte(x >> 8)})
					}
				}
			}
		}
	}
	os.WriteFile(path, out.Bytes(), 0o644)
	text := ""
	for _, f := range w.Frames {
		text += fmt.Sprintf("frame %s\nheader %+v\n", f.Text, *f.F)
		seen := map[*m.Blk]bool{nil: true}
		for y := 0; f.Tile != nil && y < f.F.MiRows; y++ {
			for _, b := range f.Tile.Grid[y][:f.F.MiCols] {
				if !seen[b] {
					seen[b] = true
					text += fmt.Sprintf("block at %d %d size %d %d skip %v inter %v ref %d mode %d mv %d filter %d motion %d compound %d warp %d\n", b.C*4, b.R*4, b.W, b.H, b.Skip, b.Inter, b.Ref, b.YMode, b.Mv, b.Filt, b.Motion, b.Compound, b.WarpParams())
				}
			}
		}
	}
	for name, n := range w.Ev {
		text += fmt.Sprintf("event %d %s\n", n, name)
	}
	os.WriteFile(path+".txt", []byte(text), 0o644)
}
