// Frame header monitors. Every case is a whole frame header; the property
// chooses the distribution and the derived values that are compared.
package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tileinfo"
	m "github.com/m4tthewde/gov1/internal/zzverif/model"
	v "github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

func main() {
	prop := os.Args[1]
	run := v.Start(prop)
	run.Rule = "a case is a conforming frame header drawn at random from the syntax tables for a random sequence header and reference state, placed at a random bit offset; all are non-trivial, distinct by their bits"
	n := run.Scale(30000, 400000)
	if prop == "F10" {
		n = run.Scale(8000, 200000)
	}
	run.Par("frame", n, func(i int, r *v.RNG) { one(run, prop, i, r) })
	if prop == "F06" {
		run.Par("tiles", run.Scale(40000, 500000), func(i int, r *v.RNG) { direct(run, i, r) })
	}
	run.Finish()
}

func one(run *v.Run, prop string, i int, r *v.RNG) {
	so, fo := m.DefSeq(), m.DefFrame()
	fo.Inherit = true
	so.Reduced, so.Grain = 8, 30
	so.MaxDim = r.Pick(16, 64, 300, 300, 1024)
	switch prop {
	case "F01":
		fo.ExistingPc, so.Timing, so.Grain = 15, 60, 15
	case "F02":
		so.SuperRes = 70
	case "F03":
		fo.LosslessPc = 40
	case "F04":
		fo.SegPc = 80
	case "F05":
		fo.LosslessPc = 10
	case "F07":
		so.OrderOn, so.FrameIds, fo.InterPc = 85, 50, 75
	case "F08":
		fo.InterPc, fo.GmPc = 95, 75
	case "F09":
		so.Grain = 100
	case "F10":
		fo.InterPc, so.Reduced, fo.SegPc = 95, 0, 70
	}
	sw := &v.Writer{Quiet: true}
	sq := m.GenSeq(sw, r, so)
	if prop == "F06" || r.P(10) {
		// one long side, so that there are several tiles; bounded area
		long, short := r.In(1000, 65535), r.N(600)
		if r.P(40) {
			long, short = r.In(1000, 5000), r.N(2500)
		}
		sq.WBits1, sq.HBits1, sq.MaxW1, sq.MaxH1 = 15, 15, long, short
		if r.Bool() {
			sq.MaxW1, sq.MaxH1 = short, long
		}
	}
	ext := m.Ext{Temporal: r.N(8), Spatial: r.N(4)}
	w := &v.Writer{Quiet: !run.WantSample()}
	f, refs := m.GenFrame(w, r, sq, ext, fo)
	if f.Tiles != nil && !f.Tiles.Conforming {
		run.Event("skipped: more than 64 tiles in a dimension")
		return
	}
	off := r.Pick(0, 0, 8, r.N(30))
	data := m.Place(w, r, off)
	keep := string(data)
	repro := func() interface{} {
		return map[string]interface{}{"sequence_header": fmt.Sprintf("%+v", *sq), "reference_state": fmt.Sprintf("%+v", refs),
			"frame": fmt.Sprintf("%+v", *f), "bytes": v.Hex(data), "bit_offset": off, "bits": w.Len(), "case": i}
	}
	st := &state.State{}
	m.Dirty(st, r)
	refs.Install(st)
	st.CurrentQIndex = r.N(256)
	var cdfs inherited
	if prop == "F10" {
		cdfs.install(st, f, r)
	}
	b := bitstream.NewBitStream(data)
	b.Position = off
	u, p := m.ParseFrame(&b, st, sq.Header(), ext)
	run.Eval(v.HashBytes([]byte(w.Bit)), true)
	if p != nil {
		run.Violation(fmt.Sprintf("decoder panicked on a conforming frame header: %v at %s", p.Value, p.Stack), repro())
		return
	}
	c := &v.Cmp{}
	c.Eq("bits consumed", b.Position-off, w.Len())
	if string(data) != keep {
		c.Diffs = append(c.Diffs, "the input bytes were modified")
	}
	if f.ShowExisting == 1 {
		if prop == "F01" {
			f.CmpGeneral(c, &u, st, sq)
		}
	} else {
		switch prop {
		case "F01":
			f.CmpGeneral(c, &u, st, sq)
		case "F02":
			f.CmpSize(c, &u, st)
		case "F03":
			f.CmpQuant(c, &u, st)
		case "F04":
			f.CmpSeg(c, &u, st)
		case "F05":
			f.CmpFilters(c, &u, st)
		case "F06":
			f.Tiles.Cmp(c, st, u.TileInfo.ContextUpdateTileId)
		case "F07":
			f.CmpRefs(c, &u, st, sq)
		case "F08":
			f.CmpGm(c, &u, st)
		case "F09":
			f.CmpGrain(c, &u)
		case "F10":
			f.CmpInherited(c, &u, st)
			cdfs.compare(c, st, f)
		}
	}
	ev := map[string]int64{"fields compared": int64(c.N)}
	count(ev, prop, f, sq)
	run.Events(ev)
	if !c.Ok() {
		d := c.Diffs
		if len(d) > 6 {
			d = append(d[:6:6], fmt.Sprintf("and %d more", len(d)-6))
		}
		run.Violation("frame header decoded differently from its syntax tables: "+strings.Join(d, "; "), repro())
	}
	if run.WantSample() {
		tr := w.Trace
		if len(tr) > 120 {
			tr = append(tr[:120:120], "...")
		}
		run.Sample(map[string]interface{}{"bytes": v.Hex(data), "bit_offset": off, "syntax": tr})
	}
}

// direct decodes tile_info() alone, for frames of up to 65536 x 65536 samples.
func direct(run *v.Run, i int, r *v.RNG) {
	side := func() int {
		switch r.N(4) {
		case 0:
			return r.In(1, 16384)
		case 1:
			return imin(16384, r.In(1, 1024)*r.Pick(16, 32))
		case 2:
			return r.In(1, 300)
		}
		return imax(1, imin(16384, r.Pick(1024, 2048, 4096, 8192, 16384)+r.In(-33, 33)))
	}
	cols, rows, sb := 2*((side()+1)/2), 2*((side()+1)/2), r.N(2)
	w := &v.Writer{Quiet: true}
	t := m.GenTiles(w, r, cols, rows, sb)
	if !t.Conforming {
		run.Event("skipped: more than 64 tiles in a dimension")
		return
	}
	off := r.N(16)
	data := m.Place(w, r, off)
	st := &state.State{}
	st.MiCols, st.MiRows = cols, rows
	b := bitstream.NewBitStream(data)
	b.Position = off
	var sh sequenceheader.SequenceHeader
	sh.Use128x128SuperBlock = sb == 1
	var ti tileinfo.TileInfo
	repro := map[string]interface{}{"mi_cols": cols, "mi_rows": rows, "superblock_128": sb, "bytes": v.Hex(data), "bit_offset": off, "bits": w.Len()}
	run.Eval(v.HashBytes([]byte(fmt.Sprint(w.Bit, cols, rows, sb))), true)
	if p := v.Catch(func() { ti = tileinfo.NewTileInfo(sh, st, &b) }); p != nil {
		run.Violation(fmt.Sprintf("tile info panicked: %v at %s", p.Value, p.Stack), repro)
		return
	}
	c := &v.Cmp{}
	c.Eq("bits consumed", b.Position-off, w.Len())
	t.Cmp(c, st, ti.ContextUpdateTileId)
	run.Events(map[string]int64{"tile layouts decoded alone": 1, "tiles laid out": int64(t.Cols * t.Rows), fmt.Sprintf("alone uniform %d", t.Uniform): 1})
	if !c.Ok() {
		run.Violation("tile layout: "+strings.Join(c.Diffs, "; "), repro)
		return
	}
	// the tiles cover the frame, each of at least a superblock but the last,
	// and none wider or larger than the level limits allow
	for k := 0; k < 2; k++ {
		starts, n, end := st.MiColStarts, st.TileCols, cols
		if k == 1 {
			starts, n, end = st.MiRowStarts, st.TileRows, rows
		}
		ok := starts[0] == 0 && starts[n] == end
		for j := 0; j < n; j++ {
			ok = ok && starts[j+1] > starts[j] && starts[j]%(16<<uint(sb)) == 0 && (k == 1 || starts[j+1]-starts[j] <= 1024)
		}
		if !ok {
			run.Violation(fmt.Sprintf("tile boundaries %v do not divide %d", starts[:n+1], end), repro)
		}
	}
}

func imin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func imax(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func count(ev map[string]int64, prop string, f *m.Frame, s *m.Seq) {
	k := func(format string, a ...interface{}) { ev[fmt.Sprintf(format, a...)]++ }
	k("frame type %d show %d error resilient %d", f.Type, f.Show, f.ErrRes)
	if f.ShowExisting == 1 {
		k("show existing frame type %d", f.Type)
		return
	}
	switch prop {
	case "F01":
		k("screen content %d integer mv %d", f.Sct, f.ForceImv)
		k("override %d disable cdf %d/%d", f.Override, f.DisableCdf, f.DisableEnd)
		k("decoder model %d frame ids %d ref order hints %v", s.DecModel, s.FrameIds, f.RefHintsRead)
	case "F10":
		k("primary reference frame %d", f.Primary)
		k("map kept %v update %d temporal %d data %d", f.PrevSegs != nil, f.UpdateMap, f.Temporal, f.UpdateData)
	case "F02":
		k("size of reference %d", f.Found)
		k("superres denominator %d", f.Denom)
		k("intra block copy %d render differs %v override %d", f.IntraBc, f.RenderW != f.Upscaled || f.RenderH != f.Height, f.Override)
	case "F03":
		k("coded lossless %d all lossless %d", f.CodedLossless, f.AllLossless)
		k("qmatrix %d delta q %d res %d delta lf %d multi %d", f.UsingQm, f.DeltaQ, f.DeltaQRes, f.DeltaLf, f.LfMulti)
		n := 0
		for _, l := range f.Lossless {
			n += l
		}
		k("lossless segments %d", n)
	case "F04":
		for j := 0; j < 8; j++ {
			for i := 0; i < 8; i++ {
				if f.FeatEn[i][j] == 1 {
					k("feature %d", j)
				}
			}
		}
		k("enabled %d pre skip %d last active %d", f.SegEnabled, f.PreSkip, f.LastActive)
	case "F05":
		k("loop filter read %v chroma %v delta %d update %d", f.LfRead, f.LfChroma, f.LfDelta, f.LfUpdate)
		k("cdef read %v bits %d", f.CdefRead, f.CdefBits)
		k("restoration %v sizes %v", f.LrType, f.LrSize)
		k("tx mode %d", f.TxMode)
	case "F06":
		k("uniform %d log2 %d x %d", f.Tiles.Uniform, f.Tiles.ColsLog2, f.Tiles.RowsLog2)
	case "F07":
		valid := 0
		for _, x := range f.After.Valid {
			valid += x
		}
		k("valid references %d", valid)
		k("skip mode allowed %v frames %v", f.SkipAllowed, f.SkipFrame)
		k("order hint bits %d", s.OrderHintBits)
		k("sign bias %v", f.SignBias)
	case "F08":
		for _, t := range f.GmType[1:] {
			k("global motion type %d high precision %d", t, f.HighPrec)
		}
	case "F09":
		g := &f.Grain
		k("read %v apply %d lag %d from luma %d", g.Read, g.Apply, g.Lag, g.FromLuma)
		k("points y>0 %v cb>0 %v cr>0 %v mono %d", len(g.YVal) > 0, len(g.CbVal) > 0, len(g.CrVal) > 0, s.Color.Mono)
	}
}

// inherited is the CDFs in the slots of the references.
type inherited struct {
	slots [8]*state.State
	init  *state.State
}

func (k *inherited) install(st *state.State, f *m.Frame, r *v.RNG) {
	k.init = &state.State{}
	m.InitCdfs(k.init, f.BaseQ)
	m.InitCdfs(st, r.N(256))
	if f.Primary == 7 {
		m.RandomCdfs(st, r)
		return
	}
	for n := r.In(1, 2); n > 0; n-- {
		i := r.N(8)
		if n == 1 {
			i = f.RefIdx[f.Primary]
		}
		k.slots[i] = &state.State{}
		m.CopyCdfs(k.slots[i], k.init)
		m.RandomCdfs(k.slots[i], r)
		m.StoreCdfs(st, i, k.slots[i])
	}
}

func (k *inherited) compare(c *v.Cmp, st *state.State, f *m.Frame) {
	if f.Primary == 7 {
		if d := m.DiffCdfs(st, "", k.init); d != "" {
			c.Diffs = append(c.Diffs, "without a primary reference frame, "+d)
		}
		return
	}
	got, want := &state.State{}, k.slots[f.RefIdx[f.Primary]]
	m.CopyCdfs(got, st)
	m.NoCounters(got)
	m.NoCounters(want)
	if d := m.DiffCdfs(got, "", want); d != "" {
		c.Diffs = append(c.Diffs, "loaded "+d)
	}
	for i, w := range k.slots {
		if w != nil {
			kept := m.LoadedCdfs(st, i)
			m.NoCounters(kept)
			m.NoCounters(w)
			if d := m.DiffCdfs(kept, "", w); d != "" {
				c.Diffs = append(c.Diffs, fmt.Sprintf("kept in slot %d: %s", i, d))
			}
		}
	}
}
