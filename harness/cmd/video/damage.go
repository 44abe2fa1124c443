package main

import (
	"fmt"
	"hash/fnv"
	"os"
	"strings"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/obu"
	"github.com/m4tthewde/gov1/internal/parser"
	"github.com/m4tthewde/gov1/internal/state"
	m "github.com/m4tthewde/gov1/internal/zzverif/model"
	v "github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

// decoded is what became of decoding some bytes: the units before an error,
// if there was one.
type decoded struct {
	obus []obu.Obu
	st   *state.State
	pan  *v.Panic
	pos  int
}

func decode(data []byte) decoded {
	b := bitstream.NewBitStream(data)
	p := parser.NewParser(&b)
	pan := v.Catch(func() { parser.ZzBitstream(&p) })
	return decoded{parser.ZzObus(&p), parser.ZzState(&p), pan, b.Position}
}

// outcome tells decodings apart.
func (d *decoded) outcome() string {
	h := fnv.New64a()
	for i := range d.obus {
		t := &d.obus[i].TileGroup
		if i > 0 && i < len(d.obus)-1 && len(t.OutY) > 0 && len(d.obus[i-1].TileGroup.OutY) > 0 && &t.OutY[0] == &d.obus[i-1].TileGroup.OutY[0] {
			continue
		}
		for _, pl := range [][][]int{t.OutY, t.OutU, t.OutV} {
			for _, row := range pl {
				for _, x := range row {
					h.Write([]byte{byte(x), byte(x >> 8)})
				}
			}
		}
	}
	s := fmt.Sprintf("%d units, position %d, output %016x", len(d.obus), d.pos, h.Sum64())
	if d.pan != nil {
		s += fmt.Sprintf(", error %v", d.pan.Value)
	}
	return s
}

func stream(r *v.RNG, o m.VideoOpt) *m.Video {
	if r.P(12) {
		return groups(r, o)
	}
	if r.P(50) {
		o.InterPc, o.NewSeqPc = 85, 5
	}
	return m.GenVideo(r, o)
}

// groups is a stream of many tiles in many groups.
func groups(r *v.RNG, o m.VideoOpt) *m.Video {
	o.MaxDim, o.Frames, o.Groups, o.Simple = 300, 2, true, true
	return m.GenVideo(r, o)
}

func report(run *v.Run, c *v.Cmp, repro map[string]interface{}) {
	if d := c.Diffs; len(d) > 0 {
		if len(d) > 6 {
			d = append(d[:6:6], fmt.Sprintf("and %d more", len(d)-6))
		}
		run.Violation(strings.Join(d, "; "), repro)
	}
}

// afresh decodes a stream after others, whole, unfinished or damaged.
func afresh(run *v.Run, r *v.RNG, i int, o m.VideoOpt) {
	w := stream(r, o)
	before := &m.Video{}
	ev := map[string]int64{}
	kinds := []string{}
	for n := r.In(1, 2); n > 0; n-- {
		torn := r.P(30)
		var a *m.Video
		if torn {
			a = groups(r, o)
		} else {
			a = stream(r, o)
		}
		kind := "whole"
		if r.P(40) {
			kind = "with flipped bits"
			a.Flip(r, r.Pick(1, 1, 2, 10))
		}
		if within := a.Within(); torn && len(within) > 0 {
			kind += " torn"
			a = a.Head(within[r.N(len(within))])
		} else if r.P(50) {
			kind += " unfinished"
			n := r.In(1, len(a.Obus))
			if len(a.Tiles) > 0 && r.P(50) {
				// between the parts of a frame
				n = a.Tiles[r.N(len(a.Tiles))].Obu + r.N(2)
			}
			a = a.Head(n)
		}
		j := m.Join(r, before, a)
		if d := decode(j.Bytes); d.pan != nil {
			ev["damaged streams that end with an error, left out"]++
			continue
		}
		before = j
		kinds = append(kinds, kind)
	}
	j := m.Join(r, before, w)
	run.Eval(v.HashBytes(j.Bytes), len(kinds) > 0 && len(w.Frames) > 0)
	repro := map[string]interface{}{"case": i, "bytes": v.Hex(j.Bytes), "units before": len(before.Obus), "streams before": kinds}
	d := decode(append([]byte{}, j.Bytes...))
	if d.pan != nil {
		run.Violation(fmt.Sprintf("decoder panicked on a conforming stream that follows others: %v at %s", d.pan.Value, d.pan.Stack), repro)
		return
	}
	c := &v.Cmp{}
	c.Eq("number of obus", len(d.obus), len(j.Obus))
	if c.Ok() {
		units(c, d.obus[len(before.Obus):], w, w.Ev, false)
	}
	if c.Ok() {
		references(c, d.st, w, w.Ev)
	}
	for _, kind := range kinds {
		ev["streams before: "+kind]++
	}
	if n := len(before.Obus); n > 0 {
		ev[fmt.Sprintf("last unit before: %s", strings.TrimRight(before.Obus[n-1].What, "0123456789-, "))]++
	}
	ev["frames compared"] = int64(len(w.Frames))
	for _, name := range []string{"output samples compared", "reference states compared", "stored frames compared"} {
		ev[name] += w.Ev[name]
	}
	run.Events(ev)
	report(run, c, repro)
	if dir := os.Getenv("VERIF_DUMP"); dir != "" {
		dump(dir, w, j.Bytes, len(before.Obus))
	}
	if run.WantSample() {
		run.Sample(map[string]interface{}{"case": i, "bytes": len(j.Bytes), "units before": len(before.Obus), "streams before": kinds, "frames": len(w.Frames)})
	}
}

// damaged decodes a stream that is cut or has bits of its tiles changed.
func damaged(run *v.Run, r *v.RNG, i int, o m.VideoOpt) {
	w := stream(r, o)
	ev := map[string]int64{}
	for n := 4; n > 0; n-- {
		data := append([]byte{}, w.Bytes...)
		what, at := "", 0
		if r.P(60) {
			at = r.N(len(data))
			if r.P(50) {
				// close to the end of a unit
				at = w.Obus[r.N(len(w.Obus))].End - r.N(3)
			}
			data, what = data[:at:at], fmt.Sprintf("cut after %d bytes", at)
			ev["cut streams"]++
		} else {
			if len(w.Tiles) == 0 {
				continue
			}
			at = len(data)
			for k := r.Pick(1, 1, 3, 20); k > 0; k-- {
				t := w.Tiles[r.N(len(w.Tiles))]
				u := &w.Obus[t.Obu]
				x := u.End - u.Size + r.In(t.From, t.To-1)
				data[x] ^= 1 << uint(r.N(8))
				if x < at {
					at = x
				}
			}
			what = fmt.Sprintf("bits flipped from byte %d on", at)
			ev["streams with changed bits"]++
		}
		whole := 0
		for whole < len(w.Obus) && w.Obus[whole].End <= at {
			whole++
		}
		keep := string(data)
		run.Eval(v.HashBytes(data), whole > 0)
		d := decode(data)
		repro := map[string]interface{}{"case": i, "damage": what, "bytes": v.Hex([]byte(keep)), "units before": whole}
		c := &v.Cmp{}
		if string(data) != keep {
			c.Diffs = append(c.Diffs, "input modified")
		}
		if len(data) < len(w.Bytes) {
			if w.Boundary(at) {
				ev["cuts between temporal units"]++
				if d.pan != nil {
					c.Diffs = append(c.Diffs, fmt.Sprintf("error %v at %s for whole temporal units", d.pan.Value, d.pan.Stack))
				}
			} else if d.pan == nil {
				c.Diffs = append(c.Diffs, "a stream that ends within a temporal unit is not reported")
			}
		}
		if len(d.obus) < whole {
			c.Diffs = append(c.Diffs, fmt.Sprintf("%d units decoded, %d are before the damage", len(d.obus), whole))
		}
		if c.Ok() {
			units(c, d.obus[:whole], w, ev, true)
		}
		again := decode([]byte(keep))
		if a, b := d.outcome(), again.outcome(); a != b {
			c.Diffs = append(c.Diffs, fmt.Sprintf("decodes to %s and then to %s", a, b))
		}
		if d.pan != nil {
			ev["ended with an error"]++
		} else {
			ev["ended with a result"]++
		}
		ev["units before the damage"] += int64(whole)
		report(run, c, repro)
		if run.WantSample() {
			run.Sample(map[string]interface{}{"case": i, "bytes": len(data), "damage": what, "units before": whole, "outcome": d.outcome()})
		}
	}
	run.Events(ev)
}
