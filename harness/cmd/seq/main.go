// Sequence header monitors: general (S01), operating points and timing (S02),
// colour configuration (S03).
package main

import (
	"os"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	m "github.com/m4tthewde/gov1/internal/zzverif/model"
	v "github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

func main() {
	prop := os.Args[1]
	run := v.Start(prop)
	run.Rule = "a case is a conforming sequence header whose syntax elements are drawn at random from the syntax table, at a random bit offset between random bits; all are non-trivial, distinct by their bits"
	n := run.Scale(40000, 800000)
	run.Par("seq", n, func(i int, r *v.RNG) {
		o := m.DefSeq()
		switch prop {
		case "S02":
			o.Timing, o.Reduced = 75, 8
		case "S03":
			o.Timing, o.Reduced = 20, 30
		}
		w := &v.Writer{Quiet: !run.WantSample()}
		s := m.GenSeq(w, r, o)
		off := r.Pick(0, 0, 8, r.N(30))
		data := m.Place(w, r, off)
		keep := string(data)
		repro := func() interface{} {
			return map[string]interface{}{"bytes": v.Hex(data), "bit_offset": off, "bits": w.Len(), "case": i}
		}
		st := &state.State{}
		st.OperatingPointIdc = r.N(4096)
		b := bitstream.NewBitStream(data)
		b.Position = off
		sh, p := m.ParseSeq(&b, st)
		run.Eval(v.HashBytes([]byte(w.Bit)), true)
		if p != nil {
			run.Violation("decoder panicked on a conforming sequence header: "+sprint(p.Value)+" at "+p.Stack, repro())
			return
		}
		c := &v.Cmp{}
		c.Eq("bits consumed", b.Position-off, w.Len())
		switch prop {
		case "S01":
			s.CmpGeneral(c, &sh)
		case "S02":
			s.CmpOperating(c, &sh, st)
		case "S03":
			s.Color.Cmp(c, &sh.ColorConfig)
		}
		if string(data) != keep {
			c.Diffs = append(c.Diffs, "the input bytes were modified")
		}
		ev := map[string]int64{}
		count(ev, s)
		ev["fields compared"] = int64(c.N)
		run.Events(ev)
		if !c.Ok() {
			run.Violation("sequence header decoded differently from its syntax table: "+join(c.Diffs), repro())
		}
		if run.WantSample() {
			run.Sample(map[string]interface{}{"bytes": v.Hex(data), "bit_offset": off, "syntax": w.Trace})
		}
	})
	if prop == "S03" {
		colour(run)
	}
	run.Finish()
}

// colour runs color_config() alone over every combination of its flags, with
// all primaries/transfer/matrix triples near the RGB triple.
func colour(run *v.Run) {
	type key struct{ p, hb, tb, mono, desc, cp, tc, mc int }
	var cases []key
	for p := 0; p < 3; p++ {
		for f := 0; f < 16; f++ {
			for cp := 0; cp < 4; cp++ {
				for tc := 11; tc < 16; tc++ {
					for mc := 0; mc < 3; mc++ {
						cases = append(cases, key{p, f & 1, f >> 1 & 1, f >> 2 & 1, f >> 3 & 1, cp, tc, mc})
					}
				}
			}
		}
	}
	run.Par("colour", len(cases), func(i int, r *v.RNG) {
		k := cases[i]
		for rep := 0; rep < 16; rep++ {
			w := &v.Writer{Quiet: true}
			c := m.Color{Cp: 2, Tc: 2, Mc: 2}
			c.HighBitDepth = w.F("", 1, k.hb)
			c.BitDepth = 8 + 2*k.hb
			if k.p == 2 && k.hb == 1 {
				c.TwelveBit = w.F("", 1, k.tb)
				c.BitDepth = 10 + 2*k.tb
			}
			if k.p != 1 {
				c.Mono = w.F("", 1, k.mono)
			}
			c.NumPlanes = 3 - 2*c.Mono
			c.Desc = w.F("", 1, k.desc)
			if c.Desc == 1 {
				c.Cp, c.Tc, c.Mc = w.F("", 8, k.cp), w.F("", 8, k.tc), w.F("", 8, k.mc)
			}
			bit := func(sh int) int { return w.F("", 1, rep>>uint(sh)&1) }
			if c.Mono == 1 {
				c.Range = bit(0)
				c.Ssx, c.Ssy = 1, 1
			} else {
				if c.Cp == 1 && c.Tc == 13 && c.Mc == 0 {
					c.Range = 1
				} else {
					c.Range = bit(0)
					switch {
					case k.p == 0:
						c.Ssx, c.Ssy = 1, 1
					case k.p == 2 && c.BitDepth == 12:
						if c.Ssx = bit(1); c.Ssx == 1 {
							c.Ssy = bit(2)
						}
					case k.p == 2:
						c.Ssx = 1
					}
					if c.Ssx == 1 && c.Ssy == 1 {
						c.Pos = w.F("", 2, r.N(4))
					}
				}
				c.SepUv = bit(3)
			}
			data := m.Place(w, r, 0)
			b := bitstream.NewBitStream(data)
			var got sequenceheader.ColorConfig
			p := v.Catch(func() { got = sequenceheader.NewColorConfig(&b, k.p) })
			run.Eval(v.HashBytes(append([]byte{9, byte(k.p)}, w.Bit...)), true)
			cmp := &v.Cmp{}
			if p != nil {
				cmp.Eq("panic", p.Value, "none")
			} else {
				cmp.Eq("bits consumed", b.Position, w.Len())
				c.Cmp(cmp, &got)
			}
			if !cmp.Ok() {
				run.Violation("color_config decoded differently from its syntax table: "+join(cmp.Diffs), map[string]interface{}{"profile": k.p, "bytes": v.Hex(data)})
			}
			run.Event("color_config combinations")
		}
	})
}
