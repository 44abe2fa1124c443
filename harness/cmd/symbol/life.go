package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/symbol"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	m "github.com/m4tthewde/gov1/internal/zzverif/model"
	v "github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

// class is the coefficient CDF set a base_q_idx selects.
func class(q int) int {
	switch {
	case q <= 20:
		return 0
	case q <= 60:
		return 1
	case q <= 120:
		return 2
	}
	return 3
}

type golden struct {
	NonCoeff map[string]string    `json:"non_coefficient"`
	Coeff    [4]map[string]string `json:"coefficient"`
}

var coeffNames = map[string]bool{"TxbSkipCdf": true, "EobPt16Cdf": true, "EobPt32Cdf": true, "EobPt64Cdf": true, "EobPt128Cdf": true, "EobPt256Cdf": true,
	"EobPt512Cdf": true, "EobPt1024Cdf": true, "EobExtraCdf": true, "DcSignCdf": true, "CoeffBaseEobCdf": true, "CoeffBaseCdf": true, "CoeffBrCdf": true}

// parsed gives the state after a frame header with a base_q_idx.
func parsed(r *v.RNG, st *state.State, want int) (q int, ok bool) {
	for try := 0; try < 400; try++ {
		so := m.DefSeq()
		so.MaxDim = 64
		sq := m.GenSeq(&v.Writer{Quiet: true}, r, so)
		w := &v.Writer{Quiet: true}
		fo := m.DefFrame()
		fo.ExistingPc = 0
		f, refs := m.GenFrame(w, r, sq, m.Ext{}, fo)
		if want >= 0 && class(f.BaseQ) != want {
			continue
		}
		refs.Install(st)
		b := bitstream.NewBitStream(append(w.Bytes(nil), 0))
		if _, p := m.ParseFrame(&b, st, sq.Header(), m.Ext{}); p != nil {
			return 0, false
		}
		return f.BaseQ, true
	}
	return 0, false
}

func loadGolden(run *v.Run) golden {
	var g golden
	data, err := os.ReadFile(filepath.Join(run.Verif, "harness", "golden", "cdf.json"))
	if err == nil {
		err = json.Unmarshal(data, &g)
	}
	if err != nil {
		fmt.Println("golden digests:", err)
		os.Exit(3)
	}
	return g
}

func check(run *v.Run, g golden, ts []table, q int) []string {
	var d []string
	for _, t := range ts {
		want := g.NonCoeff[t.name]
		if coeffNames[t.name] {
			want = g.Coeff[class(q)][t.name]
		}
		if got := digest(t); got != want {
			d = append(d, fmt.Sprintf("%s with base_q_idx %d differs from the table of the specification release (digest %s, want %s)", t.name, q, got, want))
		}
		if t.ragged {
			d = append(d, fmt.Sprintf("%s with base_q_idx %d is not rectangular", t.name, q))
		}
		for i, row := range t.rows {
			n := len(row) - 1
			bad := n < 2 || n > 16 || row[n] != 0 || row[n-1] != 32768
			for k := 0; !bad && k < n; k++ {
				bad = row[k] <= 0 && n > 1 && k < n-1 && row[k] < 0 || k > 0 && row[k] < row[k-1]
			}
			if bad {
				d = append(d, fmt.Sprintf("%s row %d is no initial CDF: %v", t.name, i, row))
				break
			}
		}
	}
	return d
}

// defaults: what a frame header without a primary reference leaves as CDFs.
func defaults(run *v.Run) {
	run.Rule = "a case is a frame header without primary reference frame decoded on a state whose CDFs are absent, adapted or garbage: all default CDF arrays are then compared by structure and digest; distinct by base_q_idx and state before"
	if os.Getenv("VERIF_GOLDEN") != "" {
		makeGolden(run)
		return
	}
	g := loadGolden(run)
	ns := names()
	run.Par("every q", 256, func(q int, r *v.RNG) {
		st := &state.State{}
		uncompressedheader.ZzInitNonCoeffCdfs(st)
		uncompressedheader.ZzInitCoeffCdfs(st, uhT{BaseQIdx: q})
		ts := tables(reflect.ValueOf(st).Elem(), "", ns)
		d := check(run, g, ts, q)
		run.Eval(v.HashBytes([]byte{1, byte(q)}), true)
		rows := 0
		for _, t := range ts {
			rows += len(t.rows)
		}
		run.Events(map[string]int64{"CDF arrays checked": int64(len(ts)), "CDF rows checked": int64(rows)})
		if len(d) > 0 {
			violate(run, d, map[string]interface{}{"base_q_idx": q})
		}
	})
	run.Par("headers", run.Scale(320, 4000), func(i int, r *v.RNG) {
		st := &state.State{}
		before := "absent"
		if i%3 > 0 {
			if _, ok := parsed(r, st, r.N(4)); !ok {
				run.Violation("frame header did not decode", map[string]interface{}{"case": i})
				return
			}
			before = "adapted"
			scramble(r, tables(reflect.ValueOf(st).Elem(), "", ns), i%3 == 2)
		}
		q, ok := parsed(r, st, i%4)
		if !ok {
			run.Violation("frame header did not decode", map[string]interface{}{"case": i})
			return
		}
		ts := tables(reflect.ValueOf(st).Elem(), "", ns)
		d := check(run, g, ts, q)
		run.Eval(v.HashBytes([]byte(fmt.Sprint(before, q, i%3))), true)
		run.Event("header with coefficient class " + fmt.Sprint(class(q)) + ", CDFs before: " + before)
		if len(d) > 0 {
			violate(run, d, map[string]interface{}{"base_q_idx": q, "before": before, "case": i})
		}
	})
	run.Sample(map[string]interface{}{"arrays": strings.Join(ns, " ")})
}

func makeGolden(run *v.Run) {
	var g golden
	g.NonCoeff = map[string]string{}
	for c, q := range []int{0, 21, 61, 121} {
		g.Coeff[c] = map[string]string{}
		st := &state.State{}
		uncompressedheader.ZzInitNonCoeffCdfs(st)
		uncompressedheader.ZzInitCoeffCdfs(st, uhT{BaseQIdx: q})
		for _, t := range tables(reflect.ValueOf(st).Elem(), "", names()) {
			if coeffNames[t.name] {
				g.Coeff[c][t.name] = digest(t)
			} else {
				g.NonCoeff[t.name] = digest(t)
			}
		}
	}
	out, _ := json.MarshalIndent(g, "", " ")
	os.WriteFile(os.Getenv("VERIF_GOLDEN"), append(out, '\n'), 0o644)
}

// scramble changes the rows of tables in place, as adaptation does or at random.
func scramble(r *v.RNG, ts []table, random bool) {
	for _, t := range ts {
		for _, row := range t.rows {
			n := len(row) - 1
			if n < 2 {
				continue
			}
			if random {
				copy(row, genCdfFast(r, n))
			} else {
				for k := r.In(1, 3); k > 0; k-- {
					m.Adapt(row, r.N(n))
				}
			}
		}
	}
}

func genCdfFast(r *v.RNG, n int) []int {
	c := make([]int, n+1)
	x := 0
	for i := 0; i < n-1; i++ {
		x += 1 + r.N((32768-x)/(n-i)-1)
		c[i] = x
	}
	c[n-1], c[n] = 32768, r.In(1, 32)
	return c
}

func reset(c map[string][][]int) map[string][][]int {
	for _, rows := range c {
		for _, row := range rows {
			if len(row) > 0 {
				row[len(row)-1] = 0
			}
		}
	}
	return c
}

// life runs random histories of the operations that move CDFs about, against
// a model that keeps them as values.
func life(run *v.Run) {
	run.Rule = "a case is a random history of initialise, save to slot, load from slot, begin tile, decode symbols, end tile, end of frame on one decoder state, next to a model that holds the CDFs as values; all CDF arrays (frame, tile, saved, slots) are compared after every step; distinct by history"
	g := loadGolden(run)
	ns := names()
	run.Par("life", run.Scale(90, 1500), func(i int, r *v.RNG) {
		st := &state.State{}
		tg := &tilegroup.TileGroup{}
		sv := reflect.ValueOf(st).Elem()
		frame := func() []table { return tables(sv, "", ns) }
		tile := func() []table { return tables(sv, "Tile", ns) }
		saved := func() []table { return tables(sv, "Saved", ns) }
		slot := func(k int) []table { return tables(sv.FieldByName("Memory").Index(k), "", ns) }
		q := r.N(256)
		uncompressedheader.ZzInitNonCoeffCdfs(st)
		uncompressedheader.ZzInitCoeffCdfs(st, uhT{BaseQIdx: q})
		if d := check(run, g, frame(), q); len(d) > 0 {
			violate(run, d, map[string]interface{}{"case": i, "what": "initial CDFs"})
			return
		}
		var mFrame, mTile, mSaved map[string][][]int
		mSlot := map[int]map[string][][]int{}
		mFrame = clone(frame())
		hist := []string{"init"}
		cp := func(x map[string][][]int) map[string][][]int {
			o := map[string][][]int{}
			for k, rows := range x {
				for _, row := range rows {
					o[k] = append(o[k], append([]int{}, row...))
				}
			}
			return o
		}
		var b bitstream.BitStream
		var begun bool
		for step := 0; step < 26; step++ {
			var d []string
			op := r.N(9)
			p := v.Catch(func() {
				switch {
				case op == 0:
					q = r.N(256)
					uncompressedheader.ZzInitNonCoeffCdfs(st)
					uncompressedheader.ZzInitCoeffCdfs(st, uhT{BaseQIdx: q})
					d = append(d, check(run, g, frame(), q)...)
					mFrame = clone(frame())
					hist = append(hist, "init")
				case op == 1 || op == 2:
					k := r.N(8)
					uncompressedheader.SaveCdfs(k, st)
					mSlot[k] = cp(mFrame)
					hist = append(hist, fmt.Sprintf("save %d", k))
				case op == 3 && len(mSlot) > 0:
					k := r.N(8)
					for mSlot[k] == nil {
						k = r.N(8)
					}
					uncompressedheader.LoadCdfs(k, st)
					mFrame = reset(cp(mSlot[k]))
					hist = append(hist, fmt.Sprintf("load %d", k))
				case op == 4 || op == 5 || !begun:
					b = bitstream.NewBitStream(r.Bytes(40))
					tilegroup.ZzInitSymbol(tg, 40, &b, st)
					mTile = cp(mFrame)
					begun = true
					hist = append(hist, "begin tile")
				case op == 6:
					// decode symbols of random data with the tile's CDFs
					ts := tile()
					frozen := r.P(25)
					for k := 0; k < 25; k++ {
						t := ts[r.N(len(ts))]
						if len(t.rows) == 0 || st.SymbolMaxBits < 16 {
							continue
						}
						ri := r.N(len(t.rows))
						if len(t.rows[ri]) < 3 {
							continue
						}
						s := symbol.ReadSymbol(t.rows[ri], st, &b, uhT{DisableCdfUpdate: frozen})
						if !frozen {
							m.Adapt(mTile[t.name][ri], s)
						}
					}
					if r.P(30) {
						// adaptation of everything, as a long tile does
						scramble(r, ts, false)
						mTile = clone(ts)
					}
					hist = append(hist, fmt.Sprintf("decode frozen=%v", frozen))
				case op == 7:
					uh := uhT{DisableFrameEndUpdateCdf: r.P(30)}
					uh.TileInfo.ContextUpdateTileId = r.N(2)
					st.TileNum = r.N(2)
					tilegroup.ZzExitSymbol(tg, &b, st, uh)
					kept := !uh.DisableFrameEndUpdateCdf && st.TileNum == uh.TileInfo.ContextUpdateTileId
					if kept {
						mSaved = cp(mTile)
					}
					begun = false
					hist = append(hist, fmt.Sprintf("end tile kept=%v", kept))
				case op == 8 && mSaved != nil:
					tilegroup.ZzFrameEndUpdateCdf(tg, st)
					mFrame = cp(mSaved)
					hist = append(hist, "end frame")
				}
			})
			if p != nil {
				d = append(d, fmt.Sprintf("panic %v at %s", p.Value, p.Stack))
			}
			add := func(what string, x []string) {
				for _, y := range x {
					d = append(d, what+" "+y)
				}
			}
			if len(d) == 0 {
				add("frame CDF", diff(mFrame, frame()))
				if mTile != nil {
					add("tile CDF", diff(mTile, tile()))
				}
				if mSaved != nil {
					add("saved CDF", diff(mSaved, saved()))
				}
				for k := 0; k < 8; k++ {
					if mSlot[k] != nil {
						add(fmt.Sprintf("slot %d CDF", k), diff(mSlot[k], slot(k)))
					}
				}
			}
			run.Event("step " + strings.Fields(hist[len(hist)-1])[0])
			run.Eval(v.HashBytes([]byte(fmt.Sprint(i, hist))), true)
			if len(d) > 0 {
				violate(run, d, map[string]interface{}{"history": hist, "case": i})
				return
			}
		}
		if run.WantSample() {
			run.Sample(map[string]interface{}{"history": hist})
		}
	})
}
