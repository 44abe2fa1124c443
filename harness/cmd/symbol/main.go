// Entropy decoding monitors: symbols and positions (E01), adaptation (E02),
// default tables (E03), the life of the CDFs (E04), literals (E05).
package main

import (
	"fmt"
	"os"
	"reflect"
	"strings"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/literal"
	"github.com/m4tthewde/gov1/internal/logger"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/symbol"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	m "github.com/m4tthewde/gov1/internal/zzverif/model"
	v "github.com/m4tthewde/gov1/internal/zzverif/vlib"
	"go.uber.org/zap"
)

type uhT = uncompressedheader.UncompressedHeader

func main() {
	logger.Initialize()
	logger.Logger = zap.NewNop()
	run := v.Start(os.Args[1])
	switch run.Prop {
	case "E01":
		symbols(run)
	case "E02":
		adaptation(run)
	case "E03":
		defaults(run)
	case "E04":
		life(run)
	case "E05":
		literals(run)
	}
	run.Finish()
}

func violate(run *v.Run, d []string, repro interface{}) {
	if len(d) > 5 {
		d = append(d[:5:5], fmt.Sprintf("and %d more", len(d)-5))
	}
	run.Violation(strings.Join(d, "; "), repro)
}

// genCdf draws a valid CDF of n symbols with its counter.
func genCdf(r *v.RNG, n int) []int {
	c := make([]int, n+1)
	switch r.N(4) {
	case 0: // uniform
		for i := 0; i < n; i++ {
			c[i] = 32768 * (i + 1) / n
		}
	case 1: // almost all of it on one symbol
		k := r.N(n)
		for i := 0; i < n; i++ {
			c[i] = 1 + i
			if i >= k {
				c[i] = 32768 - (n - 1 - i)
			}
		}
	default:
		used := map[int]bool{}
		for i := 0; i < n-1; i++ {
			x := 1 + r.N(32767)
			for used[x] {
				x = 1 + r.N(32767)
			}
			used[x] = true
		}
		k := 0
		for x := 1; x < 32768 && k < n-1; x++ {
			if used[x] {
				c[k] = x
				k++
			}
		}
	}
	c[n-1] = 32768
	c[n] = r.Pick(0, 0, 14, 15, 16, 30, 31, 32, r.N(33))
	return c
}

// sym is one step of a history: which CDF, which symbol.
type sym struct{ cdf, s int }

func symbols(run *v.Run) {
	run.Rule = "a case is a sequence of symbols of random CDFs encoded into the shortest tile data by an exact big-integer inverse of the decoding process, placed between random bytes and decoded; non-trivial when it has at least one symbol, distinct by CDFs and data"
	run.Par("symbols", run.Scale(9000, 150000), func(i int, r *v.RNG) {
		k := r.In(1, 6)
		cdfs := make([][]int, k)
		for j := range cdfs {
			cdfs[j] = genCdf(r, r.In(2, 16))
		}
		dec := make([][]int, k)
		for j := range cdfs {
			dec[j] = append([]int{}, cdfs[j]...)
		}
		orig := fmt.Sprint(cdfs)
		frozen := r.P(30)
		n := r.Pick(1, 2, 3, r.N(10), r.N(60), r.N(400))
		e := m.NewEncoder()
		var hist []sym
		skew := r.N(3)
		for t := 0; t < n; t++ {
			j := r.N(k)
			N := len(cdfs[j]) - 1
			s := r.N(N)
			if skew == 1 { // likely symbols
				x := r.N(32768)
				for s = 0; cdfs[j][s] <= x; s++ {
				}
			} else if skew == 2 { // unlikely ones
				s = r.Pick(0, N-1)
			}
			e.Put(cdfs[j], s)
			if !frozen {
				m.Adapt(cdfs[j], s)
			}
			hist = append(hist, sym{j, s})
		}
		data := e.Finish(1, func() int { return r.N(4) })
		need := len(data)
		if r.P(30) {
			extra := r.Bytes(r.N(5))
			if 8*need < e.Bits { // bits that were read as zero past the data
				extra = make([]byte, len(extra))
			}
			data = append(data, extra...)
		}
		lead := r.N(4)
		all := append(r.Bytes(lead), data...)
		all = append(all, r.Bytes(r.N(6))...)
		if r.P(25) {
			all = all[:lead+len(data)] // the stream ends with the tile
		}
		keep := string(all)
		b := bitstream.NewBitStream(all)
		b.Position = 8 * lead
		st := &state.State{}
		st.TileNum = 1 // not the tile whose CDFs are kept
		uh := uhT{DisableCdfUpdate: frozen, DisableFrameEndUpdateCdf: true}
		tg := &tilegroup.TileGroup{}
		c := &v.Cmp{}
		short := 0
		p := v.Catch(func() {
			tilegroup.ZzInitSymbol(tg, len(data), &b, st)
			for t, h := range hist {
				got := symbol.ReadSymbol(dec[h.cdf], st, &b, uh)
				if got != h.s {
					c.Eq(fmt.Sprintf("symbol %d of %d (alphabet of %d)", t, len(hist), len(dec[h.cdf])-1), got, h.s)
					return
				}
				if b.Position > 8*(lead+len(data)) {
					c.Eq(fmt.Sprintf("after symbol %d, bits read beyond the tile", t), b.Position-8*(lead+len(data)), 0)
					return
				}
				if st.SymbolMaxBits < 0 {
					short++
				}
			}
			c.Eq("range after the last symbol", st.SymbolRange, e.Range())
			c.Eq("adapted CDFs", dec, cdfs)
			tilegroup.ZzExitSymbol(tg, &b, st, uh)
			c.Eq("position after the tile", b.Position, 8*(lead+len(data)))
		})
		if p != nil {
			c.Eq("panic", fmt.Sprint(p.Value, " ", p.Stack), "none")
		}
		if string(all) != keep {
			c.Diffs = append(c.Diffs, "input modified")
		}
		run.Eval(v.HashBytes([]byte(orig+string(data))), n > 0)
		run.Events(map[string]int64{"symbols decoded": int64(len(hist)), "symbols decoded with bits past the tile data": int64(short),
			fmt.Sprintf("frozen CDFs %v", frozen): 1, fmt.Sprintf("tile data of %d bytes", v.Bucket(need)): 1})
		repro := map[string]interface{}{"cdfs": orig, "symbols": fmt.Sprint(hist), "tile": v.Hex(data), "offset": lead, "frozen": frozen, "case": i}
		if !c.Ok() {
			violate(run, c.Diffs, repro)
		} else if run.WantSample() {
			run.Sample(map[string]interface{}{"cdfs": v.Cut(orig, 200), "symbols": v.Cut(fmt.Sprint(hist), 200), "tile": v.Hex(data)})
		}
	})
}

func adaptation(run *v.Run) {
	run.Rule = "a case is a history of symbols of one CDF, from a random CDF or from a default CDF of the decoder, with the CDF compared after every symbol; non-trivial when at least one entry changed, distinct by start and history"
	pool := []table{}
	st0 := &state.State{}
	uncompressedheader.ZzInitNonCoeffCdfs(st0)
	uncompressedheader.ZzInitCoeffCdfs(st0, uhT{BaseQIdx: 50})
	pool = tables(reflect.ValueOf(st0).Elem(), "", names())
	run.Par("adapt", run.Scale(12000, 200000), func(i int, r *v.RNG) {
		var want []int
		from := "random"
		if r.Bool() {
			t := pool[r.N(len(pool))]
			if len(t.rows) > 0 {
				row := t.rows[r.N(len(t.rows))]
				want = append([]int{}, row...)
				from = t.name
			}
		}
		if want == nil {
			want = genCdf(r, r.In(2, 16))
		}
		n := len(want) - 1
		start := fmt.Sprint(want)
		got := append(make([]int, 0, n+4), want...)
		frozen := r.P(20)
		length := r.Pick(1, 5, r.N(50), r.N(200))
		e := m.NewEncoder()
		var ss []int
		fav := r.N(n)
		enc := append([]int{}, want...)
		for t := 0; t < length; t++ {
			s := r.N(n)
			if r.P(60) {
				s = fav
			}
			e.Put(enc, s)
			if !frozen {
				m.Adapt(enc, s)
			}
			ss = append(ss, s)
		}
		data := e.Finish(1, func() int { return r.N(2) })
		b := bitstream.NewBitStream(data)
		st := &state.State{}
		uh := uhT{DisableCdfUpdate: frozen, DisableFrameEndUpdateCdf: true}
		c := &v.Cmp{}
		changed := false
		p := v.Catch(func() {
			tilegroup.ZzInitSymbol(&tilegroup.TileGroup{}, len(data), &b, st)
			for t, s := range ss {
				x := symbol.ReadSymbol(got, st, &b, uh)
				if !frozen {
					m.Adapt(want, s)
					changed = true
				}
				c.Eq(fmt.Sprintf("symbol %d", t), x, s)
				c.Eq(fmt.Sprintf("CDF after symbol %d", t), got, want)
				for q := 0; q < n; q++ {
					if got[q] < 0 || got[q] > 32768 || (q > 0 && got[q] < got[q-1]) {
						c.Diffs = append(c.Diffs, fmt.Sprintf("after symbol %d no CDF any more: %v", t, got))
					}
				}
				if got[n-1] != 32768 || got[n] > 32 {
					c.Diffs = append(c.Diffs, fmt.Sprintf("after symbol %d end of the CDF: %v", t, got))
				}
				if !c.Ok() {
					return
				}
			}
		})
		if p != nil {
			c.Eq("panic", fmt.Sprint(p.Value, " ", p.Stack), "none")
		}
		run.Eval(v.HashBytes([]byte(fmt.Sprint(start, ss, frozen))), changed)
		run.Events(map[string]int64{fmt.Sprintf("alphabet of %d", n): 1, "updates compared": int64(c.N), fmt.Sprintf("frozen %v", frozen): 1})
		repro := map[string]interface{}{"from": from, "start": start, "symbols": fmt.Sprint(ss), "frozen": frozen, "case": i}
		if !c.Ok() {
			violate(run, c.Diffs, repro)
		} else if run.WantSample() {
			run.Sample(repro)
		}
	})
}

func literals(run *v.Run) {
	run.Rule = "a case is a sequence of literals L(n) and NS(n) with symbols of random CDFs between them; non-trivial when it has at least one literal, distinct by values and data"
	run.Par("literals", run.Scale(15000, 250000), func(i int, r *v.RNG) {
		e := m.NewEncoder()
		half := func(bit int) { e.Put([]int{16384, 32768, 0}, bit) }
		type step struct {
			kind   string
			n, val int
		}
		var steps []step
		cdf := genCdf(r, r.In(2, 16))
		dec := append([]int{}, cdf...)
		frozen := r.P(30)
		for t := r.In(1, 30); t > 0; t-- {
			switch r.N(3) {
			case 0:
				n := r.Pick(0, 1, r.N(9), r.N(20))
				x := r.Bits(n)
				for k := n - 1; k >= 0; k-- {
					half(x >> uint(k) & 1)
				}
				steps = append(steps, step{"L", n, x})
			case 1:
				n := r.Pick(r.In(1, 20), r.In(1, 300), 1<<uint(r.N(8)))
				x := r.Pick(r.N(n), n-1, 0)
				w := &v.Writer{Quiet: true}
				w.Ns("", n, x)
				for _, bit := range w.Bit {
					half(int(bit))
				}
				steps = append(steps, step{"NS", n, x})
			default:
				s := r.N(len(cdf) - 1)
				e.Put(cdf, s)
				if !frozen {
					m.Adapt(cdf, s)
				}
				steps = append(steps, step{"S", len(cdf) - 1, s})
			}
		}
		data := e.Finish(1, func() int { return r.N(4) })
		b := bitstream.NewBitStream(append(append([]byte{}, data...), r.Bytes(4)...))
		st := &state.State{}
		uh := uhT{DisableCdfUpdate: frozen, DisableFrameEndUpdateCdf: true}
		c := &v.Cmp{}
		p := v.Catch(func() {
			tg := &tilegroup.TileGroup{}
			tilegroup.ZzInitSymbol(tg, len(data), &b, st)
			for t, s := range steps {
				got := 0
				switch s.kind {
				case "L":
					got = literal.L(s.n, st, &b, uh)
				case "NS":
					got = literal.NS(s.n, st, &b, uh)
				default:
					got = symbol.ReadSymbol(dec, st, &b, uh)
				}
				c.Eq(fmt.Sprintf("%s(%d) at step %d", s.kind, s.n, t), got, s.val)
				run.Event("read " + s.kind)
				if !c.Ok() {
					return
				}
			}
			c.Eq("range at the end", st.SymbolRange, e.Range())
			c.Eq("CDF at the end", dec, cdf)
			tilegroup.ZzExitSymbol(tg, &b, st, uh)
			c.Eq("position after the tile", b.Position, 8*len(data))
		})
		if p != nil {
			c.Eq("panic", fmt.Sprint(p.Value, " ", p.Stack), "none")
		}
		run.Eval(v.HashBytes([]byte(fmt.Sprint(steps, data))), true)
		repro := map[string]interface{}{"steps": fmt.Sprint(steps), "tile": v.Hex(data), "case": i}
		if !c.Ok() {
			violate(run, c.Diffs, repro)
		} else if run.WantSample() {
			run.Sample(repro)
		}
	})
}
