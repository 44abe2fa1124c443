// Residual monitors: the inverse transforms (T01) and dequantisation with
// reconstruction (T02).
package main

import (
	"fmt"
	"math"
	"os"

	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	m "github.com/m4tthewde/gov1/internal/zzverif/model"
	v "github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

func main() {
	run := v.Start(os.Args[1])
	selfCheck()
	switch run.Prop {
	case "T01":
		inverse(run)
	case "T02":
		reconstruct(run)
	}
	run.Finish()
}

// selfCheck compares the integer model with the real transforms.
func selfCheck() {
	r := v.NewRNG(7)
	for kind := 0; kind < 4; kind++ {
		for n := 2; n <= 6; n++ {
			if kind != 0 && (n == 6 || (n == 5 && kind != 3)) {
				continue
			}
			size := n - 2
			for typ := 0; typ < 16; typ++ {
				if m.TxKinds[typ] != [2]int{kind, kind} {
					continue
				}
				N := 1 << uint(n)
				for k := 0; k < 20; k++ {
					c := map[[2]int]int{}
					for z := 0; z < 4; z++ {
						c[[2]int{r.N(min(N, 32)), r.N(min(N, 32))}] = r.In(-1500, 1500)
					}
					res, ok := m.Inverse(size, typ, false, 10, func(i, j int) int { return c[[2]int{i, j}] })
					if !ok {
						continue
					}
					want := real2(size, typ, c)
					for i := range res {
						for j := range res[i] {
							if math.Abs(float64(res[i][j])-want[i][j]) > 2.0 {
								fmt.Println("model self check failed", size, typ, i, j, res[i][j], want[i][j])
								os.Exit(3)
							}
						}
					}
				}
			}
		}
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// real2 is the two-dimensional real transform with the gain of the integer one:
// the residual of a lone DC coefficient c of an N x N block is c/8 * 8/N.
func real2(size, typ int, c map[[2]int]int) [][]float64 {
	lw, lh := m.TxW[size], m.TxH[size]
	w, h := 1<<uint(lw), 1<<uint(lh)
	out := make([][]float64, h)
	for i := range out {
		out[i] = make([]float64, w)
	}
	shift := map[int]float64{4: 16, 6: 32, 8: 64, 10: 64, 12: 64}[lw+lh]
	for p, val := range c {
		row := make([]int, w)
		row[p[1]] = val
		col := make([]int, h)
		col[p[0]] = 1
		a := m.Real(m.TxKinds[typ][1], lw, row)
		b := m.Real(m.TxKinds[typ][0], lh, col)
		for i := range out {
			for j := range out[i] {
				out[i][j] += a[j] * b[i] / shift
			}
		}
	}
	return out
}

// coefs draws a block of dequantised coefficients.
func coefs(r *v.RNG, w, h, bits int) [][]int {
	c := make([][]int, 32)
	for i := range c {
		c[i] = make([]int, 32)
	}
	w, h = min(w, 32), min(h, 32)
	n := 1
	switch r.N(5) {
	case 0:
	case 1:
		n = r.In(1, 4)
	case 2:
		n = r.In(1, 32)
	default:
		n = r.In(1, w*h)
	}
	lw, lh := w, h
	if r.P(50) {
		lw, lh = r.In(1, w), r.In(1, h)
	}
	b := r.In(1, bits)
	for ; n > 0; n-- {
		x := r.Bits(b)
		if r.P(5) {
			x = 1<<uint(b) - 1
		}
		if r.Bool() {
			x = -x
			if r.P(5) && b == bits {
				x = -1 << uint(b)
			}
		}
		c[r.N(lh)][r.N(lw)] = x
	}
	return c
}

func inverse(run *v.Run) {
	run.Rule = "a case is a block of dequantised coefficients with size, type and bit depth; every residual sample is compared with an independent integer transform; distinct by content"
	per := run.Scale(1500, 40000)
	run.Par("inverse", len(m.TxW)*per, func(i int, r *v.RNG) {
		size := i % len(m.TxW)
		types := m.TxTypesOf(size)
		typ := types[r.N(len(types))]
		if i/len(m.TxW) < len(types) {
			typ = types[i/len(m.TxW)]
		}
		lossless := size == 0 && r.P(25)
		depth := r.Pick(8, 10, 12)
		w, h := 1<<uint(m.TxW[size]), 1<<uint(m.TxH[size])
		bits := depth + 7
		if lossless {
			typ = 0
			if r.P(50) {
				typ = 9
			}
			bits = depth + 3
		}
		if r.P(50) && bits > depth+2 {
			bits = depth + 2
		}
		c := coefs(r, w, h, bits)
		want, ok := m.Inverse(size, typ, lossless, depth, func(i, j int) int { return c[i][j] })
		ev := map[string]int64{fmt.Sprintf("size %dx%d", w, h): 1, fmt.Sprintf("type %d", typ): 1}
		if !ok {
			run.Event("drawn but not conforming (overflow)")
			return
		}
		t := &tilegroup.TileGroup{PlaneTxType: typ, Lossless: lossless}
		for a := range t.Dequant {
			for b := range t.Dequant[a] {
				t.Dequant[a][b] = r.In(-9, 9) // beyond the block: must not matter
				if a < min(32, h) && b < min(32, w) {
					t.Dequant[a][b] = c[a][b]
				}
			}
		}
		// what an earlier block left behind must not matter either
		if r.P(50) {
			t.Residual = make([][]int, 128)
			for a := range t.Residual {
				t.Residual[a] = make([]int, 128)
				for b := range t.Residual[a] {
					t.Residual[a][b] = r.In(-99, 99)
				}
			}
			t.T = make([]int, 128)
			for a := range t.T {
				t.T[a] = r.In(-99, 99)
			}
		}
		var sh sequenceheader.SequenceHeader
		sh.ColorConfig.BitDepth = depth
		where := fmt.Sprintf("%dx%d type %d depth %d lossless %v", w, h, typ, depth, lossless)
		repro := map[string]interface{}{"size": size, "type": typ, "depth": depth, "lossless": lossless, "coefficients": trim(c, w, h)}
		if p := v.Catch(func() { t.InverseTranform(size, sh) }); p != nil {
			run.Violation(fmt.Sprintf("%s: panic %v at %s", where, p.Value, p.Stack), repro)
			return
		}
		run.Eval(v.HashBytes([]byte(fmt.Sprint(size, typ, depth, lossless, c))), true)
		run.Events(ev)
		nz := 0
		for a := 0; a < h; a++ {
			for b := 0; b < w; b++ {
				if want[a][b] != 0 {
					nz++
				}
				if t.Residual[a][b] != want[a][b] {
					run.Violation(fmt.Sprintf("%s: residual[%d][%d] is %d, want %d", where, a, b, t.Residual[a][b], want[a][b]), repro)
					return
				}
			}
		}
		run.EventN("residual samples compared", int64(w*h))
		run.EventN("nonzero residual samples", int64(nz))
		if run.WantSample() {
			run.Sample(map[string]interface{}{"case": where, "nonzero": nz})
		}
	})
}

func trim(c [][]int, w, h int) [][3]int {
	var o [][3]int
	for i := range c {
		for j, x := range c[i] {
			if x != 0 && i < h && j < w {
				o = append(o, [3]int{i, j, x})
			}
		}
	}
	return o
}

// qm gives the offset of the matrix of each size inside a level, and the size
// whose matrix it shares.
func qmOffset(size int) int {
	w, h := 1<<uint(m.TxW[size]), 1<<uint(m.TxH[size])
	if w == 64 && h == 16 {
		w = 32
	} else if w == 16 && h == 64 {
		h = 32
	} else {
		w, h = min(w, 32), min(h, 32)
	}
	if w == 64 || h == 64 {
		w, h = min(w, 32), min(h, 32)
	}
	off := 0
	for _, s := range [][2]int{{4, 4}, {8, 8}, {16, 16}, {32, 32}, {4, 8}, {8, 4}, {8, 16}, {16, 8}, {16, 32}, {32, 16}, {4, 16}, {16, 4}, {8, 32}, {32, 8}} {
		if s[0] == w && s[1] == h {
			return off
		}
		off += s[0] * s[1]
	}
	panic("no matrix")
}

func clip(lo, hi, x int) int {
	if x < lo {
		return lo
	}
	if x > hi {
		return hi
	}
	return x
}

func reconstruct(run *v.Run) {
	run.Rule = "a case is a block of quantised coefficients with quantiser state, position and type; every sample of the plane is compared with an independent dequantisation and transform; the quantiser tables are pinned row by row and checked for their symmetries"
	run.Golden("quantizer", map[string]interface{}{"Quantizer_Matrix": tilegroup.Quantizer_Matrix, "Dc_Qlookup": tilegroup.Dc_Qlookup, "Ac_Qlookup": tilegroup.Ac_Qlookup})
	// the tables rise with the index, and matrices of transposed sizes are transposes
	for d := 0; d < 3; d++ {
		for q := 1; q < 256; q++ {
			if tilegroup.Dc_Qlookup[d][q] < tilegroup.Dc_Qlookup[d][q-1] || tilegroup.Ac_Qlookup[d][q] <= tilegroup.Ac_Qlookup[d][q-1] {
				run.Violation(fmt.Sprintf("quantiser tables of depth %d do not rise at %d", 8+2*d, q), nil)
			}
		}
	}
	for l := 0; l < 15; l++ {
		for c := 0; c < 2; c++ {
			for size := range m.TxW {
				w, h := min(32, 1<<uint(m.TxW[size])), min(32, 1<<uint(m.TxH[size]))
				tr := -1
				for s2 := range m.TxW {
					if m.TxW[s2] == m.TxH[size] && m.TxH[s2] == m.TxW[size] {
						tr = s2
					}
				}
				a, b := qmOffset(size), qmOffset(tr)
				q := tilegroup.Quantizer_Matrix[l][c]
				for i := 0; i < h; i++ {
					for j := 0; j < w; j++ {
						if q[a+i*w+j] != q[b+j*h+i] {
							run.Violation(fmt.Sprintf("quantiser matrix level %d plane type %d size %d is not the transpose of size %d at %d,%d", l, c, size, tr, i, j), nil)
						}
					}
				}
			}
		}
	}
	per := run.Scale(1000, 30000)
	run.Par("reconstruct", len(m.TxW)*per, func(i int, r *v.RNG) {
		size := i % len(m.TxW)
		types := m.TxTypesOf(size)
		typ := types[r.N(len(types))]
		if i/len(m.TxW) < len(types) {
			typ = types[i/len(m.TxW)]
		}
		depth := r.Pick(8, 10, 12)
		lossless := size == 0 && r.P(20)
		w, h := 1<<uint(m.TxW[size]), 1<<uint(m.TxH[size])
		tw, th := min(32, w), min(32, h)
		plane := r.N(3)
		seg := r.N(8)
		var sh sequenceheader.SequenceHeader
		sh.ColorConfig.BitDepth = depth
		uh := uncompressedheader.UncompressedHeader{}
		st := &state.State{}
		uh.BaseQIdx = r.Pick(1, r.N(256), r.N(256), 255)
		uh.DeltaQYDc, uh.DeltaQUDc, uh.DeltaQUAc, uh.DeltaQVDc, uh.DeltaQVAc = r.In(-64, 63), r.In(-64, 63), r.In(-64, 63), r.In(-64, 63), r.In(-64, 63)
		uh.DeltaQPresent = r.Bool()
		st.CurrentQIndex = r.In(1, 255)
		uh.SegmentationEnabled = r.Bool()
		for s := 0; s < 8; s++ {
			st.FeatureEnabled[s][0] = r.N(2)
			st.FeatureData[s][0] = r.In(-255, 255)
		}
		uh.UsingQMatrix = r.P(60)
		for p := 0; p < 3; p++ {
			lv := r.N(16)
			for s := 0; s < 8; s++ {
				uh.SegQMLevel[p][s] = lv
			}
			if r.P(20) {
				uh.SegQMLevel[p][seg] = 15
			}
		}
		if lossless {
			typ = 0
			uh.BaseQIdx, uh.SegmentationEnabled, uh.DeltaQPresent = 0, false, false
			uh.DeltaQYDc, uh.DeltaQUDc, uh.DeltaQUAc, uh.DeltaQVDc, uh.DeltaQVAc = 0, 0, 0, 0, 0
			for p := 0; p < 3; p++ {
				uh.SegQMLevel[p][seg] = 15
			}
		}
		// quantiser index, as the specification derives it
		base := uh.BaseQIdx
		if uh.DeltaQPresent {
			base = st.CurrentQIndex
		}
		if uh.SegmentationEnabled && st.FeatureEnabled[seg][0] == 1 {
			base = clip(0, 255, base+st.FeatureData[seg][0])
		}
		d := (depth - 8) / 2
		dcq := tilegroup.Dc_Qlookup[d][clip(0, 255, base+[]int{uh.DeltaQYDc, uh.DeltaQUDc, uh.DeltaQVDc}[plane])]
		acq := tilegroup.Ac_Qlookup[d][clip(0, 255, base+[]int{0, uh.DeltaQUAc, uh.DeltaQVAc}[plane])]
		lv := uh.SegQMLevel[plane][seg]
		useQm := uh.UsingQMatrix && typ < 9 && lv < 15
		pt := 0
		if plane > 0 {
			pt = 1
		}
		denom := 1
		switch {
		case w*h == 64*64 || w*h == 64*32:
			denom = 4
		case w*h >= 512 && !(w == 8 || h == 8):
			denom = 2
		}
		t := &tilegroup.TileGroup{PlaneTxType: typ, Lossless: lossless, SegmentId: seg}
		lim := 1 << uint(7+depth)
		c := make([][]int, th)
		n := []int{1, 4, 32, tw * th}[r.N(4)]
		amp := r.In(1, 20)
		if r.P(70) {
			// coefficients of a size real pictures have
			amp = 1
			for dq := acq; dq < lim/2 && r.P(90); dq *= 2 {
				amp++
			}
		}
		big := false
		for k := r.In(1, n); k > 0; k-- {
			x := r.Bits(amp)
			if r.P(2) {
				x = r.Bits(20) // beyond the 24 bit product
			}
			if r.Bool() {
				x = -x
			}
			t.Quant[r.N(min(th, r.In(1, th)))*tw+r.N(tw)] = x
		}
		for a := range c {
			c[a] = make([]int, tw)
			for b := range c[a] {
				q := acq
				if a == 0 && b == 0 {
					q = dcq
				}
				if useQm {
					q = (q*tilegroup.Quantizer_Matrix[lv][pt][qmOffset(size)+a*tw+b] + 16) >> 5
				}
				x := t.Quant[a*tw+b]
				mag, neg := x, false
				if x < 0 {
					mag, neg = -x, true
				}
				if mag*q > 0xffffff {
					big = true
				}
				mag = (mag * q) % (1 << 24) / denom
				if neg {
					mag = -mag
				}
				c[a][b] = clip(-lim, lim-1, mag)
			}
		}
		res, ok := m.Inverse(size, typ, lossless, depth, func(i, j int) int { return c[i][j] })
		if !ok {
			run.Event("drawn but not conforming (overflow)")
			return
		}
		// the plane, a margin around the block
		x0, y0 := 4*r.N(5), 4*r.N(5)
		H, W := y0+h+9, x0+w+7
		planes := [3][][]int{}
		want := [3][][]int{}
		top := 1<<uint(depth) - 1
		for p := range planes {
			planes[p] = make([][]int, H)
			want[p] = make([][]int, H)
			for a := range planes[p] {
				planes[p][a] = make([]int, W)
				for b := range planes[p][a] {
					planes[p][a][b] = r.Pick(r.In(0, top), r.In(0, top), 0, top)
				}
				want[p][a] = append([]int{}, planes[p][a]...)
			}
		}
		col, row := m.TxKinds[typ][0], m.TxKinds[typ][1]
		clipped := 0
		for a := 0; a < h; a++ {
			for b := 0; b < w; b++ {
				ra, rb := a, b
				if col == 2 && !lossless {
					ra = h - 1 - a
				}
				if row == 2 && !lossless {
					rb = w - 1 - b
				}
				s := planes[plane][y0+a][x0+b] + res[ra][rb]
				if s < 0 || s > top {
					clipped++
				}
				want[plane][y0+a][x0+b] = clip(0, top, s)
			}
		}
		st.CurrFrame = planes
		where := fmt.Sprintf("%dx%d type %d depth %d plane %d lossless %v qm %v", w, h, typ, depth, plane, lossless, useQm)
		repro := map[string]interface{}{"size": size, "type": typ, "depth": depth, "plane": plane, "quant": t.Quant[:tw*th], "case": i}
		if p := v.Catch(func() { tilegroup.ZzReconstruct(t, plane, x0, y0, size, sh, uh, st) }); p != nil {
			run.Violation(fmt.Sprintf("%s: panic %v at %s", where, p.Value, p.Stack), repro)
			return
		}
		run.Eval(v.HashBytes([]byte(fmt.Sprint(size, typ, depth, lossless, plane, c, x0, y0))), true)
		ev := map[string]int64{fmt.Sprintf("size %dx%d", w, h): 1, fmt.Sprintf("type %d", typ): 1, fmt.Sprintf("plane %d", plane): 1}
		if useQm {
			ev["with a quantiser matrix"]++
		}
		if big {
			ev["product beyond 24 bits"]++
		}
		if clipped > 0 {
			ev["samples clipped to the bit depth"]++
		}
		run.Events(ev)
		for p := range want {
			for a := range want[p] {
				for b := range want[p][a] {
					if st.CurrFrame[p][a][b] != want[p][a][b] {
						in := "inside"
						if p != plane || a < y0 || b < x0 || a >= y0+h || b >= x0+w {
							in = "outside"
						}
						run.Violation(fmt.Sprintf("%s: sample %d,%d of plane %d (%s the block at %d,%d) is %d, want %d", where, a, b, p, in, y0, x0, st.CurrFrame[p][a][b], want[p][a][b]), repro)
						return
					}
				}
			}
		}
		run.EventN("samples compared", int64(3*H*W))
		if run.WantSample() {
			run.Sample(map[string]interface{}{"case": where, "clipped": clipped})
		}
	})
}
