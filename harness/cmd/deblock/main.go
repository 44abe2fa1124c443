// Deblocking filter monitor (L01).
package main

import (
	"fmt"
	"os"

	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/shared"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	m "github.com/m4tthewde/gov1/internal/zzverif/model"
	v "github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

// frame is a frame with a counter of transform blocks.
type frame struct {
	*m.LfFrame
	ids int
}

type (
	blk = m.LfBlk
	tx  = m.LfTx
)

var sizes = [][2]int{{4, 4}, {4, 8}, {8, 4}, {8, 8}, {8, 16}, {16, 8}, {16, 16}, {16, 32}, {32, 16}, {32, 32}, {32, 64}, {64, 32}, {64, 64}, {64, 128}, {128, 64}, {128, 128}, {4, 16}, {16, 4}, {8, 32}, {32, 8}, {16, 64}, {64, 16}}

func sizeOf(w, h int) int {
	for i, s := range sizes {
		if s[0] == w && s[1] == h {
			return i
		}
	}
	panic(fmt.Sprint("no block of ", w, "x", h))
}

func txOf(w, h int) int {
	for i := range m.TxW {
		if 1<<uint(m.TxW[i]) == w && 1<<uint(m.TxH[i]) == h {
			return i
		}
	}
	return -1
}

func clip(lo, hi, x int) int {
	if x < lo {
		return lo
	}
	if x > hi {
		return hi
	}
	return x
}

// split divides a square into coded blocks the way partitions do.
func split(f *frame, r *v.RNG, x, y, n int) {
	if x >= f.MiCols*4 || y >= f.MiRows*4 {
		return
	}
	if n == 8 || !r.P(55) {
		k := r.N(10)
		if f.SubX > f.SubY && (k == 2 || k == 5) {
			k = 0 // 4:2:2 has no chroma blocks for those
		}
		half, q := n/2, n/4
		switch {
		case k == 1:
			put(f, r, x, y, n, half)
			put(f, r, x, y+half, n, half)
			return
		case k == 2:
			put(f, r, x, y, half, n)
			put(f, r, x+half, y, half, n)
			return
		case k == 3 && n == 8:
			for i := 0; i < 4; i++ {
				put(f, r, x+i%2*half, y+i/2*half, half, half)
			}
			return
		case k == 4 && n >= 16 && n <= 64:
			for i := 0; i < 4; i++ {
				put(f, r, x, y+i*q, n, q)
			}
			return
		case k == 5 && n >= 16 && n <= 64:
			for i := 0; i < 4; i++ {
				put(f, r, x+i*q, y, q, n)
			}
			return
		case k == 6 && n >= 16:
			put(f, r, x, y, half, half)
			put(f, r, x+half, y, half, half)
			put(f, r, x, y+half, n, half)
			return
		}
		put(f, r, x, y, n, n)
		return
	}
	for i := 0; i < 4; i++ {
		split(f, r, x+i%2*n/2, y+i/2*n/2, n/2)
	}
}

func put(f *frame, r *v.RNG, x, y, w, h int) {
	b := &blk{X: x, Y: y, W: w, H: h, Size: sizeOf(w, h), Skip: r.N(2), Seg: r.N(8)}
	if r.P(60) {
		b.Ref = r.In(1, 7)
		b.Mode = r.In(shared.NEARESTMV, 25)
		if r.P(30) {
			b.Mode = r.Pick(shared.GLOBALMV, shared.GLOBAL_GLOBALMV)
		}
	} else {
		b.Mode = r.N(13)
	}
	for i := range b.Delta {
		b.Delta[i] = r.In(-40, 40)
	}
	for j := y / 4; j < (y+h)/4 && j < len(f.At); j++ {
		for i := x / 4; i < (x+w)/4 && i < len(f.At[j]); i++ {
			f.At[j][i] = b
		}
	}
	for p := 0; p < f.Planes; p++ {
		sx, sy := f.Sub(p)
		pw, ph := w>>sx, h>>sy
		px, py := x>>sx, y>>sy
		if pw < 4 { // shared with the block to the left
			pw = 4
			px = px / 4 * 4
		}
		if ph < 4 {
			ph = 4
			py = py / 4 * 4
		}
		// transform blocks no larger than 64, evenly dividing the block
		tw, th := pw, ph
		for {
			ok := tw <= 64 && th <= 64 && txOf(tw, th) >= 0
			if ok && !(r.P(35) && tw*th > 16) {
				break
			}
			switch {
			case tw > th:
				tw /= 2
			case th > tw:
				th /= 2
			default:
				tw, th = tw/2, th/2
			}
		}
		for j := py; j < py+ph; j += th {
			for i := px; i < px+pw; i += tw {
				f.ids++
				t := &tx{f.ids, txOf(tw, th)}
				for jj := j / 4; jj < (j+th)/4 && jj < len(f.Tx[p]); jj++ {
					for ii := i / 4; ii < (i+tw)/4 && ii < len(f.Tx[p][jj]); ii++ {
						f.Tx[p][jj][ii] = t
					}
				}
			}
		}
	}
}

func draw(r *v.RNG) *frame {
	f := &frame{LfFrame: &m.LfFrame{Depth: r.Pick(8, 10, 12), Planes: 3}}
	f.W, f.H = r.In(1, 140), r.In(1, 140)
	f.MiCols, f.MiRows = 2*((f.W+7)/8), 2*((f.H+7)/8)
	switch r.N(6) {
	case 0:
		f.Planes, f.SubX, f.SubY = 1, 1, 1
	case 1, 2, 3:
		f.SubX, f.SubY = 1, 1
	case 4:
		f.SubX = 1
	}
	f.Cur = v.NewPicture(r, f.MiRows*4+64, f.MiCols*4+64, f.Depth)
	// deblocking looks for small steps between smooth areas
	for p := range f.Cur {
		if r.P(70) {
			top := 1<<uint(f.Depth) - 1
			base, amp, noise := r.In(top/4, 3*top/4), r.Pick(1, 2, 4, 8, 16)<<uint(f.Depth-8), r.Pick(0, 0, 1, 2, 5)
			cell := map[[2]int]int{}
			n := r.Pick(4, 8, 8, 16)
			for y := range f.Cur[p] {
				for x := range f.Cur[p][y] {
					k := [2]int{y / n, x / n}
					if _, ok := cell[k]; !ok {
						cell[k] = r.In(-amp, amp)
					}
					f.Cur[p][y][x] = clip(0, top, base+cell[k]+r.In(-noise, noise))
				}
			}
		}
	}
	f.At = make([][]*blk, f.MiRows)
	for i := range f.At {
		f.At[i] = make([]*blk, f.MiCols)
	}
	for p := 0; p < 3; p++ {
		sx, sy := f.Sub(p)
		f.Tx[p] = make([][]*tx, (f.MiRows>>sy)+1)
		for i := range f.Tx[p] {
			f.Tx[p][i] = make([]*tx, (f.MiCols>>sx)+1)
		}
	}
	sb := r.Pick(64, 128)
	for y := 0; y < f.MiRows*4; y += sb {
		for x := 0; x < f.MiCols*4; x += sb {
			split(f, r, x, y, sb)
		}
	}
	for i := range f.Level {
		f.Level[i] = r.Pick(0, r.N(64), r.N(64), 63)
	}
	f.Sharp = r.N(8)
	f.Multi = r.Bool()
	f.Deltas = r.Bool()
	for i := range f.RefDelta {
		f.RefDelta[i] = r.In(-63, 63)
		if r.P(60) {
			f.RefDelta[i] = r.In(-2, 2)
		}
	}
	f.ModeDelta[0], f.ModeDelta[1] = r.In(-20, 20), r.In(-20, 20)
	f.Seg = r.P(40)
	for s := range f.SegOn {
		for k := range f.SegOn[s] {
			f.SegOn[s][k] = r.N(2)
			f.SegVal[s][k] = r.In(-63, 63)
		}
	}
	return f
}

func main() {
	run := v.Start(os.Args[1])
	run.Rule = "a case is a frame divided into blocks and transform blocks with filter levels; every sample is compared with an independent deblocking that follows block and transform identities; distinct by content"
	run.Par("deblock", run.Scale(1200, 40000), func(i int, r *v.RNG) {
		f := draw(r)
		ev := map[string]int64{}
		want := f.Run(ev)
		st := &state.State{MiRows: f.MiRows, MiCols: f.MiCols}
		var sh sequenceheader.SequenceHeader
		sh.ColorConfig.BitDepth = f.Depth
		sh.ColorConfig.NumPlanes = f.Planes
		sh.ColorConfig.MonoChrome = f.Planes == 1
		sh.ColorConfig.SubsamplingX = f.SubX == 1
		sh.ColorConfig.SubsamplingY = f.SubY == 1
		var uh uncompressedheader.UncompressedHeader
		uh.FrameWidth, uh.UpscaledWidth, uh.FrameHeight = f.W, f.W, f.H
		uh.LoopFilterSharpness = f.Sharp
		uh.LoopFilterDeltaEnabled = f.Deltas
		for k := 0; k < 4; k++ {
			uh.LoopFilterLevel[k] = f.Level[k]
		}
		for k := 0; k < 8; k++ {
			uh.LoopFilterRefDeltas[k] = f.RefDelta[k]
		}
		uh.LoopFilterModeDeltas[0], uh.LoopFilterModeDeltas[1] = f.ModeDelta[0], f.ModeDelta[1]
		uh.SegmentationEnabled = f.Seg
		if f.Multi {
			uh.DeltaLfMulti = 1
		}
		for s := range f.SegOn {
			for k := range f.SegOn[s] {
				st.FeatureEnabled[s][k] = f.SegOn[s][k]
				st.FeatureData[s][k] = f.SegVal[s][k]
			}
		}
		st.CurrFrame = f.Cur.Copy()
		t := &tilegroup.TileGroup{}
		tilegroup.ZzAllocate(t, st)
		for y := range f.At {
			for x, b := range f.At[y] {
				st.MiSizes[y][x] = b.Size
				st.RefFrames[y][x] = [2]int{b.Ref, -1}
				st.DeltaLFs[y][x] = b.Delta
				t.Skips[y][x] = b.Skip
				t.YModes[y][x] = b.Mode
				t.SegmentIds[y][x] = b.Seg
			}
		}
		for p := 0; p < f.Planes; p++ {
			for y := range f.Tx[p] {
				for x, k := range f.Tx[p][y] {
					if k != nil {
						t.LoopFilterTxSizes[p][y][x] = k.Size
					}
				}
			}
		}
		where := fmt.Sprintf("%dx%d depth %d planes %d subsampling %d%d", f.W, f.H, f.Depth, f.Planes, f.SubX, f.SubY)
		repro := map[string]interface{}{"case": i, "frame": where, "levels": f.Level, "sharpness": f.Sharp}
		if p := v.Catch(func() { tilegroup.ZzDeblock(t, st, sh, uh) }); p != nil {
			run.Violation(fmt.Sprintf("%s: panic %v at %s", where, p.Value, p.Stack), repro)
			return
		}
		run.Eval(v.HashBytes([]byte(fmt.Sprint(where, f.Cur[0], f.Level))), true)
		for p := 0; p < f.Planes; p++ {
			if d := v.DiffGrid(st.CurrFrame[p], want[p], len(want[p]), len(want[p][0])); d != "" {
				run.Violation(fmt.Sprintf("%s: plane %d: %s", where, p, d), repro)
				return
			}
			ev["samples compared"] += int64(len(want[p]) * len(want[p][0]))
		}
		run.Events(ev)
		if run.WantSample() {
			run.Sample(map[string]interface{}{"case": where, "levels": f.Level})
		}
	})
	run.Finish()
}
