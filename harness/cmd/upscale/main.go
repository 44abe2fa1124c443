// Super-resolution monitor (L04).
package main

import (
	"fmt"
	"os"

	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	m "github.com/m4tthewde/gov1/internal/zzverif/model"
	v "github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

func main() {
	run := v.Start(os.Args[1])
	run.Rule = "a case is a frame with coded and upscaled width; every sample of the upscaled frame is compared with an independent interpolation; the filter table is pinned and checked for sum and symmetry; distinct by content"
	f := tilegroup.UPSCALE_FILTER
	run.Golden("upscale", map[string]interface{}{"UPSCALE_FILTER": f})
	for i := 0; i < 64; i++ {
		sum := 0
		for k := 0; k < 8; k++ {
			sum += f[i][k]
			if i > 0 && f[i][k] != f[64-i][7-k] {
				run.Violation(fmt.Sprintf("upscale filters %d and %d do not mirror each other", i, 64-i), nil)
			}
		}
		if sum != 128 {
			run.Violation(fmt.Sprintf("upscale filter %d sums to %d", i, sum), nil)
		}
	}
	run.Par("upscale", run.Scale(900, 30000), func(i int, r *v.RNG) {
		depth := r.Pick(8, 10, 12)
		up := r.In(16, 260)
		h := r.In(1, 40)
		denom := 8
		if r.P(85) {
			denom = r.In(9, 16)
		}
		w := (up*8 + denom/2) / denom
		planes, sx, sy := 3, 0, 0
		switch r.N(4) {
		case 0:
			planes, sx, sy = 1, 1, 1
		case 1:
			sx, sy = 1, 1
		case 2:
			sx = 1
		}
		st := &state.State{MiRows: 2 * ((h + 7) / 8), MiCols: 2 * ((w + 7) / 8)}
		var sh sequenceheader.SequenceHeader
		sh.ColorConfig.BitDepth = depth
		sh.ColorConfig.NumPlanes = planes
		sh.ColorConfig.MonoChrome = planes == 1
		sh.ColorConfig.SubsamplingX = sx == 1
		sh.ColorConfig.SubsamplingY = sy == 1
		var uh uncompressedheader.UncompressedHeader
		uh.FrameWidth, uh.UpscaledWidth, uh.FrameHeight = w, up, h
		uh.UseSuperRes = denom != 8
		uh.SuperResDenom = denom
		in := v.NewPicture(r, st.MiRows*4+40, st.MiCols*4+160, depth)
		if r.P(30) { // the filter overshoots most at sharp edges
			top := 1<<uint(depth) - 1
			for p := range in {
				for y := range in[p] {
					for x := range in[p][y] {
						in[p][y][x] = r.Pick(0, top)
					}
				}
			}
		}
		keep := in.Copy()
		where := fmt.Sprintf("%d->%dx%d depth %d planes %d subsampling %d%d", w, up, h, depth, planes, sx, sy)
		repro := map[string]interface{}{"case": i, "frame": where}
		var out [3][][]int
		t := &tilegroup.TileGroup{}
		if p := v.Catch(func() { out = tilegroup.ZzUpscale(t, in, st, sh, uh) }); p != nil {
			run.Violation(fmt.Sprintf("%s: panic %v at %s", where, p.Value, p.Stack), repro)
			return
		}
		run.Eval(v.HashBytes([]byte(fmt.Sprint(where, in[0]))), denom != 8)
		ev := map[string]int64{fmt.Sprintf("denominator %d", denom): 1}
		for p := 0; p < planes; p++ {
			a, b, hh, mi := w, up, h, st.MiCols*4
			if p > 0 {
				a, b, hh, mi = (w+sx)>>uint(sx), (up+sx)>>uint(sx), (h+sy)>>uint(sy), mi>>uint(sx)
			}
			want := m.Upscale(keep[p], f, a, b, hh, mi, denom == 8, depth, ev)
			if d := v.DiffGrid(out[p], want, hh, b); d != "" {
				run.Violation(fmt.Sprintf("%s: plane %d: %s", where, p, d), repro)
				return
			}
			if d := v.DiffGrid(in[p], keep[p], len(keep[p]), len(keep[p][0])); d != "" {
				run.Violation(fmt.Sprintf("%s: the input changed, plane %d: %s", where, p, d), repro)
				return
			}
			ev["samples compared"] += int64(hh * b)
		}
		run.Events(ev)
		if run.WantSample() {
			run.Sample(map[string]interface{}{"case": where})
		}
	})
	run.Finish()
}
