// Directional enhancement filter monitor (L02).
package main

import (
	"fmt"
	"os"

	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	m "github.com/m4tthewde/gov1/internal/zzverif/model"
	v "github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

func draw(r *v.RNG) *m.CdefFrame {
	f := &m.CdefFrame{Depth: r.Pick(8, 10, 12), Planes: 3}
	f.W, f.H = r.In(1, 150), r.In(1, 150)
	f.MiCols, f.MiRows = 2*((f.W+7)/8), 2*((f.H+7)/8)
	switch r.N(6) {
	case 0:
		f.Planes = 1
		f.SubX, f.SubY = 1, 1
	case 1, 2:
		f.SubX, f.SubY = 1, 1
	case 3:
		f.SubX = 1
	case 4:
		f.SubY = 1 // not a format AV1 has, but the tables cover it
		f.SubY = 0
	}
	f.Cur = v.NewPicture(r, f.MiRows*4, f.MiCols*4, f.Depth)
	sk := r.Pick(0, 10, 50, 90, 100)
	for y := 0; y < f.MiRows; y++ {
		row := make([]int, f.MiCols)
		for x := range row {
			if r.P(sk) {
				row[x] = 1
			}
		}
		f.Skip = append(f.Skip, row)
	}
	n := 1 << uint(r.N(4))
	for y := 0; y < f.MiRows; y += 16 {
		row := []int{}
		for x := 0; x < f.MiCols; x += 16 {
			k := r.N(n)
			if r.P(15) {
				k = -1
			}
			row = append(row, k)
		}
		f.Idx = append(f.Idx, row)
	}
	f.Damping = r.In(3, 6)
	for p := 0; p < 2; p++ {
		for i := range f.Pri[p] {
			f.Pri[p][i] = r.Pick(0, r.N(16), r.N(16), r.N(16))
			f.Sec[p][i] = r.Pick(0, 1, 2, 4)
		}
	}
	return f
}

func main() {
	run := v.Start(os.Args[1])
	run.Rule = "a case is a frame with its skip flags, filter indices and strengths; every sample of the filtered frame is compared with an independent filter; distinct by content"
	run.Par("cdef", run.Scale(4000, 60000), func(i int, r *v.RNG) {
		f := draw(r)
		ev := map[string]int64{}
		want := f.Run(ev)
		st := &state.State{MiRows: f.MiRows, MiCols: f.MiCols}
		var sh sequenceheader.SequenceHeader
		sh.ColorConfig.BitDepth = f.Depth
		sh.ColorConfig.NumPlanes = f.Planes
		sh.ColorConfig.MonoChrome = f.Planes == 1
		sh.ColorConfig.SubsamplingX = f.SubX == 1
		sh.ColorConfig.SubsamplingY = f.SubY == 1
		var uh uncompressedheader.UncompressedHeader
		uh.FrameWidth, uh.UpscaledWidth, uh.FrameHeight = f.W, f.W, f.H
		uh.CdefDampening = f.Damping
		uh.CdefYPriStrength, uh.CdefYSecStrength = make([]int, 8), make([]int, 8)
		uh.CdefUVPriStrength, uh.CdefUVSecStrength = make([]int, 8), make([]int, 8)
		for k := 0; k < 8; k++ {
			uh.CdefYPriStrength[k], uh.CdefYSecStrength[k] = f.Pri[0][k], f.Sec[0][k]
			uh.CdefUVPriStrength[k], uh.CdefUVSecStrength[k] = f.Pri[1][k], f.Sec[1][k]
		}
		const pad = 72
		st.CurrFrame = v.Filled(f.MiRows*4+pad, f.MiCols*4+pad, 1)
		for p := range f.Cur {
			for y := range f.Cur[p] {
				copy(st.CurrFrame[p][y], f.Cur[p][y])
			}
		}
		before := v.Picture(st.CurrFrame).Copy()
		st.CdefFrame = v.Filled(f.MiRows*4+pad, f.MiCols*4+pad, 3)
		st.Cdef.CdefIdx = make([][]int, f.MiRows+32)
		for y := range st.Cdef.CdefIdx {
			st.Cdef.CdefIdx[y] = make([]int, f.MiCols+32)
			for x := range st.Cdef.CdefIdx[y] {
				st.Cdef.CdefIdx[y][x] = r.In(-1, 7) // only the 64x64 corners count
				if y < f.MiRows && x < f.MiCols && y%16 == 0 && x%16 == 0 {
					st.Cdef.CdefIdx[y][x] = f.Idx[y/16][x/16]
				}
			}
		}
		t := &tilegroup.TileGroup{}
		t.Skips = v.CopyGrid(f.Skip)
		where := fmt.Sprintf("%dx%d depth %d planes %d subsampling %d%d", f.W, f.H, f.Depth, f.Planes, f.SubX, f.SubY)
		repro := map[string]interface{}{"case": i, "frame": where, "damping": f.Damping, "primary": f.Pri, "secondary": f.Sec}
		if p := v.Catch(func() { tilegroup.ZzCdef(t, st, sh, uh) }); p != nil {
			run.Violation(fmt.Sprintf("%s: panic %v at %s", where, p.Value, p.Stack), repro)
			return
		}
		run.Eval(v.HashBytes([]byte(fmt.Sprint(where, f.Cur[0], f.Pri))), true)
		for p := 0; p < f.Planes; p++ {
			H, W := f.MiRows*4, f.MiCols*4
			if p > 0 {
				H, W = H>>uint(f.SubY), W>>uint(f.SubX)
			}
			if d := v.DiffGrid(st.CdefFrame[p], want[p], H, W); d != "" {
				run.Violation(fmt.Sprintf("%s: plane %d: %s", where, p, d), repro)
				return
			}
			if d := v.DiffGrid(st.CurrFrame[p], before[p], len(before[p]), len(before[p][0])); d != "" {
				run.Violation(fmt.Sprintf("%s: the unfiltered frame changed, plane %d: %s", where, p, d), repro)
				return
			}
			ev["samples compared"] += int64(H * W)
		}
		run.Events(ev)
		if run.WantSample() {
			run.Sample(map[string]interface{}{"case": where, "damping": f.Damping})
		}
	})
	run.Finish()
}
