// Loop restoration monitor (L03).
package main

import (
	"fmt"
	"os"

	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	m "github.com/m4tthewde/gov1/internal/zzverif/model"
	v "github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

func clip(lo, hi, x int) int {
	if x < lo {
		return lo
	}
	if x > hi {
		return hi
	}
	return x
}

func drawUnit(r *v.RNG, kinds []int, p int) m.LrUnit {
	u := m.LrUnit{Kind: kinds[r.N(len(kinds))], Set: r.N(16)}
	lo, hi := [3]int{-5, -23, -17}, [3]int{10, 8, 46}
	for k := 0; k < 2; k++ {
		for i := 0; i < 3; i++ {
			u.Wie[k][i] = r.Pick(r.In(lo[i], hi[i]), r.In(lo[i], hi[i]), lo[i], hi[i])
		}
		if p > 0 {
			u.Wie[k][0] = 0
		}
	}
	u.Xqd[0], u.Xqd[1] = r.In(-96, 31), r.In(-32, 95)
	if m.LrSets[u.Set][0] == 0 {
		u.Xqd[0] = 0
	} else if m.LrSets[u.Set][2] == 0 {
		u.Xqd[1] = clip(-32, 95, 128-u.Xqd[0])
	}
	return u
}

func draw(r *v.RNG) *m.LrFrame {
	f := &m.LrFrame{Depth: r.Pick(8, 10, 12), Planes: 3}
	f.W, f.H = r.In(1, 110), r.In(1, 150)
	if r.P(25) {
		f.W = r.In(100, 220)
		f.H = r.In(1, 60)
	}
	switch r.N(5) {
	case 0:
		f.Planes, f.SubX, f.SubY = 1, 1, 1
	case 1, 2:
		f.SubX, f.SubY = 1, 1
	case 3:
		f.SubX = 1
	}
	f.Size[0] = r.Pick(64, 64, 128, 256)
	f.Size[1] = f.Size[0]
	if f.SubX == 1 && f.SubY == 1 && f.Size[0] > 64 && r.Bool() {
		f.Size[1] /= 2
	}
	f.Size[2] = f.Size[1]
	f.Deblocked = v.NewPicture(r, f.H+80, f.W+80, f.Depth)
	f.Cdef = f.Deblocked.Copy()
	top := 1<<uint(f.Depth) - 1
	amp := r.Pick(0, 1, 8, top)
	for p := range f.Cdef {
		for y := range f.Cdef[p] {
			for x := range f.Cdef[p][y] {
				if r.P(40) {
					f.Cdef[p][y][x] = clip(0, top, f.Cdef[p][y][x]+r.In(-amp, amp))
				}
			}
		}
	}
	for p := 0; p < f.Planes; p++ {
		f.LrType[p] = r.Pick(0, 1, 2, 3, 3, 2)
		kinds := [][]int{{m.LrNone}, {m.LrNone, m.LrWiener, m.LrWiener}, {m.LrNone, m.LrSgr, m.LrSgr}, {m.LrNone, m.LrWiener, m.LrSgr}}[f.LrType[p]]
		h, w, _, _ := f.Dims(p)
		for y := 0; y < m.LrCount(f.Size[p], h); y++ {
			row := []m.LrUnit{}
			for x := 0; x < m.LrCount(f.Size[p], w); x++ {
				row = append(row, drawUnit(r, kinds, p))
			}
			f.Units[p] = append(f.Units[p], row)
		}
	}
	return f
}

func main() {
	run := v.Start(os.Args[1])
	run.Rule = "a case is a frame before and after CDEF with restoration units; every sample of the restored frame is compared with an independent filter that works sample by sample; distinct by content"
	run.Par("restore", run.Scale(1500, 8000), func(i int, r *v.RNG) {
		f := draw(r)
		ev := map[string]int64{}
		want := f.Run(ev)
		st := &state.State{MiRows: 2 * ((f.H + 7) / 8), MiCols: 2 * ((f.W + 7) / 8)}
		var sh sequenceheader.SequenceHeader
		sh.ColorConfig.BitDepth = f.Depth
		sh.ColorConfig.NumPlanes = f.Planes
		sh.ColorConfig.MonoChrome = f.Planes == 1
		sh.ColorConfig.SubsamplingX = f.SubX == 1
		sh.ColorConfig.SubsamplingY = f.SubY == 1
		var uh uncompressedheader.UncompressedHeader
		uh.FrameWidth, uh.UpscaledWidth, uh.FrameHeight = f.W, f.W, f.H
		uh.UsesLr = f.LrType != [3]int{}
		// with super-resolution the coded width is smaller and must not matter here
		if r.P(30) {
			uh.FrameWidth = (f.W*8 + 6) / 12
			uh.UseSuperRes = true
		}
		t := &tilegroup.TileGroup{}
		setUnits(t, st, &uh, f)
		st.UpscaledCurrFrame = v.Picture(f.Deblocked).Copy()
		st.UpscaledCdefFrame = v.Picture(f.Cdef).Copy()
		where := fmt.Sprintf("%dx%d depth %d planes %d subsampling %d%d types %v sizes %v", f.W, f.H, f.Depth, f.Planes, f.SubX, f.SubY, f.LrType, f.Size)
		repro := map[string]interface{}{"case": i, "frame": where}
		if p := v.Catch(func() { tilegroup.ZzRestore(t, st, sh, uh) }); p != nil {
			run.Violation(fmt.Sprintf("%s: panic %v at %s", where, p.Value, p.Stack), repro)
			return
		}
		run.Eval(v.HashBytes([]byte(fmt.Sprint(where, f.Units))), uh.UsesLr)
		for p := 0; p < f.Planes; p++ {
			h, w, _, _ := f.Dims(p)
			if d := v.DiffGrid(st.LrFrame[p], want[p], h, w); d != "" {
				run.Violation(fmt.Sprintf("%s: plane %d: %s", where, p, d), repro)
				return
			}
			for k, g := range [][2]v.Picture{{st.UpscaledCurrFrame, f.Deblocked}, {st.UpscaledCdefFrame, f.Cdef}} {
				if d := v.DiffGrid(g[0][p], g[1][p], len(g[1][p]), len(g[1][p][0])); d != "" {
					run.Violation(fmt.Sprintf("%s: input %d changed, plane %d: %s", where, k, p, d), repro)
					return
				}
			}
			ev["samples compared"] += int64(h * w)
		}
		run.Events(ev)
		if run.WantSample() {
			run.Sample(map[string]interface{}{"case": where})
		}
	})
	run.Finish()
}

// setUnits hands the unit parameters to the filter.
func setUnits(t *tilegroup.TileGroup, st *state.State, uh *uncompressedheader.UncompressedHeader, f *m.LrFrame) {
	st.FrameRestorationType = nil
	for p := 0; p < 3; p++ {
		uh.FrameRestorationType[p] = f.LrType[p]
		st.LoopRestorationSize[p] = f.Size[p]
		n, m := len(f.Units[p]), 0
		if n > 0 {
			m = len(f.Units[p][0])
		}
		t.LrType[p] = make([][]int, n)
		t.LrSgrSet[p] = make([][]int, n)
		t.LrSgrXqd[p] = make([][][2]int, n)
		t.LrWiener[p] = make([][][2][3]int, n)
		for y := 0; y < n; y++ {
			t.LrType[p][y] = make([]int, m)
			t.LrSgrSet[p][y] = make([]int, m)
			t.LrSgrXqd[p][y] = make([][2]int, m)
			t.LrWiener[p][y] = make([][2][3]int, m)
			for x, u := range f.Units[p][y] {
				t.LrType[p][y][x] = u.Kind
				t.LrSgrSet[p][y][x] = u.Set
				t.LrSgrXqd[p][y][x] = u.Xqd
				t.LrWiener[p][y][x] = u.Wie
			}
		}
	}
}
