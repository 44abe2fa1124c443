// Intra prediction monitors: P01 (edge based predictors), P02 (palette and
// chroma from luma).
package main

import (
	"fmt"
	"os"

	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/zzverif/model"
	v "github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

type frame struct {
	sh         sequenceheader.SequenceHeader
	st         *state.State
	t          *tilegroup.TileGroup
	sx, sy     [3]int
	depth      int
	rows, cols int
	where      string
}

func newFrame(r *v.RNG) *frame {
	f := &frame{depth: r.Pick(8, 10, 12)}
	mono := r.P(10)
	switch r.N(3) {
	case 0:
		f.sx[1], f.sy[1] = 1, 1
	case 1:
		f.sx[1] = 1
	}
	f.sx[2], f.sy[2] = f.sx[1], f.sy[1]
	planes := 3
	if mono {
		planes = 1
	}
	f.rows, f.cols = 2*r.In(1, 24), 2*r.In(1, 24)
	f.st = &state.State{MiRows: f.rows, MiCols: f.cols}
	cc := &f.sh.ColorConfig
	cc.BitDepth, cc.NumPlanes, cc.MonoChrome = f.depth, planes, mono
	cc.SubsamplingX, cc.SubsamplingY = f.sx[1] == 1, f.sy[1] == 1
	f.st.CurrFrame = v.NewPicture(r, f.rows*4+128, f.cols*4+128, f.depth)
	f.t = &tilegroup.TileGroup{}
	tilegroup.ZzAllocate(f.t, f.st)
	f.where = fmt.Sprintf("%dx%d mi, depth %d, planes %d, subsampling %d%d", f.cols, f.rows, f.depth, planes, f.sx[1], f.sy[1])
	return f
}

// memory of the decoder persists between blocks: the edge buffers are not reset
func dirty(r *v.RNG, t *tilegroup.TileGroup) {
	n := len(t.AboveRow)
	for i := 0; i < 300; i++ {
		t.AboveRow[i], t.LeftCol[i] = r.N(5000), r.N(5000)
	}
	for i := 1; i < 20; i++ {
		t.AboveRow[n-i], t.LeftCol[n-i] = r.N(5000), r.N(5000)
	}
}

func intra(run *v.Run) {
	run.Rule = "a case is one transform block in a frame with neighbours, availability, mode and edge state; the whole plane is compared with an independent prediction; distinct by content"
	run.Par("intra", run.Scale(4000, 200000), func(i int, r *v.RNG) {
		f := newFrame(r)
		st, t := f.st, f.t
		f.sh.EnableIntraEdgeFilter = r.P(75)
		for y := range t.YModes {
			for x := range t.YModes[y] {
				t.YModes[y][x] = r.Pick(0, 1, 9, 10, 11, 12, r.N(13))
				t.UVModes[y][x] = r.Pick(0, 1, 9, 10, 11, 12, r.N(14))
				if r.P(15) {
					st.RefFrames[y][x][0] = r.N(8)
					t.YModes[y][x] = r.In(14, 25)
				}
			}
		}
		for k := 0; k < 8; k++ {
			plane := r.N(f.sh.ColorConfig.NumPlanes)
			sx, sy := f.sx[plane], f.sy[plane]
			kind := r.N(19)
			w, h := 1<<uint(model.TxW[kind]), 1<<uint(model.TxH[kind])
			st.MiRow, st.MiCol = r.N(f.rows), r.N(f.cols)
			x := st.MiCol>>uint(sx)*4 + 4*r.Pick(0, 0, r.N(16))
			y := st.MiRow>>uint(sy)*4 + 4*r.Pick(0, 0, r.N(16))
			maxX, maxY := f.cols*4>>uint(sx)-1, f.rows*4>>uint(sy)-1
			if x > maxX {
				x = st.MiCol >> uint(sx) * 4
			}
			if y > maxY {
				y = st.MiRow >> uint(sy) * 4
			}
			st.AvailU, st.AvailL = st.MiRow > 0 && r.P(85), st.MiCol > 0 && r.P(85)
			st.AvailUChroma = st.MiRow>>uint(sy) > 0 && r.P(85)
			st.AvailLChroma = st.MiCol>>uint(sx) > 0 && r.P(85)
			au, al := st.AvailU, st.AvailL
			if plane > 0 {
				au, al = st.AvailUChroma, st.AvailLChroma
			}
			q := model.IntraReq{Plane: plane, X: x, Y: y, W: w, H: h, Depth: f.depth, MaxX: maxX, MaxY: maxY, Filter: -1, EdgeFilter: f.sh.EnableIntraEdgeFilter}
			q.Above = au || y > st.MiRow>>uint(sy)*4
			q.Left = al || x > st.MiCol>>uint(sx)*4
			q.AboveRight, q.BelowLeft = q.Above && r.P(50), q.Left && r.P(50)
			q.Mode = r.N(13)
			if r.P(50) {
				q.Mode = r.In(1, 8)
			}
			t.UseFilterIntra = false
			t.FilterIntraMode = r.N(5)
			if r.P(12) && w <= 32 && h <= 32 {
				q.Mode = model.DC
				t.UseFilterIntra = true // the luma setting must not reach chroma
				if plane == 0 {
					q.Filter = t.FilterIntraMode
				}
			}
			t.AngleDeltaY, t.AngleDeltaUV = r.In(-3, 3), r.In(-3, 3)
			q.Delta = t.AngleDeltaY
			if plane > 0 {
				q.Delta = t.AngleDeltaUV
			}
			smooth := func(avail bool, row, col int) bool {
				if !avail {
					return false
				}
				m := t.YModes
				if plane > 0 {
					m = t.UVModes
					if st.RefFrames[row][col][0] > 0 {
						return false
					}
				}
				return m[row][col] >= 9 && m[row][col] <= 11
			}
			// the luma block that carries the chroma of the neighbour is the last one of its pair
			q.Smooth = smooth(au, st.MiRow&^sy-1, st.MiCol|sx) || smooth(al, st.MiRow|sy, st.MiCol&^sx-1)
			dirty(r, t)
			before := v.CopyGrid(st.CurrFrame[plane])
			var others [3][][]int
			for p := range others {
				if p != plane {
					others[p] = v.CopyGrid(st.CurrFrame[p])
				}
			}
			want := q.Predict(before)
			where := fmt.Sprintf("%s: %+v", f.where, q)
			repro := map[string]interface{}{"case": i, "block": k, "request": where, "row": st.MiRow, "col": st.MiCol}
			if p := v.Catch(func() {
				tilegroup.ZzPredictIntra(t, plane, x, y, q.Left, q.Above, q.AboveRight, q.BelowLeft, q.Mode, model.TxW[kind], model.TxH[kind], st, f.sh)
			}); p != nil {
				run.Violation(fmt.Sprintf("%s: panic %v at %s", where, p.Value, p.Stack), repro)
				return
			}
			for a := 0; a < h; a++ {
				copy(before[y+a][x:x+w], want[a])
			}
			if d := v.DiffGrid(st.CurrFrame[plane], before, len(before), len(before[0])); d != "" {
				run.Violation(fmt.Sprintf("%s: %s", where, d), repro)
				return
			}
			for p := range others {
				if others[p] != nil {
					if d := v.DiffGrid(st.CurrFrame[p], others[p], len(others[p]), len(others[p][0])); d != "" {
						run.Violation(fmt.Sprintf("%s: plane %d changed: %s", where, p, d), repro)
						return
					}
				}
			}
			run.Eval(v.HashBytes([]byte(fmt.Sprint(where, want))), q.Above || q.Left)
			ev := map[string]int64{fmt.Sprintf("mode %d", q.Mode): 1, fmt.Sprintf("%dx%d", w, h): 1, fmt.Sprintf("above %v left %v", q.Above, q.Left): 1}
			if q.Filter >= 0 {
				ev[fmt.Sprintf("recursive filter %d", q.Filter)]++
			}
			if q.Smooth {
				ev["smooth neighbour"]++
			}
			if x+w-1 > maxX || y+h-1 > maxY {
				ev["blocks across the frame edge"]++
			}
			run.Events(ev)
			if run.WantSample() {
				run.Sample(map[string]interface{}{"request": where})
			}
		}
	})
}

func palette(run *v.Run) {
	run.Rule = "a case is one transform block predicted from a palette or from luma; the whole plane is compared with the definition; distinct by content"
	run.Par("palette", run.Scale(2500, 100000), func(i int, r *v.RNG) {
		f := newFrame(r)
		st, t := f.st, f.t
		top := 1<<uint(f.depth) - 1
		plane := r.N(f.sh.ColorConfig.NumPlanes)
		sx, sy := f.sx[plane], f.sy[plane]
		kind := r.N(19)
		w, h := 1<<uint(model.TxW[kind]), 1<<uint(model.TxH[kind])
		st.MiRow, st.MiCol = r.N(f.rows), r.N(f.cols)
		offX, offY := 0, 0
		if w < 64 {
			offX = r.N((64-w)/4 + 1)
		}
		if h < 64 {
			offY = r.N((64-h)/4 + 1)
		}
		bx, by := st.MiCol>>uint(sx)*4, st.MiRow>>uint(sy)*4
		before := v.CopyGrid(st.CurrFrame[plane])
		luma := v.CopyGrid(st.CurrFrame[0])
		var call func()
		var where string
		n, m := r.In(2, 8), r.In(2, 8)
		mapY, mapUV := make([][]int, 128), make([][]int, 128)
		for y := range mapY {
			mapY[y], mapUV[y] = make([]int, 128), make([]int, 128)
			for x := range mapY[y] {
				mapY[y][x], mapUV[y][x] = r.N(n), r.N(m)
			}
		}
		var col [3][8]int
		for p := range col {
			for k := range col[p] {
				col[p][k] = r.N(top + 1)
			}
		}
		x, y := bx+4*offX, by+4*offY
		if plane == 0 || r.P(40) {
			tilegroup.ZzSetPalette(t, n, m, col, mapY, mapUV)
			pm := mapY
			if plane > 0 {
				pm = mapUV
			}
			for a := 0; a < h; a++ {
				for b := 0; b < w; b++ {
					before[y+a][x+b] = col[plane][pm[4*offY+a][4*offX+b]]
				}
			}
			call = func() { tilegroup.ZzPredictPalette(t, plane, x, y, offX, offY, kind, st) }
			where = fmt.Sprintf("%s: palette plane %d at %d,%d (%d,%d in the block) size %dx%d", f.where, plane, x, y, offX, offY, w, h)
			run.Event(fmt.Sprintf("palette, plane %d", plane))
		} else {
			if w > 32 || h > 32 {
				return
			}
			t.CflAlphaU, t.CflAlphaV = r.In(-16, 16), r.In(-16, 16)
			alpha := t.CflAlphaU
			if plane == 2 {
				alpha = t.CflAlphaV
			}
			x, y = bx, by
			// the luma of the block is known up to the edge of its last transform
			t.MaxLumaW, t.MaxLumaH = (x<<uint(sx))+4*r.In(1, 16), (y<<uint(sy))+4*r.In(1, 16)
			if sx == 1 && t.MaxLumaW-x<<1 < 8 {
				t.MaxLumaW += 4
			}
			sums := make([][]int, h)
			total := 0
			for a := range sums {
				sums[a] = make([]int, w)
				for b := range sums[a] {
					ly, lx := (y+a)<<uint(sy), (x+b)<<uint(sx)
					if e := t.MaxLumaH - 1 - sy; ly > e {
						ly = e
					}
					if e := t.MaxLumaW - 1 - sx; lx > e {
						lx = e
					}
					s := luma[ly][lx]
					cnt := 1
					if sx == 1 {
						s += luma[ly][lx+1]
						cnt *= 2
					}
					if sy == 1 {
						s += luma[ly+1][lx]
						cnt *= 2
						if sx == 1 {
							s += luma[ly+1][lx+1]
						}
					}
					sums[a][b] = s * 8 / cnt // mean in 1/8
					total += sums[a][b]
				}
			}
			mean := (2*total + w*h) / (2 * w * h)
			for a := range sums {
				for b := range sums[a] {
					d := alpha * (sums[a][b] - mean) // 1/64 in all
					if d < 0 {
						d = -((-d + 32) / 64)
					} else {
						d = (d + 32) / 64
					}
					val := before[y+a][x+b] + d
					if val < 0 {
						val = 0
						run.Event("chroma clipped")
					}
					if val > top {
						val = top
						run.Event("chroma clipped")
					}
					before[y+a][x+b] = val
				}
			}
			call = func() { tilegroup.ZzPredictCfl(t, plane, x, y, kind, f.sh, st) }
			where = fmt.Sprintf("%s: chroma from luma plane %d at %d,%d size %dx%d alpha %d luma ends %d,%d", f.where, plane, x, y, w, h, alpha, t.MaxLumaW, t.MaxLumaH)
			run.Event(fmt.Sprintf("chroma from luma, subsampling %d%d", sx, sy))
		}
		repro := map[string]interface{}{"case": i, "request": where}
		if p := v.Catch(call); p != nil {
			run.Violation(fmt.Sprintf("%s: panic %v at %s", where, p.Value, p.Stack), repro)
			return
		}
		if d := v.DiffGrid(st.CurrFrame[plane], before, len(before), len(before[0])); d != "" {
			run.Violation(fmt.Sprintf("%s: %s", where, d), repro)
			return
		}
		if plane > 0 {
			if d := v.DiffGrid(st.CurrFrame[0], luma, len(luma), len(luma[0])); d != "" {
				run.Violation(fmt.Sprintf("%s: luma changed: %s", where, d), repro)
				return
			}
		}
		run.Eval(v.HashBytes([]byte(fmt.Sprint(where, before[y]))), true)
		if run.WantSample() {
			run.Sample(map[string]interface{}{"request": where})
		}
	})
}

func main() {
	run := v.Start(os.Args[1])
	if os.Args[1] == "P01" {
		intra(run)
	} else {
		palette(run)
	}
	run.Finish()
}
