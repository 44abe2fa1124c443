package model

import "github.com/m4tthewde/gov1/internal/zzverif/vlib"

// Tiles is what tile_info() derives.
type Tiles struct {
	SbCols, SbRows       int
	ColStarts, RowStarts []int // in units of 4x4 samples, last one is the frame end
	Cols, Rows           int
	ColsLog2, RowsLog2   int
	Uniform              int
	ContextId            int
	SizeBytes            int // 0 when not coded
	Conforming           bool
}

func ceilDivPow(x, k int) int { return (x + (1 << uint(k)) - 1) >> uint(k) }

// atLeastLog2 is the smallest k with blk*2^k >= target.
func atLeastLog2(blk, target int) int {
	k := 0
	for blk*(1<<uint(k)) < target {
		k++
	}
	return k
}

func imin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func imax(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// GenTiles writes tile_info() for a frame of miCols x miRows.
func GenTiles(w *vlib.Writer, r *vlib.RNG, miCols, miRows int, sb128 int) *Tiles {
	return genTiles(w, r, miCols, miRows, sb128, 1)
}

// genTiles keeps all columns but the last at least so many superblocks wide.
func genTiles(w *vlib.Writer, r *vlib.RNG, miCols, miRows int, sb128, narrow int) *Tiles {
	t := &Tiles{Conforming: true}
	shift := 4 + sb128
	t.SbCols = ceilDivPow(miCols, shift)
	t.SbRows = ceilDivPow(miRows, shift)
	sbPx := shift + 2
	maxW := 4096 >> uint(sbPx)
	maxArea := (4096 * 2304) >> uint(2*sbPx)
	minLog2Cols := atLeastLog2(maxW, t.SbCols)
	maxLog2Cols := atLeastLog2(1, imin(t.SbCols, 64))
	maxLog2Rows := atLeastLog2(1, imin(t.SbRows, 64))
	minLog2Tiles := imax(minLog2Cols, atLeastLog2(maxArea, t.SbRows*t.SbCols))

	t.Uniform = w.F("uniform_tile_spacing_flag", 1, b2i(r.P(50)))
	if t.Uniform == 1 {
		inc := func(name string, from, to, least int) int {
			v := from
			p := r.Pick(0, 50, 80, 100)
			for v < to {
				if w.F(name, 1, b2i(r.P(p) && ceilDivPow(t.SbCols, v+1) >= least)) == 0 {
					break
				}
				v++
			}
			return v
		}
		t.ColsLog2 = inc("increment_tile_cols_log2", minLog2Cols, maxLog2Cols, narrow)
		tw := ceilDivPow(t.SbCols, t.ColsLog2)
		for x := 0; x < t.SbCols; x += tw {
			t.ColStarts = append(t.ColStarts, x<<uint(shift))
		}
		t.RowsLog2 = inc("increment_tile_rows_log2", imax(minLog2Tiles-t.ColsLog2, 0), maxLog2Rows, 0)
		th := ceilDivPow(t.SbRows, t.RowsLog2)
		for y := 0; y < t.SbRows; y += th {
			t.RowStarts = append(t.RowStarts, y<<uint(shift))
		}
	} else {
		split := func(name string, total, maxSize, least int) ([]int, int) {
			starts := []int{}
			widest := 0
			style := r.N(4)
			for x := 0; x < total; {
				lim := imin(total-x, maxSize)
				size := 1 + r.N(lim)
				switch style {
				case 0:
					size = lim
				case 1:
					size = 1 + r.N(imin(lim, 3))
				}
				// no more than 64 tiles in a dimension
				left := 64 - len(starts) - 1
				if need := total - x - left*maxSize; size < need {
					size = imin(need, lim)
				}
				size = imin(imax(size, least), lim)
				w.Ns(name, lim, size-1)
				starts = append(starts, x<<uint(shift))
				widest = imax(widest, size)
				x += size
			}
			return starts, widest
		}
		var widest int
		t.ColStarts, widest = split("width_in_sbs_minus_1", t.SbCols, maxW, narrow)
		t.ColsLog2 = atLeastLog2(1, len(t.ColStarts))
		area := t.SbRows * t.SbCols
		if minLog2Tiles > 0 {
			area >>= uint(minLog2Tiles + 1)
		}
		maxH := imax(area/widest, 1)
		t.RowStarts, _ = split("height_in_sbs_minus_1", t.SbRows, maxH, 1)
		t.RowsLog2 = atLeastLog2(1, len(t.RowStarts))
	}
	t.Cols, t.Rows = len(t.ColStarts), len(t.RowStarts)
	t.ColStarts = append(t.ColStarts, miCols)
	t.RowStarts = append(t.RowStarts, miRows)
	if t.Cols > 64 || t.Rows > 64 {
		t.Conforming = false
	}
	if t.ColsLog2 > 0 || t.RowsLog2 > 0 {
		t.ContextId = w.F("context_update_tile_id", t.ColsLog2+t.RowsLog2, r.N(t.Cols*t.Rows))
		t.SizeBytes = w.F("tile_size_bytes_minus_1", 2, r.Bits(2)) + 1
	}
	return t
}
