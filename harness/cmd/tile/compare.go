package main

import (
	"fmt"

	"github.com/m4tthewde/gov1/internal/zzverif/model"
	v "github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

type comparer func(f *frame) string

type property struct {
	quick, thorough int
	bias            bias
	rule            string
	compare         []comparer
}

const rule = "a case is one tile of an intra frame with random headers, probabilities and surroundings, generated symbol by symbol and encoded; distinct by tile data; "

const interRule = "a case is one tile of an inter frame (or of an intra frame with block copies) with random headers, probabilities, references and surroundings, generated symbol by symbol and encoded; distinct by tile data; "

var props = map[string]property{
	"V02": {4000, 60000, bias{skip: 100, partition: true}, rule + "compared: block sizes and symbols", []comparer{comparePartition}},
	"V03": {4000, 60000, bias{skip: -1, modes: true, deltas: true, small: true}, rule + "compared: modes, skip flags, CDEF indices, deltas", []comparer{compareModes}},
	"V04": {4000, 60000, bias{skip: -1, seg: true, small: true}, rule + "compared: segments", []comparer{compareSegments}},
	"V05": {4000, 60000, bias{skip: 100, palette: true, small: true}, rule + "compared: palettes and painted samples", []comparer{comparePalettes, comparePixels}},
	"V06": {4000, 60000, bias{skip: 100, tx: true}, rule + "compared: transform sizes", []comparer{compareTx}},
	"V07": {4000, 60000, bias{skip: -1, pixels: true}, rule + "compared: everything, with all samples", []comparer{comparePartition, compareModes, compareSegments, comparePalettes, compareTx, compareTypes, compareLr, comparePixels}},
	"T03": {4000, 60000, bias{skip: 0, coefs: true, small: true}, rule + "compared: reconstructed samples, probabilities", []comparer{comparePixels}},
	"T04": {4000, 60000, bias{skip: 0, txType: true, small: true}, rule + "compared: transform types", []comparer{compareTypes}},
	"N03": {3000, 40000, bias{skip: -1, inter: 75, copies: 25}, interRule + "compared: modes, motion vectors, probabilities", []comparer{compareInter}},
	"N04": {3000, 40000, bias{skip: -1, inter: 100}, interRule + "compared: references, skip modes, probabilities", []comparer{compareModes}},
	"N05": {3000, 40000, bias{skip: 90, inter: 100}, interRule + "compared: filters, kinds of prediction, samples, probabilities", []comparer{compareKinds, comparePixels}},
	"N06": {3000, 40000, bias{skip: -1, seg: true, inter: 100}, interRule + "compared: segments, probabilities", []comparer{compareSegments}},
	"T05": {3000, 40000, bias{skip: 10, tx: true, inter: 85, copies: 15}, interRule + "compared: transform sizes and types, probabilities", []comparer{compareTx, compareTypes}},
	"V08": {3000, 40000, bias{skip: -1, inter: 85, copies: 15}, interRule + "compared: everything, with all samples", []comparer{comparePartition, compareModes, compareInter, compareKinds, compareSegments, comparePalettes, compareTx, compareTypes, compareLr, comparePixels}},
	"L05": {4000, 60000, bias{skip: 100, lr: true}, rule + "compared: parameters of all restoration units", []comparer{compareLr}},
}

// compareSync: after the last symbol the decoder must be where the coder is.
func compareSync(f *frame) string {
	if got, want := f.st.SymbolRange, f.m.K.E.Range(); got != want {
		return fmt.Sprintf("the symbol range after the tile is %d, want %d", got, want)
	}
	if d := model.DiffCdfs(f.st, "Tile", f.m.S); d != "" {
		return "probabilities after the tile: " + v.Cut(d, 300)
	}
	return ""
}

func (f *frame) inTile(r, c int) bool {
	return r >= f.c.R0 && r < f.c.R1 && c >= f.c.C0 && c < f.c.C1
}

// grid compares mode info of the whole frame; what lies outside the tile must be
// as before.
func (f *frame) grid(name string, got, before [][]int, want func(b *model.Blk) (int, bool)) string {
	for r := 0; r < f.c.Rows; r++ {
		for c := 0; c < f.c.Cols; c++ {
			x := before[r][c]
			if f.inTile(r, c) {
				var ok bool
				if x, ok = want(f.m.Grid[r][c]); !ok {
					continue
				}
			}
			if got[r][c] != x {
				b := f.m.Grid[r][c]
				return fmt.Sprintf("%s at row %d column %d is %d, want %d (%s)", name, r, c, got[r][c], x, show(b))
			}
		}
	}
	return ""
}

func show(b *model.Blk) string {
	if b == nil {
		return "outside the tile"
	}
	return fmt.Sprintf("%dx%d block at row %d column %d", b.W, b.H, b.R, b.C)
}

func first(d ...string) string {
	for _, x := range d {
		if x != "" {
			return x
		}
	}
	return ""
}

func num(x int) (int, bool) { return x, true }

func comparePartition(f *frame) string {
	return f.grid("block size", f.st.MiSizes, f.before.sizes, func(b *model.Blk) (int, bool) { return num(b.Size) })
}

func compareModes(f *frame) string {
	t, b := f.t, &f.before
	d := first(
		f.grid("skip flag", t.Skips, b.skips, func(b *model.Blk) (int, bool) { return num(bit(b.Skip)) }),
		f.grid("skip mode", t.SkipModes, b.skipModes, func(b *model.Blk) (int, bool) { return num(bit(b.SkipMode)) }),
		f.grid("is_inter", t.IsInters, b.inters, func(b *model.Blk) (int, bool) { return num(bit(b.Inter)) }),
		f.grid("luma mode", t.YModes, b.yModes, func(b *model.Blk) (int, bool) { return num(b.YMode) }),
		f.grid("chroma mode", t.UVModes, b.uvModes, func(b *model.Blk) (int, bool) { return b.UVMode, b.Chroma && b.Ref[0] == 0 }))
	if d != "" {
		return d
	}
	for r := 0; r < f.c.Rows; r++ {
		for c := 0; c < f.c.Cols; c++ {
			refs, deltas := b.refs[r][c], b.deltas[r][c]
			blk := f.m.Grid[r][c]
			if f.inTile(r, c) {
				refs, deltas = blk.Ref, blk.DeltaLF
			}
			if got := f.st.RefFrames[r][c]; got != refs {
				return fmt.Sprintf("reference frames at row %d column %d are %v, want %v (%s)", r, c, got, refs, show(blk))
			}
			if got := f.st.DeltaLFs[r][c]; got != deltas {
				return fmt.Sprintf("loop filter deltas at row %d column %d are %v, want %v (%s)", r, c, got, deltas, show(blk))
			}
			if r%16 == 0 && c%16 == 0 && f.inTile(r, c) {
				if got, want := f.st.Cdef.CdefIdx[r][c], f.m.Cdefs[r][c]; got != want {
					return fmt.Sprintf("CDEF index at row %d column %d is %d, want %d", r, c, got, want)
				}
			}
		}
	}
	if got := f.st.CurrentQIndex; got != f.m.QIdx {
		return fmt.Sprintf("quantiser index after the tile is %d, want %d", got, f.m.QIdx)
	}
	return ""
}

func compareSegments(f *frame) string {
	return f.grid("segment", f.t.SegmentIds, f.before.segs, func(b *model.Blk) (int, bool) { return num(b.Seg) })
}

func comparePalettes(f *frame) string {
	t := f.t
	d := first(
		f.grid("luma palette size", t.PaletteSizes[0], f.before.palY, func(b *model.Blk) (int, bool) { return num(len(b.Pal[0])) }),
		f.grid("chroma palette size", t.PaletteSizes[1], f.before.palUV, func(b *model.Blk) (int, bool) { return num(len(b.Pal[1])) }))
	if d != "" {
		return d
	}
	for r := f.c.R0; r < f.c.R1; r++ {
		for c := f.c.C0; c < f.c.C1; c++ {
			b := f.m.Grid[r][c]
			for p, pal := range b.Pal {
				for i, x := range pal {
					if got := t.PaletteColors[p][r][c][i]; got != x {
						return fmt.Sprintf("colour %d of plane %d at row %d column %d is %d, want %d of %v (%s)", i, p, r, c, got, x, pal, show(b))
					}
				}
			}
		}
	}
	return ""
}

func compareTx(f *frame) string {
	t := f.t
	d := first(
		f.grid("transform size", t.TxSizes, f.before.tx, func(b *model.Blk) (int, bool) { return b.Tx, !b.Inter }),
		f.grid("transform size for contexts", t.InterTxSizes, f.before.interTx, func(b *model.Blk) (int, bool) { return f.m.InterTx[b.R][b.C], !b.Inter }))
	if d != "" {
		return d
	}
	for r := f.c.R0; r < f.c.R1; r++ {
		for c := f.c.C0; c < f.c.C1; c++ {
			if b := f.m.Grid[r][c]; b.Inter && t.InterTxSizes[r][c] != f.m.InterTx[r][c] {
				return fmt.Sprintf("transform size for contexts at row %d column %d is %d, want %d (%s)", r, c, t.InterTxSizes[r][c], f.m.InterTx[r][c], show(b))
			}
		}
	}
	for p := 0; p < f.c.Planes; p++ {
		sx, sy := 0, 0
		if p > 0 {
			sx, sy = f.c.SX, f.c.SY
		}
		for r := 0; r < f.c.Rows>>uint(sy); r++ {
			for c := 0; c < f.c.Cols>>uint(sx); c++ {
				want := f.before.lfTx[p][r][c]
				if f.inTile(r<<uint(sy), c<<uint(sx)) {
					want = f.m.LfTx[p][r][c]
				}
				if got := t.LoopFilterTxSizes[p][r][c]; got != want && want >= 0 {
					return fmt.Sprintf("transform size of plane %d at row %d column %d (4x4 units) is %d, want %d", p, r, c, got, want)
				}
			}
		}
	}
	return ""
}

func compareTypes(f *frame) string {
	for r := f.c.R0; r < f.c.R1; r++ {
		for c := f.c.C0; c < f.c.C1; c++ {
			if got, want := f.t.TxTypes[r][c], f.m.TxTypes[r][c]; want >= 0 && got != want {
				return fmt.Sprintf("transform type at row %d column %d is %d, want %d (%s)", r, c, got, want, show(f.m.Grid[r][c]))
			}
		}
	}
	return ""
}

func compareLr(f *frame) string {
	t, m := f.t, f.m
	for p := 0; p < f.c.Planes; p++ {
		for i := range m.LrKind[p] {
			for j, kind := range m.LrKind[p][i] {
				unit := fmt.Sprintf("restoration unit %d,%d of plane %d", i, j, p)
				got := t.LrType[p][i][j]
				if kind < 0 {
					kind = f.before.lrType[p][i][j]
					if set := f.before.lrSet[p][i][j]; t.LrSgrSet[p][i][j] != set {
						return unit + " was changed by another tile"
					}
				}
				if got != kind {
					return fmt.Sprintf("type of %s is %d, want %d", unit, got, kind)
				}
				switch m.LrKind[p][i][j] {
				case 1:
					if got, want := t.LrWiener[p][i][j], m.LrTaps[p][i][j]; got != want {
						return fmt.Sprintf("filter of %s is %v, want %v", unit, got, want)
					}
				case 2:
					if got, want := t.LrSgrSet[p][i][j], m.LrSet[p][i][j]; got != want {
						return fmt.Sprintf("parameter set of %s is %d, want %d", unit, got, want)
					}
					if got, want := t.LrSgrXqd[p][i][j], m.LrXqd[p][i][j]; got != want {
						return fmt.Sprintf("weights of %s are %v, want %v", unit, got, want)
					}
				}
			}
		}
	}
	return ""
}

func comparePixels(f *frame) string {
	for p := 0; p < f.c.Planes; p++ {
		sx, sy := 0, 0
		if p > 0 {
			sx, sy = f.c.SX, f.c.SY
		}
		h, w := f.c.Rows*4>>uint(sy), f.c.Cols*4>>uint(sx)
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				if got, want := f.st.CurrFrame[p][y][x], f.m.Cur[p][y][x]; got != want {
					return fmt.Sprintf("sample %d,%d of plane %d is %d, want %d (%s)", x, y, p, got, want, show(f.m.Grid[y<<uint(sy)>>2][x<<uint(sx)>>2]))
				}
			}
		}
	}
	return ""
}

// compareInter compares how inter blocks are predicted.
func compareInter(f *frame) string {
	t := f.t
	d := first(
		f.grid("is_inter", t.IsInters, f.before.inters, func(b *model.Blk) (int, bool) { return num(bit(b.Inter)) }),
		f.grid("mode", t.YModes, f.before.yModes, func(b *model.Blk) (int, bool) { return num(b.YMode) }))
	if d != "" {
		return d
	}
	for r := f.c.R0; r < f.c.R1; r++ {
		for c := f.c.C0; c < f.c.C1; c++ {
			b := f.m.Grid[r][c]
			for i := 0; b.Inter && i <= bit(b.Ref[1] > 0); i++ {
				if got := t.Mvs[r][c][i]; got != b.Mv[i] {
					return fmt.Sprintf("motion vector %d at row %d column %d is %v, want %v (%s)", i, r, c, got, b.Mv[i], show(b))
				}
			}
		}
	}
	return ""
}

// compareKinds compares the kinds of prediction of inter blocks.
func compareKinds(f *frame) string {
	t := f.t
	for r := f.c.R0; r < f.c.R1; r++ {
		for c := f.c.C0; c < f.c.C1; c++ {
			b := f.m.Grid[r][c]
			if !b.Inter {
				continue
			}
			if got := t.InterpFilters[r][c]; got != b.Filt {
				return fmt.Sprintf("interpolation filters at row %d column %d are %v, want %v (%s)", r, c, got, b.Filt, show(b))
			}
			if got, want := [2]int{t.CompGroupIdxs[r][c], t.CompoundIdxs[r][c]}, [2]int{b.CompGroup, b.CompIdx}; got != want && f.c.Inter {
				return fmt.Sprintf("compound group and index at row %d column %d are %v, want %v (%s)", r, c, got, want, show(b))
			}
		}
	}
	return ""
}
