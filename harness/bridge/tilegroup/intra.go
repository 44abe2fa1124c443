package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

func ZzPredictIntra(t *TileGroup, plane, x, y int, left, above, aboveRight, belowLeft bool, mode, log2W, log2H int, s *state.State, sh sequenceheader.SequenceHeader) {
	vlib.Call(t.predictIntra, plane, x, y, left, above, aboveRight, belowLeft, mode, log2W, log2H, s, sh)
}

func ZzPredictPalette(t *TileGroup, plane, startX, startY, x, y, txSz int, s *state.State) {
	vlib.Call(t.palettePrediction, plane, startX, startY, x, y, txSz, s)
}

func ZzPredictCfl(t *TileGroup, plane, startX, startY, txSz int, sh sequenceheader.SequenceHeader, s *state.State) {
	vlib.Call(t.predictChromaFromLuma, plane, startX, startY, txSz, sh, s)
}

// ZzSetPalette gives the current block palettes of n and m colours.
func ZzSetPalette(t *TileGroup, n, m int, colors [3][8]int, mapY, mapUV [][]int) {
	t.PaletteSizeY, t.PaletteSizeUV = n, m
	copy(t.PaletteColorsY, colors[0][:n])
	copy(t.PaletteColorsU, colors[1][:m])
	copy(t.PaletteColorsV, colors[2][:m])
	for y := range t.ColorMapY {
		copy(t.ColorMapY[y], mapY[y])
		copy(t.ColorMapUV[y], mapUV[y])
	}
}
