package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

// ZzFindMvStack predicts the motion vectors of the current block.
func ZzFindMvStack(t *TileGroup, compound bool, s *state.State, uh uncompressedheader.UncompressedHeader) {
	vlib.Call(t.findMvStack, compound, s, uh)
}

// ZzFindWarpSamples finds the samples to estimate the warp of the current block from.
func ZzFindWarpSamples(t *TileGroup, s *state.State) { vlib.Call(t.findWarpSamples, s) }
