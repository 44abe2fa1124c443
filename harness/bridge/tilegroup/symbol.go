package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

func ZzInitSymbol(t *TileGroup, sz int, b *bitstream.BitStream, s *state.State) {
	vlib.Call(t.initSymbol, sz, b, s)
}

func ZzExitSymbol(t *TileGroup, b *bitstream.BitStream, s *state.State, uh uncompressedheader.UncompressedHeader) {
	vlib.Call(t.exitSymbol, b, s, uh)
}

func ZzFrameEndUpdateCdf(t *TileGroup, s *state.State) { vlib.Call(t.frameEndUpdateCdf, s) }
