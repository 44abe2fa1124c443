package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

// ZzAllocateFrame gives a tile group what a frame needs except the pictures.
func ZzAllocateFrame(t *TileGroup, s *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
	vlib.Call(t.allocateModeInfo, s, uh, sh)
	vlib.Call(t.allocateRestorationUnits, s, uh, sh)
}

// ZzDecodeTile decodes one tile of sz bytes.
func ZzDecodeTile(t *TileGroup, sz int, b *bitstream.BitStream, s *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
	s.CurrentQIndex = uh.BaseQIdx
	vlib.Call(t.initSymbol, sz, b, s, uh, sh)
	vlib.Call(t.decodeTile, b, s, sh, uh)
}
