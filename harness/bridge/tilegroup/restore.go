package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

func ZzRestore(t *TileGroup, s *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) {
	vlib.Call(t.loopRestoration, s, uh, sh)
}
