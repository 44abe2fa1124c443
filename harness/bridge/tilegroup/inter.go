package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

// ZzPrediction predicts the current block.
func ZzPrediction(t *TileGroup, intrabc bool, s *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) {
	t.useIntrabc = 0
	if intrabc {
		t.useIntrabc = 1
	}
	vlib.Call(t.computePrediction, s, sh, uh)
}
