package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

func ZzUpscale(t *TileGroup, in [3][][]int, s *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) [3][][]int {
	out, ok := vlib.Call(t.upscalingProcess, in, s, sh, uh)[0].Interface().([3][][]int)
	if !ok {
		vlib.Unfit("the result of upscaling")
	}
	return out
}
