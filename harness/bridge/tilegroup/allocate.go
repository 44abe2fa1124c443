package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

// ZzAllocate gives a tile group the mode info arrays of a frame.
func ZzAllocate(t *TileGroup, s *state.State) { vlib.Call(t.allocateModeInfo, s) }
