package uncompressedheader

import (
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

func ZzInitNonCoeffCdfs(s *state.State) { vlib.Call(initNonCoeffCdfs, s) }

func ZzInitCoeffCdfs(s *state.State, u UncompressedHeader) { vlib.Call(initCoeffCdfs, s, u) }
