// Writes harness/golden/tables.json from the tables of the decoder; run by
// hand (VERIF_TABLES=FILE run.py tables), never by a check.
package main

import (
	"os"

	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	m "github.com/m4tthewde/gov1/internal/zzverif/model"
)

func main() {
	m.WriteTables(os.Getenv("VERIF_TABLES"), tilegroup.Dc_Qlookup, tilegroup.Ac_Qlookup, tilegroup.Quantizer_Matrix, tilegroup.UPSCALE_FILTER, func(s *state.State, q int) {
		uncompressedheader.ZzInitNonCoeffCdfs(s)
		uncompressedheader.ZzInitCoeffCdfs(s, uncompressedheader.UncompressedHeader{BaseQIdx: q})
	})
}
