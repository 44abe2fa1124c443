SEEDS = []


def seed(id, property, edits, pkg, demo, needs, breaks, race=False):
    SEEDS.append(dict(id=id, property=property, edits=edits, pkg=pkg, demo=demo, needs=needs, breaks=breaks, race=race))


UH = "uncompressedheader/uncompressed_header.go"

seed("ns_boundary", "B01", [("bitstream/bitstream.go", "	if v < m {\n		return v\n	}\n	extraBit := b.F(1)", "	if v <= m {\n		return v\n	}\n	extraBit := b.F(1)")], "bitstream", '''
package bitstream

import "testing"

func TestDemo(t *testing.T) {
	// ns(5): values 3 and 4 take three bits 110 and 111
	for want, bits := range map[int]byte{3: 0xc0, 4: 0xe0} {
		b := NewBitStream([]byte{bits})
		if got := b.Ns(5); got != want || b.Position != 3 {
			t.Fatalf("got %d at %d, want %d at 3", got, b.Position, want)
		}
	}
}
''', "the first long code of an alphabet whose size is no power of two", "ns(n) returns the wrong value one bit early")

seed("uvlc_32_zeros", "B01", [("bitstream/bitstream.go", "if leadingZeros >= 32 {", "if leadingZeros > 32 {")], "bitstream", '''
package bitstream

import "testing"

func TestDemo(t *testing.T) {
	b := NewBitStream([]byte{0, 0, 0, 0, 0x80, 1, 2, 3, 4, 5, 6, 7, 8})
	if got := b.Uvlc(); got != 1<<32-1 || b.Position != 33 {
		t.Fatalf("got %d at %d", got, b.Position)
	}
}
''', "exactly 32 leading zeros", "uvlc() reads 32 bits more instead of returning its maximum")

seed("cdf_rate_threshold", "E02", [("symbol/symbol.go", "util.Int(cdf[N] > 31)", "util.Int(cdf[N] >= 31)")], "symbol", '''
package symbol

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
)

func TestDemo(t *testing.T) {
	// a zero symbol (largest SymbolValue range) 40 times over
	cdf := []int{16384, 32768, 0}
	want := append([]int{}, cdf...)
	b := bitstream.NewBitStream(make([]byte, 64))
	s := state.State{SymbolValue: 1<<15 - 1, SymbolRange: 1 << 15, SymbolMaxBits: 400}
	for i := 0; i < 40; i++ {
		rate := uint(4)
		if i > 15 {
			rate++
		}
		if i > 31 {
			rate++
		}
		if ReadSymbol(cdf, &s, &b, uncompressedheader.UncompressedHeader{}) == 0 {
			want[0] += (32768 - want[0]) >> rate
		} else {
			want[0] -= want[0] >> rate
		}
		if cdf[0] != want[0] {
			t.Fatalf("after %d symbols %d, want %d", i+1, cdf[0], want[0])
		}
	}
}
''', "32 symbols decoded with the same CDF", "the adaptation slows down one symbol early")

seed("cdf_rate_alphabet", "E02", [("symbol/symbol.go", "util.Min(util.FloorLog2(N), 2)", "util.Min(util.CeilLog2(N), 2)")], "symbol", '''
package symbol

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
)

func TestDemo(t *testing.T) {
	cdf := []int{8000, 16000, 32768, 0}
	b := bitstream.NewBitStream(make([]byte, 64))
	s := state.State{SymbolValue: 1<<15 - 1, SymbolRange: 1 << 15, SymbolMaxBits: 400}
	sym := ReadSymbol(cdf, &s, &b, uncompressedheader.UncompressedHeader{})
	want := 8000 - 8000>>4
	if sym == 0 {
		want = 8000 + (32768-8000)>>4
	}
	if cdf[0] != want {
		t.Fatalf("got %v after symbol %d, want %d", cdf, sym, want)
	}
}
''', "an alphabet of exactly three symbols", "three symbol CDFs adapt at the rate of larger ones")

seed("bool_cdf_shared", "E05", [("literal/literal.go", '''func readBool(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
	cdf := []int{
		1 << 14,
		1 << 15,
		0,
	}

	return symbol.ReadSymbol(cdf, state, b, uh)''', '''// halves is the CDF of an even bit.
var halves = [...]int{1 << 14, 1 << 15, 0}

func readBool(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
	cdf := halves[:]

	return symbol.ReadSymbol(cdf, state, b, uh)''')], "literal", '''
package literal

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
)

func TestDemo(t *testing.T) {
	// the same data decodes to the same literal however often it is decoded
	read := func() int {
		b := bitstream.NewBitStream([]byte{0x35, 0xa7, 0x11, 0xf0, 0x9c, 0x64, 0, 0})
		s := state.State{SymbolValue: 1<<15 - 1 ^ b.F(15), SymbolRange: 1 << 15, SymbolMaxBits: 49}
		return L(24, &s, &b, uncompressedheader.UncompressedHeader{})
	}
	first := read()
	for i := 0; i < 5; i++ {
		if got := read(); got != first {
			t.Fatalf("first %d, then %d", first, got)
		}
	}
}
''', "literals in a frame with CDF adaptation", "the even-odds CDF of literals adapts, so literals depend on what was decoded before")

seed("layer_drop_and", "O02", [("obu/obu.go", "if !inTemporalLayer || !inSpatialLayer {", "if !inTemporalLayer && !inSpatialLayer {")], "obu", '''
package obu

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/logger"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
)

func TestDemo(t *testing.T) {
	logger.Initialize()
	// a frame header of temporal layer 1, spatial layer 0, in an operating
	// point of temporal layer 0 and spatial layer 0: dropped unread
	s := state.State{OperatingPointIdc: 0x101}
	b := bitstream.NewBitStream([]byte{3<<3 | 4 | 2, 1 << 5, 3, 0xff, 0xff, 0xff})
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	NewObu(6, &s, &b, sequenceheader.SequenceHeader{}, uncompressedheader.UncompressedHeader{})
	if s.SeenFrameHeader || b.Position != 48 {
		t.Fatalf("frame header seen %v, position %d", s.SeenFrameHeader, b.Position)
	}
}
''', "an OBU that is in the chosen temporal layers but not in the spatial ones, or the other way round", "it is decoded although it is to be dropped")

seed("leb_bytes_stale", "O01", [("parser/parser.go", "		sz -= p.bitStream.Leb128Bytes\n		p.frameUnit(frameUnitSize)\n		sz -= frameUnitSize", "		p.frameUnit(frameUnitSize)\n		sz -= frameUnitSize + p.bitStream.Leb128Bytes")], "parser", '''
package parser

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/bitstream"
)

func TestDemo(t *testing.T) {
	// two temporal units; in the first the frame unit size takes two bytes
	pad := make([]byte, 198)
	pad[197] = 0x80
	one := append([]byte{200, 1, 198 | 0x80, 1, 196 | 0x80, 1, 15 << 3}, pad[3:]...)
	one[0], one[1] = 0x80|(202&0x7f), 1
	frame := append([]byte{0x80 | (199 & 0x7f), 1, 15 << 3}, pad...) // obu_length 199
	unit := append([]byte{0x80 | byte(len(frame)&0x7f), byte(len(frame) >> 7)}, frame...)
	data := append([]byte{0x80 | byte(len(unit)&0x7f), byte(len(unit) >> 7)}, unit...)
	tail := []byte{3, 2, 1, 2 << 3} // a temporal delimiter
	_ = one
	b := bitstream.NewBitStream(append(append(data, tail...), tail...))
	p := NewParser(&b)
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	if got := len(p.bitstream()); got != 3 {
		t.Fatalf("%d units", got)
	}
	// size field in the obu of one byte, frame unit size of two
	obu := append([]byte{15<<3 | 2, 40}, pad[158:]...)
	frame = append([]byte{byte(len(obu))}, obu...)
	unit = append([]byte{0x80 | byte(len(frame)), 0}, frame...)
	data = append([]byte{byte(len(unit))}, unit...)
	b = bitstream.NewBitStream(append(data, tail...))
	p = NewParser(&b)
	if got := len(p.bitstream()); got != 2 {
		t.Fatalf("%d units", got)
	}
}
''', "a frame unit size whose LEB128 code has another length than the last size inside the unit", "the temporal unit is taken to be longer or shorter than it is")

seed("tile_widest", "F06", [("tileinfo/tile_info.go", "			widestTileSb = util.Max(sizeSb, widestTileSb)\n", "			widestTileSb = util.Max(sizeSb, maxWidth)\n")], "tileinfo", '''
package tileinfo

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
)

func TestDemo(t *testing.T) {
	// 4x4 superblocks of 64, explicit: widths 2 and 2, then one row of 4: the
	// frame has no minimum number of tiles, so heights reach 16/2 = 8 > 4.
	// With the maximum width 4 instead of 2 it is 4 as well, so use 8 x 8 of
	// an area that needs tiles: 80 x 80 superblocks.
	s := state.State{MiCols: 80 * 16, MiRows: 80 * 16}
	// uniform 0; widths: 40 and 40, coded by ns(64) and ns(40)
	bits := "0" + "100111" + "111111" // 39 of 64 in 6 bits; 39 of 40: w=6 m=24, 31<<1|1-24 = 39
	// minimum log2 of tiles is max(1, 2) = 2: area 6400 >> 3 = 800, height 800/40 = 20
	for i := 0; i < 3; i++ {
		bits += "11111" // ns(20): w=5 m=12: 15<<1|1 - 12 = 19
	}
	bits += "11111" + "000" + "00"
	data := make([]byte, 16)
	for i, c := range bits {
		if c == '1' {
			data[i/8] |= 0x80 >> uint(i%8)
		}
	}
	b := bitstream.NewBitStream(data)
	NewTileInfo(sequenceheader.SequenceHeader{}, &s, &b)
	if s.TileCols != 2 || s.TileRows != 4 || b.Position != len(bits) {
		t.Fatalf("%d x %d tiles, %d bits of %d", s.TileCols, s.TileRows, b.Position, len(bits))
	}
}
''', "explicit tile widths smaller than the maximum in a frame large enough to need tiles", "tile heights are read with the wrong number of bits")

seed("superres_mi_cols", "F02", [(UH, "	s.MiCols = 2 * ((u.FrameWidth + 7) >> 3)\n", "	s.MiCols = 2 * ((u.UpscaledWidth + 7) >> 3)\n")], "uncompressedheader", '''
package uncompressedheader

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
)

func TestDemo(t *testing.T) {
	sh := sequenceheader.SequenceHeader{EnableSuperRes: true, MaxFrameWidthMinusOne: 159, MaxFrameHeightMinusOne: 95}
	b := bitstream.NewBitStream([]byte{0xf0}) // use superres, denominator 16
	s := state.State{}
	u := UncompressedHeader{}
	u.frameSize(&b, &s, sh)
	if u.UpscaledWidth != 160 || u.FrameWidth != 80 || s.MiCols != 20 || s.MiRows != 24 {
		t.Fatalf("%d %d %d %d", u.UpscaledWidth, u.FrameWidth, s.MiCols, s.MiRows)
	}
}
''', "a frame that uses super-resolution", "the frame size in 4x4 units is that of the upscaled frame")

seed("skip_mode_equal", "F07", [(UH, "				if u.GetRelativeDist(refHint, forwardHint, sh) < 0 {\n", "				if u.GetRelativeDist(refHint, forwardHint, sh) <= 0 {\n")], "uncompressedheader", '''
package uncompressedheader

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
)

func TestDemo(t *testing.T) {
	sh := sequenceheader.SequenceHeader{EnableOrderHint: true, OrderHintBits: 7}
	s := state.State{}
	u := UncompressedHeader{EnableOrderHint: true, ReferenceSelect: true, OrderHint: 9}
	for i := range u.RefFrameIdx {
		u.RefFrameIdx[i] = i
		s.RefOrderHint[i] = 5
	}
	s.RefOrderHint[3] = 4
	b := bitstream.NewBitStream([]byte{0x80})
	u.skipModeParams(&s, &b, sh)
	if u.SkipModePresent != 1 || u.SkipModeFrame != [2]int{1, 4} {
		t.Fatalf("%d %v", u.SkipModePresent, u.SkipModeFrame)
	}
}
''', "only forward references, the closest of them twice", "skip mode predicts twice from the same picture or is allowed where it is not")

seed("gm_range", "F08", [(UH, "u.decodeSignedSubexpWithRef(-mx, mx+1, r, b)", "u.decodeSignedSubexpWithRef(-mx, mx, r, b)")], "uncompressedheader", '''
package uncompressedheader

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/state"
)

func TestDemo(t *testing.T) {
	// translation at low precision: parameters -256..256, reference 0;
	// all more-bits flags and then the final code
	s := state.State{}
	u := UncompressedHeader{}
	data := []byte{0xff, 0xff, 0xff, 0xff}
	b := bitstream.NewBitStream(data)
	u.readGlobalParam(1, 1, 0, &b, &s)
	if u.GmParams[1][0] != -256<<14 && u.GmParams[1][0] != 256<<14 {
		t.Fatalf("parameter %d", u.GmParams[1][0]>>14)
	}
}
''', "a parameter coded with the last, non-symmetric code of the sub-exponential code", "large global motion parameters decode to other values")

seed("grain_subsampling", "F09", [(UH, "(sh.ColorConfig.SubsamplingX && sh.ColorConfig.SubsamplingY && numYPoints == 0)", "(sh.ColorConfig.SubsamplingX && numYPoints == 0)")], "uncompressedheader", '''
package uncompressedheader

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
)

func TestDemo(t *testing.T) {
	sh := sequenceheader.SequenceHeader{FilmGrainParamsPresent: true}
	sh.ColorConfig.SubsamplingX = true
	sh.ColorConfig.NumPlanes = 3
	u := UncompressedHeader{ShowFrame: true}
	// apply, seed 0, no luma points, not from luma, 1 cb point (7, 9), no cr points
	bits := "1" + "0000000000000000" + "0000" + "0" + "0001" + "00000111" + "00001001" + "0000"
	data := make([]byte, 40)
	for i, c := range bits {
		if c == '1' {
			data[i/8] |= 0x80 >> uint(i%8)
		}
	}
	b := bitstream.NewBitStream(data)
	u.filmGrainParams(&b, sh)
	if len(u.PointCbValue) != 1 || u.PointCbValue[0] != 7 || u.PointCbScaling[0] != 9 {
		t.Fatalf("%v %v", u.PointCbValue, u.PointCbScaling)
	}
}
''', "4:2:2 video with chroma grain and no luma grain", "the chroma scaling points are not read")

seed("lr_uv_shift", "F05", [(UH, "if sh.ColorConfig.SubsamplingX && sh.ColorConfig.SubsamplingY && usesChromaLr {", "if sh.ColorConfig.SubsamplingX && sh.ColorConfig.SubsamplingY && u.UsesLr {")], "uncompressedheader", '''
package uncompressedheader

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
)

func TestDemo(t *testing.T) {
	sh := sequenceheader.SequenceHeader{EnableRestoration: true}
	sh.ColorConfig.NumPlanes, sh.ColorConfig.SubsamplingX, sh.ColorConfig.SubsamplingY = 3, true, true
	u := UncompressedHeader{}
	s := state.State{}
	// luma wiener, chroma none, unit shift 0; then other syntax, all ones
	b := bitstream.NewBitStream([]byte{0x81, 0xff})
	u.lrParams(&b, &s, sh)
	if b.Position != 7 || s.LoopRestorationSize[1] != 64 {
		t.Fatalf("%d bits, chroma unit %d", b.Position, s.LoopRestorationSize[1])
	}
}
''', "4:2:0 video that restores luma only", "a bit too many is read and the rest of the header shifts")

seed("tile_scratch_shared", "D01", [("tileinfo/tile_info.go", "type TileInfo struct {", "// starts are the arrays of the frame before, kept to save allocations.\nvar starts [2][]int\n\nfunc reuse(k int, n int) []int {\n	if cap(starts[k]) < n {\n		starts[k] = make([]int, n, n+64)\n	}\n\n	return starts[k][:n]\n}\n\ntype TileInfo struct {"),
     ("tileinfo/tile_info.go", "	s.MiColStarts = make([]int, sbCols+1)\n	s.MiRowStarts = make([]int, sbRows+1)\n", "	s.MiColStarts = reuse(0, sbCols+1)\n	s.MiRowStarts = reuse(1, sbRows+1)\n")], "tileinfo", '''
package tileinfo

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
)

func TestDemo(t *testing.T) {
	parse := func(cols, rows int) *state.State {
		s := &state.State{MiCols: cols, MiRows: rows}
		b := bitstream.NewBitStream([]byte{0x80, 0, 0, 0})
		NewTileInfo(sequenceheader.SequenceHeader{}, s, &b)
		return s
	}
	one := parse(200, 100)
	parse(60, 30)
	if one.MiColStarts[1] != 200 || one.MiRowStarts[1] != 100 {
		t.Fatalf("another decoder's frame changed the tiles: %v %v", one.MiColStarts, one.MiRowStarts)
	}
}
''', "two decoders in one process", "the tile boundaries of one decoder are overwritten by the other")
