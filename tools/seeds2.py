SEEDS = []


def seed(id, property, edits, pkg, demo, needs, breaks, race=False, extra={}):
    SEEDS.append(dict(extra=extra, id=id, property=property, edits=edits, pkg=pkg, demo=demo, needs=needs, breaks=breaks, race=race))


TG = "tilegroup/"
IMP = '''
package tilegroup

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/shared"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/util"
)

var _ = sequenceheader.SequenceHeader{}
var _ = uncompressedheader.UncompressedHeader{}
var _ = shared.BLOCK_8X8
var _ = state.State{}
var _ = util.Min
'''

seed("deblock_sharpness", "L01", [(TG + "loop_filter_process.go", "if uh.LoopFilterSharpness > 4 {", "if uh.LoopFilterSharpness >= 4 {")], "tilegroup", IMP + '''
func TestDemo(t *testing.T) {
	tg := TileGroup{SegmentIds: util.NewGrid[int](1, 1), YModes: util.NewGrid[int](1, 1)}
	s := state.State{}
	s.RefFrames = util.NewGrid[[2]int](1, 1)
	s.DeltaLFs = util.NewGrid[[shared.FRAME_LF_COUNT]int](1, 1)
	for sharp, want := range []int{8, 4, 4, 4, 4, 2, 2, 2} {
		uh := uncompressedheader.UncompressedHeader{LoopFilterSharpness: sharp}
		for i := range uh.LoopFilterLevel {
			uh.LoopFilterLevel[i] = 8
		}
		_, limit, blimit, _ := tg.adaptiveFilterStrength(0, 0, 0, false, &s, uh)
		if limit != want || blimit != 20+want {
			t.Fatalf("sharpness %d: limits %d %d, want %d", sharp, limit, blimit, want)
		}
	}
}
''', "sharpness 4 exactly and a level low enough for its shift to matter", "the deblocking limits are those of sharpness 5")

seed("cdef_corner_skip", "L02", [(TG + "cdef.go", "		util.Bool(t.Skips[r][c+1]) &&\n		util.Bool(t.Skips[r+1][c+1])", "		util.Bool(t.Skips[r][c+1])")], "tilegroup", IMP + '''
func TestDemo(t *testing.T) {
	tg := TileGroup{Skips: [][]int{{1, 1}, {1, 0}}}
	s := state.State{MiRows: 2, MiCols: 2}
	s.CurrFrame = util.NewPlanes(16, 16)
	s.CdefFrame = util.NewPlanes(16, 16)
	s.CurrFrame[0][3][3] = 8
	sh := sequenceheader.SequenceHeader{}
	sh.ColorConfig.BitDepth = 8
	sh.ColorConfig.NumPlanes = 1
	uh := uncompressedheader.UncompressedHeader{CdefDampening: 6}
	uh.CdefYSecStrength, uh.CdefYPriStrength = []int{4}, []int{0}
	tg.cdefBlock(0, 0, 0, &s, sh, uh)
	if s.CdefFrame[0][3][3] == 8 {
		t.Fatal("a block with one coded quarter was not filtered")
	}
}
''', "an 8x8 area of 4x4 blocks of which only the bottom right one has coefficients", "CDEF leaves out such blocks")

seed("sgr_saturation", "L03", [(TG + "loop_restoration.go", "if z >= 255 {", "if z > 255 {")], "tilegroup", IMP + '''
func TestDemo(t *testing.T) {
	rnd := uint32(1)
	hits := 0
	for n := 0; n < 20000; n++ {
		tg := TileGroup{PlaneEndX: 15, PlaneEndY: 15, StripeEndY: 63}
		s := state.State{}
		s.UpscaledCdefFrame = util.NewPlanes(16, 16)
		s.UpscaledCurrFrame = util.NewPlanes(16, 16)
		in := s.UpscaledCdefFrame[0]
		for i := 3; i < 8; i++ {
			for j := 3; j < 8; j++ {
				rnd = rnd*1664525 + 1013904223
				in[i][j] = int(rnd>>24) & (1<<(uint(n)%6+3) - 1)
			}
		}
		sh := sequenceheader.SequenceHeader{}
		sh.ColorConfig.BitDepth = 8
		// set 10 has radius 1 and eps 5 in the second pass
		got := tg.boxFilter(0, 5, 5, 1, 1, 10, true, &s, sh)[0][0]
		A, B := 0, 0
		for y := 4; y <= 6; y++ {
			for x := 4; x <= 6; x++ {
				sum, sq := 0, 0
				for dy := -1; dy <= 1; dy++ {
					for dx := -1; dx <= 1; dx++ {
						c := in[y+dy][x+dx]
						sum += c
						sq += c * c
					}
				}
				sc := ((1 << 20) + 9*9*5/2) / (9 * 9 * 5)
				z := ((sq*9-sum*sum)*sc + 1<<19) >> 20
				a := ((z << 8) + z/2) / (z + 1)
				if z == 255 {
					hits++
				}
				if z >= 255 {
					a = 256
				} else if z == 0 {
					a = 1
				}
				b := ((256-a)*sum*455 + 2048) >> 12
				w := 3
				if x == 5 || y == 5 {
					w = 4
				}
				A += w * a
				B += w * b
			}
		}
		if want := (A*in[5][5] + B + 256) >> 9; got != want {
			t.Fatalf("%v: got %d, want %d", in[3:8], got, want)
		}
	}
	if hits == 0 {
		t.Fatal("no such window")
	}
}
''', "a window whose scaled variance is exactly 255", "the self-guided filter mixes in 1/256 of the average where it must keep the sample")

seed("upscale_error_floor", "L04", [(TG + "decode_frame_wrapup.go", "(1 << (SUPERRES_EXTRA_BITS - 1)) - err/2", "(1 << (SUPERRES_EXTRA_BITS - 1)) - err>>1")], "tilegroup", IMP + '''
func TestDemo(t *testing.T) {
	n := 0
	for up := 16; up < 700; up++ {
		for denom := 9; denom <= 16; denom++ {
			w := (up*8 + denom/2) / denom
			step := ((w << 14) + up/2) / up
			err := up*step - w<<14
			if err >= 0 || err%2 == 0 {
				continue
			}
			first := (-((up-w)<<13)+up/2)/up + 128
			a := (first - err/2) & 16383
			b := (first - (err-1)/2) & 16383
			// widths for which rounding the error down moves a sample to another phase
			phase := -1
			for x := 0; x < up; x++ {
				if (a+x*step)>>8 != (b+x*step)>>8 {
					phase = x
					break
				}
			}
			if phase < 0 {
				continue
			}
			n++
			s := state.State{MiRows: 2, MiCols: 2 * ((w + 7) >> 3)}
			in := util.NewPlanes(8, 8*((w+7)>>3))
			for x := range in[0][0] {
				in[0][0][x] = 255 * (x & 1)
			}
			var tg TileGroup
			sh := sequenceheader.SequenceHeader{}
			sh.ColorConfig.BitDepth = 8
			sh.ColorConfig.NumPlanes = 1
			uh := uncompressedheader.UncompressedHeader{UseSuperRes: true, FrameWidth: w, UpscaledWidth: up, FrameHeight: 1}
			out := tg.upscalingProcess(in, &s, sh, uh)
			for x := 8; x < up-12; x++ {
				src := -(1 << 14) + a + x*step
				sum := 64
				for k := 0; k < 8; k++ {
					p := src>>14 + k - 3
					if p < 0 || p >= w {
						sum = -1
						break
					}
					sum += in[0][0][p] * UPSCALE_FILTER[src&16383>>8][k]
				}
				if sum < 0 {
					continue
				}
				want := util.Clip3(0, 255, sum>>7)
				if out[0][0][x] != want {
					t.Fatalf("width %d to %d: sample %d is %d, want %d", w, up, x, out[0][0][x], want)
				}
			}
		}
	}
	t.Log(n, "widths")
}
''', "a frame width and denominator whose step error is negative and odd and a sample right at a phase boundary", "some samples of the upscaled frame use the neighbouring filter phase")

seed("lr_recenter_tie", "L05", [(TG + "read_loop_restoration.go", "if (r << 1) <= mx {", "if (r << 1) < mx {")], "tilegroup", '''
package tilegroup

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
)

func TestDemo(t *testing.T) {
	var tg TileGroup
	uh := uncompressedheader.UncompressedHeader{DisableCdfUpdate: true}
	for _, b := range []byte{0x00, 0x10, 0x35, 0x77, 0xa0, 0xff} {
		read := func() (*bitstream.BitStream, *state.State) {
			return &[]bitstream.BitStream{bitstream.NewBitStream(make([]byte, 32))}[0], &state.State{SymbolValue: 1<<15 - 1 - int(b)<<6, SymbolRange: 1 << 15, SymbolMaxBits: 200}
		}
		bs, s := read()
		v := tg.decodeSubexpBool(16, 1, s, bs, uh)
		bs, s = read()
		got := tg.decodeUnsignedSubexpWithRefBool(16, 1, 8, s, bs, uh)
		want := v
		if v <= 16 {
			want = 8 + v/2
			if v&1 == 1 {
				want = 8 - (v+1)/2
			}
		}
		if got != want {
			t.Fatalf("difference %d from 8 of 16 gives %d, want %d", v, got, want)
		}
	}
}
''', "a Wiener coefficient predicted from the exact middle of its range", "the coefficient is mirrored around its prediction")

seed("tx_col_clamp", "T01", [(TG + "transform.go", "colClampRange := util.Max(sh.ColorConfig.BitDepth+6, 16)", "colClampRange := sh.ColorConfig.BitDepth + 8")], "tilegroup", IMP + '''
func TestDemo(t *testing.T) {
	var tg TileGroup
	sh := sequenceheader.SequenceHeader{}
	sh.ColorConfig.BitDepth = 10
	tg.T = make([]int, 64)
	if tg.Residual == nil {
		tg.Residual = util.NewGrid[int](64, 64)
	}
	for i := 0; i < 8; i++ {
		for j := 0; j < 8; j++ {
			tg.Dequant[i][j] = 1<<17 - 1
			if j%2 == 1 {
				tg.Dequant[i][j] = -1 << 17
			}
		}
	}
	tg.PlaneTxType = IDTX
	tg.InverseTranform(TX_8X8, sh)
	// rows: doubled, halved, then limited to 16 bits; columns: doubled and divided by 16
	for i := 0; i < 8; i++ {
		for j := 0; j < 8; j++ {
			want := 4096
			if j%2 == 1 {
				want = -4096
			}
			if tg.Residual[i][j] != want {
				t.Fatalf("residual %d,%d is %d, want %d", i, j, tg.Residual[i][j], want)
			}
		}
	}
}
''', "more than eight bits per sample and coefficients near the limit", "rows are limited to two bits more than specified before the column transform")

seed("dequant_wrap", "T02", [(TG + "reconstruct.go", "dq2 := sign * (util.Abs(dq) & 0xFFFFFF) / dqDenom", "dq2 := sign * (util.Abs(dq) / dqDenom & 0xFFFFFF)")], "tilegroup", IMP + '''
func TestDemo(t *testing.T) {
	s := state.State{CurrentQIndex: 255}
	s.CurrFrame = util.NewPlanes(64, 64)
	sh := sequenceheader.SequenceHeader{}
	sh.ColorConfig.BitDepth = 12
	uh := uncompressedheader.UncompressedHeader{BaseQIdx: 255}
	var tg TileGroup
	tg.PlaneTxType = DCT_DCT
	tg.T = make([]int, 64)
	if tg.Residual == nil {
		tg.Residual = util.NewGrid[int](64, 64)
	}
	q := tg.getDcQuant(0, sh, uh, &s)
	level := 1<<24/q + 1
	tg.Quant[0] = level
	tg.reconstruct(0, 0, 0, TX_64X64, sh, uh, &s)
	if want := level * q & (1<<24 - 1) / 4; tg.Dequant[0][0] != want {
		t.Fatalf("level %d dequantised to %d, want %d", level, tg.Dequant[0][0], want)
	}
}
''', "a level whose product with the quantiser exceeds 24 bits in a transform of 64 samples", "the product wraps after the division instead of before")

seed("dc_sign_edge", "T03", [(TG + "coeffs.go", "		if x4+k < maxX4 {\n			sign := t.AboveDcContext[plane][x4+k]", "		if x4+k <= maxX4 {\n			sign := t.AboveDcContext[plane][x4+k]")], "tilegroup", '''
package tilegroup

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
)

func TestDemo(t *testing.T) {
	var tg TileGroup
	// two columns inside the frame with opposite signs, one outside
	tg.AboveDcContext = [][]int{{1, 2, 1, 1}, {0, 0, 0, 0}, {0, 0, 0, 0}}
	tg.LeftDcContext = [3][]int{{0, 0, 0, 0}, {0, 0, 0, 0}, {0, 0, 0, 0}}
	s := state.State{MiCols: 2, MiRows: 2, SymbolValue: 16000, SymbolRange: 1 << 15, SymbolMaxBits: 200}
	s.TileDcSignCdf = [][][]int{{{1000, 32768, 0}, {31000, 32768, 0}, {31000, 32768, 0}}}
	b := bitstream.NewBitStream(make([]byte, 32))
	uh := uncompressedheader.UncompressedHeader{}
	tg.readDcSignSymbol(0, 4, 4, 0, 0, 0, &s, &b, uh, sequenceheader.SequenceHeader{})
	if s.TileDcSignCdf[0][0][2] != 1 {
		t.Fatal("the sign was not read with the context of the samples inside the frame")
	}
}
''', "a transform block across the right frame edge with unbalanced signs above", "the sign of the DC coefficient is read with a context that depends on samples outside the frame")

seed("tx_set_reduced", "T04", [(TG + "coeffs.go", "		} else if uh.ReducedTxSet {\n			return TX_SET_INTRA_2\n		} else if txSzSqr == TX_16X16 {", "		} else if uh.ReducedTxSet && txSzSqrUp == TX_16X16 {\n			return TX_SET_INTRA_2\n		} else if txSzSqr == TX_16X16 {")], "tilegroup", IMP + '''
func TestDemo(t *testing.T) {
	var tg TileGroup
	uh := uncompressedheader.UncompressedHeader{ReducedTxSet: true}
	for _, sz := range []int{TX_4X4, TX_8X8, TX_4X8, TX_8X4, TX_16X16, TX_16X8} {
		if got := tg.getTxSet(sz, uh); got != TX_SET_INTRA_2 {
			t.Fatalf("size %d uses set %d", sz, got)
		}
	}
}
''', "a frame with the reduced transform set and small intra transforms", "transform types of small blocks are read from the full set")

seed("edge_strength_angle", "P01", [(TG + "predict_intra.go", "			if d >= 20 {", "			if d > 20 {")], "tilegroup", IMP + '''
func TestDemo(t *testing.T) {
	var tg TileGroup
	for d := 0; d < 90; d++ {
		want := 0
		if d >= 20 {
			want = 1
		}
		if d >= 48 {
			want = 2
		}
		for _, s := range []int{1, -1} {
			if got := tg.intraEdgeFilterStrengthSelectionProcess(8, 8, 1, s*d); got != want {
				t.Fatalf("strength for a difference of %d: %d, want %d", d, got, want)
			}
		}
	}
}
''', "a small block next to a smooth one predicted at exactly 20 degrees from the edge", "the edge is not filtered", )

seed("cfl_right_limit", "P02", [(TG + "residual.go", "lumaX = util.Min(lumaX, t.MaxLumaW-(1<<subX))", "lumaX = util.Min(lumaX, t.MaxLumaW-(1<<subY))")], "tilegroup", IMP + '''
func TestDemo(t *testing.T) {
	tg := TileGroup{MaxLumaW: 8, MaxLumaH: 8, CflAlphaU: 8}
	s := state.State{}
	s.CurrFrame = util.NewPlanes(32, 32)
	for x := 0; x < 32; x++ {
		for y := 0; y < 32; y++ {
			s.CurrFrame[0][y][x] = 4 * x
			s.CurrFrame[1][y][x] = 100
		}
	}
	sh := sequenceheader.SequenceHeader{}
	sh.ColorConfig.BitDepth = 8
	sh.ColorConfig.SubsamplingX = true
	tg.predictChromaFromLuma(1, 0, 0, TX_8X8, sh, &s)
	// four different columns, the last one repeated five times
	for x := 4; x < 8; x++ {
		if s.CurrFrame[1][0][x] != s.CurrFrame[1][0][3] {
			t.Fatalf("row %v", s.CurrFrame[1][0][:8])
		}
	}
}
''', "4:2:2 video and chroma from luma at the right edge of the decoded luma", "luma beyond the last decoded column contributes to the chroma prediction")


CDFS = {"internal/uncompressedheader/zz_demo.go": """package uncompressedheader

import "github.com/m4tthewde/gov1/internal/state"

func DemoCdfs(s *state.State, q int) {
	initNonCoeffCdfs(s)
	initCoeffCdfs(s, UncompressedHeader{BaseQIdx: q})
}
"""}

seed("quarter_partition_edge", "V02", [(TG + "decode_partition.go", "		if r+quarterBlock4x4*3 < state.MiRows {", "		if r+quarterBlock4x4*4 <= state.MiRows {")], "tilegroup", '''
package tilegroup

import (
	"testing"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/shared"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/util"
)

func TestDemo(t *testing.T) {
	// a 64x64 block split in four 64x16 ones in a frame of 56 rows of samples
	var tg TileGroup
	s := state.State{MiRows: 14, MiCols: 16, MiRowEnd: 14, MiColEnd: 16}
	sh := sequenceheader.SequenceHeader{}
	sh.ColorConfig.BitDepth = 8
	sh.ColorConfig.NumPlanes = 1
	uh := uncompressedheader.UncompressedHeader{FrameHeight: 56, FrameWidth: 64, UpscaledWidth: 64, BaseQIdx: 100, FrameIsIntra: true, TxMode: 1}
	tg.allocateModeInfo(&s)
	tg.allocateRestorationUnits(&s, uh, sh)
	s.CurrFrame = util.NewPlanes(192, 192)
	uncompressedheader.DemoCdfs(&s, 100)
	b := bitstream.NewBitStream(make([]byte, 4000))
	tg.initSymbol(3000, &b, &s)
	// only PARTITION_HORZ_4 and skipped blocks have any probability
	for i := range s.TilePartitionW64Cdf {
		s.TilePartitionW64Cdf[i] = []int{0, 0, 0, 0, 0, 0, 0, 0, 32768, 32768, 0}
	}
	for i := range s.TileSkipCdf {
		s.TileSkipCdf[i] = []int{0, 32768, 0}
	}
	for i := range s.MiSizes {
		for j := range s.MiSizes[i] {
			s.MiSizes[i][j] = -1
		}
	}
	tg.clearAboveContext(&s)
	tg.clearLeftContext(&s)
	tg.clearBlockDecodedFlags(0, 0, 16, &s, sh)
	tg.decodePartition(0, 0, shared.BLOCK_64X64, &b, &s, sh, uh)
	for r := 0; r < 14; r++ {
		if s.MiSizes[r][0] != shared.Partition_Subsize[PARTITION_HORZ_4][shared.BLOCK_64X64] {
			t.Fatalf("row %d belongs to a block of size %d", r, s.MiSizes[r][0])
		}
	}
}
''', "a frame that ends within the last quarter of a block split in four", "the last quarter of the block is not decoded", extra=CDFS)

HEAD = '''
package tilegroup

import (
	"math/rand"
	"testing"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/literal"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/shared"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/symbol"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/util"
)

var _ = rand.New
var _ = literal.L
var _ = symbol.ReadSymbol
var _ = shared.BLOCK_8X8
var _ = sequenceheader.SequenceHeader{}

func prepare(seed int64) (*TileGroup, *state.State, *bitstream.BitStream) {
	s := &state.State{MiRows: 64, MiCols: 64, MiRowEnd: 64, MiColEnd: 64}
	tg := &TileGroup{}
	tg.allocateModeInfo(s)
	uncompressedheader.DemoCdfs(s, 100)
	data := make([]byte, 400)
	rand.New(rand.NewSource(seed)).Read(data)
	b := bitstream.NewBitStream(data)
	tg.initSymbol(400, &b, s)
	s.CurrFrame = util.NewPlanes(384, 384)
	return tg, s, &b
}
'''

seed("cdef_idx_tall", "V03", [(TG + "intra_frame_mode_info.go", "		h4 := shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]\n\n		for i := r; i < r+h4", "		h4 := shared.NUM_4X4_BLOCKS_WIDE[state.MiSize]\n\n		for i := r; i < r+h4")], "tilegroup", HEAD + '''
func TestDemo(t *testing.T) {
	for _, size := range []int{shared.BLOCK_64X128, shared.BLOCK_128X64, shared.BLOCK_128X128} {
		tg, s, b := prepare(1)
		s.MiSize = size
		s.Cdef.CdefBits = 3
		s.Cdef.ClearCdef(0, 0, true, 16)
		sh := sequenceheader.SequenceHeader{EnableCdef: true}
		tg.readCdef(b, uncompressedheader.UncompressedHeader{}, sh, s)
		idx := s.Cdef.CdefIdx[0][0]
		for i := 0; i < 2; i++ {
			for j := 0; j < 2; j++ {
				want := -1
				if 64*i < shared.BLOCK_HEIGHT[size] && 64*j < shared.BLOCK_WIDTH[size] {
					want = idx
				}
				if got := s.Cdef.CdefIdx[16*i][16*j]; got != want {
					t.Fatalf("size %d: index of 64x64 block %d,%d is %d, want %d", size, i, j, got, want)
				}
			}
		}
	}
}
''', "a block of 64x128 or 128x64 samples that is not skipped", "the CDEF index is not kept for the lower half of the block", extra=CDFS)

seed("segment_alphabet", "V04", [(TG + "intra_frame_mode_info.go", "t.SegmentId = util.NegDeinterleave(t.SegmentId, pred, uh.LastActiveSegId+1)", "t.SegmentId = util.NegDeinterleave(t.SegmentId, pred, shared.MAX_SEGMENTS)")], "tilegroup", HEAD + '''
func TestDemo(t *testing.T) {
	uh := uncompressedheader.UncompressedHeader{LastActiveSegId: 3, SegmentationEnabled: true}
	for n := int64(0); n < 50; n++ {
		tg, s, b := prepare(n)
		s.MiRow, s.AvailU = 1, true
		tg.SegmentIds[0][0] = 3
		coded := symbol.ReadSymbol(append([]int{}, s.TileSegmentIdCdf[0]...), s, b, uncompressedheader.UncompressedHeader{DisableCdfUpdate: true})
		tg, s, b = prepare(n)
		s.MiRow, s.AvailU = 1, true
		tg.SegmentIds[0][0] = 3
		tg.readSegmentId(b, uh, s)
		want := 3 - coded
		if want < 0 {
			want = 0
		}
		if coded <= 3 && tg.SegmentId != want {
			t.Fatalf("%d after 3 of 0..3 is segment %d, want %d", coded, tg.SegmentId, want)
		}
	}
}
''', "fewer than eight active segments and a predicted segment in the upper half", "the coded difference is unfolded around the prediction as if all eight segments were active", extra=CDFS)

seed("palette_delta_bits", "V05", [(TG + "palette.go", "rangE := (1 << sh.ColorConfig.BitDepth) - t.PaletteColorsY[idx] - 1", "rangE := (1 << sh.ColorConfig.BitDepth) - t.PaletteColorsY[idx]")], "tilegroup", HEAD + '''
func TestDemo(t *testing.T) {
	sh := sequenceheader.SequenceHeader{}
	sh.ColorConfig.BitDepth = 8
	uh := uncompressedheader.UncompressedHeader{}
	found := 0
	for n := int64(0); n < 60000 && found < 20; n++ {
		setup := func() (*TileGroup, *state.State, *bitstream.BitStream) {
			s := &state.State{MiSize: shared.BLOCK_8X8, SymbolRange: 1 << 15, SymbolMaxBits: 400}
			s.TilePaletteYModeCdf = [][][]int{{{0, 32768, 0}}}
			s.TilePaletteYSizeCdf = [][]int{{0, 0, 0, 0, 0, 0, 32768, 0}}
			data := make([]byte, 64)
			rand.New(rand.NewSource(n)).Read(data)
			b := bitstream.NewBitStream(data)
			s.SymbolValue = (1<<15 - 1) ^ b.F(15)
			return &TileGroup{PaletteColorsY: make([]int, 8), PaletteCache: make([]int, 16)}, s, &b
		}
		tg, s, b := setup()
		symbol.ReadSymbol([]int{0, 32768, 0}, s, b, uh)
		symbol.ReadSymbol([]int{0, 0, 0, 0, 0, 0, 32768, 0}, s, b, uh)
		want := []int{literal.L(8, s, b, uh)}
		bits := 5 + literal.L(2, s, b, uh)
		special := false
		for len(want) < 8 {
			c := util.Min(255, want[len(want)-1]+literal.L(bits, s, b, uh)+1)
			want = append(want, c)
			left := 255 - c
			k := 0
			for 1<<k < left {
				k++
			}
			if left > 0 && left&(left-1) == 0 && k < bits && len(want) < 8 && c < 255 {
				special = true
			}
			bits = util.Min(bits, k)
		}
		if !special {
			continue
		}
		found++
		_, _, _ = tg, s, b
		tg, s, b = setup()
		tg.paletteModeInfo(b, s, sh, uh)
		for i, c := range want {
			if tg.PaletteColorsY[i] != c {
				t.Fatalf("colours %v, want %v", tg.PaletteColorsY, want)
			}
		}
	}
	if found == 0 {
		t.Fatal("no such palette")
	}
}
''', "a palette whose remaining range is exactly a power of two", "the following colour differences are read with one bit too many", extra=CDFS)

seed("tx_size_rows", "V06", [(TG + "tx_size.go", "		for row := state.MiRow; row < state.MiRow+bh4; row++ {\n			for col := state.MiCol; col < state.MiCol+bw4; col++ {\n				t.InterTxSizes", "		for row := state.MiRow; row < state.MiRow+bw4; row++ {\n			for col := state.MiCol; col < state.MiCol+bw4; col++ {\n				t.InterTxSizes")], "tilegroup", HEAD + '''
func TestDemo(t *testing.T) {
	for size := range shared.BLOCK_WIDTH {
		if size > 21 {
			break
		}
		tg, s, b := prepare(1)
		s.MiSize = size
		for i := range tg.InterTxSizes {
			for j := range tg.InterTxSizes[i] {
				tg.InterTxSizes[i][j] = -1
			}
		}
		tg.readBlockTxSize(b, s, uncompressedheader.UncompressedHeader{TxMode: 1})
		for i := 0; i < 64; i++ {
			for j := 0; j < 64; j++ {
				want := -1
				if 4*i < shared.BLOCK_HEIGHT[size] && 4*j < shared.BLOCK_WIDTH[size] {
					want = tg.TxSize
				}
				if tg.InterTxSizes[i][j] != want {
					t.Fatalf("block size %d: transform size at %d,%d is %d, want %d", size, i, j, tg.InterTxSizes[i][j], want)
				}
			}
		}
	}
}
''', "a block that is higher than wide with a neighbour to its right", "the transform size of the lower part is not recorded for the contexts of later blocks", extra=CDFS)

seed("decoded_beyond_tile", "V07", [(TG + "tile_group.go", "sbWidth4 := (state.MiColEnd - c) >> subX", "sbWidth4 := (state.MiCols - c) >> subX")], "tilegroup", HEAD + '''
func TestDemo(t *testing.T) {
	tg, s, _ := prepare(1)
	s.MiColEnd = 16
	sh := sequenceheader.SequenceHeader{}
	sh.ColorConfig.NumPlanes = 1
	tg.clearBlockDecodedFlags(16, 0, 16, s, sh)
	above := s.BlockDecoded[0][decodedIndex(-1)]
	if !above[15] || above[16] {
		t.Fatal("the samples above and right of the tile must not be available")
	}
}
''', "two tile columns and a block in the last superblock column of the first one", "intra prediction uses samples above and to the right that belong to the next tile", extra=CDFS)

