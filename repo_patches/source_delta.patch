From 20ea01bc9570995903b41b4c2be46e9297b550a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:32 +0000
Subject: [PATCH 001/152] fix: break the uncompressedheader/tilegroup import
 cycle

The two load_*_params stubs are called by load_previous(), so they live in
uncompressedheader; tilegroup already imports that package. Six packages
did not compile before.
---
 internal/tilegroup/decode_frame_wrapup.go        | 16 ++--------------
 .../uncompressedheader/uncompressed_header.go    | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index 3bff199..50c9f9a 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -268,18 +268,6 @@ func (t *TileGroup) referenceFrameLoadingProcess(state *state.State, u *uncompre
 		u.LoadGrainParams(u.FrameToShowMapIdx)
 	}
 
-	LoadLoopFilterParams(u.FrameToShowMapIdx)
-	LoadSegmentationParams(u.FrameToShowMapIdx)
-}
-
-// load_loop_filter_params( i )
-func LoadLoopFilterParams(i int) {
-	panic("not implemented")
-
-}
-
-// load_segmentation_params( i )
-func LoadSegmentationParams(i int) {
-	panic("not implemented")
-
+	uncompressedheader.LoadLoopFilterParams(u.FrameToShowMapIdx)
+	uncompressedheader.LoadSegmentationParams(u.FrameToShowMapIdx)
 }
diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index a26a0d5..8165019 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -6,7 +6,6 @@ import (
 	"github.com/m4tthewde/gov1/internal/sequenceheader"
 	"github.com/m4tthewde/gov1/internal/shared"
 	"github.com/m4tthewde/gov1/internal/state"
-	"github.com/m4tthewde/gov1/internal/tilegroup"
 	"github.com/m4tthewde/gov1/internal/tileinfo"
 	"github.com/m4tthewde/gov1/internal/util"
 )
@@ -631,12 +630,22 @@ func (u *UncompressedHeader) setupPastIndependence(s *state.State) {
 func (u *UncompressedHeader) loadPrevious(state *state.State) {
 	prevFrame := u.RefFrameIdx[u.PrimaryRefFrame]
 	state.PrevGmParams = state.SavedGmParams[prevFrame]
-	tilegroup.LoadLoopFilterParams(prevFrame)
-	tilegroup.LoadSegmentationParams(prevFrame)
+	LoadLoopFilterParams(prevFrame)
+	LoadSegmentationParams(prevFrame)
 
 	panic("not implemented")
 }
 
+// load_loop_filter_params( i )
+func LoadLoopFilterParams(i int) {
+	panic("not implemented")
+}
+
+// load_segmentation_params( i )
+func LoadSegmentationParams(i int) {
+	panic("not implemented")
+}
+
 func (u *UncompressedHeader) motionFieldEstimation() {
 	panic("not implemented")
 }
-- 
2.43.0


From e5dc255961290b43b8ca40b0791d087809e3bb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:32 +0000
Subject: [PATCH 002/152] fix: Round2Signed rounds its argument, not the
 constant 2

---
 internal/util/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 688fa5f..3561505 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -94,7 +94,7 @@ func Round2(x int, n int) int {
 
 func Round2Signed(x int, n int) int {
 	if x >= 0 {
-		return Round2(2, n)
+		return Round2(x, n)
 	} else {
 		return -Round2(-x, n)
 	}
-- 
2.43.0


From 4f96d15b59fdaf9673fff26938e06e1118540380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:32 +0000
Subject: [PATCH 003/152] fix: Clip1 clips its argument to the largest sample
 of the bit depth

---
 internal/util/util.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 3561505..d224c53 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -1,7 +1,6 @@
 package util
 
 import (
-	"math"
 	"sort"
 
 	"github.com/m4tthewde/gov1/internal/shared"
@@ -123,7 +122,7 @@ func Clip3(x int, y int, z int) int {
 }
 
 func Clip1(x int, bitDepth int) int {
-	return Clip3(0, int(math.Pow(2, float64(bitDepth)-1)), 2)
+	return Clip3(0, (1<<bitDepth)-1, x)
 }
 
 func NegDeinterleave(diff int, ref int, max int) int {
-- 
2.43.0


From 318764f5b4f0db9bc03ddf11a90f6d4464c94430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:32 +0000
Subject: [PATCH 004/152] fix: NegDeinterleave follows neg_deinterleave() of
 the specification

---
 internal/util/util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index d224c53..85d68db 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -126,7 +126,7 @@ func Clip1(x int, bitDepth int) int {
 }
 
 func NegDeinterleave(diff int, ref int, max int) int {
-	if !(ref == 1) {
+	if ref == 0 {
 		return diff
 	}
 
@@ -152,7 +152,7 @@ func NegDeinterleave(diff int, ref int, max int) int {
 				return ref - (diff >> 1)
 			}
 		}
-		return max - diff + 1
+		return max - (diff + 1)
 	}
 }
 
-- 
2.43.0


From 353513bd371989cd1461a0443b06f8aeabbab062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:32 +0000
Subject: [PATCH 005/152] fix: Cos128 selects the quadrant of the angle

---
 internal/util/util.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 85d68db..8022edf 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -223,17 +223,17 @@ var Cos128_Lookup = []int{
 
 func Cos128(angle int) int {
 	angle2 := angle & 255
-	if angle2 >= 0 || angle2 <= 64 {
+	if angle2 <= 64 {
 		return Cos128_Lookup[angle2]
 	}
-	if angle2 >= 64 || angle2 <= 128 {
+	if angle2 <= 128 {
 		return Cos128_Lookup[128-angle2] * -1
 	}
-	if angle2 >= 128 || angle2 <= 192 {
+	if angle2 <= 192 {
 		return Cos128_Lookup[angle2-128] * -1
 	}
 
-	return Cos128_Lookup[256-angle2] * -1
+	return Cos128_Lookup[256-angle2]
 }
 
 func Sin128(angle int) int {
-- 
2.43.0


From 5305087bfb128967092c49101bd5c24b35d8b6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:32 +0000
Subject: [PATCH 006/152] fix: Brev reverses every bit

---
 internal/util/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 8022edf..5e03490 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -243,7 +243,7 @@ func Sin128(angle int) int {
 func Brev(numBits int, x int) int {
 	t := 0
 	for i := 0; i < numBits; i++ {
-		bit := (x >> 1) & 1
+		bit := (x >> i) & 1
 		t += bit << (numBits - 1 - i)
 	}
 
-- 
2.43.0


From dc3b9d29c21101ca825513937cfca24db7a7de79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:32 +0000
Subject: [PATCH 007/152] fix: first weight of the 32 sample OBMC mask

---
 internal/util/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 5e03490..921c22f 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -200,7 +200,7 @@ var Obmc_Mask_4 = []int{39, 50, 59, 64}
 var Obmc_Mask_8 = []int{36, 42, 48, 53, 57, 61, 64, 64}
 var Obmc_Mask_16 = []int{34, 37, 40, 43, 46, 49, 52, 54, 56, 58, 60, 61, 64, 64, 64, 64}
 var Obmc_Mask_32 = []int{
-	3, 35, 36, 38, 40, 41, 43, 44,
+	33, 35, 36, 38, 40, 41, 43, 44,
 	45, 47, 48, 50, 51, 52, 53, 55,
 	56, 57, 58, 59, 60, 60, 61, 62,
 	64, 64, 64, 64, 64, 64, 64, 64,
-- 
2.43.0


From 1fd6df4f6dfa60f87ab68f94f972c3919f0f5d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:16 +0000
Subject: [PATCH 008/152] fix: seq_level_idx is 5 bits per operating point, and
 leads only a reduced still picture header

---
 internal/sequenceheader/sequence_header.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/sequenceheader/sequence_header.go b/internal/sequenceheader/sequence_header.go
index f56b718..94250cf 100644
--- a/internal/sequenceheader/sequence_header.go
+++ b/internal/sequenceheader/sequence_header.go
@@ -110,7 +110,10 @@ func NewSequenceHeader(b *bitstream.BitStream, state *state.State) SequenceHeade
 
 	operatingPointIdcArray := []int{0}
 
-	s.SeqLevelIdx = []int{b.F(5)}
+	s.SeqLevelIdx = []int{0}
+	if s.ReducedStillPictureHeader {
+		s.SeqLevelIdx[0] = b.F(5)
+	}
 	s.SeqTier = []int{0}
 	s.DecoderModelPresentForThisOp = []bool{false}
 	s.InitialDisplayDelayPresentForThisOp = []bool{false}
@@ -136,7 +139,7 @@ func NewSequenceHeader(b *bitstream.BitStream, state *state.State) SequenceHeade
 
 			for i := 0; i <= s.OperatingPointsCountMinusOne; i++ {
 				operatingPointIdcArray[i] = b.F(12)
-				s.SeqLevelIdx[i] = b.F(12)
+				s.SeqLevelIdx[i] = b.F(5)
 
 				if s.SeqLevelIdx[i] > 7 {
 					s.SeqTier[i] = b.F(1)
-- 
2.43.0


From cba1aa32953cfbeaf67999f4b2350ebf15863877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:16 +0000
Subject: [PATCH 009/152] fix: size the per operating point arrays, more than
 one operating point ran out of bounds

---
 internal/sequenceheader/sequence_header.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/sequenceheader/sequence_header.go b/internal/sequenceheader/sequence_header.go
index 94250cf..f1a27f3 100644
--- a/internal/sequenceheader/sequence_header.go
+++ b/internal/sequenceheader/sequence_header.go
@@ -137,6 +137,17 @@ func NewSequenceHeader(b *bitstream.BitStream, state *state.State) SequenceHeade
 			s.InitialDisplayDelayPresent = util.Bool(b.F(1))
 			s.OperatingPointsCountMinusOne = b.F(5)
 
+			n := s.OperatingPointsCountMinusOne + 1
+			operatingPointIdcArray = make([]int, n)
+			s.SeqLevelIdx = make([]int, n)
+			s.SeqTier = make([]int, n)
+			s.DecoderModelPresentForThisOp = make([]bool, n)
+			s.InitialDisplayDelayPresentForThisOp = make([]bool, n)
+			s.InitialDisplayDelayMinusOne = make([]int, n)
+			s.DecoderBufferDelay = make([]int, n)
+			s.EncoderBufferDelay = make([]int, n)
+			s.LowDelayModeFlag = make([]bool, n)
+
 			for i := 0; i <= s.OperatingPointsCountMinusOne; i++ {
 				operatingPointIdcArray[i] = b.F(12)
 				s.SeqLevelIdx[i] = b.F(5)
-- 
2.43.0


From 73a4568aebd505866f224d2fa66581be337905b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:16 +0000
Subject: [PATCH 010/152] fix: keep operating_point_idc in the sequence header,
 frame headers index it

---
 internal/sequenceheader/sequence_header.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/sequenceheader/sequence_header.go b/internal/sequenceheader/sequence_header.go
index f1a27f3..85222a7 100644
--- a/internal/sequenceheader/sequence_header.go
+++ b/internal/sequenceheader/sequence_header.go
@@ -178,6 +178,7 @@ func NewSequenceHeader(b *bitstream.BitStream, state *state.State) SequenceHeade
 		}
 		operatingPoint := chooseOperatingPoint()
 		state.OperatingPointIdc = operatingPointIdcArray[operatingPoint]
+		s.OperatingPointIdc = operatingPointIdcArray
 
 		s.FrameWidthBitsMinusOne = b.F(4)
 		s.FrameHeightBitsMinusOne = b.F(4)
-- 
2.43.0


From a134f8169af65628ca58c826b6992fe9e99e04fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:16 +0000
Subject: [PATCH 011/152] fix: keep seq_choose_integer_mv in the sequence
 header

---
 internal/sequenceheader/sequence_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/sequenceheader/sequence_header.go b/internal/sequenceheader/sequence_header.go
index 85222a7..c44aa2c 100644
--- a/internal/sequenceheader/sequence_header.go
+++ b/internal/sequenceheader/sequence_header.go
@@ -240,9 +240,9 @@ func NewSequenceHeader(b *bitstream.BitStream, state *state.State) SequenceHeade
 			}
 
 			if s.SeqForceScreenContentTools > 0 {
-				seqChooseIntegerMv := b.F(1) != 0
+				s.SeqChooseIntegerMv = b.F(1) != 0
 
-				if seqChooseIntegerMv {
+				if s.SeqChooseIntegerMv {
 					s.SeqForceIntegerMv = 2
 				} else {
 					s.SeqForceIntegerMv = b.F(1)
-- 
2.43.0


From 9550574dae3f44af186259c1c44ecb4bc4bcedf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:16 +0000
Subject: [PATCH 012/152] fix: operating points are coded whether or not timing
 info is present

---
 internal/sequenceheader/sequence_header.go | 70 +++++++++++-----------
 1 file changed, 35 insertions(+), 35 deletions(-)

diff --git a/internal/sequenceheader/sequence_header.go b/internal/sequenceheader/sequence_header.go
index c44aa2c..3ef998b 100644
--- a/internal/sequenceheader/sequence_header.go
+++ b/internal/sequenceheader/sequence_header.go
@@ -133,46 +133,46 @@ func NewSequenceHeader(b *bitstream.BitStream, state *state.State) SequenceHeade
 					FramePresentationTimeLengthMinusOne: b.F(5),
 				}
 			}
+		}
 
-			s.InitialDisplayDelayPresent = util.Bool(b.F(1))
-			s.OperatingPointsCountMinusOne = b.F(5)
-
-			n := s.OperatingPointsCountMinusOne + 1
-			operatingPointIdcArray = make([]int, n)
-			s.SeqLevelIdx = make([]int, n)
-			s.SeqTier = make([]int, n)
-			s.DecoderModelPresentForThisOp = make([]bool, n)
-			s.InitialDisplayDelayPresentForThisOp = make([]bool, n)
-			s.InitialDisplayDelayMinusOne = make([]int, n)
-			s.DecoderBufferDelay = make([]int, n)
-			s.EncoderBufferDelay = make([]int, n)
-			s.LowDelayModeFlag = make([]bool, n)
-
-			for i := 0; i <= s.OperatingPointsCountMinusOne; i++ {
-				operatingPointIdcArray[i] = b.F(12)
-				s.SeqLevelIdx[i] = b.F(5)
-
-				if s.SeqLevelIdx[i] > 7 {
-					s.SeqTier[i] = b.F(1)
-				} else {
-					s.SeqTier[i] = 0
-				}
-				if s.DecoderModelInfoPresent {
-					s.DecoderModelPresentForThisOp[i] = util.Bool(b.F(1))
+		s.InitialDisplayDelayPresent = util.Bool(b.F(1))
+		s.OperatingPointsCountMinusOne = b.F(5)
+
+		n := s.OperatingPointsCountMinusOne + 1
+		operatingPointIdcArray = make([]int, n)
+		s.SeqLevelIdx = make([]int, n)
+		s.SeqTier = make([]int, n)
+		s.DecoderModelPresentForThisOp = make([]bool, n)
+		s.InitialDisplayDelayPresentForThisOp = make([]bool, n)
+		s.InitialDisplayDelayMinusOne = make([]int, n)
+		s.DecoderBufferDelay = make([]int, n)
+		s.EncoderBufferDelay = make([]int, n)
+		s.LowDelayModeFlag = make([]bool, n)
+
+		for i := 0; i <= s.OperatingPointsCountMinusOne; i++ {
+			operatingPointIdcArray[i] = b.F(12)
+			s.SeqLevelIdx[i] = b.F(5)
+
+			if s.SeqLevelIdx[i] > 7 {
+				s.SeqTier[i] = b.F(1)
+			} else {
+				s.SeqTier[i] = 0
+			}
+			if s.DecoderModelInfoPresent {
+				s.DecoderModelPresentForThisOp[i] = util.Bool(b.F(1))
 
-					if s.DecoderModelPresentForThisOp[i] {
-						s.operatingParametersInfo(b, i)
-					}
-				} else {
-					s.DecoderModelPresentForThisOp[i] = false
+				if s.DecoderModelPresentForThisOp[i] {
+					s.operatingParametersInfo(b, i)
 				}
+			} else {
+				s.DecoderModelPresentForThisOp[i] = false
+			}
 
-				if s.InitialDisplayDelayPresent {
-					s.InitialDisplayDelayPresentForThisOp[i] = util.Bool(b.F(1))
+			if s.InitialDisplayDelayPresent {
+				s.InitialDisplayDelayPresentForThisOp[i] = util.Bool(b.F(1))
 
-					if s.InitialDisplayDelayPresentForThisOp[i] {
-						s.InitialDisplayDelayMinusOne[i] = b.F(4)
-					}
+				if s.InitialDisplayDelayPresentForThisOp[i] {
+					s.InitialDisplayDelayMinusOne[i] = b.F(4)
 				}
 			}
 		}
-- 
2.43.0


From e8a53113d7449e1e82189f7d022e38d3caf57603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:16 +0000
Subject: [PATCH 013/152] fix: a reduced still picture header also codes frame
 size and coding tools

---
 internal/sequenceheader/sequence_header.go | 129 +++++++++++----------
 1 file changed, 65 insertions(+), 64 deletions(-)

diff --git a/internal/sequenceheader/sequence_header.go b/internal/sequenceheader/sequence_header.go
index 3ef998b..3314907 100644
--- a/internal/sequenceheader/sequence_header.go
+++ b/internal/sequenceheader/sequence_header.go
@@ -176,84 +176,85 @@ func NewSequenceHeader(b *bitstream.BitStream, state *state.State) SequenceHeade
 				}
 			}
 		}
-		operatingPoint := chooseOperatingPoint()
-		state.OperatingPointIdc = operatingPointIdcArray[operatingPoint]
-		s.OperatingPointIdc = operatingPointIdcArray
+	}
+
+	operatingPoint := chooseOperatingPoint()
+	state.OperatingPointIdc = operatingPointIdcArray[operatingPoint]
+	s.OperatingPointIdc = operatingPointIdcArray
 
-		s.FrameWidthBitsMinusOne = b.F(4)
-		s.FrameHeightBitsMinusOne = b.F(4)
+	s.FrameWidthBitsMinusOne = b.F(4)
+	s.FrameHeightBitsMinusOne = b.F(4)
 
-		n := s.FrameWidthBitsMinusOne + 1
-		s.MaxFrameWidthMinusOne = b.F(n)
+	n := s.FrameWidthBitsMinusOne + 1
+	s.MaxFrameWidthMinusOne = b.F(n)
 
-		n = s.FrameHeightBitsMinusOne + 1
-		s.MaxFrameHeightMinusOne = b.F(n)
+	n = s.FrameHeightBitsMinusOne + 1
+	s.MaxFrameHeightMinusOne = b.F(n)
 
+	s.FrameIdNumbersPresent = false
+
+	if s.ReducedStillPictureHeader {
 		s.FrameIdNumbersPresent = false
+	} else {
+		s.FrameIdNumbersPresent = b.F(1) != 0
+	}
 
-		if s.ReducedStillPictureHeader {
-			s.FrameIdNumbersPresent = false
-		} else {
-			s.FrameIdNumbersPresent = b.F(1) != 0
-		}
+	if s.FrameIdNumbersPresent {
+		s.DeltaFrameIdLengthMinusTwo = b.F(4)
+		s.AdditionalFrameIdLengthMinusOne = b.F(3)
+	}
 
-		if s.FrameIdNumbersPresent {
-			s.DeltaFrameIdLengthMinusTwo = b.F(4)
-			s.AdditionalFrameIdLengthMinusOne = b.F(3)
-		}
+	s.Use128x128SuperBlock = b.F(1) != 0
+	s.EnableFilterIntra = b.F(1) != 0
+	s.EnableIntraEdgeFilter = b.F(1) != 0
+	s.EnableInterIntraCompound = false
+	s.EnableMaskedCompound = false
+	s.EnableWarpedMotion = false
+	s.EnableDualFilter = false
+	s.EnableOrderHint = false
+	s.EnableJntComp = false
+	s.EnableRefFrameMvs = false
 
-		s.Use128x128SuperBlock = b.F(1) != 0
-		s.EnableFilterIntra = b.F(1) != 0
-		s.EnableIntraEdgeFilter = b.F(1) != 0
-		s.EnableInterIntraCompound = false
-		s.EnableMaskedCompound = false
-		s.EnableWarpedMotion = false
-		s.EnableDualFilter = false
-		s.EnableOrderHint = false
-		s.EnableJntComp = false
-		s.EnableRefFrameMvs = false
-
-		// SELECT_SCREEN_CONTENT_TOOLS
-		s.SeqForceScreenContentTools = 2
-
-		// SELECT_INTEGER_MV
-		s.SeqForceIntegerMv = 2
-
-		s.OrderHintBits = 0
-
-		if !s.ReducedStillPictureHeader {
-			s.EnableInterIntraCompound = b.F(1) != 0
-			s.EnableMaskedCompound = b.F(1) != 0
-			s.EnableWarpedMotion = b.F(1) != 0
-			s.EnableDualFilter = b.F(1) != 0
-			s.EnableOrderHint = b.F(1) != 0
-			if s.EnableOrderHint {
-				s.EnableJntComp = b.F(1) != 0
-				s.EnableRefFrameMvs = b.F(1) != 0
-			}
+	// SELECT_SCREEN_CONTENT_TOOLS
+	s.SeqForceScreenContentTools = 2
 
-			s.SeqChooseScreenContentTools = b.F(1) != 0
-			if s.SeqChooseScreenContentTools {
-				s.SeqForceScreenContentTools = 2
-			} else {
-				s.SeqForceScreenContentTools = b.F(1)
-			}
+	// SELECT_INTEGER_MV
+	s.SeqForceIntegerMv = 2
 
-			if s.SeqForceScreenContentTools > 0 {
-				s.SeqChooseIntegerMv = b.F(1) != 0
+	s.OrderHintBits = 0
 
-				if s.SeqChooseIntegerMv {
-					s.SeqForceIntegerMv = 2
-				} else {
-					s.SeqForceIntegerMv = b.F(1)
-				}
-			} else {
+	if !s.ReducedStillPictureHeader {
+		s.EnableInterIntraCompound = b.F(1) != 0
+		s.EnableMaskedCompound = b.F(1) != 0
+		s.EnableWarpedMotion = b.F(1) != 0
+		s.EnableDualFilter = b.F(1) != 0
+		s.EnableOrderHint = b.F(1) != 0
+		if s.EnableOrderHint {
+			s.EnableJntComp = b.F(1) != 0
+			s.EnableRefFrameMvs = b.F(1) != 0
+		}
+
+		s.SeqChooseScreenContentTools = b.F(1) != 0
+		if s.SeqChooseScreenContentTools {
+			s.SeqForceScreenContentTools = 2
+		} else {
+			s.SeqForceScreenContentTools = b.F(1)
+		}
+
+		if s.SeqForceScreenContentTools > 0 {
+			s.SeqChooseIntegerMv = b.F(1) != 0
+
+			if s.SeqChooseIntegerMv {
 				s.SeqForceIntegerMv = 2
+			} else {
+				s.SeqForceIntegerMv = b.F(1)
 			}
+		} else {
+			s.SeqForceIntegerMv = 2
+		}
 
-			if s.EnableOrderHint {
-				s.OrderHintBits = b.F(3) + 1
-			}
+		if s.EnableOrderHint {
+			s.OrderHintBits = b.F(3) + 1
 		}
 	}
 
-- 
2.43.0


From 2b204e3ca935d6d738f70916143d74508e293e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 014/152] fix: superblock rows of a 128x128 superblock frame
 come from MiRows

---
 internal/tileinfo/tile_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tileinfo/tile_info.go b/internal/tileinfo/tile_info.go
index 1a9cd19..3bbcf17 100644
--- a/internal/tileinfo/tile_info.go
+++ b/internal/tileinfo/tile_info.go
@@ -22,7 +22,7 @@ func NewTileInfo(sh sequenceheader.SequenceHeader, s *state.State, b *bitstream.
 
 	sbRows := (s.MiRows + 15) >> 4
 	if sh.Use128x128SuperBlock {
-		sbCols = (s.MiRows + 31) >> 5
+		sbRows = (s.MiRows + 31) >> 5
 	}
 
 	sbShift := 4
-- 
2.43.0


From 330e4dbe0e1243c277407e4d0d24af1303c7e936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 015/152] fix: read increment_tile_rows_log2 up to the maximum

---
 internal/tileinfo/tile_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tileinfo/tile_info.go b/internal/tileinfo/tile_info.go
index 3bbcf17..fcf37a4 100644
--- a/internal/tileinfo/tile_info.go
+++ b/internal/tileinfo/tile_info.go
@@ -67,7 +67,7 @@ func NewTileInfo(sh sequenceheader.SequenceHeader, s *state.State, b *bitstream.
 
 		minLog2TileRows := util.Max(minLog2Tiles-s.TileColsLog2, 0)
 		s.TileRowsLog2 = minLog2TileRows
-		for s.TileRowsLog2 > maxLog2TileRows {
+		for s.TileRowsLog2 < maxLog2TileRows {
 			incrementTileRowsLog2 := b.F(1) != 0
 			if incrementTileRowsLog2 {
 				s.TileRowsLog2++
-- 
2.43.0


From b215dee9dd67109eb4874b755b5e2c6cfca64719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 016/152] fix: keep show_existing_frame in the frame header

---
 internal/uncompressedheader/uncompressed_header.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 8165019..35ed944 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -170,9 +170,9 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		u.ShowFrame = true
 		u.ShowableFrame = false
 	} else {
-		showExistingFrame := util.Bool(b.F(1))
+		u.ShowExistingFrame = util.Bool(b.F(1))
 
-		if showExistingFrame {
+		if u.ShowExistingFrame {
 			u.FrameToShowMapIdx = b.F(3)
 
 			if sh.DecoderModelInfoPresent && !sh.TimingInfo.EqualPictureInterval {
@@ -1337,6 +1337,11 @@ func (u *UncompressedHeader) resetGrainParams() {
 
 // decode_frame_wrapup()
 func (u *UncompressedHeader) DecodeFrameWrapup() {
+	if u.ShowExistingFrame && u.FrameType != shared.KEY_FRAME {
+		// the frame is only output again, no state changes
+		return
+	}
+
 	panic("not implemented")
 }
 
-- 
2.43.0


From 5d028bbb56be5423b849493b151609203c43a454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 017/152] fix: show_existing_frame sets refresh_frame_flags

---
 internal/uncompressedheader/uncompressed_header.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 35ed944..7d4178e 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -25,7 +25,6 @@ type UncompressedHeader struct {
 	ShowableFrame              bool
 	ShowFrame                  bool
 	FrameType                  int
-	RefreshImageFlags          int
 	DisplayFrameId             int
 	FrameIdNumbersPresent      bool
 	AllowHighPrecisionMv       bool
@@ -179,7 +178,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 				u.TemporalPointInfo(sh, b)
 			}
 
-			u.RefreshImageFlags = 0
+			u.RefreshFrameFlags = 0
 			if sh.FrameIdNumbersPresent {
 				u.DisplayFrameId = b.F(idLen)
 			}
@@ -187,7 +186,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 			u.FrameType = s.RefFrameType[u.FrameToShowMapIdx]
 
 			if u.FrameType == shared.KEY_FRAME {
-				u.RefreshImageFlags = allFrames
+				u.RefreshFrameFlags = allFrames
 			}
 
 			if sh.FilmGrainParamsPresent {
-- 
2.43.0


From 3822a1314295a4e0f1da49d2817405b0b1e3925d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 018/152] fix: take forced screen content tools and integer mv
 from the sequence header

---
 internal/uncompressedheader/uncompressed_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 7d4178e..18380ed 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -235,14 +235,14 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 	if sh.SeqForceScreenContentTools == 2 {
 		u.AllowScreenContentTools = b.F(1)
 	} else {
-		u.AllowScreenContentTools = 1
+		u.AllowScreenContentTools = sh.SeqForceScreenContentTools
 	}
 
 	if util.Bool(u.AllowScreenContentTools) {
 		if sh.SeqForceIntegerMv == 2 {
 			u.ForceIntegerMv = util.Bool(b.F(1))
 		} else {
-			u.ForceIntegerMv = true
+			u.ForceIntegerMv = util.Bool(sh.SeqForceIntegerMv)
 		}
 	} else {
 		u.ForceIntegerMv = false
-- 
2.43.0


From 2cb2ba27f3a08a64a4a9a46a0574dd2161e75907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 019/152] fix: a shown key frame invalidates the stored
 references

---
 internal/uncompressedheader/uncompressed_header.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 18380ed..f7bf4f3 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -154,10 +154,6 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 
 	var errorResilientMode bool
 
-	var refValid [shared.NUM_REF_FRAMES]int
-	var refOrderHint [shared.NUM_REF_FRAMES]int
-	var orderHints [shared.REFS_PER_FRAME]int
-
 	bufferRemovalTime := []int{}
 
 	allFrames := ((1 << shared.NUM_REF_FRAMES) - 1)
@@ -221,12 +217,12 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 
 	if u.FrameType == 0 && u.ShowFrame {
 		for i := 0; i < shared.NUM_REF_FRAMES; i++ {
-			refValid[i] = 0
-			refOrderHint[i] = 0
+			s.RefValid[i] = 0
+			s.RefOrderHint[i] = 0
 		}
 
 		for i := 0; i < shared.REFS_PER_FRAME; i++ {
-			orderHints[shared.LAST_FRAME+1] = 0
+			u.OrderHints[shared.LAST_FRAME+i] = 0
 		}
 	}
 
-- 
2.43.0


From 5e9edda4b721cd0efcf4513563471e713d1d70c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 020/152] fix: reading buffer_removal_time ran out of bounds
 and tested the wrong spatial layer bit

---
 internal/uncompressedheader/uncompressed_header.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index f7bf4f3..394018e 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -154,8 +154,6 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 
 	var errorResilientMode bool
 
-	bufferRemovalTime := []int{}
-
 	allFrames := ((1 << shared.NUM_REF_FRAMES) - 1)
 	if sh.ReducedStillPictureHeader {
 		u.ShowExistingFrame = false
@@ -282,11 +280,12 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 				if sh.DecoderModelPresentForThisOp[opNum] {
 					opPtIdc := sh.OperatingPointIdc[opNum]
 					inTemporalLayer := ((opPtIdc >> h.ExtensionHeader.TemporalID) & 1) != 0
-					inSpatialLayer := ((opPtIdc >> h.ExtensionHeader.SpatialID) & 1) != 0
+					inSpatialLayer := ((opPtIdc >> (h.ExtensionHeader.SpatialID + 8)) & 1) != 0
 
 					if opPtIdc == 0 || (inTemporalLayer && inSpatialLayer) {
 						n := sh.DecoderModelInfo.BufferRemovalTimeLengthMinusOne + 1
-						bufferRemovalTime[opNum] = b.F(n)
+						// buffer_removal_time[ opNum ]
+						b.F(n)
 					}
 				}
 			}
-- 
2.43.0


From 0517703b6da01017e0d588385f3e1294d3f93b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 021/152] fix: refresh_frame_flags is implied for switch and
 shown key frames only

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 394018e..a02d07e 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -296,7 +296,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 
 	u.UseRefFrameMvs = false
 
-	if u.FrameType == 3 || u.FrameType == 0 || u.ShowFrame {
+	if u.FrameType == 3 || u.FrameType == 0 && u.ShowFrame {
 		u.RefreshFrameFlags = allFrames
 	} else {
 		u.RefreshFrameFlags = b.F(8)
-- 
2.43.0


From d9aeadda59c67a40b2547f0aac6d1d1d0b6b6281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 022/152] fix: reading ref_order_hint ran out of bounds

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index a02d07e..903f85f 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -292,7 +292,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		}
 	}
 
-	ref_order_hint := []int{}
+	var ref_order_hint [shared.NUM_REF_FRAMES]int
 
 	u.UseRefFrameMvs = false
 
-- 
2.43.0


From bea395dbb8e402b230dbaedeae8aa8005b254194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 023/152] fix: reading delta_frame_id ran out of bounds

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 903f85f..ef2d3bb 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -314,7 +314,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		}
 	}
 
-	expectedFrameId := []int{}
+	var expectedFrameId [shared.REFS_PER_FRAME]int
 
 	if u.FrameIsIntra {
 		u.frameSize(b, s, sh)
-- 
2.43.0


From 8edcbe323d4fa9e129068633570b40fdbd004a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 024/152] fix: ref_frame_idx is coded once per reference

---
 internal/uncompressedheader/uncompressed_header.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index ef2d3bb..8aef1ae 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -340,7 +340,6 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		for i := 0; i < shared.REFS_PER_FRAME; i++ {
 			if !frameRefsShortSignaling {
 				u.RefFrameIdx[i] = b.F(3)
-				u.RefFrameIdx[i] = b.F(3)
 			}
 
 			if sh.FrameIdNumbersPresent {
-- 
2.43.0


From 8a03f4faacd44f991809334d314bd2960aa8223e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 025/152] fix: derive order hint and sign bias of every
 reference frame

---
 internal/uncompressedheader/uncompressed_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 8aef1ae..96eb93e 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -135,7 +135,7 @@ type UncompressedHeader struct {
 	ClipToRestrictedRange bool
 	RefreshFrameFlags     int
 	FrameToShowMapIdx     int
-	RefFrameSignBias      [3]bool
+	RefFrameSignBias      [shared.ALTREF_FRAME + 1]bool
 }
 
 func NewUncompressedHeader(h header.Header, sh sequenceheader.SequenceHeader, b *bitstream.BitStream, s *state.State) UncompressedHeader {
@@ -375,7 +375,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		}
 
 		for i := 0; i < shared.REFS_PER_FRAME; i++ {
-			refFrame := shared.LAST_FRAME + 1
+			refFrame := shared.LAST_FRAME + i
 			hint := s.RefOrderHint[u.RefFrameIdx[i]]
 			u.OrderHints[refFrame] = hint
 			if !sh.EnableOrderHint {
-- 
2.43.0


From 1dc194fcc3fd5f1a33dcd413a481e7c0c84f7c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 026/152] fix: set EnableOrderHint, relative distances were
 always 0

---
 internal/uncompressedheader/uncompressed_header.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 96eb93e..ee3bcdf 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -152,6 +152,9 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 			sh.DeltaFrameIdLengthMinusTwo + 3
 	}
 
+	u.EnableOrderHint = sh.EnableOrderHint
+	u.OrderHintBits = sh.OrderHintBits
+
 	var errorResilientMode bool
 
 	allFrames := ((1 << shared.NUM_REF_FRAMES) - 1)
-- 
2.43.0


From 5aae9f89fd062d0b33584cd17ba3d1dc79d72fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 027/152] fix: render height defaults to the frame height

---
 internal/uncompressedheader/uncompressed_header.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index ee3bcdf..340e915 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -53,7 +53,6 @@ type UncompressedHeader struct {
 	FrameWidth                 int
 	FrameHeight                int
 	UpscaledWidth              int
-	UpscaledHeight             int
 	FrameSizeOverrideFlag      bool
 	DeltaQYDc                  int
 	DeltaQUAc                  int
@@ -548,7 +547,7 @@ func (u *UncompressedHeader) renderSize(b *bitstream.BitStream) {
 		u.RenderHeight = renderHeightMinusOne + 1
 	} else {
 		u.RenderWidth = u.UpscaledWidth
-		u.RenderHeight = u.UpscaledHeight
+		u.RenderHeight = u.FrameHeight
 	}
 }
 
-- 
2.43.0


From 1f818f734a2597ad111a64f064b608316a341780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 028/152] fix: chroma planes use their own quantizer matrix
 level

---
 internal/uncompressedheader/uncompressed_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 340e915..e0984e6 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -437,8 +437,8 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 				u.SegQMLevel[2][segmentId] = 15
 			} else {
 				u.SegQMLevel[0][segmentId] = u.Qmy
-				u.SegQMLevel[1][segmentId] = u.Qmy
-				u.SegQMLevel[2][segmentId] = u.Qmy
+				u.SegQMLevel[1][segmentId] = u.Qmu
+				u.SegQMLevel[2][segmentId] = u.Qmv
 			}
 		}
 	}
-- 
2.43.0


From c1862534e355e54b8d74c1b3d6e1fab5ed90ca24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 029/152] fix: unsigned segmentation features are read unsigned

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index e0984e6..1171d34 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -736,7 +736,7 @@ func (u *UncompressedHeader) segmentationParams(b *bitstream.BitStream, s *state
 							featureValue = b.Su(1 + bitsToRead)
 							clippedValue = util.Clip3(-limit, limit, featureValue)
 						} else {
-							featureValue = b.Su(bitsToRead)
+							featureValue = b.F(bitsToRead)
 							clippedValue = util.Clip3(0, limit, featureValue)
 
 						}
-- 
2.43.0


From 3025b0a0e950e1f270879727185b79c2c44451bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 030/152] fix: both luma loop filter levels are 0 without a
 coded loop filter

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 1171d34..736753c 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -838,7 +838,7 @@ func (u *UncompressedHeader) segFeatureActiveIdx(idx int, feature int, s *state.
 func (u *UncompressedHeader) loopFilterParams(b *bitstream.BitStream, sh sequenceheader.SequenceHeader) {
 	if u.CodedLossless || u.AllowIntraBc {
 		u.LoopFilterLevel[0] = 0
-		u.LoopFilterLevel[1] = 1
+		u.LoopFilterLevel[1] = 0
 		u.LoopFilterRefDeltas[shared.INTRA_FRAME] = 1
 		u.LoopFilterRefDeltas[shared.LAST_FRAME] = 0
 		u.LoopFilterRefDeltas[shared.LAST2_FRAME] = 0
-- 
2.43.0


From eec8ce97f444385c6425a3ece65c65762889f0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 031/152] fix: loop_filter_sharpness is 3 bits

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 736753c..691b837 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -864,7 +864,7 @@ func (u *UncompressedHeader) loopFilterParams(b *bitstream.BitStream, sh sequenc
 		}
 	}
 
-	u.LoopFilterSharpness = b.F(6)
+	u.LoopFilterSharpness = b.F(3)
 	u.LoopFilterDeltaEnabled = util.Bool(b.F(1))
 
 	if u.LoopFilterDeltaEnabled {
-- 
2.43.0


From c0cc3d82c7e855d8325de24a7601279dc52141e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 032/152] fix: skip mode is for compound frames, with the
 closest backward reference

---
 internal/uncompressedheader/uncompressed_header.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 691b837..8224059 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -85,7 +85,7 @@ type UncompressedHeader struct {
 	RefFrameIdx                [7]int
 	OrderHint                  int
 	OrderHints                 [8]int
-	SkipModeFrame              []int
+	SkipModeFrame              [2]int
 	SkipModePresent            int
 	SegQMLevel                 [3][shared.MAX_SEGMENTS]int
 	DisableCdfUpdate           bool
@@ -1010,7 +1010,7 @@ func (u *UncompressedHeader) skipModeParams(state *state.State, b *bitstream.Bit
 	var skipModeAllowed = 0
 	var forwardHint int
 	var backwardHint int
-	if u.FrameIsIntra || u.ReferenceSelect || u.EnableOrderHint {
+	if u.FrameIsIntra || !u.ReferenceSelect || !u.EnableOrderHint {
 		skipModeAllowed = 0
 	} else {
 		forwardIdx := -1
@@ -1025,7 +1025,7 @@ func (u *UncompressedHeader) skipModeParams(state *state.State, b *bitstream.Bit
 					forwardHint = refHint
 				}
 			} else if u.GetRelativeDist(refHint, u.OrderHint, sh) > 0 {
-				if backwardIdx < 0 || u.GetRelativeDist(refHint, backwardHint, sh) > 0 {
+				if backwardIdx < 0 || u.GetRelativeDist(refHint, backwardHint, sh) < 0 {
 					backwardIdx = i
 					backwardHint = refHint
 				}
-- 
2.43.0


From e59557e6b302ba7a4f54c61fbf8c85a585d07809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 033/152] fix: read the global motion parameters

---
 .../uncompressedheader/uncompressed_header.go | 28 +++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 8224059..5284120 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -1106,6 +1106,24 @@ func (u *UncompressedHeader) globalMotionParams(b *bitstream.BitStream, s *state
 			typ = shared.IDENTITY
 		}
 		s.GmType[ref] = typ
+
+		if typ >= shared.ROTZOOM {
+			u.readGlobalParam(typ, ref, 2, b, s)
+			u.readGlobalParam(typ, ref, 3, b, s)
+
+			if typ == shared.AFFINE {
+				u.readGlobalParam(typ, ref, 4, b, s)
+				u.readGlobalParam(typ, ref, 5, b, s)
+			} else {
+				u.GmParams[ref][4] = -u.GmParams[ref][3]
+				u.GmParams[ref][5] = u.GmParams[ref][2]
+			}
+		}
+
+		if typ >= shared.TRANSLATION {
+			u.readGlobalParam(typ, ref, 0, b, s)
+			u.readGlobalParam(typ, ref, 1, b, s)
+		}
 	}
 
 }
@@ -1142,10 +1160,16 @@ func (u *UncompressedHeader) readGlobalParam(typ int, ref int, idx int, b *bitst
 
 	mx := 1 << absBits
 	r := (s.PrevGmParams[ref][idx] >> precDiff) - sub
-	u.GmParams[ref][idx] = (u.decodeSignedSubexpWithRef(mx, r, b) << precDiff) + round
+	u.GmParams[ref][idx] = (u.decodeSignedSubexpWithRef(-mx, mx+1, r, b) << precDiff) + round
+}
+
+// decode_signed_subexp_with_ref( low, high, r )
+func (u *UncompressedHeader) decodeSignedSubexpWithRef(low int, high int, r int, b *bitstream.BitStream) int {
+	return u.decodeUnsignedSubexpWithRef(high-low, r-low, b) + low
 }
 
-func (u *UncompressedHeader) decodeSignedSubexpWithRef(mx int, r int, b *bitstream.BitStream) int {
+// decode_unsigned_subexp_with_ref( mx, r )
+func (u *UncompressedHeader) decodeUnsignedSubexpWithRef(mx int, r int, b *bitstream.BitStream) int {
 	v := u.decodeSubexp(mx, b)
 	if (r << 1) <= mx {
 		return util.InverseRecenter(r, v)
-- 
2.43.0


From 02e6eb2f9c5a1bdc18ff9eacb118615e34c2bb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:01 +0000
Subject: [PATCH 034/152] fix: frame ids are kept across frames, frames with
 frame ids crashed

---
 internal/state/state.go                            |  2 ++
 internal/tilegroup/decode_frame_wrapup.go          |  4 +++-
 internal/uncompressedheader/uncompressed_header.go | 11 ++++++-----
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index bc3aaf0..5eaf687 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -21,6 +21,8 @@ type State struct {
 	PrevGmParams      [shared.ALTREF_FRAME + 1][6]int
 	PrevSegmentIds    [][]int
 	RefFrameType      [shared.NUM_REF_FRAMES]int
+	CurrentFrameId    int
+	RefFrameId        [shared.NUM_REF_FRAMES]int
 	CurrentQIndex     int
 	OperatingPointIdc int
 	MiColStart        int
diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index 50c9f9a..a719ef6 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -107,6 +107,7 @@ func (t *TileGroup) referenceFrameUpdate(state *state.State, uh uncompressedhead
 	for i := 0; i < shared.NUM_REF_FRAMES; i++ {
 		if ((uh.RefreshFrameFlags >> i) & 1) == 1 {
 			state.RefValid[i] = 1
+			state.RefFrameId[i] = uh.CurrentFrameId
 			state.RefUpscaledWidth[i] = uh.UpscaledWidth
 			state.RefFrameWidth[i] = uh.FrameWidth
 			state.RefFrameHeight[i] = uh.FrameHeight
@@ -204,7 +205,8 @@ func saveSegmentationParams(ctx int) {
 func (t *TileGroup) referenceFrameLoadingProcess(state *state.State, u *uncompressedheader.UncompressedHeader, sh *sequenceheader.SequenceHeader) {
 	// where does i really come from?
 	i := u.FrameToShowMapIdx
-	u.CurrentFrameId = u.RefFrameId[i]
+	u.CurrentFrameId = state.RefFrameId[i]
+	state.CurrentFrameId = u.CurrentFrameId
 	u.UpscaledWidth = state.RefUpscaledWidth[u.FrameToShowMapIdx]
 	u.FrameWidth = state.RefFrameWidth[u.FrameToShowMapIdx]
 	u.FrameHeight = state.RefFrameHeight[u.FrameToShowMapIdx]
diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 5284120..3385800 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -68,7 +68,6 @@ type UncompressedHeader struct {
 	InterpolationFilter        int
 	PrevFrameId                int
 	CurrentFrameId             int
-	RefFrameId                 []int
 	TileInfo                   tileinfo.TileInfo
 	FramePresentationTime      int
 	PrimaryRefFrame            int
@@ -249,11 +248,13 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 	}
 
 	if sh.FrameIdNumbersPresent {
-		u.PrevFrameId = u.CurrentFrameId
+		u.PrevFrameId = s.CurrentFrameId
 		u.CurrentFrameId = b.F(idLen)
+		s.CurrentFrameId = u.CurrentFrameId
 		u.markRefFrames(idLen, s, sh)
 	} else {
 		u.CurrentFrameId = 0
+		s.CurrentFrameId = 0
 	}
 
 	if u.FrameType == SWITCH_FRAME {
@@ -470,12 +471,12 @@ func (u *UncompressedHeader) markRefFrames(idLen int, state *state.State, sh seq
 
 	for i := 0; i < shared.NUM_REF_FRAMES; i++ {
 		if u.CurrentFrameId > (1 << diffLen) {
-			if u.RefFrameId[i] > u.CurrentFrameId ||
-				u.RefFrameId[i] < (u.CurrentFrameId-(1<<diffLen)) {
+			if state.RefFrameId[i] > u.CurrentFrameId ||
+				state.RefFrameId[i] < (u.CurrentFrameId-(1<<diffLen)) {
 				state.RefValid[i] = 0
 			}
 		} else {
-			if u.RefFrameId[i] > u.CurrentFrameId && u.RefFrameId[i] < ((1<<idLen)+u.CurrentFrameId-(1<<diffLen)) {
+			if state.RefFrameId[i] > u.CurrentFrameId && state.RefFrameId[i] < ((1<<idLen)+u.CurrentFrameId-(1<<diffLen)) {
 				state.RefValid[i] = 0
 			}
 		}
-- 
2.43.0


From 8c277d0d8e01a258bb366e3187d20432dbbdea10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:01 +0000
Subject: [PATCH 035/152] fix: padding ends with its obu, not at the next zero
 byte

---
 internal/obu/obu.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/internal/obu/obu.go b/internal/obu/obu.go
index d044376..6992879 100644
--- a/internal/obu/obu.go
+++ b/internal/obu/obu.go
@@ -83,6 +83,7 @@ func (o *Obu) build(sz int, b *bitstream.BitStream, state *state.State) {
 	if o.Size > 0 &&
 		o.Header.Type != header.OBU_TILE_GROUP &&
 		o.Header.Type != header.OBU_TILE_LIST &&
+		o.Header.Type != header.OBU_PADDING &&
 		o.Header.Type != header.OBU_FRAME {
 		b.TrailingBits(o.Size*8 - payloadBits)
 	}
@@ -134,10 +135,6 @@ func FrameHeaderCopy() uncompressedheader.UncompressedHeader {
 
 // padding_obu( )
 func (o *Obu) paddingObu(b *bitstream.BitStream) {
-	obuPaddingByte := 1
-	for obuPaddingByte != 0 {
-		obuPaddingByte = b.F(8)
-	}
-
-	b.Position -= 8
+	// the padding and its trailing bits fill the obu
+	b.Position = b.Position + o.Size*8
 }
-- 
2.43.0


From 5f0e14ac583cf2778a4a5445ed5c43350365198c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:01 +0000
Subject: [PATCH 036/152] fix: skip metadata and reserved obus

---
 internal/obu/obu.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/obu/obu.go b/internal/obu/obu.go
index 6992879..6f80be6 100644
--- a/internal/obu/obu.go
+++ b/internal/obu/obu.go
@@ -74,8 +74,12 @@ func (o *Obu) build(sz int, b *bitstream.BitStream, state *state.State) {
 		o.paddingObu(b)
 	case header.OBU_TILE_GROUP:
 		o.TileGroup = tilegroup.NewTileGroup(o.Size, b, state, o.UncompressedHeader, o.SequenceHeader)
-	default:
+	case header.OBU_TILE_LIST:
 		panic("not implemented")
+	default:
+		// metadata does not affect the decoding process, reserved types are ignored
+		b.Position = b.Position + o.Size*8
+		return
 	}
 
 	payloadBits := b.Position - startPosition
-- 
2.43.0


From c223775a5ea13ed85e6a0e599dcd4602f1e07368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:01 +0000
Subject: [PATCH 037/152] fix: decoder state outlives a frame unit

---
 internal/parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 0d9035c..7b91e21 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -16,6 +16,7 @@ type Parser struct {
 	SequenceHeader     sequenceheader.SequenceHeader
 	UncompressedHeader uncompressedheader.UncompressedHeader
 	obus               []obu.Obu
+	state              state.State
 }
 
 func NewParser(b *bitstream.BitStream) Parser {
@@ -38,14 +39,13 @@ func (p *Parser) temporalUnit(sz int) {
 
 // frame_unit( sz )
 func (p *Parser) frameUnit(sz int) {
-	state := state.State{}
 	for sz > 0 {
 		obuLength := p.bitStream.Leb128()
 		sz -= p.bitStream.Leb128Bytes
 
 		logger.Logger.Info("Starting obu parsing process...", zap.Int("sz", sz))
 
-		o := obu.NewObu(obuLength, &state, p.bitStream, p.SequenceHeader, p.UncompressedHeader)
+		o := obu.NewObu(obuLength, &p.state, p.bitStream, p.SequenceHeader, p.UncompressedHeader)
 		p.obus = append(p.obus, o)
 
 		switch o.Header.Type {
-- 
2.43.0


From 3cb5e05430e9773f678254681cc8db6bce65d965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:01 +0000
Subject: [PATCH 038/152] fix: tile groups after a frame obu use its frame
 header

---
 internal/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 7b91e21..007d5b6 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -51,7 +51,7 @@ func (p *Parser) frameUnit(sz int) {
 		switch o.Header.Type {
 		case header.OBU_SEQUENCE_HEADER:
 			p.SequenceHeader = o.SequenceHeader
-		case header.OBU_FRAME_HEADER:
+		case header.OBU_FRAME_HEADER, header.OBU_FRAME:
 			p.UncompressedHeader = o.UncompressedHeader
 		}
 
-- 
2.43.0


From 1177b97143d465f7f3d59e0ee09307614d4f5dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:01 +0000
Subject: [PATCH 039/152] fix: a redundant frame header repeats the previous
 one

---
 internal/obu/obu.go     | 11 +++++++----
 internal/state/state.go |  1 +
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/internal/obu/obu.go b/internal/obu/obu.go
index 6f80be6..7049bab 100644
--- a/internal/obu/obu.go
+++ b/internal/obu/obu.go
@@ -113,11 +113,13 @@ func (o *Obu) newFrame(sz int, b *bitstream.BitStream, state *state.State, h hea
 // frame_header_obu()
 func (o *Obu) ParseFrameHeader(b *bitstream.BitStream, state *state.State, h header.Header, sh sequenceheader.SequenceHeader) uncompressedheader.UncompressedHeader {
 	if state.SeenFrameHeader {
-		return FrameHeaderCopy()
+		return o.FrameHeaderCopy(b, state)
 	} else {
 		state.SeenFrameHeader = true
 
+		startPosition := b.Position
 		uncompressedHeader := uncompressedheader.NewUncompressedHeader(h, sh, b, state)
+		state.FrameHeaderBits = b.Position - startPosition
 
 		if uncompressedHeader.ShowExistingFrame {
 			uncompressedHeader.DecodeFrameWrapup()
@@ -132,9 +134,10 @@ func (o *Obu) ParseFrameHeader(b *bitstream.BitStream, state *state.State, h hea
 }
 
 // frame_header_copy()
-func FrameHeaderCopy() uncompressedheader.UncompressedHeader {
-	panic("not implemented")
-	return uncompressedheader.UncompressedHeader{}
+func (o *Obu) FrameHeaderCopy(b *bitstream.BitStream, state *state.State) uncompressedheader.UncompressedHeader {
+	// the bits repeat those of the frame header
+	b.Position = b.Position + state.FrameHeaderBits
+	return o.UncompressedHeader
 }
 
 // padding_obu( )
diff --git a/internal/state/state.go b/internal/state/state.go
index 5eaf687..a0020f7 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -33,6 +33,7 @@ type State struct {
 	BlockHeight       [shared.MAX_TILE_COLS]int
 
 	SeenFrameHeader bool
+	FrameHeaderBits int
 	RenderWidth     int
 	RenderHeight    int
 	TileNum         int
-- 
2.43.0


From 548eb033fefee6b84e60eb8ff34064e79afdfcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:01 +0000
Subject: [PATCH 040/152] fix: initialise the shared logger once, concurrent
 parsers raced on it

---
 internal/logger/logger.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/logger/logger.go b/internal/logger/logger.go
index abafff2..274e95d 100644
--- a/internal/logger/logger.go
+++ b/internal/logger/logger.go
@@ -1,10 +1,20 @@
 package logger
 
-import "go.uber.org/zap"
+import (
+	"sync"
+
+	"go.uber.org/zap"
+)
 
 var Logger *zap.Logger
 
+var once sync.Once
+
 func Initialize() {
+	once.Do(initialize)
+}
+
+func initialize() {
 	logger, err := zap.NewDevelopment()
 	if err != nil {
 		panic(err)
-- 
2.43.0


From 5e2988764158500ac8e65a68cecab8ffeb7258d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:01 +0000
Subject: [PATCH 041/152] fix: clear_cdef grows its table for every block it
 clears

---
 internal/cdef/cdef.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/internal/cdef/cdef.go b/internal/cdef/cdef.go
index 7d7ec02..56874eb 100644
--- a/internal/cdef/cdef.go
+++ b/internal/cdef/cdef.go
@@ -6,19 +6,23 @@ type Cdef struct {
 }
 
 func (cdef *Cdef) ClearCdef(r int, c int, Use128x128SuperBlock bool, cdefSize4 int) {
-	for cap(cdef.CdefIdx) < r+1 {
+	cdef.clear(r, c)
+
+	if Use128x128SuperBlock {
+		cdef.clear(r, c+cdefSize4)
+		cdef.clear(r+cdefSize4, c)
+		cdef.clear(r+cdefSize4, c+cdefSize4)
+	}
+}
+
+func (cdef *Cdef) clear(r int, c int) {
+	for len(cdef.CdefIdx) < r+1 {
 		cdef.CdefIdx = append(cdef.CdefIdx, make([]int, 0))
 	}
 
-	for cap(cdef.CdefIdx[r]) < c+1 {
+	for len(cdef.CdefIdx[r]) < c+1 {
 		cdef.CdefIdx[r] = append(cdef.CdefIdx[r], 0)
 	}
 
 	cdef.CdefIdx[r][c] = -1
-
-	if Use128x128SuperBlock {
-		cdef.CdefIdx[r][c+cdefSize4] = -1
-		cdef.CdefIdx[r+cdefSize4][c] = -1
-		cdef.CdefIdx[r+cdefSize4][c+cdefSize4] = -1
-	}
 }
-- 
2.43.0


From 788a1113aae7f008485f5ad5fa4b9b121f569905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 042/152] fix: initialising, saving and loading CDFs copies
 them

The arrays were shared, so adapting them in one tile changed the default
tables of the program, the other contexts and the saved references.
---
 internal/state/cdf.go              | 84 ++++++++++++++++++++++++++++++
 internal/tilegroup/tile_group.go   |  2 +
 internal/uncompressedheader/cdf.go |  8 ++-
 3 files changed, 93 insertions(+), 1 deletion(-)
 create mode 100644 internal/state/cdf.go

diff --git a/internal/state/cdf.go b/internal/state/cdf.go
new file mode 100644
index 0000000..9ab5d3f
--- /dev/null
+++ b/internal/state/cdf.go
@@ -0,0 +1,84 @@
+package state
+
+import (
+	"reflect"
+	"strings"
+)
+
+// DetachCdfs gives the CDF arrays prefix + "...Cdf" storage of their own. Symbol
+// decoding adapts CDF arrays in place, so an assignment alone would also adapt
+// the array they have been assigned from.
+func (s *State) DetachCdfs(prefix string) {
+	v := reflect.ValueOf(s).Elem()
+	area := reflect.TypeOf(MemoryArea{})
+
+	for i := 0; i < area.NumField(); i++ {
+		if f := v.FieldByName(prefix + area.Field(i).Name); isCdf(area.Field(i).Name) && f.IsValid() {
+			f.Set(copyOf(f))
+		}
+	}
+}
+
+// ResetCdfCounters sets the symbol counter at the end of every CDF array to 0.
+func (s *State) ResetCdfCounters() {
+	v := reflect.ValueOf(s).Elem()
+	area := reflect.TypeOf(MemoryArea{})
+
+	for i := 0; i < area.NumField(); i++ {
+		if isCdf(area.Field(i).Name) {
+			resetCounters(v.FieldByName(area.Field(i).Name))
+		}
+	}
+}
+
+// DetachCdfs gives all CDF arrays of the memory area storage of their own.
+func (m *MemoryArea) DetachCdfs() {
+	v := reflect.ValueOf(m).Elem()
+
+	for i := 0; i < v.NumField(); i++ {
+		if isCdf(v.Type().Field(i).Name) {
+			v.Field(i).Set(copyOf(v.Field(i)))
+		}
+	}
+}
+
+func isCdf(name string) bool {
+	return strings.HasSuffix(name, "Cdf")
+}
+
+func copyOf(v reflect.Value) reflect.Value {
+	if v.Kind() == reflect.Slice && v.IsNil() {
+		return v
+	}
+
+	if v.Kind() != reflect.Slice && v.Kind() != reflect.Array {
+		return v
+	}
+
+	c := reflect.New(v.Type()).Elem()
+	if v.Kind() == reflect.Slice {
+		c = reflect.MakeSlice(v.Type(), v.Len(), v.Len())
+	}
+
+	if v.Type().Elem().Kind() == reflect.Int {
+		reflect.Copy(c, v)
+		return c
+	}
+
+	for i := 0; i < v.Len(); i++ {
+		c.Index(i).Set(copyOf(v.Index(i)))
+	}
+
+	return c
+}
+
+func resetCounters(v reflect.Value) {
+	if v.Len() > 0 && v.Index(0).Kind() == reflect.Int {
+		v.Index(v.Len() - 1).SetInt(0)
+		return
+	}
+
+	for i := 0; i < v.Len(); i++ {
+		resetCounters(v.Index(i))
+	}
+}
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 45669ac..9a6b576 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -576,6 +576,8 @@ func (t *TileGroup) initSymbol(sz int, b *bitstream.BitStream, state *state.Stat
 	state.TileCoeffBaseEobCdf = state.CoeffBaseEobCdf
 	state.TileCoeffBaseCdf = state.CoeffBaseCdf
 	state.TileCoeffBrCdf = state.CoeffBrCdf
+
+	state.DetachCdfs("Tile")
 }
 
 // 8.2.4 Exit process for symbol decoder
diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index 2e4e5d9..4f6f43e 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -102,6 +102,8 @@ func initNonCoeffCdfs(state *state.State) {
 	state.UseWienerCdf = DEFAULT_USE_WIENER_CDF
 	state.UseSgrprojCdf = DEFAULT_USE_SGRPROJ_CDF
 	state.RestorationTypeCdf = DEFAULT_RESTORATION_TYPE_CDF
+
+	state.DetachCdfs("")
 }
 
 // init_coeff_cdfs()
@@ -131,6 +133,8 @@ func initCoeffCdfs(state *state.State, uh UncompressedHeader) {
 	state.CoeffBaseEobCdf = DEFAULT_COEFF_BASE_EOB_CDF[idx]
 	state.CoeffBaseCdf = DEFAULT_COEFF_BASE_CDF[idx]
 	state.CoeffBrCdf = DEFAULT_COEFF_BR_CDF[idx]
+
+	state.DetachCdfs("")
 }
 
 // save_cdfs( i )
@@ -235,6 +239,7 @@ func SaveCdfs(ctx int, s *state.State) {
 	memoryArea.CoeffBaseCdf = s.CoeffBaseCdf
 	memoryArea.CoeffBrCdf = s.CoeffBrCdf
 
+	memoryArea.DetachCdfs()
 	s.Memory[ctx] = memoryArea
 }
 
@@ -339,7 +344,8 @@ func LoadCdfs(ctx int, s *state.State) {
 	s.CoeffBaseCdf = memoryArea.CoeffBaseCdf
 	s.CoeffBrCdf = memoryArea.CoeffBrCdf
 
-	// TODO: set last entry of every array to 0
+	s.DetachCdfs("")
+	s.ResetCdfCounters()
 }
 
 var DEFAULT_INTER_TX_TYPE_SET2_CDF = []int{
-- 
2.43.0


From e9c46896bcda880a9f82083b7d656a52aabd7f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 043/152] fix: the ref_mv CDF was never initialised

---
 internal/uncompressedheader/cdf.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index 4f6f43e..9784e74 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -30,6 +30,7 @@ func initNonCoeffCdfs(state *state.State) {
 	state.MotionModeCdf = DEFAULT_MOTION_MODE_CDF
 	state.NewMvCdf = DEFAULT_NEW_MV_CDF
 	state.ZeroMvCdf = DFEAULT_ZERO_MV_CDF
+	state.RefMvCdf = DEFAULT_REF_MV_CDF
 	state.CompoundModeCdf = DEFAULT_COMPOUND_MODE_CDF
 	state.DrlModeCdf = DEFAULT_DRL_MODE_CDF
 	state.IsInterCdf = DEFAULT_IS_INTER_CDF
@@ -1361,6 +1362,15 @@ var DFEAULT_ZERO_MV_CDF = [][]int{
 	{1054, 32768, 0},
 }
 
+var DEFAULT_REF_MV_CDF = [][]int{
+	{23974, 32768, 0},
+	{24188, 32768, 0},
+	{17848, 32768, 0},
+	{28622, 32768, 0},
+	{24312, 32768, 0},
+	{19923, 32768, 0},
+}
+
 var DEFAULT_NEW_MV_CDF = [][]int{
 	{
 		24035, 32768, 0},
-- 
2.43.0


From b1e49699bd77bce48aaa27397cb6f28c6ecd448a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 044/152] fix: comp_ref_type adaptation survives the frame

---
 internal/tilegroup/tile_group.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 9a6b576..bf8e457 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -439,7 +439,7 @@ func (t *TileGroup) frameEndUpdateCdf(state *state.State) {
 	state.InterTxTypeSet3Cdf = state.SavedInterTxTypeSet3Cdf
 	state.UseObmcCdf = state.SavedUseObmcCdf
 	state.InterIntraCdf = state.SavedInterIntraCdf
-	state.CompRefTypeCdf = state.CompRefTypeCdf
+	state.CompRefTypeCdf = state.SavedCompRefTypeCdf
 	state.CflSignCdf = state.SavedCflSignCdf
 	state.UniCompRefCdf = state.SavedUniCompRefCdf
 	state.WedgeInterIntraCdf = state.SavedWedgeInterIntraCdf
@@ -660,7 +660,7 @@ func (t *TileGroup) exitSymbol(b *bitstream.BitStream, state *state.State, uh un
 		state.SavedInterTxTypeSet3Cdf = state.TileInterTxTypeSet3Cdf
 		state.SavedUseObmcCdf = state.TileUseObmcCdf
 		state.SavedInterIntraCdf = state.TileInterIntraCdf
-		state.SavedCompRefTypeCdf = state.CompRefTypeCdf
+		state.SavedCompRefTypeCdf = state.TileCompRefTypeCdf
 		state.SavedCflSignCdf = state.TileCflSignCdf
 		state.SavedUniCompRefCdf = state.TileUniCompRefCdf
 		state.SavedWedgeInterIntraCdf = state.TileWedgeInterIntraCdf
-- 
2.43.0


From 73f443de4b171d4b2043dadf97a8e485a9da82b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 045/152] fix: the intra frame y mode CDF adapts and is saved
 like the others

---
 internal/state/state.go            | 3 +++
 internal/tilegroup/tile_group.go   | 4 +++-
 internal/uncompressedheader/cdf.go | 3 +++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index a0020f7..984da49 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -102,6 +102,7 @@ type State struct {
 	CoeffBrCdf      [][][][]int
 
 	YModeCdf               [][]int
+	IntraFrameYModeCdf     [][][]int
 	UVModeCflNotAllowedCdf [][]int
 	UVModeCflAllowedCdf    [][]int
 	AngleDeltaCdf          [][]int
@@ -285,6 +286,7 @@ type State struct {
 	TileCoeffBrCdf      [][][][]int
 
 	SavedYModeCdf               [][]int
+	SavedIntraFrameYModeCdf     [][][]int
 	SavedUVModeCflNotAllowedCdf [][]int
 	SavedUVModeCflAllowedCdf    [][]int
 	SavedAngleDeltaCdf          [][]int
@@ -402,6 +404,7 @@ type MemoryArea struct {
 	CoeffBrCdf      [][][][]int
 
 	YModeCdf               [][]int
+	IntraFrameYModeCdf     [][][]int
 	UVModeCflNotAllowedCdf [][]int
 	UVModeCflAllowedCdf    [][]int
 	AngleDeltaCdf          [][]int
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index bf8e457..c7fa952 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -370,6 +370,7 @@ func (t *TileGroup) decodeFrameWrapup(state *state.State, uh uncompressedheader.
 // frame_end_update_cdf( )
 func (t *TileGroup) frameEndUpdateCdf(state *state.State) {
 	state.YModeCdf = state.SavedYModeCdf
+	state.IntraFrameYModeCdf = state.SavedIntraFrameYModeCdf
 	state.UVModeCflNotAllowedCdf = state.SavedUVModeCflNotAllowedCdf
 	state.UVModeCflAllowedCdf = state.SavedUVModeCflAllowedCdf
 	state.AngleDeltaCdf = state.SavedAngleDeltaCdf
@@ -477,9 +478,9 @@ func (t *TileGroup) initSymbol(sz int, b *bitstream.BitStream, state *state.Stat
 	state.SymbolValue = ((1 << 15) - 1) ^ paddedBuf
 	state.SymbolRange = 1 << 15
 	state.SymbolMaxBits = 8*sz - 15
-	state.TileIntraFrameYModeCdf = uncompressedheader.DEFAULT_INTRA_FRAME_Y_MODE_CDF
 
 	state.TileYModeCdf = state.YModeCdf
+	state.TileIntraFrameYModeCdf = state.IntraFrameYModeCdf
 	state.TileUVModeCflNotAllowedCdf = state.UVModeCflNotAllowedCdf
 	state.TileUVModeCflAllowedCdf = state.UVModeCflAllowedCdf
 	state.TileAngleDeltaCdf = state.AngleDeltaCdf
@@ -591,6 +592,7 @@ func (t *TileGroup) exitSymbol(b *bitstream.BitStream, state *state.State, uh un
 
 	if !uh.DisableFrameEndUpdateCdf && state.TileNum == uh.TileInfo.ContextUpdateTileId {
 		state.SavedYModeCdf = state.TileYModeCdf
+		state.SavedIntraFrameYModeCdf = state.TileIntraFrameYModeCdf
 		state.SavedUVModeCflNotAllowedCdf = state.TileUVModeCflNotAllowedCdf
 		state.SavedUVModeCflAllowedCdf = state.TileUVModeCflAllowedCdf
 		state.SavedAngleDeltaCdf = state.TileAngleDeltaCdf
diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index 9784e74..dacfd69 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -8,6 +8,7 @@ import (
 // init_non_coeff_cdfs( )
 func initNonCoeffCdfs(state *state.State) {
 	state.YModeCdf = DEFAULT_Y_MODE_CDF
+	state.IntraFrameYModeCdf = DEFAULT_INTRA_FRAME_Y_MODE_CDF
 	state.UVModeCflNotAllowedCdf = DEFAULT_UV_MODE_CFL_NOT_ALLOWED_CDF
 	state.UVModeCflAllowedCdf = DEFAULT_UV_MODE_CFL_ALLOWED_CDF
 	state.AngleDeltaCdf = DEFAULT_ANGLE_DELTA_CDF
@@ -143,6 +144,7 @@ func SaveCdfs(ctx int, s *state.State) {
 	memoryArea := state.MemoryArea{}
 
 	memoryArea.YModeCdf = s.YModeCdf
+	memoryArea.IntraFrameYModeCdf = s.IntraFrameYModeCdf
 	memoryArea.UVModeCflNotAllowedCdf = s.UVModeCflNotAllowedCdf
 	memoryArea.UVModeCflAllowedCdf = s.UVModeCflAllowedCdf
 	memoryArea.AngleDeltaCdf = s.AngleDeltaCdf
@@ -248,6 +250,7 @@ func LoadCdfs(ctx int, s *state.State) {
 	memoryArea := s.Memory[ctx]
 
 	s.YModeCdf = memoryArea.YModeCdf
+	s.IntraFrameYModeCdf = memoryArea.IntraFrameYModeCdf
 	s.UVModeCflNotAllowedCdf = memoryArea.UVModeCflNotAllowedCdf
 	s.UVModeCflAllowedCdf = memoryArea.UVModeCflAllowedCdf
 	s.AngleDeltaCdf = memoryArea.AngleDeltaCdf
-- 
2.43.0


From f82c2a7983105904e5963d82883db79ce853e123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 046/152] fix: clear_cdef clears all four 64x64 blocks of a
 128x128 superblock

---
 internal/state/state.go          | 1 -
 internal/tilegroup/tile_group.go | 2 +-
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index 984da49..17f8c3b 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -74,7 +74,6 @@ type State struct {
 	RefFrameTypes          [7]int
 	Skip                   int
 	IsInter                int
-	CdefSize4              int
 	CdefFrame              [3][16][16]int
 	UpscaledCurrFrame      [3][9][9]int
 	UpscaledCdefFrame      [3][9][9]int
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index c7fa952..ce4534a 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -762,7 +762,7 @@ func (t *TileGroup) decodeTile(b *bitstream.BitStream, state *state.State, sh se
 
 		for c := state.MiColStart; c < state.MiColEnd; c += sbSize4 {
 			state.ReadDeltas = uh.DeltaQPresent
-			state.Cdef.ClearCdef(r, c, sh.Use128x128SuperBlock, state.CdefSize4)
+			state.Cdef.ClearCdef(r, c, sh.Use128x128SuperBlock, shared.NUM_4X4_BLOCKS_WIDE[shared.BLOCK_64X64])
 			t.clearBlockDecodedFlags(r, c, sbSize, state, sh)
 			t.readLr(r, c, sbSize, b, state, uh, sh)
 			t.decodePartition(r, c, sbSize, b, state, sh, uh)
-- 
2.43.0


From 433e77772e28372a2b6edf466865fb0e762920b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 047/152] fix: add the segment's quantizer delta to the block
 quantizer index

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 3385800..70be6f7 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -816,7 +816,7 @@ func (u *UncompressedHeader) GetQIndex(ignoreDeltaQ int, segmentId int, s *state
 		qindex := u.BaseQIdx + data
 
 		if ignoreDeltaQ == 0 && u.DeltaQPresent {
-			qindex = s.CurrentQIndex
+			qindex = s.CurrentQIndex + data
 		}
 
 		return util.Clip3(0, 255, qindex)
-- 
2.43.0


From 68fd3c96cf4359f81188ba2900b14d3da03cb2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 048/152] fix: default skip_mode CDFs were no CDFs, their
 values were pasted twice

---
 internal/uncompressedheader/cdf.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index dacfd69..9e51613 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -1300,12 +1300,12 @@ var DEFAULT_SKIP_CDF = [][]int{
 }
 
 var DEFAULT_SKIP_MODE_CDF = [][]int{
-	{3262132621,
-		32768, 00},
-	{2070820708,
-		32768, 00},
-	{81278127,
-		32768, 00},
+	{
+		32621, 32768, 0},
+	{
+		20708, 32768, 0},
+	{
+		8127, 32768, 0},
 }
 
 var DEFAULT_COMP_MODE_CDF = [][]int{
-- 
2.43.0


From 0cc1afe32250e92363c099373e70024d22fafe9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 049/152] fix: default seg_id_predicted CDFs end at 32768

---
 internal/uncompressedheader/cdf.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index 9e51613..09bc163 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -1604,9 +1604,9 @@ var DEFAULT_TX_8X8_CDF = [][]int{
 }
 
 var DEFAULT_SEGMENT_ID_PREDICTED_CDF = [][]int{
-	{128 * 128, 32678, 0},
-	{128 * 128, 32678, 0},
-	{128 * 128, 32678, 0},
+	{128 * 128, 32768, 0},
+	{128 * 128, 32768, 0},
+	{128 * 128, 32768, 0},
 }
 
 var DEFAULT_SEGMENT_ID_CDF = [][]int{
-- 
2.43.0


From 9654922b56aaf118b12415f07fedd8650cc6d88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 050/152] fix: the default chroma colour index CDFs of five
 colour palettes were the luma ones

---
 internal/uncompressedheader/cdf.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index 09bc163..ef83221 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -929,15 +929,15 @@ var DEFAULT_PALETTE_SIZE_6_Y_COLOR_CDF = [][]int{
 
 var DEFAULT_PALETTE_SIZE_5_UV_COLOR_CDF = [][]int{
 	{
-		24779, 26955, 28576, 30282, 32768, 0},
+		22980, 25479, 27781, 29986, 32768, 0},
 	{
-		8669, 20364, 24073, 28093, 32768, 0},
+		8413, 21408, 24859, 28874, 32768, 0},
 	{
-		4255, 27565, 29377, 31067, 32768, 0},
+		2257, 29449, 30594, 31598, 32768, 0},
 	{
-		19864, 23674, 26716, 29530, 32768, 0},
+		19189, 21202, 25915, 28620, 32768, 0},
 	{
-		31646, 31893, 32147, 32426, 32768, 0},
+		31844, 32044, 32281, 32518, 32768, 0},
 }
 
 var DEFAULT_PALETTE_SIZE_5_Y_COLOR_CDF = [][]int{
-- 
2.43.0


From 944548e25b5a8a3f75c912b0245a8f499b50e3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 051/152] fix: the invalid block size was the same number as
 BLOCK_8X8

---
 internal/shared/constants.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/shared/constants.go b/internal/shared/constants.go
index 3af69c4..9783bf5 100644
--- a/internal/shared/constants.go
+++ b/internal/shared/constants.go
@@ -1,6 +1,6 @@
 package shared
 
-const BLOCK_INVALID = 3
+const BLOCK_INVALID = 22
 const BLOCK_SIZES = 22
 const BLOCK_4X4 = 0
 const BLOCK_4X8 = 1
-- 
2.43.0


From 94a62bacc660c14a1f241a83bc9f6ca670ed6541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 052/152] fix: frame buffers hold a whole frame, not its first
 16x16 samples

---
 internal/state/state.go                   | 10 ++++-----
 internal/tilegroup/decode_frame_wrapup.go |  8 +++++--
 internal/tilegroup/loop_restoration.go    |  2 +-
 internal/tilegroup/predict_inter.go       |  2 +-
 internal/tilegroup/tile_group.go          | 10 ++++++++-
 internal/util/util.go                     | 26 +++++++++++++++++++++++
 6 files changed, 48 insertions(+), 10 deletions(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index 17f8c3b..2455606 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -67,17 +67,17 @@ type State struct {
 	RefBitDepth            [shared.NUM_REF_FRAMES]int
 	RefUpscaledWidth       [8]int
 	SavedOrderHints        [shared.NUM_REF_FRAMES][shared.REFS_PER_FRAME + shared.LAST_FRAME]int
-	CurrFrame              [3][16][16]int
+	CurrFrame              [3][][]int
 	SymbolMaxBits          int
 	SymbolValue            int
 	SymbolRange            int
 	RefFrameTypes          [7]int
 	Skip                   int
 	IsInter                int
-	CdefFrame              [3][16][16]int
-	UpscaledCurrFrame      [3][9][9]int
-	UpscaledCdefFrame      [3][9][9]int
-	LrFrame                [3][9][9]int
+	CdefFrame              [3][][]int
+	UpscaledCurrFrame      [3][][]int
+	UpscaledCdefFrame      [3][][]int
+	LrFrame                [3][][]int
 	TileIntraFrameYModeCdf [][][]int
 	MfMvs                  [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2]int
 	SavedMvs               [shared.NUM_REF_FRAMES][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2]int
diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index a719ef6..d817176 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -9,8 +9,8 @@ import (
 )
 
 // 7.16 Upscaling process
-func (t *TileGroup) upscalingProcess(inputFrame [3][16][16]int, state *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) [3][9][9]int {
-	var outputFrame [3][9][9]int
+func (t *TileGroup) upscalingProcess(inputFrame [3][][]int, state *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) [3][][]int {
+	outputFrame := util.NewPlanes(uh.FrameHeight, uh.UpscaledWidth)
 	for plane := 0; plane < sh.ColorConfig.NumPlanes; plane++ {
 		var subX, subY int
 		if plane > 0 {
@@ -124,6 +124,8 @@ func (t *TileGroup) referenceFrameUpdate(state *state.State, uh uncompressedhead
 				state.SavedOrderHints[i][j+shared.LAST_FRAME] = uh.OrderHints[j+shared.LAST_FRAME]
 			}
 
+			t.FrameStore[i] = util.NewPlanes(uh.FrameHeight, uh.UpscaledWidth)
+
 			for x := 0; x < uh.UpscaledWidth; x++ {
 				for y := 0; y < uh.FrameHeight; y++ {
 					t.FrameStore[i][0][y][x] = state.LrFrame[0][y][x]
@@ -224,6 +226,8 @@ func (t *TileGroup) referenceFrameLoadingProcess(state *state.State, u *uncompre
 		u.OrderHints[j+shared.LAST_FRAME] = state.SavedOrderHints[u.FrameToShowMapIdx][j+shared.LAST_FRAME]
 	}
 
+	state.LrFrame = util.NewPlanes(u.FrameHeight, u.UpscaledWidth)
+
 	for x := 0; x < u.UpscaledWidth; x++ {
 		for y := 0; y < u.FrameHeight; y++ {
 			state.LrFrame[0][y][x] = t.FrameStore[u.FrameToShowMapIdx][0][y][x]
diff --git a/internal/tilegroup/loop_restoration.go b/internal/tilegroup/loop_restoration.go
index a4d4e0e..bab919a 100644
--- a/internal/tilegroup/loop_restoration.go
+++ b/internal/tilegroup/loop_restoration.go
@@ -10,7 +10,7 @@ import (
 
 // 7.17. Loop restoration process
 func (t *TileGroup) loopRestoration(state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
-	state.LrFrame = state.UpscaledCdefFrame
+	state.LrFrame = util.CopyPlanes(state.UpscaledCdefFrame)
 
 	if !uh.UsesLr {
 		return
diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index d2f9a89..37fb1a5 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -251,7 +251,7 @@ func (t *TileGroup) motionVectorScalingProcess(plane int, refIdx int, x int, y i
 
 // 7.11.3.4 Block inter prediction process
 func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y int, xStep int, yStep int, w int, h int, candRow int, candCol int, state *state.State, sh sequenceheader.SequenceHeader) [PRED_SIZE][PRED_SIZE]int {
-	var ref [3][16][16]int
+	var ref [3][][]int
 	if refIdx == -1 {
 		ref = state.CurrFrame
 	} else {
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index ce4534a..7abac49 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -233,7 +233,7 @@ type TileGroup struct {
 	LocalValid      bool
 	LocalWarpParams [6]int
 
-	FrameStore [shared.NUM_REF_FRAMES][3][16][16]int
+	FrameStore [shared.NUM_REF_FRAMES][3][][]int
 	Mask       [][]int
 
 	FwdWeight int
@@ -301,6 +301,14 @@ func (t *TileGroup) build(sz int, b *bitstream.BitStream, state *state.State, uh
 	headerBytes := (endBitBos - startbitPos) / 8
 	sz -= headerBytes
 
+	if tgStart == 0 {
+		// blocks reach past the edge of the frame by up to a superblock
+		height := state.MiRows*MI_SIZE + MAX_SB_SIZE
+		width := state.MiCols*MI_SIZE + MAX_SB_SIZE
+		state.CurrFrame = util.NewPlanes(height, width)
+		state.CdefFrame = util.NewPlanes(height, width)
+	}
+
 	for state.TileNum = tgStart; state.TileNum <= tgEnd; state.TileNum++ {
 		tileRow := state.TileNum / state.TileCols
 		tileCol := state.TileNum % state.TileCols
diff --git a/internal/util/util.go b/internal/util/util.go
index 921c22f..590b750 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -249,3 +249,29 @@ func Brev(numBits int, x int) int {
 
 	return t
 }
+
+// NewPlanes allocates the samples of the three planes of a frame.
+func NewPlanes(height int, width int) [3][][]int {
+	var planes [3][][]int
+	for plane := range planes {
+		planes[plane] = make([][]int, height)
+		for y := range planes[plane] {
+			planes[plane][y] = make([]int, width)
+		}
+	}
+
+	return planes
+}
+
+// CopyPlanes returns a copy that shares no samples with the original.
+func CopyPlanes(from [3][][]int) [3][][]int {
+	var planes [3][][]int
+	for plane := range planes {
+		planes[plane] = make([][]int, len(from[plane]))
+		for y := range planes[plane] {
+			planes[plane][y] = append([]int{}, from[plane][y]...)
+		}
+	}
+
+	return planes
+}
-- 
2.43.0


From c973722e95f8131d52fdbb5d333529122b70ec9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:24 +0000
Subject: [PATCH 053/152] fix: the transform permutations read a copy of their
 input

---
 internal/tilegroup/transform.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index 3b7452f..f3731b6 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -131,7 +131,7 @@ func (t *TileGroup) h(a int, b int, flag int, r int) {
 
 // 7.13.2.2 Inverse DCT array permutation process
 func (t *TileGroup) inverseDCTArrayPermutation(n int) {
-	copyT := t.T
+	copyT := append([]int{}, t.T...)
 	for i := 0; i < (1 << n); i++ {
 		t.T[i] = copyT[util.Brev(n, i)]
 	}
@@ -341,7 +341,7 @@ func (t *TileGroup) inverseDCT(n int, r int) {
 // 7.13.2.4 Inverse ADST input array permutation process
 func (t *TileGroup) inverseADSTInputArrayPermutation(n int) {
 	n0 := 1 << n
-	copyT := t.T
+	copyT := append([]int{}, t.T...)
 	for i := 0; i < n0; i++ {
 		var idx int
 		if util.Bool(i & 1) {
@@ -356,7 +356,7 @@ func (t *TileGroup) inverseADSTInputArrayPermutation(n int) {
 // 7.13.2.5 inverse ADST output array permutation process
 func (t *TileGroup) inverseADSTOutputArrayPermutation(n int) {
 	n0 := 1 << n
-	copyT := t.T
+	copyT := append([]int{}, t.T...)
 
 	for i := 0; i < n0; i++ {
 		a := ((i >> 3) & 1)
-- 
2.43.0


From c5e629f34ef75e5d389753e638e022f924ace188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:26 +0000
Subject: [PATCH 054/152] fix: the second output of the butterfly rotation is a
 sum

---
 internal/tilegroup/transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index f3731b6..82677d8 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -113,7 +113,7 @@ func (t *TileGroup) b(a int, b int, angle int, flag int, r int) {
 		return
 	}
 	x := t.T[a]*util.Cos128(angle) - t.T[b]*util.Sin128(angle)
-	y := t.T[a]*util.Sin128(angle) - t.T[b]*util.Cos128(angle)
+	y := t.T[a]*util.Sin128(angle) + t.T[b]*util.Cos128(angle)
 	t.T[a] = util.Round2(x, 12)
 	t.T[b] = util.Round2(y, 12)
 }
-- 
2.43.0


From 6d933e5fc3ebf54b113e548e92144abea3168d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 055/152] fix: inverse ADST4 indexed empty slices

---
 internal/tilegroup/transform.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index 82677d8..c968b33 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -382,8 +382,8 @@ const SINPI_4_9 = 3803
 // 7.13.2.6 Inverse ADST4 process
 func (t *TileGroup) inverseADST4(r int) {
 	// TODO: bistream conformance precision ???
-	s := []int{}
-	x := []int{}
+	var s [7]int
+	var x [4]int
 
 	s[0] = SINPI_1_9 * t.T[0]
 	s[1] = SINPI_2_9 * t.T[0]
-- 
2.43.0


From 52060ac40d17158ba93d0928b1a0ddee8a2feecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:30 +0000
Subject: [PATCH 056/152] fix: inverse ADST8 permutes eight outputs

---
 internal/tilegroup/transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index c968b33..4a428c2 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -436,7 +436,7 @@ func (t *TileGroup) inverseADST8(r int) {
 		t.b(2+4*i, 3+4*i, 32, 1, r)
 	}
 
-	t.inverseADSTOutputArrayPermutation(4)
+	t.inverseADSTOutputArrayPermutation(3)
 }
 
 // 7.13.2.8 Inverse ADST16 process
-- 
2.43.0


From c49ccd7ae55867e983eb0a136d3c889416b06eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 057/152] fix: the column transforms read the output of the row
 transforms

---
 internal/tilegroup/transform.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index 4a428c2..710e5d1 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -78,6 +78,10 @@ func (t *TileGroup) InverseTranform(txSz int, sh sequenceheader.SequenceHeader)
 	}
 
 	for j := 0; j < w; j++ {
+		for i := 0; i < h; i++ {
+			t.T[i] = t.Residual[i][j]
+		}
+
 		if t.Lossless {
 			t.inverseWalshHadamardTransform(0)
 		} else if t.PlaneTxType == DCT_DCT ||
-- 
2.43.0


From d82d2be8ecb4e6345a873001b34c504f7669f0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:34 +0000
Subject: [PATCH 058/152] fix: the inverse transform allocates its work arrays

---
 internal/tilegroup/transform.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index 710e5d1..2d56cb0 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -28,6 +28,12 @@ func (t *TileGroup) InverseTranform(txSz int, sh sequenceheader.SequenceHeader)
 		colShift = 0
 	}
 
+	t.T = make([]int, util.Max(w, h))
+	t.Residual = make([][]int, h)
+	for i := range t.Residual {
+		t.Residual[i] = make([]int, w)
+	}
+
 	rowClampRange := sh.ColorConfig.BitDepth + 8
 	colClampRange := util.Max(sh.ColorConfig.BitDepth+6, 16)
 
-- 
2.43.0


From a8fb7602b0c80ba4e0f84c4f01528b15a7ac9230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:36 +0000
Subject: [PATCH 059/152] fix: AC coefficients are dequantised with the AC
 table

---
 internal/tilegroup/reconstruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/reconstruct.go b/internal/tilegroup/reconstruct.go
index b50e99e..237cf44 100644
--- a/internal/tilegroup/reconstruct.go
+++ b/internal/tilegroup/reconstruct.go
@@ -127,7 +127,7 @@ func (t *TileGroup) getAcQuant(plane int, sh sequenceheader.SequenceHeader, uh u
 }
 
 func acQ(b int, sh sequenceheader.SequenceHeader) int {
-	return Dc_Qlookup[(sh.ColorConfig.BitDepth-8)>>1][util.Clip3(0, 255, b)]
+	return Ac_Qlookup[(sh.ColorConfig.BitDepth-8)>>1][util.Clip3(0, 255, b)]
 }
 
 var Dc_Qlookup = [][]int{
-- 
2.43.0


From 70d6c0a742d588da174bb32207a82d878e31da4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:06 +0000
Subject: [PATCH 060/152] fix: the column transform keeps all its output rows

---
 internal/tilegroup/transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index 2d56cb0..4d4b722 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -109,7 +109,7 @@ func (t *TileGroup) InverseTranform(txSz int, sh sequenceheader.SequenceHeader)
 		}
 
 		for i := 0; i < h; i++ {
-			t.Residual[i][j] = util.Round2(t.T[j], colShift)
+			t.Residual[i][j] = util.Round2(t.T[i], colShift)
 		}
 	}
 }
-- 
2.43.0


From ac814e78311f112099c3d0e62455309ce5bd2e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:05 +0000
Subject: [PATCH 061/152] fix: mode info is kept for the whole frame, not its
 first 2x2 or 64x64 blocks

---
 internal/state/state.go                   | 16 +++---
 internal/tilegroup/decode_frame_wrapup.go |  6 +++
 internal/tilegroup/tile_group.go          | 65 ++++++++++++++++++-----
 internal/util/util.go                     | 10 ++++
 4 files changed, 75 insertions(+), 22 deletions(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index 2455606..be5d5ad 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -40,9 +40,9 @@ type State struct {
 	MiCol           int
 	MiRow           int
 	MiSize          int
-	MiSizes         [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
+	MiSizes         [][]int
 	DeltaLF         [shared.FRAME_LF_COUNT]int
-	DeltaLFs        [2][2][4]int
+	DeltaLFs        [][][shared.FRAME_LF_COUNT]int
 	RefLrWiener     [][][]int
 	ReadDeltas      bool
 	Cdef            cdef.Cdef
@@ -55,7 +55,7 @@ type State struct {
 	AvailUChroma           bool
 	AvailLChroma           bool
 	RefFrame               [2]int
-	RefFrames              [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2]int
+	RefFrames              [][][2]int
 	RefFrameWidth          [shared.NUM_REF_FRAMES]int
 	RefFrameHeight         [shared.NUM_REF_FRAMES]int
 	RefRenderWidth         [shared.NUM_REF_FRAMES]int
@@ -79,12 +79,12 @@ type State struct {
 	UpscaledCdefFrame      [3][][]int
 	LrFrame                [3][][]int
 	TileIntraFrameYModeCdf [][][]int
-	MfMvs                  [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2]int
-	SavedMvs               [shared.NUM_REF_FRAMES][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2]int
-	SavedRefFrames         [shared.NUM_REF_FRAMES][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
-	MfRefFrames            [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
+	MfMvs                  [][][2]int
+	SavedMvs               [shared.NUM_REF_FRAMES][][][2]int
+	SavedRefFrames         [shared.NUM_REF_FRAMES][][]int
+	MfRefFrames            [][]int
 	SavedGmParams          [shared.NUM_REF_FRAMES][shared.ALTREF_FRAME + 1][6]int
-	SavedSegmentIds        [shared.NUM_REF_FRAMES][shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
+	SavedSegmentIds        [shared.NUM_REF_FRAMES][][]int
 
 	TxbSkipCdf      [][][]int
 	EobPt16Cdf      [][][]int
diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index d817176..13d7f8c 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -140,6 +140,10 @@ func (t *TileGroup) referenceFrameUpdate(state *state.State, uh uncompressedhead
 				}
 			}
 
+			state.SavedRefFrames[i] = util.NewGrid[int](state.MiRows, state.MiCols)
+			state.SavedMvs[i] = util.NewGrid[[2]int](state.MiRows, state.MiCols)
+			state.SavedSegmentIds[i] = util.NewGrid[int](state.MiRows, state.MiCols)
+
 			for row := 0; row < state.MiRows; row++ {
 				for col := 0; col < state.MiCols; col++ {
 					state.SavedRefFrames[i][row][col] = state.MfRefFrames[row][col]
@@ -242,6 +246,8 @@ func (t *TileGroup) referenceFrameLoadingProcess(state *state.State, u *uncompre
 		}
 	}
 
+	t.allocateModeInfo(state)
+
 	for row := 0; row < state.MiRows; row++ {
 		for col := 0; col < state.MiCols; col++ {
 			state.MfRefFrames[row][col] = state.SavedRefFrames[u.FrameToShowMapIdx][row][col]
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 7abac49..36e6c05 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -131,26 +131,26 @@ type TileGroup struct {
 	LrSgrXqd            [3][1][1][2]int
 	HasChroma           bool
 	SegmentId           int
-	SegmentIds          [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
+	SegmentIds          [][]int
 	Lossless            bool
 	Skip                int
-	Skips               [2][2]int
-	SkipModes           [2][2]int
+	Skips               [][]int
+	SkipModes           [][]int
 	YMode               int
-	YModes              [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
+	YModes              [][]int
 	UVMode              int
-	UVModes             [2][2]int
+	UVModes             [][]int
 	PaletteSizeY        int
 	PaletteSizeUV       int
 	InterpFilter        [2]int
-	InterpFilters       [2][2][2]int
+	InterpFilters       [][][2]int
 	NumMvFound          int
 	NewMvCount          int
 	GlobalMvs           [2][2]int
 	MotionFieldMvs      [][][][2]int
-	IsInters            [2][2]int
+	IsInters            [][]int
 	Mv                  [2][2]int
-	Mvs                 [shared.MAX_TILE_COLS][shared.MAX_TILE_ROWS][2][2]int
+	Mvs                 [][][2][2]int
 	FoundMatch          int
 	TotalMatches        int
 	CloseMatches        int
@@ -168,8 +168,8 @@ type TileGroup struct {
 	PredMv              [2][2]int
 	RefMvIdx            int
 	MvCtx               int
-	PaletteSizes        [2][2][2]int
-	PaletteColors       [][][][]int
+	PaletteSizes        [2][][]int
+	PaletteColors       [2][][][PALETTE_COLORS]int
 	PaletteCache        []int
 	PaletteColorsY      []int
 	PaletteColorsU      []int
@@ -205,9 +205,9 @@ type TileGroup struct {
 	ColorOrder       []int
 	ColorContextHash int
 
-	InterTxSizes [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS]int
+	InterTxSizes [][]int
 	TxSize       int
-	TxSizes      [2][2]int
+	TxSizes      [][]int
 
 	AboveLevelContext  [][]int
 	AboveDcContext     [][]int
@@ -249,10 +249,10 @@ type TileGroup struct {
 	Dequant           [64][64]int
 	TxType            int
 	PlaneTxType       int
-	TxTypes           [2][2]int
+	TxTypes           [][]int
 	T                 []int
 	Residual          [][]int
-	LoopFilterTxSizes [3][2][2]int
+	LoopFilterTxSizes [3][][]int
 
 	NewMvContext  int
 	RefMvContext  int
@@ -307,6 +307,7 @@ func (t *TileGroup) build(sz int, b *bitstream.BitStream, state *state.State, uh
 		width := state.MiCols*MI_SIZE + MAX_SB_SIZE
 		state.CurrFrame = util.NewPlanes(height, width)
 		state.CdefFrame = util.NewPlanes(height, width)
+		t.allocateModeInfo(state)
 	}
 
 	for state.TileNum = tgStart; state.TileNum <= tgEnd; state.TileNum++ {
@@ -342,6 +343,42 @@ func (t *TileGroup) build(sz int, b *bitstream.BitStream, state *state.State, uh
 	}
 }
 
+// allocateModeInfo allocates what is kept for every 4x4 luma block of the frame.
+func (t *TileGroup) allocateModeInfo(state *state.State) {
+	// blocks reach past the edge of the frame by up to a superblock
+	rows := state.MiRows + MAX_SB_SIZE/MI_SIZE
+	cols := state.MiCols + MAX_SB_SIZE/MI_SIZE
+
+	t.SegmentIds = util.NewGrid[int](rows, cols)
+	t.Skips = util.NewGrid[int](rows, cols)
+	t.SkipModes = util.NewGrid[int](rows, cols)
+	t.YModes = util.NewGrid[int](rows, cols)
+	t.UVModes = util.NewGrid[int](rows, cols)
+	t.InterpFilters = util.NewGrid[[2]int](rows, cols)
+	t.IsInters = util.NewGrid[int](rows, cols)
+	t.Mvs = util.NewGrid[[2][2]int](rows, cols)
+	t.InterTxSizes = util.NewGrid[int](rows, cols)
+	t.TxSizes = util.NewGrid[int](rows, cols)
+	t.TxTypes = util.NewGrid[int](rows, cols)
+	t.CompGroupIdxs = util.NewGrid[int](rows, cols)
+	t.CompoundIdxs = util.NewGrid[int](rows, cols)
+
+	for plane := range t.PaletteSizes {
+		t.PaletteSizes[plane] = util.NewGrid[int](rows, cols)
+		t.PaletteColors[plane] = util.NewGrid[[PALETTE_COLORS]int](rows, cols)
+	}
+
+	for plane := range t.LoopFilterTxSizes {
+		t.LoopFilterTxSizes[plane] = util.NewGrid[int](rows, cols)
+	}
+
+	state.MiSizes = util.NewGrid[int](rows, cols)
+	state.DeltaLFs = util.NewGrid[[shared.FRAME_LF_COUNT]int](rows, cols)
+	state.RefFrames = util.NewGrid[[2]int](rows, cols)
+	state.MfMvs = util.NewGrid[[2]int](rows, cols)
+	state.MfRefFrames = util.NewGrid[int](rows, cols)
+}
+
 // 7.4. Decode frame wrapup process
 // decode_frame_wrapup( )
 func (t *TileGroup) decodeFrameWrapup(state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
diff --git a/internal/util/util.go b/internal/util/util.go
index 590b750..e688465 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -250,6 +250,16 @@ func Brev(numBits int, x int) int {
 	return t
 }
 
+// NewGrid allocates rows x cols elements.
+func NewGrid[T any](rows int, cols int) [][]T {
+	grid := make([][]T, rows)
+	for row := range grid {
+		grid[row] = make([]T, cols)
+	}
+
+	return grid
+}
+
 // NewPlanes allocates the samples of the three planes of a frame.
 func NewPlanes(height int, width int) [3][][]int {
 	var planes [3][][]int
-- 
2.43.0


From c18ba212a9d9b255caa0ca393c0aadb83d67cc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:01 +0000
Subject: [PATCH 062/152] fix: CDEF picks its primary taps by the strength at
 the bit depth

---
 internal/tilegroup/cdef.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/cdef.go b/internal/tilegroup/cdef.go
index 189cbd7..a504e8e 100644
--- a/internal/tilegroup/cdef.go
+++ b/internal/tilegroup/cdef.go
@@ -187,7 +187,7 @@ func (t *TileGroup) cdefFilter(plane int, r int, c int, priStr int, secStr int,
 	// "MiColStart, MiRowStart, MiColEnd, MiRowEnd are set equal to the values
 	// they had when the syntax element MiSizes[r][c] was written."
 
-	coeffShift := sh.ColorConfig.BitDepth
+	coeffShift := sh.ColorConfig.BitDepth - 8
 	var subX, subY int
 	if plane > 0 {
 		subX = util.Int(sh.ColorConfig.SubsamplingX)
-- 
2.43.0


From 13fae32d712b5d7f0f7b75dab7839038a76bda8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:03 +0000
Subject: [PATCH 063/152] fix: CDEF damps chroma less than luma whatever the
 primary strength

---
 internal/tilegroup/cdef.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/tilegroup/cdef.go b/internal/tilegroup/cdef.go
index a504e8e..ceca38c 100644
--- a/internal/tilegroup/cdef.go
+++ b/internal/tilegroup/cdef.go
@@ -97,9 +97,10 @@ func (t *TileGroup) cdefBlock(r int, c int, idx int, state *state.State, sh sequ
 			dir = 0
 		} else {
 			dir = CDEF_UV_DIR[util.Int(sh.ColorConfig.SubsamplingX)][util.Int(sh.ColorConfig.SubsamplingY)][yDir]
-			damping = uh.CdefDampening + coeffShift - 1
 		}
 
+		damping = uh.CdefDampening + coeffShift - 1
+
 		t.cdefFilter(1, r, c, priStr, secStr, damping, dir, state, sh, uh)
 		t.cdefFilter(2, r, c, priStr, secStr, damping, dir, state, sh, uh)
 	}
-- 
2.43.0


From 8549866c5814b5939b0ed5bac15d9b873077325d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:30 +0000
Subject: [PATCH 064/152] fix: the Wiener filter is symmetric

---
 internal/tilegroup/loop_restoration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/loop_restoration.go b/internal/tilegroup/loop_restoration.go
index bab919a..1f62006 100644
--- a/internal/tilegroup/loop_restoration.go
+++ b/internal/tilegroup/loop_restoration.go
@@ -263,7 +263,7 @@ func (t *TileGroup) wienerCoefficient(coeff [3]int) [7]int {
 	for i := 0; i < 3; i++ {
 		c := coeff[i]
 		filter[i] = c
-		filter[6-1] = c
+		filter[6-i] = c
 		filter[3] -= 2 * c
 	}
 
-- 
2.43.0


From e9017b3ec84625d0af440d3d76ac1e25cb782920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:31 +0000
Subject: [PATCH 065/152] fix: the Wiener filter allocates its intermediate
 rows

---
 internal/tilegroup/loop_restoration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/loop_restoration.go b/internal/tilegroup/loop_restoration.go
index 1f62006..4b2bbac 100644
--- a/internal/tilegroup/loop_restoration.go
+++ b/internal/tilegroup/loop_restoration.go
@@ -233,7 +233,7 @@ func (tg *TileGroup) wienerFilter(plane int, unitRow int, unitCol int, x int, y
 	offset := (1 << (sh.ColorConfig.BitDepth + FILTER_BITS - tg.InterRound0 - 1))
 	limit := (1 << (sh.ColorConfig.BitDepth + 1 + FILTER_BITS - tg.InterRound0)) - 1
 
-	var intermediate [][]int
+	intermediate := util.NewGrid[int](h+6, w)
 	for r := 0; r < h+6; r++ {
 		for c := 0; c < w; c++ {
 			s := 0
-- 
2.43.0


From 8dbd5d28f58fcf4d3a2ad173edc89835d293e783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:33 +0000
Subject: [PATCH 066/152] fix: only the rows of restoration units are offset by
 eight

---
 internal/tilegroup/loop_restoration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/loop_restoration.go b/internal/tilegroup/loop_restoration.go
index 4b2bbac..35bc393 100644
--- a/internal/tilegroup/loop_restoration.go
+++ b/internal/tilegroup/loop_restoration.go
@@ -51,7 +51,7 @@ func (t *TileGroup) loopRestoreBlock(plane int, row int, col int, state *state.S
 	unitCols := util.CountUnitsInFrame(unitSize, util.Round2(uh.UpscaledWidth, subX))
 
 	unitRow := util.Min(unitRows-1, ((row*MI_SIZE+8)>>subY)/unitSize)
-	unitCol := util.Min(unitCols-1, ((col*MI_SIZE+8)>>subX)/unitSize)
+	unitCol := util.Min(unitCols-1, ((col*MI_SIZE)>>subX)/unitSize)
 
 	t.PlaneEndX = util.Round2(uh.UpscaledWidth, subX) - 1
 	t.PlaneEndY = util.Round2(uh.FrameHeight, subY) - 1
-- 
2.43.0


From f6313d6082b344262ab092322a327f1d252c56f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:35 +0000
Subject: [PATCH 067/152] fix: the box filter holds blocks of any size

---
 internal/tilegroup/loop_restoration.go | 44 ++++++--------------------
 1 file changed, 10 insertions(+), 34 deletions(-)

diff --git a/internal/tilegroup/loop_restoration.go b/internal/tilegroup/loop_restoration.go
index 35bc393..6a485d5 100644
--- a/internal/tilegroup/loop_restoration.go
+++ b/internal/tilegroup/loop_restoration.go
@@ -104,11 +104,11 @@ func (t *TileGroup) selfGuidedFilter(plane int, unitRow int, unitCol int, x int,
 }
 
 // 7.17.3. Box filter process
-func (t *TileGroup) boxFilter(plane int, x int, y int, w int, h int, set int, pass bool, state *state.State, sh sequenceheader.SequenceHeader) [1][1]int {
+func (t *TileGroup) boxFilter(plane int, x int, y int, w int, h int, set int, pass bool, state *state.State, sh sequenceheader.SequenceHeader) [][]int {
 
 	r := SGR_PARAMS[set][util.Int(pass)*2+0]
 	if r == 0 {
-		return [1][1]int{}
+		return nil
 	}
 
 	eps := SGR_PARAMS[set][util.Int(pass)*2+1]
@@ -117,7 +117,8 @@ func (t *TileGroup) boxFilter(plane int, x int, y int, w int, h int, set int, pa
 	n2e := n * n * eps
 	s := (((1 << SGRPROJ_MTABLE_BITS) + n2e/2) / n2e)
 
-	var A, B [3][3]int
+	A := util.NewGrid[int](h+2, w+2)
+	B := util.NewGrid[int](h+2, w+2)
 	for i := -1; i < h+1; i++ {
 		for j := -1; j < w+1; j++ {
 			a := 0
@@ -144,25 +145,13 @@ func (t *TileGroup) boxFilter(plane int, x int, y int, w int, h int, set int, pa
 			oneOverN := ((1 << SGRPROJ_RECIP_BITS) + (n / 2)) / n
 			b2 := ((1 << SGRPROJ_SGR_BITS) - a2) * b * oneOverN
 
-			// ugly negative indexing workaround
-			if i == -1 && j == -1 {
-				A[len(A)-1][len(A[len(A)-1])-1] = a2
-				B[len(B)-1][len(B[len(B)-1])-1] = util.Round2(b2, SGRPROJ_RECIP_BITS)
-			} else if i == -1 {
-				A[len(A)-1][j] = a2
-				B[len(B)-1][j] = util.Round2(b2, SGRPROJ_RECIP_BITS)
-			} else if j == -1 {
-				A[i][len(A[i])-1] = a2
-				B[i][len(B[i])-1] = util.Round2(b2, SGRPROJ_RECIP_BITS)
-
-			} else {
-				A[i][j] = a2
-				B[i][j] = util.Round2(b2, SGRPROJ_RECIP_BITS)
-			}
+			// the first row and column are those at -1
+			A[i+1][j+1] = a2
+			B[i+1][j+1] = util.Round2(b2, SGRPROJ_RECIP_BITS)
 		}
 	}
 
-	var F [1][1]int
+	F := util.NewGrid[int](h, w)
 	for i := 0; i < h; i++ {
 		shift := 5
 		if !pass && util.Bool(i&1) {
@@ -192,21 +181,8 @@ func (t *TileGroup) boxFilter(plane int, x int, y int, w int, h int, set int, pa
 						}
 					}
 
-					// ugly negative indexing workaround
-					if i+dy == -1 && j+dx == -1 {
-						a += weight * A[len(A)-1][len(A[len(A)-1])-1]
-						b += weight * B[len(B)-1][len(B[len(B)-1])-1]
-					} else if i+dy == -1 {
-						a += weight * A[len(A)-1][j+dx]
-						b += weight * B[len(B)-1][j+dx]
-					} else if j+dx == -1 {
-						a += weight * A[i+dy][len(A[len(A)-1])-1]
-						b += weight * B[i+dy][len(B[len(B)-1])-1]
-					} else {
-						a += weight * A[i+dy][j+dx]
-						b += weight * B[i+dy][j+dx]
-
-					}
+					a += weight * A[i+dy+1][j+dx+1]
+					b += weight * B[i+dy+1][j+dx+1]
 				}
 			}
 			v := a*state.UpscaledCdefFrame[plane][y+i][x+j] + b
-- 
2.43.0


From a2f0d72bd38bd1bddf0528ff719b531640b01dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:37 +0000
Subject: [PATCH 068/152] fix: loop restoration keeps the parameters of every
 unit

---
 internal/tilegroup/tile_group.go | 34 ++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 36e6c05..f1cf84d 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -123,12 +123,12 @@ const DIV_LUT_PREC_BITS = 13
 const DIV_LUT_BITS = 8
 
 type TileGroup struct {
-	LrType              [3][1][1]int
+	LrType              [3][][]int
 	RefLrWiener         [3][2][3]int
-	LrWiener            [][][][][3]int
-	LrSgrSet            [3][1][1]int
+	LrWiener            [3][][][2][WIENER_COEFFS]int
+	LrSgrSet            [3][][]int
 	RefSgrXqd           [3][2]int
-	LrSgrXqd            [3][1][1][2]int
+	LrSgrXqd            [3][][][2]int
 	HasChroma           bool
 	SegmentId           int
 	SegmentIds          [][]int
@@ -308,6 +308,7 @@ func (t *TileGroup) build(sz int, b *bitstream.BitStream, state *state.State, uh
 		state.CurrFrame = util.NewPlanes(height, width)
 		state.CdefFrame = util.NewPlanes(height, width)
 		t.allocateModeInfo(state)
+		t.allocateRestorationUnits(state, uh, sh)
 	}
 
 	for state.TileNum = tgStart; state.TileNum <= tgEnd; state.TileNum++ {
@@ -379,6 +380,31 @@ func (t *TileGroup) allocateModeInfo(state *state.State) {
 	state.MfRefFrames = util.NewGrid[int](rows, cols)
 }
 
+// allocateRestorationUnits allocates the parameters of the loop restoration units of the frame.
+func (t *TileGroup) allocateRestorationUnits(state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
+	for plane := 0; plane < sh.ColorConfig.NumPlanes; plane++ {
+		if uh.FrameRestorationType[plane] == shared.RESTORE_NONE {
+			continue
+		}
+
+		subX := 0
+		subY := 0
+		if plane > 0 {
+			subX = util.Int(sh.ColorConfig.SubsamplingX)
+			subY = util.Int(sh.ColorConfig.SubsamplingY)
+		}
+
+		unitSize := state.LoopRestorationSize[plane]
+		unitRows := util.CountUnitsInFrame(unitSize, util.Round2(uh.FrameHeight, subY))
+		unitCols := util.CountUnitsInFrame(unitSize, util.Round2(uh.UpscaledWidth, subX))
+
+		t.LrType[plane] = util.NewGrid[int](unitRows, unitCols)
+		t.LrWiener[plane] = util.NewGrid[[2][WIENER_COEFFS]int](unitRows, unitCols)
+		t.LrSgrSet[plane] = util.NewGrid[int](unitRows, unitCols)
+		t.LrSgrXqd[plane] = util.NewGrid[[2]int](unitRows, unitCols)
+	}
+}
+
 // 7.4. Decode frame wrapup process
 // decode_frame_wrapup( )
 func (t *TileGroup) decodeFrameWrapup(state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
-- 
2.43.0


From 24671f532f64ed87fb6423f91b1a472d7d4badd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:11 +0000
Subject: [PATCH 069/152] fix: deblocking steps over the samples of the plane
 it filters

---
 internal/tilegroup/loop_filter_process.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index 96ee525..4769cc9 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -15,9 +15,9 @@ func (t *TileGroup) loopFilter(state *state.State, uh uncompressedheader.Uncompr
 			for pass := 0; pass < 2; pass++ {
 				rowStep := 1
 				colStep := 1
-				if plane == 0 {
-					rowStep = 1 << util.Int(sh.ColorConfig.SubsamplingX)
-					colStep = 1 << util.Int(sh.ColorConfig.SubsamplingY)
+				if plane > 0 {
+					rowStep = 1 << util.Int(sh.ColorConfig.SubsamplingY)
+					colStep = 1 << util.Int(sh.ColorConfig.SubsamplingX)
 				}
 
 				for row := 0; row < state.MiRows; row += rowStep {
-- 
2.43.0


From 1ca7fc42a8cc7c805077c1f62c376eb14ebb2a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:12 +0000
Subject: [PATCH 070/152] fix: an edge without a filter level takes that of the
 block before it

---
 internal/tilegroup/loop_filter_process.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index 4769cc9..5b60cae 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -116,7 +116,7 @@ func (t *TileGroup) loopFilterEdge(plane int, pass bool, row int, col int, sh se
 	lvl, limit, blimit, thresh := t.adaptiveFilterStrength(row, col, plane, pass, state, uh)
 
 	if lvl == 0 {
-		lvl, limit, blimit, thresh = t.adaptiveFilterStrength(row, col, plane, pass, state, uh)
+		lvl, limit, blimit, thresh = t.adaptiveFilterStrength(prevRow, prevCol, plane, pass, state, uh)
 	}
 
 	for i := 0; i < MI_SIZE; i++ {
-- 
2.43.0


From 938b65252dc237a9ddd378e04db7cd3e127f7b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:13 +0000
Subject: [PATCH 071/152] fix: the filter size of a horizontal edge is that of
 the smaller transform

---
 internal/tilegroup/loop_filter_process.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index 5b60cae..eae0ec0 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -132,8 +132,7 @@ func (t *TileGroup) filterSize(txSz int, prevTxSz int, pass bool, plane int) int
 	if !pass {
 		baseSize = util.Min(Tx_Width[prevTxSz], Tx_Width[txSz])
 	} else {
-		baseSize = util.Min(Tx_Height[prevTxSz], Tx_Height[prevTxSz])
-
+		baseSize = util.Min(Tx_Height[prevTxSz], Tx_Height[txSz])
 	}
 
 	if plane == 0 {
-- 
2.43.0


From f70fb1aabd2661c4754be2cbe8d01ec3b32dd992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:15 +0000
Subject: [PATCH 072/152] fix: blocks with two global motion vectors use the
 first loop filter mode delta

---
 internal/tilegroup/loop_filter_process.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index eae0ec0..20fe48b 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -149,7 +149,7 @@ func (t *TileGroup) adaptiveFilterStrength(row int, col int, plane int, pass boo
 	mode := t.YModes[row][col]
 
 	var modeType int
-	if mode >= shared.NEARESTMV && mode != shared.GLOBALMV {
+	if mode >= shared.NEARESTMV && mode != shared.GLOBALMV && mode != shared.GLOBAL_GLOBALMV {
 		modeType = 1
 	} else {
 		modeType = 0
-- 
2.43.0


From 0a730be9968048672f7a79145e60ce0b539467f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:16 +0000
Subject: [PATCH 073/152] fix: a low loop filter sharpness halves the limit
 once

---
 internal/tilegroup/loop_filter_process.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index 20fe48b..19dd562 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -172,7 +172,7 @@ func (t *TileGroup) adaptiveFilterStrength(row int, col int, plane int, pass boo
 	if uh.LoopFilterSharpness > 4 {
 		shift = 2
 	} else if uh.LoopFilterSharpness > 0 {
-		shift = 2
+		shift = 1
 	} else {
 		shift = 0
 	}
-- 
2.43.0


From fc71217a6b4b290ed6f4d766e978a00f39e75535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:17 +0000
Subject: [PATCH 074/152] fix: deblocking does not look outside the frame and
 has room for the wide filter

---
 internal/tilegroup/loop_filter_process.go | 41 +++++++++++++----------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index 19dd562..b056603 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -238,20 +238,14 @@ func (t *TileGroup) sampleFiltering(x int, y int, plane int, limit int, blimit i
 
 // 7.14.6.2 Filter mask process
 func (t *TileGroup) filterMask(x int, y int, plane int, limit int, blimit int, thresh int, dx int, dy int, filterSize int, state *state.State, sh sequenceheader.SequenceHeader) (int, int, int, int) {
-	q0 := state.CurrFrame[plane][y][x]
-	q1 := state.CurrFrame[plane][y+dy][x+dx]
-	q2 := state.CurrFrame[plane][y+dy*2][x+dx*2]
-	q3 := state.CurrFrame[plane][y+dy*3][x+dx*3]
-	q4 := state.CurrFrame[plane][y+dy*4][x+dx*4]
-	q5 := state.CurrFrame[plane][y+dy*5][x+dx*5]
-	q6 := state.CurrFrame[plane][y+dy*6][x+dx*6]
-	p0 := state.CurrFrame[plane][y-dy][x-dx]
-	p1 := state.CurrFrame[plane][y-dy*2][x-dx*2]
-	p2 := state.CurrFrame[plane][y-dy*3][x-dx*3]
-	p3 := state.CurrFrame[plane][y-dy*4][x-dx*4]
-	p4 := state.CurrFrame[plane][y-dy*5][x-dx*5]
-	p5 := state.CurrFrame[plane][y-dy*6][x-dx*6]
-	p6 := state.CurrFrame[plane][y-dy*7][x-dx*7]
+	var p, q [7]int
+	// a transform is as wide as the filter, further samples may lie outside the frame
+	for i := 0; i < filterReach(filterSize, plane); i++ {
+		q[i] = state.CurrFrame[plane][y+dy*i][x+dx*i]
+		p[i] = state.CurrFrame[plane][y-dy*(i+1)][x-dx*(i+1)]
+	}
+	q0, q1, q2, q3, q4, q5, q6 := q[0], q[1], q[2], q[3], q[4], q[5], q[6]
+	p0, p1, p2, p3, p4, p5, p6 := p[0], p[1], p[2], p[3], p[4], p[5], p[6]
 
 	hevMask := 0
 	threshBd := thresh << (sh.ColorConfig.BitDepth - 8)
@@ -316,6 +310,18 @@ func (t *TileGroup) filterMask(x int, y int, plane int, limit int, blimit int, t
 	return hevMask, filterMask, flatMask, flatMask2
 }
 
+// filterReach is the number of samples that the filter looks at on either side of an edge.
+func filterReach(filterSize int, plane int) int {
+	if filterSize == 4 {
+		return 2
+	} else if plane != 0 {
+		return 3
+	} else if filterSize == 8 {
+		return 4
+	}
+	return 7
+}
+
 // 7.14.6.3 Narrow filter process
 func (t *TileGroup) narrowFilter(hevMask int, x int, y int, plane int, dx int, dy int, state *state.State, sh sequenceheader.SequenceHeader) {
 	q0 := state.CurrFrame[plane][y][x]
@@ -370,7 +376,8 @@ func (t *TileGroup) wideFilter(x int, y int, plane int, dx int, dy int, log2Size
 		n2 = 1
 	}
 
-	var F []int
+	// the samples from -n on
+	F := make([]int, 2*n)
 	for i := -n; i < n; i++ {
 		t := 0
 		for j := -n; j <= n; j++ {
@@ -383,9 +390,9 @@ func (t *TileGroup) wideFilter(x int, y int, plane int, dx int, dy int, log2Size
 			}
 			t += state.CurrFrame[plane][y+p*dy][x+p*dx] * tap
 		}
-		F[i] = util.Round2(t, log2Size)
+		F[i+n] = util.Round2(t, log2Size)
 	}
 	for i := -n; i < n; i++ {
-		state.CurrFrame[plane][y+i*dy][x+i*dx] = F[i]
+		state.CurrFrame[plane][y+i*dy][x+i*dx] = F[i+n]
 	}
 }
-- 
2.43.0


From 14baf3d6a65a3bf7d58ad1f85cfad245a11a2d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:54 +0000
Subject: [PATCH 075/152] fix: frames without super-resolution are not upscaled

---
 internal/tilegroup/decode_frame_wrapup.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index 13d7f8c..f1a5d60 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -10,6 +10,10 @@ import (
 
 // 7.16 Upscaling process
 func (t *TileGroup) upscalingProcess(inputFrame [3][][]int, state *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) [3][][]int {
+	if !uh.UseSuperRes {
+		return util.CopyPlanes(inputFrame)
+	}
+
 	outputFrame := util.NewPlanes(uh.FrameHeight, uh.UpscaledWidth)
 	for plane := 0; plane < sh.ColorConfig.NumPlanes; plane++ {
 		var subX, subY int
-- 
2.43.0


From ed612cec407c9a78e05b8ea929ea4605b3d46017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:39 +0000
Subject: [PATCH 076/152] fix: intra predictions can be as large as 64x64

---
 internal/tilegroup/predict_intra.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index b026a4c..3f4abe9 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -86,7 +86,7 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 
 	t.LeftCol[len(t.LeftCol)-1] = t.AboveRow[len(t.AboveRow)-1]
 
-	var pred [15][15]int
+	var pred [64][64]int
 	if plane == 0 && t.UseFilterIntra {
 		pred = t.recursiveIntraPredictionProcess(w, h, sh)
 	} else if t.isDirectionalMode(mode) {
@@ -107,8 +107,8 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 }
 
 // 7.11.2.2 Basic intra prediction process
-func (t *TileGroup) basicIntraPredictionProcess(w int, h int) [15][15]int {
-	var pred [15][15]int
+func (t *TileGroup) basicIntraPredictionProcess(w int, h int) [64][64]int {
+	var pred [64][64]int
 
 	for i := 0; i < h; i++ {
 		for j := 0; j < w; j++ {
@@ -131,10 +131,10 @@ func (t *TileGroup) basicIntraPredictionProcess(w int, h int) [15][15]int {
 }
 
 // 7.11.2.3. Recursive intra prediction process
-func (t *TileGroup) recursiveIntraPredictionProcess(w int, h int, sh sequenceheader.SequenceHeader) [15][15]int {
+func (t *TileGroup) recursiveIntraPredictionProcess(w int, h int, sh sequenceheader.SequenceHeader) [64][64]int {
 	w4 := w >> 2
 	h2 := h >> 1
-	var pred [15][15]int
+	var pred [64][64]int
 	for i2 := 0; i2 <= h2-1; i2++ {
 		for j4 := 0; j4 <= w4-1; j4++ {
 			var p []int
@@ -175,8 +175,8 @@ func (t *TileGroup) recursiveIntraPredictionProcess(w int, h int, sh sequencehea
 }
 
 // 7.11.2.4. Directional intra prediction process
-func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, haveLeft int, haveAbove int, mode int, w int, h int, maxX int, maxY int, state *state.State, sh sequenceheader.SequenceHeader) [15][15]int {
-	var pred [15][15]int
+func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, haveLeft int, haveAbove int, mode int, w int, h int, maxX int, maxY int, state *state.State, sh sequenceheader.SequenceHeader) [64][64]int {
+	var pred [64][64]int
 
 	angleDelta := t.AngleDeltaUV
 	if plane == 0 {
@@ -325,8 +325,8 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 }
 
 // 7.11.2.5 DC intra prediction process
-func (t *TileGroup) dcIntraPredictionProcess(haveLeft bool, haveAbove bool, log2W int, log2H int, w int, h int, sh sequenceheader.SequenceHeader) [15][15]int {
-	var pred [15][15]int
+func (t *TileGroup) dcIntraPredictionProcess(haveLeft bool, haveAbove bool, log2W int, log2H int, w int, h int, sh sequenceheader.SequenceHeader) [64][64]int {
+	var pred [64][64]int
 	if haveLeft && haveAbove {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
@@ -367,8 +367,8 @@ func (t *TileGroup) dcIntraPredictionProcess(haveLeft bool, haveAbove bool, log2
 }
 
 // 7.11.2.6 Smooth intra prediction process
-func (t *TileGroup) smoothIntraPredictionProcess(mode int, log2W int, log2H int, w int, h int) [15][15]int {
-	var pred [15][15]int
+func (t *TileGroup) smoothIntraPredictionProcess(mode int, log2W int, log2H int, w int, h int) [64][64]int {
+	var pred [64][64]int
 	if mode == SMOOTH_PRED {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
-- 
2.43.0


From 2a2add6db1e9da3e7da033e8dc025af29668380d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:41 +0000
Subject: [PATCH 077/152] fix: the left neighbours of a block go to the left
 column

---
 internal/tilegroup/predict_intra.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 3f4abe9..e93e78d 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -48,7 +48,7 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 		if util.Int(haveLeft) == 0 && util.Int(haveAbove) == 1 {
 			t.LeftCol[i] = state.CurrFrame[plane][yMinusOne][x]
 		} else if util.Int(haveLeft) == 0 && util.Int(haveAbove) == 0 {
-			t.AboveRow[i] = (1 << (sh.ColorConfig.BitDepth - 1)) + 1
+			t.LeftCol[i] = (1 << (sh.ColorConfig.BitDepth - 1)) + 1
 
 		} else {
 			leftLimit := util.Min(maxY, y+h-1)
@@ -57,9 +57,9 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 			}
 
 			if x-1 == -1 {
-				t.AboveRow[i] = state.CurrFrame[plane][util.Min(leftLimit, y+i)][len(state.CurrFrame[plane][util.Min(leftLimit, y+i)])-1]
+				t.LeftCol[i] = state.CurrFrame[plane][util.Min(leftLimit, y+i)][len(state.CurrFrame[plane][util.Min(leftLimit, y+i)])-1]
 			} else {
-				t.AboveRow[i] = state.CurrFrame[plane][util.Min(leftLimit, y+i)][x-1]
+				t.LeftCol[i] = state.CurrFrame[plane][util.Min(leftLimit, y+i)][x-1]
 			}
 		}
 	}
-- 
2.43.0


From 4aa1c8075b30da2e3d2e689b0e65a215517176dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:42 +0000
Subject: [PATCH 078/152] fix: the above neighbours of a block lie in the row
 above it

---
 internal/tilegroup/predict_intra.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index e93e78d..d2d4953 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -15,7 +15,7 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 	maxX := (state.MiCols * MI_SIZE) - 1
 	maxY := (state.MiRows * MI_SIZE) - 1
 
-	yMinusOne := y
+	yMinusOne := y - 1
 	if y-1 == -1 {
 		yMinusOne = len(state.CurrFrame[plane]) - 1
 	}
@@ -66,7 +66,7 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 
 	if util.Int(haveAbove) == 1 && util.Int(haveLeft) == 1 {
 		if x-1 == -1 {
-			t.AboveRow[len(t.AboveRow)-1] = state.CurrFrame[plane][yMinusOne][len(state.CurrFrame[plane][y-1])-1]
+			t.AboveRow[len(t.AboveRow)-1] = state.CurrFrame[plane][yMinusOne][len(state.CurrFrame[plane][yMinusOne])-1]
 		} else {
 			t.AboveRow[len(t.AboveRow)-1] = state.CurrFrame[plane][yMinusOne][x-1]
 		}
-- 
2.43.0


From 5ff207eda03c1d55bc3aa2d002c4978a628e0b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:44 +0000
Subject: [PATCH 079/152] fix: intra edges hold w+h neighbours

---
 internal/tilegroup/predict_intra.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index d2d4953..fad5e8f 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -25,7 +25,7 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 		maxY = ((state.MiRows * MI_SIZE) >> util.Int(sh.ColorConfig.SubsamplingY)) - 1
 	}
 
-	for i := 0; i < w+h-1; i++ {
+	for i := 0; i < w+h; i++ {
 		if util.Int(haveAbove) == 0 && util.Int(haveLeft) == 1 {
 			if x-1 == -1 {
 				t.AboveRow[i] = state.CurrFrame[plane][y][len(state.CurrFrame[plane][y])-1]
@@ -44,7 +44,7 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 		}
 	}
 
-	for i := 0; i < w+h-1; i++ {
+	for i := 0; i < w+h; i++ {
 		if util.Int(haveLeft) == 0 && util.Int(haveAbove) == 1 {
 			t.LeftCol[i] = state.CurrFrame[plane][yMinusOne][x]
 		} else if util.Int(haveLeft) == 0 && util.Int(haveAbove) == 0 {
-- 
2.43.0


From 83b341023853133ed5e8598718e52efc5465fa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:46 +0000
Subject: [PATCH 080/152] fix: recursive intra prediction keeps its inputs

---
 internal/tilegroup/predict_intra.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index fad5e8f..8f4071b 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -106,6 +106,12 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 	}
 }
 
+// edgeIndex gives the position of a sample in AboveRow or LeftCol. Samples before
+// the first one are kept at the end of the array.
+func edgeIndex(i int) int {
+	return i & (1<<15 - 1)
+}
+
 // 7.11.2.2 Basic intra prediction process
 func (t *TileGroup) basicIntraPredictionProcess(w int, h int) [64][64]int {
 	var pred [64][64]int
@@ -137,11 +143,11 @@ func (t *TileGroup) recursiveIntraPredictionProcess(w int, h int, sh sequencehea
 	var pred [64][64]int
 	for i2 := 0; i2 <= h2-1; i2++ {
 		for j4 := 0; j4 <= w4-1; j4++ {
-			var p []int
+			var p [7]int
 			for i := 0; i <= 6; i++ {
 				if i < 5 {
 					if i2 == 0 {
-						p[i] = t.AboveRow[(j4<<2)+i-1]
+						p[i] = t.AboveRow[edgeIndex((j4<<2)+i-1)]
 					} else if j4 == 0 && i == 0 {
 						p[i] = t.LeftCol[(i2<<1)-1]
 					} else {
-- 
2.43.0


From 41916b81c9a6e0cc98b95316ef0255c16a85049c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:48 +0000
Subject: [PATCH 081/152] fix: both edges share the filtered corner

---
 internal/tilegroup/predict_intra.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 8f4071b..800b853 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -197,8 +197,9 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 		var filterType int
 		if pAngle != 90 && pAngle != 180 {
 			if pAngle > 90 && pAngle < 180 && (w+h) >= 24 {
-				t.LeftCol[len(t.LeftCol)-1] = t.filterCornerProcess()
-				t.AboveRow[len(t.AboveRow)-1] = t.filterCornerProcess()
+				corner := t.filterCornerProcess()
+				t.LeftCol[len(t.LeftCol)-1] = corner
+				t.AboveRow[len(t.AboveRow)-1] = corner
 			}
 			filterType = util.Int(t.getFilterType(plane, state, sh))
 
-- 
2.43.0


From f7266e70b36712252f3bdf6270c51e50b9266b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:50 +0000
Subject: [PATCH 082/152] fix: the edge filter covers the corner and all
 samples after it

---
 internal/tilegroup/predict_intra.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 800b853..e5e4b9b 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -209,7 +209,7 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 				if pAngle < 90 {
 					sumPart = h
 				}
-				numPx := util.Min(w, (maxX-x+1)) + sumPart
+				numPx := util.Min(w, (maxX-x+1)) + sumPart + 1
 				t.intraEdgeFilterProcess(numPx, strength, 0)
 			}
 
@@ -219,7 +219,7 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 				if pAngle > 180 {
 					sumPart = w
 				}
-				numPx := util.Min(h, (maxY-y+1)) + sumPart
+				numPx := util.Min(h, (maxY-y+1)) + sumPart + 1
 				t.intraEdgeFilterProcess(numPx, strength, 1)
 			}
 		}
-- 
2.43.0


From a79bcf58bc064a9d12402a245da049e8f7ce2251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:52 +0000
Subject: [PATCH 083/152] fix: upsampling an edge keeps a copy of it and
 reaches its corner

---
 internal/tilegroup/predict_intra.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index e5e4b9b..165bc79 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -599,10 +599,10 @@ func (t *TileGroup) intraEdgeUpsampleProcess(numPx int, dir bool, sh sequencehea
 		buf = &t.LeftCol
 	}
 
-	var dup []int
+	var dup [64]int
 	dup[0] = buf[len(buf)-1]
 	for i := -1; i < numPx; i++ {
-		dup[i+2] = buf[i]
+		dup[i+2] = buf[edgeIndex(i)]
 	}
 	dup[numPx+2] = buf[numPx-1]
 
@@ -610,7 +610,7 @@ func (t *TileGroup) intraEdgeUpsampleProcess(numPx int, dir bool, sh sequencehea
 	for i := 0; i < numPx; i++ {
 		s := -dup[i] + (9 * dup[i+1]) + (9 * dup[i+2]) - dup[i+3]
 		s = util.Clip1(util.Round2(s, 4), sh.ColorConfig.BitDepth)
-		buf[2*i-1] = s
+		buf[edgeIndex(2*i-1)] = s
 		buf[2*i] = dup[i+2]
 	}
 }
-- 
2.43.0


From 07f58638fe6184a00a1905b76226d40870748621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:54 +0000
Subject: [PATCH 084/152] fix: the intra edge filter filters a copy of all
 samples but the corner

---
 internal/tilegroup/predict_intra.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 165bc79..e0ab6d4 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -621,26 +621,26 @@ func (t *TileGroup) intraEdgeFilterProcess(sz int, strength int, left int) {
 		return
 	}
 
-	var edge []int
+	var edge [129]int
 	for i := 0; i < sz; i++ {
 		if util.Bool(left) {
-			edge[i] = t.LeftCol[i-1]
+			edge[i] = t.LeftCol[edgeIndex(i-1)]
 		} else {
-			edge[i] = t.AboveRow[i-1]
+			edge[i] = t.AboveRow[edgeIndex(i-1)]
 		}
 	}
 
-	for i := 0; i < sz; i++ {
+	for i := 1; i < sz; i++ {
 		s := 0
 		for j := 0; j < INTRA_EDGE_TAPS; j++ {
-			k := util.Clip3(0, sz-12, i-2+j)
+			k := util.Clip3(0, sz-1, i-2+j)
 			s += Intra_Edge_Kernel[strength-1][j] * edge[k]
-			if left == 1 {
-				t.LeftCol[i-1] = (s + 8) >> 4
-			}
-			if left == 0 {
-				t.AboveRow[i-1] = (s + 8) >> 4
-			}
+		}
+		if left == 1 {
+			t.LeftCol[i-1] = (s + 8) >> 4
+		}
+		if left == 0 {
+			t.AboveRow[i-1] = (s + 8) >> 4
 		}
 	}
 }
-- 
2.43.0


From 7b71c0664b34296780215ce7b5d35489a22a0935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:56 +0000
Subject: [PATCH 085/152] fix: edge filter strengths follow the block size

---
 internal/tilegroup/predict_intra.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index e0ab6d4..0c4273f 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -523,11 +523,11 @@ func (t *TileGroup) intraEdgeFilterStrengthSelectionProcess(w int, h int, filter
 			if d >= 56 {
 				strength = 1
 			}
-		} else if blkWh <= 12 {
+		} else if blkWh <= 16 {
 			if d >= 40 {
 				strength = 1
 			}
-		} else if blkWh <= 16 {
+		} else if blkWh <= 24 {
 			if d >= 8 {
 				strength = 1
 			}
@@ -542,9 +542,11 @@ func (t *TileGroup) intraEdgeFilterStrengthSelectionProcess(w int, h int, filter
 			if d >= 4 {
 				strength = 2
 			}
-			if d >= 4 {
+			if d >= 32 {
 				strength = 3
 			}
+		} else {
+			strength = 3
 		}
 	} else {
 		if blkWh <= 8 {
-- 
2.43.0


From 2ff9566a92a1cfac21236f54dc9e46efdbf20f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:58 +0000
Subject: [PATCH 086/152] fix: directional predictors step by the slope of the
 angle

---
 internal/tilegroup/predict_intra.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 0c4273f..09a1605 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -267,7 +267,7 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 	if pAngle < 90 {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
-				idx := (i + i) * dx
+				idx := (i + 1) * dx
 				base := (idx >> (6 - util.Int(upsampleAbove))) + (j << util.Int(upsampleAbove))
 				shift := ((idx << util.Int(upsampleAbove)) >> 1) & 0x1F
 				maxBaseX := (w + h - 1) << util.Int(upsampleAbove)
@@ -308,7 +308,7 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
 				idx := (j + 1) * dy
-				base := (idx >> (6 >> util.Int(upsampleLeft))) + (i << util.Int(upsampleLeft))
+				base := (idx >> (6 - util.Int(upsampleLeft))) + (i << util.Int(upsampleLeft))
 				shift := ((idx << util.Int(upsampleLeft)) >> 1) & 0x1F
 				pred[i][j] = util.Round2(t.LeftCol[base]*(32-shift)+t.LeftCol[base+1]*shift, 5)
 			}
-- 
2.43.0


From e9a3363c57d86b7a4e1154840907008c47a44bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:00 +0000
Subject: [PATCH 087/152] fix: directional predictors reach the samples before
 the edge

---
 internal/tilegroup/predict_intra.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 09a1605..fa7f4a5 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -288,18 +288,13 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 
 				if base >= -(1 << util.Int(upsampleAbove)) {
 					shift := ((idx << util.Int(upsampleAbove)) >> 1) & 0x1F
-					pred[i][j] = util.Round2(t.AboveRow[base]*(32-shift)+t.AboveRow[base+1]*shift, 5)
+					pred[i][j] = util.Round2(t.AboveRow[edgeIndex(base)]*(32-shift)+t.AboveRow[edgeIndex(base+1)]*shift, 5)
 				} else {
 					idx = (i << 6) - (j+1)*dy
 					base = idx >> (6 - util.Int(upsampleLeft))
 					shift := ((idx << util.Int(upsampleLeft)) >> 1) & 0x1F
 
-					// handle negative indezes
-					if base < 0 {
-						pred[i][j] = util.Round2(t.LeftCol[len(t.LeftCol)+base]*(32-shift)+t.LeftCol[base+1]*shift, 5)
-					} else {
-						pred[i][j] = util.Round2(t.LeftCol[base]*(32-shift)+t.LeftCol[base+1]*shift, 5)
-					}
+					pred[i][j] = util.Round2(t.LeftCol[edgeIndex(base)]*(32-shift)+t.LeftCol[edgeIndex(base+1)]*shift, 5)
 				}
 			}
 		}
-- 
2.43.0


From 236b488820407a725910306ae706b7d9f7d5a162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:01 +0000
Subject: [PATCH 088/152] fix: the horizontal predictor repeats the sample left
 of each row

---
 internal/tilegroup/predict_intra.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index fa7f4a5..9e79f0b 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -318,7 +318,7 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 	} else if pAngle == 180 {
 		for j := 0; j < w; j++ {
 			for i := 0; i < h; i++ {
-				pred[i][j] = t.LeftCol[j]
+				pred[i][j] = t.LeftCol[i]
 			}
 		}
 	}
-- 
2.43.0


From 883b83c209f29d5fae2b85354ba3ff4f201241dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:03 +0000
Subject: [PATCH 089/152] fix: DC prediction averages the above row if it is
 the only neighbour

---
 internal/tilegroup/predict_intra.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 9e79f0b..6f814d2 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -356,6 +356,18 @@ func (t *TileGroup) dcIntraPredictionProcess(haveLeft bool, haveAbove bool, log2
 			}
 		}
 
+	} else if !haveLeft && haveAbove {
+		for i := 0; i < h; i++ {
+			for j := 0; j < w; j++ {
+				sum := 0
+				for k := 0; k < w; k++ {
+					sum += t.AboveRow[k]
+				}
+				aboveAvg := util.Clip1((sum+(w>>1))>>log2W, sh.ColorConfig.BitDepth)
+				pred[i][j] = aboveAvg
+			}
+		}
+
 	} else if !haveLeft && !haveAbove {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
-- 
2.43.0


From b86f0437d6cb2f2a1224047af7c66d3b2d4d21ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:05 +0000
Subject: [PATCH 090/152] fix: the edge filter type looks at both neighbours of
 the chroma block

---
 internal/tilegroup/predict_intra.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 6f814d2..e0ba4d9 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -486,7 +486,7 @@ func (t *TileGroup) getFilterType(plane int, state *state.State, sh sequencehead
 		c := state.MiCol
 
 		if plane > 0 {
-			if sh.ColorConfig.SubsamplingX && util.Bool(state.MiCol&1) {
+			if sh.ColorConfig.SubsamplingX && !util.Bool(state.MiCol&1) {
 				c++
 			}
 			if sh.ColorConfig.SubsamplingY && util.Bool(state.MiRow&1) {
@@ -509,11 +509,11 @@ func (t *TileGroup) getFilterType(plane int, state *state.State, sh sequencehead
 			if sh.ColorConfig.SubsamplingX && util.Bool(state.MiCol&1) {
 				c--
 			}
-			if sh.ColorConfig.SubsamplingY && util.Bool(state.MiRow&1) {
+			if sh.ColorConfig.SubsamplingY && !util.Bool(state.MiRow&1) {
 				r++
 			}
 		}
-		aboveSmooth = t.isSmooth(r, c, plane, state)
+		leftSmooth = t.isSmooth(r, c, plane, state)
 	}
 
 	return aboveSmooth || leftSmooth
-- 
2.43.0


From d10b82a66dd4bb3c4c4e8d2da820374adfc1b396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:28 +0000
Subject: [PATCH 091/152] fix: chroma from luma scales U with the factor of U

---
 internal/tilegroup/residual.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index 4e93f38..5be4a13 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -224,7 +224,7 @@ func (t *TileGroup) predictChromaFromLuma(plane int, startX int, startY int, txS
 	subX := util.Int(sh.ColorConfig.SubsamplingX)
 	subY := util.Int(sh.ColorConfig.SubsamplingY)
 	var alpha int
-	if plane == 0 {
+	if plane == 1 {
 		alpha = t.CflAlphaU
 	} else {
 		alpha = t.CflAlphaV
-- 
2.43.0


From 7f62cfbf507420f669d7f1788a4674c060e9466b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:30 +0000
Subject: [PATCH 092/152] fix: chroma palettes use the chroma colour map

---
 internal/tilegroup/residual.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index 5be4a13..2e9ac6a 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -208,6 +208,8 @@ func (t *TileGroup) palettePrediction(plane int, startX int, startY int, x int,
 	var mapp [][]int
 	if plane == 0 {
 		mapp = t.ColorMapY
+	} else {
+		mapp = t.ColorMapUV
 	}
 
 	for i := 0; i < h; i++ {
-- 
2.43.0


From c63addf5ffb75d2a40b8bf0772beae6d7783dbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:31 +0000
Subject: [PATCH 093/152] fix: palettes and their colour maps are allocated

---
 internal/tilegroup/tile_group.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index f1cf84d..8bf7623 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -369,6 +369,14 @@ func (t *TileGroup) allocateModeInfo(state *state.State) {
 		t.PaletteColors[plane] = util.NewGrid[[PALETTE_COLORS]int](rows, cols)
 	}
 
+	t.PaletteCache = make([]int, 2*PALETTE_COLORS)
+	t.PaletteColorsY = make([]int, PALETTE_COLORS)
+	t.PaletteColorsU = make([]int, PALETTE_COLORS)
+	t.PaletteColorsV = make([]int, PALETTE_COLORS)
+	t.ColorMapY = util.NewGrid[int](64, 64)
+	t.ColorMapUV = util.NewGrid[int](64, 64)
+	t.ColorOrder = make([]int, PALETTE_COLORS)
+
 	for plane := range t.LoopFilterTxSizes {
 		t.LoopFilterTxSizes[plane] = util.NewGrid[int](rows, cols)
 	}
-- 
2.43.0


From e6b7d7aab0134c61ca2eb5b010be8c2d0111f159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:29 +0000
Subject: [PATCH 094/152] fix: luma palette sizes have their own CDF

---
 internal/state/state.go            | 4 ++++
 internal/tilegroup/tile_group.go   | 3 +++
 internal/uncompressedheader/cdf.go | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/internal/state/state.go b/internal/state/state.go
index be5d5ad..3e144f0 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -147,6 +147,7 @@ type State struct {
 	PaletteYModeCdf        [][][]int
 	PaletteUVModeCdf       [][]int
 	PaletteUVSizeCdf       [][]int
+	PaletteYSizeCdf        [][]int
 	PaletteSize2YColorCdf  [][]int
 	PaletteSize2UVColorCdf [][]int
 	PaletteSize3YColorCdf  [][]int
@@ -231,6 +232,7 @@ type State struct {
 	TilePaletteYModeCdf        [][][]int
 	TilePaletteUVModeCdf       [][]int
 	TilePaletteUVSizeCdf       [][]int
+	TilePaletteYSizeCdf        [][]int
 	TilePaletteSize2YColorCdf  [][]int
 	TilePaletteSize2UVColorCdf [][]int
 	TilePaletteSize3YColorCdf  [][]int
@@ -330,6 +332,7 @@ type State struct {
 	SavedPaletteYModeCdf        [][][]int
 	SavedPaletteUVModeCdf       [][]int
 	SavedPaletteUVSizeCdf       [][]int
+	SavedPaletteYSizeCdf        [][]int
 	SavedPaletteSize2YColorCdf  [][]int
 	SavedPaletteSize2UVColorCdf [][]int
 	SavedPaletteSize3YColorCdf  [][]int
@@ -449,6 +452,7 @@ type MemoryArea struct {
 	PaletteYModeCdf        [][][]int
 	PaletteUVModeCdf       [][]int
 	PaletteUVSizeCdf       [][]int
+	PaletteYSizeCdf        [][]int
 	PaletteSize2YColorCdf  [][]int
 	PaletteSize2UVColorCdf [][]int
 	PaletteSize3YColorCdf  [][]int
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 8bf7623..714c250 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -494,6 +494,7 @@ func (t *TileGroup) frameEndUpdateCdf(state *state.State) {
 	state.PaletteYModeCdf = state.SavedPaletteYModeCdf
 	state.PaletteUVModeCdf = state.SavedPaletteUVModeCdf
 	state.PaletteUVSizeCdf = state.SavedPaletteUVSizeCdf
+	state.PaletteYSizeCdf = state.SavedPaletteYSizeCdf
 	state.PaletteSize2YColorCdf = state.SavedPaletteSize2YColorCdf
 	state.PaletteSize2UVColorCdf = state.SavedPaletteSize2UVColorCdf
 	state.PaletteSize3YColorCdf = state.SavedPaletteSize3YColorCdf
@@ -604,6 +605,7 @@ func (t *TileGroup) initSymbol(sz int, b *bitstream.BitStream, state *state.Stat
 	state.TilePaletteYModeCdf = state.PaletteYModeCdf
 	state.TilePaletteUVModeCdf = state.PaletteUVModeCdf
 	state.TilePaletteUVSizeCdf = state.PaletteUVSizeCdf
+	state.TilePaletteYSizeCdf = state.PaletteYSizeCdf
 	state.TilePaletteSize2YColorCdf = state.PaletteSize2YColorCdf
 	state.TilePaletteSize2UVColorCdf = state.PaletteSize2UVColorCdf
 	state.TilePaletteSize3YColorCdf = state.PaletteSize3YColorCdf
@@ -716,6 +718,7 @@ func (t *TileGroup) exitSymbol(b *bitstream.BitStream, state *state.State, uh un
 		state.SavedPaletteYModeCdf = state.TilePaletteYModeCdf
 		state.SavedPaletteUVModeCdf = state.TilePaletteUVModeCdf
 		state.SavedPaletteUVSizeCdf = state.TilePaletteUVSizeCdf
+		state.SavedPaletteYSizeCdf = state.TilePaletteYSizeCdf
 		state.SavedPaletteSize2YColorCdf = state.TilePaletteSize2YColorCdf
 		state.SavedPaletteSize2UVColorCdf = state.TilePaletteSize2UVColorCdf
 		state.SavedPaletteSize3YColorCdf = state.TilePaletteSize3YColorCdf
diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index ef83221..30f1a8f 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -62,6 +62,7 @@ func initNonCoeffCdfs(state *state.State) {
 	state.PaletteYModeCdf = DEFAULT_PALETTE_Y_MODE_CDF
 	state.PaletteUVModeCdf = DEFAULT_PALETTE_UV_MODE_CDF
 	state.PaletteUVSizeCdf = DEFAULT_PALETTE_UV_SIZE_CDF
+	state.PaletteYSizeCdf = DEFAULT_PALETTE_Y_SIZE_CDF
 	state.PaletteSize2YColorCdf = DEFAULT_PALETTE_SIZE_2_Y_COLOR_CDF
 	state.PaletteSize2UVColorCdf = DEFAULT_PALETTE_SIZE_2_UV_COLOR_CDF
 	state.PaletteSize3YColorCdf = DEFAULT_PALETTE_SIZE_3_Y_COLOR_CDF
@@ -189,6 +190,7 @@ func SaveCdfs(ctx int, s *state.State) {
 	memoryArea.PaletteYModeCdf = s.PaletteYModeCdf
 	memoryArea.PaletteUVModeCdf = s.PaletteUVModeCdf
 	memoryArea.PaletteUVSizeCdf = s.PaletteUVSizeCdf
+	memoryArea.PaletteYSizeCdf = s.PaletteYSizeCdf
 	memoryArea.PaletteSize2YColorCdf = s.PaletteSize2YColorCdf
 	memoryArea.PaletteSize2UVColorCdf = s.PaletteSize2UVColorCdf
 	memoryArea.PaletteSize3YColorCdf = s.PaletteSize3YColorCdf
@@ -295,6 +297,7 @@ func LoadCdfs(ctx int, s *state.State) {
 	s.PaletteYModeCdf = memoryArea.PaletteYModeCdf
 	s.PaletteUVModeCdf = memoryArea.PaletteUVModeCdf
 	s.PaletteUVSizeCdf = memoryArea.PaletteUVSizeCdf
+	s.PaletteYSizeCdf = memoryArea.PaletteYSizeCdf
 	s.PaletteSize2YColorCdf = memoryArea.PaletteSize2YColorCdf
 	s.PaletteSize2UVColorCdf = memoryArea.PaletteSize2UVColorCdf
 	s.PaletteSize3YColorCdf = memoryArea.PaletteSize3YColorCdf
-- 
2.43.0


From acb0f9859f0a3d313cec34c43acc2fcbc2a0e3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:53 +0000
Subject: [PATCH 095/152] fix: give every 4x4 block an entry in the tile
 contexts

---
 internal/tilegroup/tile_group.go | 34 +++++++++++---------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 714c250..0ec9771 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -778,19 +778,14 @@ func (t *TileGroup) exitSymbol(b *bitstream.BitStream, state *state.State, uh un
 func (t *TileGroup) clearAboveContext(state *state.State) {
 	t.AboveLevelContext = make([][]int, 3)
 	t.AboveDcContext = make([][]int, 3)
-	t.AboveSegPredContext = make([]int, 3)
 
-	for i := 0; i < 3; i++ {
-		t.AboveLevelContext[i] = make([]int, state.MiCols)
-		t.AboveDcContext[i] = make([]int, state.MiCols)
-	}
+	// blocks reach past the edge of the frame by up to a superblock
+	cols := state.MiCols + MAX_SB_SIZE/MI_SIZE
+	t.AboveSegPredContext = make([]int, cols)
 
-	for i := 0; i < state.MiCols; i++ {
-		for plane := 0; plane <= 2; plane++ {
-			t.AboveLevelContext[plane][i] = 0
-			t.AboveDcContext[plane][i] = 0
-			t.AboveSegPredContext[i] = 0
-		}
+	for i := 0; i < 3; i++ {
+		t.AboveLevelContext[i] = make([]int, cols)
+		t.AboveDcContext[i] = make([]int, cols)
 	}
 }
 
@@ -798,19 +793,14 @@ func (t *TileGroup) clearAboveContext(state *state.State) {
 func (t *TileGroup) clearLeftContext(state *state.State) {
 	t.LeftLevelContext = make([][]int, 3)
 	t.LeftDcContext = [3][]int{}
-	t.LeftSegPredContext = make([]int, 3)
 
-	for i := 0; i < 3; i++ {
-		t.LeftLevelContext[i] = make([]int, state.MiRows)
-		t.LeftDcContext[i] = make([]int, state.MiRows)
-	}
+	// blocks reach past the edge of the frame by up to a superblock
+	rows := state.MiRows + MAX_SB_SIZE/MI_SIZE
+	t.LeftSegPredContext = make([]int, rows)
 
-	for i := 0; i < state.MiRows; i++ {
-		for plane := 0; plane <= 2; plane++ {
-			t.LeftLevelContext[plane][i] = 0
-			t.LeftDcContext[plane][i] = 0
-			t.LeftSegPredContext[i] = 0
-		}
+	for i := 0; i < 3; i++ {
+		t.LeftLevelContext[i] = make([]int, rows)
+		t.LeftDcContext[i] = make([]int, rows)
 	}
 }
 
-- 
2.43.0


From 136afc297ba3a78a168ef65d8e2394b9cf6a2d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:31 +0000
Subject: [PATCH 096/152] fix: track which blocks of a whole superblock have
 been decoded

---
 internal/state/state.go                  |  5 +++-
 internal/tilegroup/compute_prediction.go |  2 +-
 internal/tilegroup/residual.go           | 13 ++--------
 internal/tilegroup/tile_group.go         | 30 ++++++++++--------------
 4 files changed, 19 insertions(+), 31 deletions(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index 3e144f0..506917c 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -5,6 +5,9 @@ import (
 	"github.com/m4tthewde/gov1/internal/shared"
 )
 
+// BLOCK_DECODED_SIZE covers positions -1 to 32 in units of 4x4 samples of a superblock.
+const BLOCK_DECODED_SIZE = 34
+
 type State struct {
 	MiCols            int
 	MiRows            int
@@ -47,7 +50,7 @@ type State struct {
 	ReadDeltas      bool
 	Cdef            cdef.Cdef
 
-	BlockDecoded           [3][13][13]bool
+	BlockDecoded           [3][BLOCK_DECODED_SIZE][BLOCK_DECODED_SIZE]bool
 	FrameRestorationType   []int
 	LoopRestorationSize    [3]int
 	AvailU                 bool
diff --git a/internal/tilegroup/compute_prediction.go b/internal/tilegroup/compute_prediction.go
index 136bcbb..51579b2 100644
--- a/internal/tilegroup/compute_prediction.go
+++ b/internal/tilegroup/compute_prediction.go
@@ -54,7 +54,7 @@ func (t *TileGroup) computePrediction(state *state.State, sh sequenceheader.Sequ
 				haveLeft = state.AvailL
 				haveAbove = state.AvailU
 			}
-			t.predictIntra(plane, baseX, baseY, haveLeft, haveAbove, state.BlockDecoded[plane][(subBlockMiRow>>subY)-1][(subBlockMiCol>>subX)+num4x4W], state.BlockDecoded[plane][(subBlockMiRow>>subY)+num4x4H][(subBlockMiCol>>subX)-1], mode, log2W, log2H, state, sh)
+			t.predictIntra(plane, baseX, baseY, haveLeft, haveAbove, state.BlockDecoded[plane][decodedIndex((subBlockMiRow>>subY)-1)][(subBlockMiCol>>subX)+num4x4W], state.BlockDecoded[plane][(subBlockMiRow>>subY)+num4x4H][decodedIndex((subBlockMiCol>>subX)-1)], mode, log2W, log2H, state, sh)
 		}
 
 		if util.Bool(t.IsInter) {
diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index 2e9ac6a..29c5a2c 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -137,19 +137,10 @@ func (t *TileGroup) transformBlock(plane int, baseX int, baseY int, txSz int, x
 				conditionU = state.AvailUChroma
 			}
 
-			// this assumes negative indeces are intended
 			x1 := (subBlockMiCol >> subX) + stepX
-			x2 := (subBlockMiCol >> subX) - 1
+			x2 := decodedIndex((subBlockMiCol >> subX) - 1)
 			y1 := (subBlockMiRow >> subY) + stepY
-			y2 := (subBlockMiRow >> subY) - 1
-
-			if x2 < 0 {
-				x2 = len(state.BlockDecoded[plane][y1]) + x2
-			}
-
-			if y2 < 0 {
-				y2 = len(state.BlockDecoded[plane]) + y2
-			}
+			y2 := decodedIndex((subBlockMiRow >> subY) - 1)
 
 			t.predictIntra(
 				plane,
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 0ec9771..b22a95b 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -835,7 +835,7 @@ func (t *TileGroup) decodeTile(b *bitstream.BitStream, state *state.State, sh se
 		for c := state.MiColStart; c < state.MiColEnd; c += sbSize4 {
 			state.ReadDeltas = uh.DeltaQPresent
 			state.Cdef.ClearCdef(r, c, sh.Use128x128SuperBlock, shared.NUM_4X4_BLOCKS_WIDE[shared.BLOCK_64X64])
-			t.clearBlockDecodedFlags(r, c, sbSize, state, sh)
+			t.clearBlockDecodedFlags(r, c, sbSize4, state, sh)
 			t.readLr(r, c, sbSize, b, state, uh, sh)
 			t.decodePartition(r, c, sbSize, b, state, sh, uh)
 		}
@@ -861,25 +861,19 @@ func (t *TileGroup) clearBlockDecodedFlags(r int, c int, sbSize4 int, state *sta
 
 		for y := -1; y <= (sbSize4 >> subY); y++ {
 			for x := -1; x <= (sbSize4 >> subX); x++ {
-				if y < 0 {
-					y = len(state.BlockDecoded[plane]) + y
-				}
-
-				if x < 0 {
-					x = len(state.BlockDecoded[plane][y]) + x
-				}
-
-				if y < 0 && x < sbWidth4 {
-					state.BlockDecoded[plane][y][x] = true
-				} else if x < 0 && y < sbHeight4 {
-					state.BlockDecoded[plane][y][x] = true
-				} else {
-					state.BlockDecoded[plane][y][x] = false
-				}
+				decoded := (y < 0 && x < sbWidth4) || (x < 0 && y < sbHeight4)
+				state.BlockDecoded[plane][decodedIndex(y)][decodedIndex(x)] = decoded
 			}
 		}
-		lastElement := len(state.BlockDecoded[plane][sbSize4>>subY]) - 1
-		state.BlockDecoded[plane][sbSize4>>subY][lastElement] = false
+		state.BlockDecoded[plane][sbSize4>>subY][decodedIndex(-1)] = false
+	}
+}
+
+// decodedIndex returns where BlockDecoded keeps position i of a superblock, -1 being the last entry.
+func decodedIndex(i int) int {
+	if i < 0 {
+		return i + state.BLOCK_DECODED_SIZE
 	}
 
+	return i
 }
-- 
2.43.0


From 0c29079514b934f2f83b141df9202b550e0515aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:32 +0000
Subject: [PATCH 097/152] fix: residual: positions, availability and sizes of
 transform blocks

---
 internal/tilegroup/residual.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index 29c5a2c..5744bce 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -11,8 +11,8 @@ import (
 
 // residual( )
 func (t *TileGroup) residual(sh sequenceheader.SequenceHeader, state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) {
-	widthChunks := util.Max(1, state.BlockWidth[state.MiSize]>>6)
-	heightChunks := util.Max(1, state.BlockHeight[state.MiSize]>>6)
+	widthChunks := util.Max(1, shared.BLOCK_WIDTH[state.MiSize]>>6)
+	heightChunks := util.Max(1, shared.BLOCK_HEIGHT[state.MiSize]>>6)
 
 	miSizeChunk := state.MiSize
 	if widthChunks > 1 || heightChunks > 1 {
@@ -94,11 +94,11 @@ func (t *TileGroup) transformBlock(plane int, baseX int, baseY int, txSz int, x
 	}
 
 	row := (startY << subY) >> shared.MI_SIZE_LOG2
-	col := (startY << subY) >> shared.MI_SIZE_LOG2
+	col := (startX << subX) >> shared.MI_SIZE_LOG2
 
 	sbMask := 15
 	if sh.Use128x128SuperBlock {
-		sbMask = 21
+		sbMask = 31
 	}
 
 	subBlockMiRow := row & sbMask
@@ -132,7 +132,7 @@ func (t *TileGroup) transformBlock(plane int, baseX int, baseY int, txSz int, x
 
 			conditionL := state.AvailL
 			conditionU := state.AvailU
-			if plane == 0 {
+			if plane > 0 {
 				conditionL = state.AvailLChroma
 				conditionU = state.AvailUChroma
 			}
@@ -174,8 +174,8 @@ func (t *TileGroup) transformBlock(plane int, baseX int, baseY int, txSz int, x
 	}
 
 	for i := 0; i < stepY; i++ {
-		for j := 0; j < stepY; j++ {
-			t.LoopFilterTxSizes[plane][(row>>subY)+i][(col>>subX + j)] = txSz
+		for j := 0; j < stepX; j++ {
+			t.LoopFilterTxSizes[plane][(row>>subY)+i][(col>>subX)+j] = txSz
 			state.BlockDecoded[plane][(subBlockMiRow>>subY)+i][(subBlockMiCol>>subX)+j] = true
 		}
 	}
-- 
2.43.0


From 680620cb27063408de66b78d6217b424acd0c850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:34 +0000
Subject: [PATCH 098/152] fix: decode_block: use what was read for the block,
 store its segment id

---
 internal/tilegroup/decode_block.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/decode_block.go b/internal/tilegroup/decode_block.go
index 7a120d6..f6aec7a 100644
--- a/internal/tilegroup/decode_block.go
+++ b/internal/tilegroup/decode_block.go
@@ -46,7 +46,7 @@ func (t *TileGroup) decodeBlock(r int, c int, subSize int, b *bitstream.BitStrea
 	t.paletteTokens(b, state, sh)
 	t.readBlockTxSize(b, state, uh)
 
-	if util.Bool(state.Skip) {
+	if util.Bool(t.Skip) {
 		t.resetBlockContext(bw4, bh4, b, state, sh)
 	}
 
@@ -64,7 +64,7 @@ func (t *TileGroup) decodeBlock(r int, c int, subSize int, b *bitstream.BitStrea
 				state.RefFrames[r+y][c+x][refList] = state.RefFrame[refList]
 			}
 
-			if util.Bool(state.IsInter) {
+			if util.Bool(t.IsInter) {
 				if !util.Bool(t.useIntrabc) {
 					t.CompGroupIdxs[r+y][c+x] = t.CompGroupIdx
 					t.CompoundIdxs[r+y][c+x] = t.CompoundIdx
@@ -87,6 +87,7 @@ func (t *TileGroup) decodeBlock(r int, c int, subSize int, b *bitstream.BitStrea
 			t.IsInters[r+y][c+x] = t.IsInter
 			t.SkipModes[r+y][c+x] = t.SkipMode
 			t.Skips[r+y][c+x] = t.Skip
+			t.SegmentIds[r+y][c+x] = t.SegmentId
 			t.TxSizes[r+y][c+x] = t.TxSize
 			state.MiSizes[r+y][c+x] = state.MiSize
 			t.PaletteSizes[0][r+y][c+x] = t.PaletteSizeY
-- 
2.43.0


From c266490c048f18dff5f853f5d37ce2c8c6c9ff83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:36 +0000
Subject: [PATCH 099/152] fix: reset the contexts of the whole of a skipped
 block

---
 internal/tilegroup/decode_block.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/decode_block.go b/internal/tilegroup/decode_block.go
index f6aec7a..be21bff 100644
--- a/internal/tilegroup/decode_block.go
+++ b/internal/tilegroup/decode_block.go
@@ -125,12 +125,12 @@ func (t *TileGroup) resetBlockContext(bw4 int, bh4 int, b *bitstream.BitStream,
 			subY = util.Int(sh.ColorConfig.SubsamplingY)
 		}
 
-		for i := state.MiCol >> subX; i < ((state.MiCol + bw4) >> subX); i++ {
+		for i := state.MiCol >> subX; i <= ((state.MiCol + bw4 - 1) >> subX); i++ {
 			t.AboveLevelContext[plane][i] = 0
 			t.AboveDcContext[plane][i] = 0
 		}
 
-		for i := state.MiRow >> subY; i < ((state.MiRow + bh4) >> subY); i++ {
+		for i := state.MiRow >> subY; i <= ((state.MiRow + bh4 - 1) >> subY); i++ {
 			t.LeftLevelContext[plane][i] = 0
 			t.LeftDcContext[plane][i] = 0
 		}
-- 
2.43.0


From ade60345041c4461ddeb12576b421a60cf1e5f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:59 +0000
Subject: [PATCH 100/152] fix: partition tree: second position, sub-size and
 edge of some partitions

---
 internal/tilegroup/decode_partition.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/tilegroup/decode_partition.go b/internal/tilegroup/decode_partition.go
index ba90c0d..facbe13 100644
--- a/internal/tilegroup/decode_partition.go
+++ b/internal/tilegroup/decode_partition.go
@@ -53,7 +53,7 @@ func (t *TileGroup) decodePartition(r int, c int, bSize int, b *bitstream.BitStr
 	if partition == PARTITION_NONE {
 		t.decodeBlock(r, c, subSize, b, state, sh, uh)
 	} else if partition == PARTITION_HORZ {
-		t.decodeBlock(r+halfBlock4x4, c, subSize, b, state, sh, uh)
+		t.decodeBlock(r, c, subSize, b, state, sh, uh)
 		if hasRows {
 			t.decodeBlock(r+halfBlock4x4, c, subSize, b, state, sh, uh)
 		}
@@ -82,7 +82,7 @@ func (t *TileGroup) decodePartition(r int, c int, bSize int, b *bitstream.BitStr
 	} else if partition == PARTITION_VERT_B {
 		t.decodeBlock(r, c, subSize, b, state, sh, uh)
 		t.decodeBlock(r, c+halfBlock4x4, splitSize, b, state, sh, uh)
-		t.decodeBlock(r+halfBlock4x4, c+halfBlock4x4, subSize, b, state, sh, uh)
+		t.decodeBlock(r+halfBlock4x4, c+halfBlock4x4, splitSize, b, state, sh, uh)
 	} else if partition == PARTITION_HORZ_4 {
 		t.decodeBlock(r+quarterBlock4x4*0, c, subSize, b, state, sh, uh)
 		t.decodeBlock(r+quarterBlock4x4*1, c, subSize, b, state, sh, uh)
@@ -94,7 +94,7 @@ func (t *TileGroup) decodePartition(r int, c int, bSize int, b *bitstream.BitStr
 		t.decodeBlock(r, c+quarterBlock4x4*0, subSize, b, state, sh, uh)
 		t.decodeBlock(r, c+quarterBlock4x4*1, subSize, b, state, sh, uh)
 		t.decodeBlock(r, c+quarterBlock4x4*2, subSize, b, state, sh, uh)
-		if c+quarterBlock4x4*3 < state.MiRows {
+		if c+quarterBlock4x4*3 < state.MiCols {
 			t.decodeBlock(r, c+quarterBlock4x4*3, subSize, b, state, sh, uh)
 		}
 	}
@@ -132,7 +132,7 @@ func splitOrVertElement(bSize int, r int, c int, state *state.State, uh uncompre
 	cdf := make([]int, 3)
 	cdf[0] = (1 << 15) - psum
 	cdf[1] = 1 << 15
-	cdf[3] = 0
+	cdf[2] = 0
 
 	return symbol.ReadSymbol(cdf, state, b, uh)
 }
@@ -169,7 +169,7 @@ func splitOrHorzElement(bSize int, r int, c int, state *state.State, uh uncompre
 	cdf := make([]int, 3)
 	cdf[0] = (1 << 15) - psum
 	cdf[1] = 1 << 15
-	cdf[3] = 0
+	cdf[2] = 0
 
 	return symbol.ReadSymbol(cdf, state, b, uh)
 }
-- 
2.43.0


From 188360a3ccda1e5032a7a89d4b5ab88b3134cfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:53 +0000
Subject: [PATCH 101/152] fix: intra_frame_mode_info: read every element with
 its own CDF and context

---
 internal/tilegroup/inter_frame_mode_info.go |  2 +-
 internal/tilegroup/intra_frame_mode_info.go | 26 ++++++++++-----------
 internal/tilegroup/tile_group.go            |  2 +-
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/internal/tilegroup/inter_frame_mode_info.go b/internal/tilegroup/inter_frame_mode_info.go
index 26a30c6..201d241 100644
--- a/internal/tilegroup/inter_frame_mode_info.go
+++ b/internal/tilegroup/inter_frame_mode_info.go
@@ -99,7 +99,7 @@ func (t *TileGroup) intraBlockModeInfo(b *bitstream.BitStream, state *state.Stat
 		t.paletteModeInfo(b, state, sh, uh)
 	}
 
-	t.filterIntraModeInfo(b, sh, state)
+	t.filterIntraModeInfo(b, sh, state, uh)
 }
 
 // inter_segment_id( preSkip )
diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index ee55ec4..401dbe9 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -30,16 +30,16 @@ func (t *TileGroup) intraFrameModeInfo(b *bitstream.BitStream, uh uncompressedhe
 
 	state.ReadDeltas = false
 	state.RefFrame[0] = shared.INTRA_FRAME
-	state.RefFrame[0] = shared.NONE
+	state.RefFrame[1] = shared.NONE
 
 	if uh.AllowIntraBc {
-		t.useIntrabc = b.S()
+		t.useIntrabc = symbol.ReadSymbol(state.TileIntrabcCdf, state, b, uh)
 	} else {
 		t.useIntrabc = 0
 	}
 
 	if util.Bool(t.useIntrabc) {
-		t.IsInter = -1
+		t.IsInter = 1
 		t.YMode = DC_PRED
 		t.UVMode = DC_PRED
 		t.MotionMode = SIMPLE
@@ -60,7 +60,7 @@ func (t *TileGroup) intraFrameModeInfo(b *bitstream.BitStream, uh uncompressedhe
 			var uvMode int
 			if t.Lossless && t.getPlaneResidualSize(state.MiSize, 1, sh) == shared.BLOCK_4X4 {
 				uvMode = symbol.ReadSymbol(state.TileUVModeCflAllowedCdf[t.YMode], state, b, uh)
-			} else if !t.Lossless && util.Max(shared.BLOCK_WIDTH[state.MiSize], shared.BLOCK_HEIGHT[state.MiSize]) < 32 {
+			} else if !t.Lossless && util.Max(shared.BLOCK_WIDTH[state.MiSize], shared.BLOCK_HEIGHT[state.MiSize]) <= 32 {
 				uvMode = symbol.ReadSymbol(state.TileUVModeCflAllowedCdf[t.YMode], state, b, uh)
 			} else {
 				uvMode = symbol.ReadSymbol(state.TileUVModeCflNotAllowedCdf[t.YMode], state, b, uh)
@@ -81,7 +81,7 @@ func (t *TileGroup) intraFrameModeInfo(b *bitstream.BitStream, uh uncompressedhe
 		if state.MiSize >= shared.BLOCK_8X8 && shared.BLOCK_WIDTH[state.MiSize] <= 64 && shared.BLOCK_HEIGHT[state.MiSize] <= 64 && util.Bool(uh.AllowScreenContentTools) {
 			t.paletteModeInfo(b, state, sh, uh)
 		}
-		t.filterIntraModeInfo(b, sh, state)
+		t.filterIntraModeInfo(b, sh, state, uh)
 	}
 }
 
@@ -174,10 +174,10 @@ func (t *TileGroup) readSkip(b *bitstream.BitStream, uh uncompressedheader.Uncom
 	} else {
 		ctx := 0
 		if state.AvailU {
-			ctx += t.SkipModes[state.MiRow-1][state.MiCol]
+			ctx += t.Skips[state.MiRow-1][state.MiCol]
 		}
 		if state.AvailL {
-			ctx += t.SkipModes[state.MiRow][state.MiCol-1]
+			ctx += t.Skips[state.MiRow][state.MiCol-1]
 		}
 
 		t.Skip = symbol.ReadSymbol(state.TileSkipCdf[ctx], state, b, uh)
@@ -222,7 +222,7 @@ func (t *TileGroup) readCdef(b *bitstream.BitStream, uh uncompressedheader.Uncom
 		h4 := shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]
 
 		for i := r; i < r+h4; i += cdefSize4 {
-			for j := c; i < c+w4; i += cdefSize4 {
+			for j := c; j < c+w4; j += cdefSize4 {
 				state.Cdef.CdefIdx[i][j] = state.Cdef.CdefIdx[r][c]
 			}
 
@@ -382,13 +382,13 @@ func (t *TileGroup) intraAngleInfoUv(b *bitstream.BitStream, state *state.State,
 }
 
 // filter_intra_mode_info()
-func (t *TileGroup) filterIntraModeInfo(b *bitstream.BitStream, sh sequenceheader.SequenceHeader, state *state.State) {
-	useFilterIntra := false
+func (t *TileGroup) filterIntraModeInfo(b *bitstream.BitStream, sh sequenceheader.SequenceHeader, state *state.State, uh uncompressedheader.UncompressedHeader) {
+	t.UseFilterIntra = false
 	if sh.EnableFilterIntra && t.YMode == DC_PRED && t.PaletteSizeY == 0 && util.Max(shared.BLOCK_WIDTH[state.MiSize], shared.BLOCK_HEIGHT[state.MiSize]) <= 32 {
-		useFilterIntra = util.Bool(b.S())
+		t.UseFilterIntra = util.Bool(symbol.ReadSymbol(state.TileFilterIntraCdf[state.MiSize], state, b, uh))
 
-		if useFilterIntra {
-			t.FilterIntraMode = b.S()
+		if t.UseFilterIntra {
+			t.FilterIntraMode = symbol.ReadSymbol(state.TileFilterIntraModeCdf, state, b, uh)
 		}
 	}
 }
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index b22a95b..d715d8a 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -87,7 +87,7 @@ const UV_CFL_PRED = 13
 const MAX_ANGLE_DELTA = 3
 
 const CFL_SIGN_ZERO = 0
-const CFL_SIGN_NEG = 2
+const CFL_SIGN_NEG = 1
 
 const INTRABC_DELAY_PIXELS = 256
 
-- 
2.43.0


From 579a90a68b0947aa57256ac6e5d1aa56a888df4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:55 +0000
Subject: [PATCH 102/152] fix: limit the segment id to the last active one

---
 internal/tilegroup/intra_frame_mode_info.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index 401dbe9..b307d53 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -164,6 +164,7 @@ func (t *TileGroup) readSegmentId(b *bitstream.BitStream, uh uncompressedheader.
 
 		t.SegmentId = symbol.ReadSymbol(state.TileSegmentIdCdf[ctx], state, b, uh)
 		t.SegmentId = util.NegDeinterleave(t.SegmentId, pred, uh.LastActiveSegId+1)
+		t.SegmentId = util.Clip3(0, uh.LastActiveSegId, t.SegmentId)
 	}
 }
 
-- 
2.43.0


From 3dec0a360e4ff113e6c7f92bacb270d7a96d7506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:57 +0000
Subject: [PATCH 103/152] fix: palette_mode_info: CDFs, ranges and cache of the
 palettes

---
 internal/tilegroup/palette.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/internal/tilegroup/palette.go b/internal/tilegroup/palette.go
index e5245ec..a5b4ada 100644
--- a/internal/tilegroup/palette.go
+++ b/internal/tilegroup/palette.go
@@ -27,7 +27,7 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 		hasPaletteY := symbol.ReadSymbol(state.TilePaletteYModeCdf[bSizeCtx][ctx], state, b, uh)
 
 		if util.Bool(hasPaletteY) {
-			paletteSizeYMinus2 := b.S()
+			paletteSizeYMinus2 := symbol.ReadSymbol(state.TilePaletteYSizeCdf[bSizeCtx], state, b, uh)
 			t.PaletteSizeY = paletteSizeYMinus2 + 2
 			cacheN := t.getPaletteCache(0, state)
 			idx := 0
@@ -48,7 +48,7 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 
 			var paletteBits int
 			if idx < t.PaletteSizeY {
-				minBits := sh.ColorConfig.BitDepth - 1
+				minBits := sh.ColorConfig.BitDepth - 3
 				paletteNumExtraBitsY := literal.L(2, state, b, uh)
 				paletteBits = minBits + paletteNumExtraBitsY
 			}
@@ -66,9 +66,10 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 	}
 
 	if t.HasChroma && t.UVMode == DC_PRED {
-		hasPaletteUv := b.S()
+		ctx := util.Int(t.PaletteSizeY > 0)
+		hasPaletteUv := symbol.ReadSymbol(state.TilePaletteUVModeCdf[ctx], state, b, uh)
 		if util.Bool(hasPaletteUv) {
-			paletteSizeUvMinus2 := b.S()
+			paletteSizeUvMinus2 := symbol.ReadSymbol(state.TilePaletteUVSizeCdf[bSizeCtx], state, b, uh)
 			t.PaletteSizeUV = paletteSizeUvMinus2 + 2
 			cacheN := t.getPaletteCache(1, state)
 			idx := 0
@@ -77,7 +78,7 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 				usePaletteColorCacheU := literal.L(1, state, b, uh)
 
 				if util.Bool(usePaletteColorCacheU) {
-					t.PaletteColorsY[idx] = t.PaletteCache[i]
+					t.PaletteColorsU[idx] = t.PaletteCache[i]
 					idx++
 				}
 			}
@@ -97,7 +98,7 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 			for idx < t.PaletteSizeUV {
 				paletteDeltaU := literal.L(paletteBits, state, b, uh)
 				t.PaletteColorsU[idx] = util.Clip1(t.PaletteColorsU[idx-1]+paletteDeltaU, sh.ColorConfig.BitDepth)
-				rangE := (1 << sh.ColorConfig.BitDepth) - t.PaletteColorsU[idx] - 1
+				rangE := (1 << sh.ColorConfig.BitDepth) - t.PaletteColorsU[idx]
 				paletteBits = util.Min(paletteBits, util.CeilLog2(rangE))
 				idx++
 			}
@@ -143,7 +144,7 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 func (t *TileGroup) getPaletteCache(plane int, state *state.State) int {
 	aboveN := 0
 
-	if util.Bool((state.MiRow * MI_SIZE) % 64) {
+	if util.Bool((state.MiRow*MI_SIZE)%64) && state.AvailU {
 		aboveN = t.PaletteSizes[plane][state.MiRow-1][state.MiCol]
 	}
 
@@ -186,5 +187,15 @@ func (t *TileGroup) getPaletteCache(plane int, state *state.State) int {
 			n++
 		}
 	}
+
+	for leftIdx < leftN {
+		val := t.PaletteColors[plane][state.MiRow][state.MiCol-1][leftIdx]
+		leftIdx++
+		if n == 0 || val != t.PaletteCache[n-1] {
+			t.PaletteCache[n] = val
+			n++
+		}
+	}
+
 	return n
 }
-- 
2.43.0


From 9e76cd35a884cc429fda3c4308b36f622c3ada3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:59 +0000
Subject: [PATCH 104/152] fix: palette_tokens: read the color indices with
 their CDFs

---
 internal/tilegroup/decode_block.go   |  2 +-
 internal/tilegroup/palette_tokens.go | 64 ++++++++++++++++++++++++----
 2 files changed, 57 insertions(+), 9 deletions(-)

diff --git a/internal/tilegroup/decode_block.go b/internal/tilegroup/decode_block.go
index be21bff..7bbf6b7 100644
--- a/internal/tilegroup/decode_block.go
+++ b/internal/tilegroup/decode_block.go
@@ -43,7 +43,7 @@ func (t *TileGroup) decodeBlock(r int, c int, subSize int, b *bitstream.BitStrea
 	}
 
 	t.modeInfo(b, uh, sh, state)
-	t.paletteTokens(b, state, sh)
+	t.paletteTokens(b, state, sh, uh)
 	t.readBlockTxSize(b, state, uh)
 
 	if util.Bool(t.Skip) {
diff --git a/internal/tilegroup/palette_tokens.go b/internal/tilegroup/palette_tokens.go
index 2e0c084..dfc6476 100644
--- a/internal/tilegroup/palette_tokens.go
+++ b/internal/tilegroup/palette_tokens.go
@@ -2,27 +2,33 @@ package tilegroup
 
 import (
 	"github.com/m4tthewde/gov1/internal/bitstream"
+	"github.com/m4tthewde/gov1/internal/literal"
 	"github.com/m4tthewde/gov1/internal/sequenceheader"
 	"github.com/m4tthewde/gov1/internal/shared"
 	"github.com/m4tthewde/gov1/internal/state"
+	"github.com/m4tthewde/gov1/internal/symbol"
+	"github.com/m4tthewde/gov1/internal/uncompressedheader"
 	"github.com/m4tthewde/gov1/internal/util"
 )
 
+// Palette_Color_Context gives the context of a color index from the hash of its neighbors.
+var Palette_Color_Context = []int{-1, -1, 0, -1, -1, 4, 3, 2, 1}
+
 // palette_tokens()
-func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh sequenceheader.SequenceHeader) {
+func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) {
 	blockHeight := shared.BLOCK_HEIGHT[state.MiSize]
 	blockWidth := shared.BLOCK_WIDTH[state.MiSize]
 	onscreenHeight := util.Min(blockHeight, (state.MiRows-state.MiRow)*MI_SIZE)
 	onscreenWidth := util.Min(blockWidth, (state.MiCols-state.MiCol)*MI_SIZE)
 
 	if util.Bool(t.PaletteSizeY) {
-		colorIndexMapY := b.Ns(t.PaletteSizeY)
+		colorIndexMapY := literal.NS(t.PaletteSizeY, state, b, uh)
 		t.ColorMapY[0][0] = colorIndexMapY
 
 		for i := 1; i < onscreenHeight+onscreenWidth-1; i++ {
 			for j := util.Min(i, onscreenWidth-1); j >= util.Max(0, i-onscreenHeight+1); j-- {
 				t.getPaletteColorContext(t.ColorMapY, (i - j), j, t.PaletteSizeY)
-				paletteColorIdxY := b.S()
+				paletteColorIdxY := t.paletteColorIdxYSymbol(state, b, uh)
 				t.ColorMapY[i-j][j] = t.ColorOrder[paletteColorIdxY]
 			}
 		}
@@ -39,11 +45,11 @@ func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh
 	}
 
 	if util.Bool(t.PaletteSizeUV) {
-		colorIndexMapUv := b.Ns(t.PaletteSizeUV)
+		colorIndexMapUv := literal.NS(t.PaletteSizeUV, state, b, uh)
 		t.ColorMapUV[0][0] = colorIndexMapUv
 		blockHeight = blockHeight >> util.Int(sh.ColorConfig.SubsamplingY)
 		blockWidth = blockWidth >> util.Int(sh.ColorConfig.SubsamplingX)
-		onscreenHeight = onscreenHeight >> util.Int(sh.ColorConfig.SubsamplingX)
+		onscreenHeight = onscreenHeight >> util.Int(sh.ColorConfig.SubsamplingY)
 		onscreenWidth = onscreenWidth >> util.Int(sh.ColorConfig.SubsamplingX)
 
 		if blockWidth < 4 {
@@ -58,7 +64,7 @@ func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh
 		for i := 1; i < onscreenHeight+onscreenWidth-1; i++ {
 			for j := util.Min(i, onscreenWidth-1); j >= util.Max(0, i-onscreenHeight+1); j-- {
 				t.getPaletteColorContext(t.ColorMapUV, (i - j), j, t.PaletteSizeUV)
-				paletteColorIdxUv := b.S()
+				paletteColorIdxUv := t.paletteColorIdxUvSymbol(state, b, uh)
 				t.ColorMapUV[i-j][j] = t.ColorOrder[paletteColorIdxUv]
 			}
 		}
@@ -75,9 +81,51 @@ func (t *TileGroup) paletteTokens(b *bitstream.BitStream, state *state.State, sh
 	}
 }
 
+func (t *TileGroup) paletteColorIdxYSymbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	ctx := Palette_Color_Context[t.ColorContextHash]
+
+	switch t.PaletteSizeY {
+	case 2:
+		return symbol.ReadSymbol(state.TilePaletteSize2YColorCdf[ctx], state, b, uh)
+	case 3:
+		return symbol.ReadSymbol(state.TilePaletteSize3YColorCdf[ctx], state, b, uh)
+	case 4:
+		return symbol.ReadSymbol(state.TilePaletteSize4YColorCdf[ctx], state, b, uh)
+	case 5:
+		return symbol.ReadSymbol(state.TilePaletteSize5YColorCdf[ctx], state, b, uh)
+	case 6:
+		return symbol.ReadSymbol(state.TilePaletteSize6YColorCdf[ctx], state, b, uh)
+	case 7:
+		return symbol.ReadSymbol(state.TilePaletteSize7YColorCdf[ctx], state, b, uh)
+	default:
+		return symbol.ReadSymbol(state.TilePaletteSize8YColorCdf[ctx], state, b, uh)
+	}
+}
+
+func (t *TileGroup) paletteColorIdxUvSymbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	ctx := Palette_Color_Context[t.ColorContextHash]
+
+	switch t.PaletteSizeUV {
+	case 2:
+		return symbol.ReadSymbol(state.TilePaletteSize2UVColorCdf[ctx], state, b, uh)
+	case 3:
+		return symbol.ReadSymbol(state.TilePaletteSize3UVColorCdf[ctx], state, b, uh)
+	case 4:
+		return symbol.ReadSymbol(state.TilePaletteSize4UVColorCdf[ctx], state, b, uh)
+	case 5:
+		return symbol.ReadSymbol(state.TilePaletteSize5UVColorCdf[ctx], state, b, uh)
+	case 6:
+		return symbol.ReadSymbol(state.TilePaletteSize6UVColorCdf[ctx], state, b, uh)
+	case 7:
+		return symbol.ReadSymbol(state.TilePaletteSize7UVColorCdf[ctx], state, b, uh)
+	default:
+		return symbol.ReadSymbol(state.TilePaletteSize8UVColorCdf[ctx], state, b, uh)
+	}
+}
+
 // get_palette_color_context( colorMap, r, c, n )
 func (t *TileGroup) getPaletteColorContext(colorMap [][]int, r int, c int, n int) {
-	var scores []int
+	scores := make([]int, PALETTE_COLORS)
 	for i := 0; i < PALETTE_COLORS; i++ {
 		scores[i] = 0
 		t.ColorOrder[i] = i
@@ -95,7 +143,7 @@ func (t *TileGroup) getPaletteColorContext(colorMap [][]int, r int, c int, n int
 	}
 	if r > 0 {
 		neighbor = colorMap[r-1][c]
-		scores[neighbor] += 1
+		scores[neighbor] += 2
 	}
 
 	for i := 0; i < PALETTE_NUM_NEIGHBORS; i++ {
-- 
2.43.0


From 1f6e7d24ea51eec58e6c31145d1d8ff5a043332e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:01 +0000
Subject: [PATCH 105/152] fix: read_block_tx_size: neighbours and split flags
 of the transform sizes

---
 internal/tilegroup/tx_size.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/internal/tilegroup/tx_size.go b/internal/tilegroup/tx_size.go
index a05e8ec..47a711b 100644
--- a/internal/tilegroup/tx_size.go
+++ b/internal/tilegroup/tx_size.go
@@ -25,11 +25,11 @@ func (t *TileGroup) readBlockTxSize(b *bitstream.BitStream, state *state.State,
 
 		for row := state.MiRow; row < state.MiRow+bh4; row += txH4 {
 			for col := state.MiCol; col < state.MiCol+bw4; col += txW4 {
-				t.readVarTxSize(row, col, maxTxSz, 0, b, state)
+				t.readVarTxSize(row, col, maxTxSz, 0, b, state, uh)
 			}
 		}
 	} else {
-		t.readTxSize(!util.Bool(t.Skip) || util.Bool(t.IsInter), b, state, uh)
+		t.readTxSize(!util.Bool(t.Skip) || !util.Bool(t.IsInter), b, state, uh)
 		for row := state.MiRow; row < state.MiRow+bh4; row++ {
 			for col := state.MiCol; col < state.MiCol+bw4; col++ {
 				t.InterTxSizes[row][col] = t.TxSize
@@ -74,7 +74,7 @@ func (t *TileGroup) txDepthSymbol(maxRectTxSize int, maxTxDepth int, state *stat
 	var leftH int
 	if state.AvailL && util.Bool(t.IsInters[state.MiRow][state.MiCol-1]) {
 		leftH = shared.BLOCK_HEIGHT[state.MiSizes[state.MiRow][state.MiCol-1]]
-	} else if state.AvailU {
+	} else if state.AvailL {
 		leftH = t.getLeftTxHeight(state.MiRow, state.MiCol, state)
 	} else {
 		leftH = 0
@@ -106,7 +106,7 @@ func (t *TileGroup) getAboveTxWidth(row int, col int, state *state.State) int {
 }
 
 func (t *TileGroup) getLeftTxHeight(row int, col int, state *state.State) int {
-	if row == state.MiCol {
+	if col == state.MiCol {
 		if !state.AvailL {
 			return 64
 		} else if util.Bool(t.Skips[row][col-1]) && util.Bool(t.IsInters[row][col-1]) {
@@ -117,7 +117,7 @@ func (t *TileGroup) getLeftTxHeight(row int, col int, state *state.State) int {
 }
 
 // read_var_tx_size( row, col, txSz, depth )
-func (t *TileGroup) readVarTxSize(row int, col int, txSz int, depth int, b *bitstream.BitStream, state *state.State) {
+func (t *TileGroup) readVarTxSize(row int, col int, txSz int, depth int, b *bitstream.BitStream, state *state.State, uh uncompressedheader.UncompressedHeader) {
 	if row >= state.MiRows || col >= state.MiCols {
 		return
 	}
@@ -126,7 +126,7 @@ func (t *TileGroup) readVarTxSize(row int, col int, txSz int, depth int, b *bits
 	if txSz == TX_4X4 || depth == MAX_VARTX_DEPTH {
 		txfmSplit = 0
 	} else {
-		txfmSplit = b.S()
+		txfmSplit = t.txfmSplitSymbol(row, col, txSz, state, b, uh)
 	}
 
 	w4 := Tx_Width[txSz] / MI_SIZE
@@ -139,19 +139,30 @@ func (t *TileGroup) readVarTxSize(row int, col int, txSz int, depth int, b *bits
 
 		for i := 0; i < h4; i += stepH {
 			for j := 0; j < w4; j += stepW {
-				t.readVarTxSize(row+i, col+j, subTxSz, depth+1, b, state)
+				t.readVarTxSize(row+i, col+j, subTxSz, depth+1, b, state, uh)
 			}
 		}
 	} else {
 		for i := 0; i < h4; i++ {
 			for j := 0; j < w4; j++ {
-				t.InterTxSizes[row+i][col+i] = txSz
+				t.InterTxSizes[row+i][col+j] = txSz
 			}
 		}
 		t.TxSize = txSz
 	}
 }
 
+func (t *TileGroup) txfmSplitSymbol(row int, col int, txSz int, state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	above := util.Int(t.getAboveTxWidth(row, col, state) < Tx_Width[txSz])
+	left := util.Int(t.getLeftTxHeight(row, col, state) < Tx_Height[txSz])
+	size := util.Min(64, util.Max(shared.BLOCK_WIDTH[state.MiSize], shared.BLOCK_HEIGHT[state.MiSize]))
+	maxTxSz := findTxSize(size, size)
+	txSzSqrUp := TX_SIZE_SQR_UP[txSz]
+	ctx := util.Int(txSzSqrUp != maxTxSz)*3 + (TX_64X64-maxTxSz)*6 + above + left
+
+	return symbol.ReadSymbol(state.TileTxfmSplitCdf[ctx], state, b, uh)
+}
+
 const MAX_VARTX_DEPTH = 2
 
 const TX_4X4 = 0
-- 
2.43.0


From abb0d719df37b4e084a0ebc8c31fe0c9e4e8be36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:18 +0000
Subject: [PATCH 106/152] fix: coeffs: return the number of coefficients, read
 signs, scan 64x16 blocks by rows

---
 internal/tilegroup/coeffs.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/internal/tilegroup/coeffs.go b/internal/tilegroup/coeffs.go
index 8c9d7ad..b392986 100644
--- a/internal/tilegroup/coeffs.go
+++ b/internal/tilegroup/coeffs.go
@@ -87,7 +87,6 @@ func (t *TileGroup) coeffs(plane int, startX int, startY int, txSz int, b *bitst
 			eobPt = eob_pt_1024 + 1
 		}
 
-		var eob int
 		if eobPt < 2 {
 			eob = eobPt
 		} else {
@@ -144,7 +143,7 @@ func (t *TileGroup) coeffs(plane int, startX int, startY int, txSz int, b *bitst
 					dcSign := t.readDcSignSymbol(plane, w4, h4, x4, y4, ptype, state, b, uh, sh)
 					sign = dcSign
 				} else {
-					signBit := literal.L(0, state, b, uh)
+					signBit := literal.L(1, state, b, uh)
 					sign = signBit
 				}
 			} else {
@@ -160,6 +159,10 @@ func (t *TileGroup) coeffs(plane int, startX int, startY int, txSz int, b *bitst
 					if util.Bool(golombLengthBit) {
 						break
 					}
+
+					if length == 20 {
+						panic("Violating bitstream conformance!")
+					}
 				}
 				x := 1
 				for i := length - 2; i >= 0; i-- {
@@ -176,7 +179,7 @@ func (t *TileGroup) coeffs(plane int, startX int, startY int, txSz int, b *bitst
 				}
 			}
 
-			t.Quant[pos] = t.Quant[pos] & 0xFFFF
+			t.Quant[pos] = t.Quant[pos] & 0xFFFFF
 			culLevel += t.Quant[pos]
 			if util.Bool(sign) {
 				t.Quant[pos] = -t.Quant[pos]
@@ -501,7 +504,7 @@ func (t *TileGroup) getScan(txSz int) []int {
 	}
 
 	if txSz == TX_64X16 {
-		return Default_Scan_16x32
+		return Default_Scan_32x16
 	}
 
 	if TX_SIZE_SQR_UP[txSz] == TX_64X64 {
-- 
2.43.0


From 6d3fd638eed1f99019748aafb5c48108753bf325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:20 +0000
Subject: [PATCH 107/152] fix: read_lr: units of luma, CDFs and subexponential
 codes of the parameters

---
 internal/tilegroup/read_loop_restoration.go | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/internal/tilegroup/read_loop_restoration.go b/internal/tilegroup/read_loop_restoration.go
index bf28edb..53299bc 100644
--- a/internal/tilegroup/read_loop_restoration.go
+++ b/internal/tilegroup/read_loop_restoration.go
@@ -25,12 +25,9 @@ func (t *TileGroup) readLr(r int, c int, bSize int, b *bitstream.BitStream, stat
 			subX := 0
 			subY := 0
 
-			if sh.ColorConfig.SubsamplingX {
-				subX = 1
-			}
-
-			if sh.ColorConfig.SubsamplingY {
-				subY = 1
+			if plane > 0 {
+				subX = util.Int(sh.ColorConfig.SubsamplingX)
+				subY = util.Int(sh.ColorConfig.SubsamplingY)
 			}
 
 			unitSize := state.LoopRestorationSize[plane]
@@ -64,13 +61,13 @@ func (t *TileGroup) readLr(r int, c int, bSize int, b *bitstream.BitStream, stat
 func (t *TileGroup) readLrUnit(plane int, unitRow int, unitCol int, state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) {
 	var restorationType int
 	if uh.FrameRestorationType[plane] == shared.RESTORE_WIENER {
-		useWiener := b.S()
+		useWiener := symbol.ReadSymbol(state.TileUseWienerCdf, state, b, uh)
 		restorationType = shared.RESTORE_NONE
 		if useWiener == 1 {
 			restorationType = shared.RESTORE_WIENER
 		}
 	} else if uh.FrameRestorationType[plane] == shared.RESTORE_SGRPROJ {
-		useSgrproj := b.S()
+		useSgrproj := symbol.ReadSymbol(state.TileUseSgrprojCdf, state, b, uh)
 		restorationType = shared.RESTORE_NONE
 		if useSgrproj == 1 {
 			restorationType = shared.RESTORE_SGRPROJ
@@ -84,7 +81,7 @@ func (t *TileGroup) readLrUnit(plane int, unitRow int, unitCol int, state *state
 	if restorationType == shared.RESTORE_WIENER {
 		for pass := 0; pass < 2; pass++ {
 			var firstCoeff int
-			if plane == 1 {
+			if plane > 0 {
 				firstCoeff = 1
 				t.LrWiener[plane][unitRow][unitCol][pass][0] = 0
 			} else {
@@ -145,14 +142,14 @@ func (t *TileGroup) decodeSubexpBool(numSyms int, k int, state *state.State, b *
 	mk := 0
 	for {
 		b2 := k
-		if i == 1 {
+		if i > 0 {
 			b2 = k + i - 1
 		}
 
 		a := 1 << b2
 
-		if numSyms <= -mk+3*a {
-			subexpUnifBools := literal.L(1, state, b, uh)
+		if numSyms <= mk+3*a {
+			subexpUnifBools := literal.NS(numSyms-mk, state, b, uh)
 			return subexpUnifBools + mk
 		} else {
 			subexpMoreBools := literal.L(1, state, b, uh) != 0
-- 
2.43.0


From a9546627b24ef3e761eb7569a1b07cb5d7382638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:09 +0000
Subject: [PATCH 108/152] fix: remove a stray row from the coefficient CDFs

---
 internal/uncompressedheader/cdf.go | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index 30f1a8f..bb4bca6 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -10719,16 +10719,6 @@ var DEFAULT_COEFF_BASE_CDF = [][][][][]int{
 				{
 					8192, 16384, 24576, 32768, 0},
 			},
-			{
-				{
-					9320, 22102, 27840, 32768, 0},
-				{
-					2795, 10410, 17361, 32768, 0},
-				{
-					8192, 16384, 24576, 32768, 0},
-				{
-					8192, 16384, 24576, 32768, 0},
-			},
 			{
 				{
 					9320, 22102, 27840, 32768, 0},
-- 
2.43.0


From a9ece9b2d92199c0549d1492eb817f4356bea92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:37 +0000
Subject: [PATCH 109/152] fix: the lower block of PARTITION_HORZ_A is as wide
 as both upper ones

---
 internal/tilegroup/decode_partition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/decode_partition.go b/internal/tilegroup/decode_partition.go
index facbe13..d17bae2 100644
--- a/internal/tilegroup/decode_partition.go
+++ b/internal/tilegroup/decode_partition.go
@@ -70,7 +70,7 @@ func (t *TileGroup) decodePartition(r int, c int, bSize int, b *bitstream.BitStr
 	} else if partition == PARTITION_HORZ_A {
 		t.decodeBlock(r, c, splitSize, b, state, sh, uh)
 		t.decodeBlock(r, c+halfBlock4x4, splitSize, b, state, sh, uh)
-		t.decodeBlock(r+halfBlock4x4, c, splitSize, b, state, sh, uh)
+		t.decodeBlock(r+halfBlock4x4, c, subSize, b, state, sh, uh)
 	} else if partition == PARTITION_HORZ_B {
 		t.decodeBlock(r, c, subSize, b, state, sh, uh)
 		t.decodeBlock(r+halfBlock4x4, c, splitSize, b, state, sh, uh)
-- 
2.43.0


From 2517275887464ce8c7f5e47eba6a9027d35cb5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:41 +0000
Subject: [PATCH 110/152] fix: carry the tile group over to the next obu

---
 internal/obu/obu.go              | 7 ++++---
 internal/parser/parser.go        | 6 +++++-
 internal/tilegroup/tile_group.go | 6 ++++--
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/internal/obu/obu.go b/internal/obu/obu.go
index 7049bab..4e4b8cd 100644
--- a/internal/obu/obu.go
+++ b/internal/obu/obu.go
@@ -22,10 +22,11 @@ type Obu struct {
 	TileGroup          tilegroup.TileGroup
 }
 
-func NewObu(sz int, state *state.State, b *bitstream.BitStream, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) Obu {
+func NewObu(sz int, state *state.State, b *bitstream.BitStream, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader, tg tilegroup.TileGroup) Obu {
 	obu := Obu{}
 	obu.SequenceHeader = sh
 	obu.UncompressedHeader = uh
+	obu.TileGroup = tg
 	obu.build(sz, b, state)
 
 	return obu
@@ -73,7 +74,7 @@ func (o *Obu) build(sz int, b *bitstream.BitStream, state *state.State) {
 	case header.OBU_PADDING:
 		o.paddingObu(b)
 	case header.OBU_TILE_GROUP:
-		o.TileGroup = tilegroup.NewTileGroup(o.Size, b, state, o.UncompressedHeader, o.SequenceHeader)
+		o.TileGroup = tilegroup.NewTileGroup(o.Size, b, state, o.UncompressedHeader, o.SequenceHeader, o.TileGroup)
 	case header.OBU_TILE_LIST:
 		panic("not implemented")
 	default:
@@ -107,7 +108,7 @@ func (o *Obu) newFrame(sz int, b *bitstream.BitStream, state *state.State, h hea
 	headerBytes := (endBitPos - startBitPos) / 8
 	sz -= headerBytes
 
-	return tilegroup.NewTileGroup(sz, b, state, uh, sh)
+	return tilegroup.NewTileGroup(sz, b, state, uh, sh, o.TileGroup)
 }
 
 // frame_header_obu()
diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 007d5b6..0e5e279 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -7,6 +7,7 @@ import (
 	"github.com/m4tthewde/gov1/internal/obu"
 	"github.com/m4tthewde/gov1/internal/sequenceheader"
 	"github.com/m4tthewde/gov1/internal/state"
+	"github.com/m4tthewde/gov1/internal/tilegroup"
 	"github.com/m4tthewde/gov1/internal/uncompressedheader"
 	"go.uber.org/zap"
 )
@@ -15,6 +16,7 @@ type Parser struct {
 	bitStream          *bitstream.BitStream
 	SequenceHeader     sequenceheader.SequenceHeader
 	UncompressedHeader uncompressedheader.UncompressedHeader
+	TileGroup          tilegroup.TileGroup
 	obus               []obu.Obu
 	state              state.State
 }
@@ -45,7 +47,7 @@ func (p *Parser) frameUnit(sz int) {
 
 		logger.Logger.Info("Starting obu parsing process...", zap.Int("sz", sz))
 
-		o := obu.NewObu(obuLength, &p.state, p.bitStream, p.SequenceHeader, p.UncompressedHeader)
+		o := obu.NewObu(obuLength, &p.state, p.bitStream, p.SequenceHeader, p.UncompressedHeader, p.TileGroup)
 		p.obus = append(p.obus, o)
 
 		switch o.Header.Type {
@@ -55,6 +57,8 @@ func (p *Parser) frameUnit(sz int) {
 			p.UncompressedHeader = o.UncompressedHeader
 		}
 
+		p.TileGroup = o.TileGroup
+
 		// TODO: update state for further obus
 		sz -= obuLength
 	}
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index d715d8a..cf8f04a 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -268,8 +268,10 @@ type TileGroup struct {
 	OutV [1][1]int
 }
 
-func NewTileGroup(sz int, b *bitstream.BitStream, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) TileGroup {
-	t := TileGroup{}
+// NewTileGroup decodes a tile group. prev is the tile group decoded before it: it holds
+// the tiles of the frame decoded so far and the stored reference frames.
+func NewTileGroup(sz int, b *bitstream.BitStream, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader, prev TileGroup) TileGroup {
+	t := prev
 	t.build(sz, b, state, uh, sh)
 	return t
 }
-- 
2.43.0


From 4bda7ba7bf8d910f75dd6784dee20f7f728d0f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:43 +0000
Subject: [PATCH 111/152] fix: size of the chroma planes of stored and loaded
 reference frames

---
 internal/tilegroup/decode_frame_wrapup.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index f1a5d60..e9dda21 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -137,8 +137,8 @@ func (t *TileGroup) referenceFrameUpdate(state *state.State, uh uncompressedhead
 			}
 
 			for plane := 1; plane <= 2; plane++ {
-				for x := 0; x < (uh.UpscaledWidth + util.Int(sh.ColorConfig.SubsamplingX)>>util.Int(sh.ColorConfig.SubsamplingX)); x++ {
-					for y := 0; y < (uh.FrameHeight + util.Int(sh.ColorConfig.SubsamplingY)>>util.Int(sh.ColorConfig.SubsamplingY)); y++ {
+				for x := 0; x < (uh.UpscaledWidth+util.Int(sh.ColorConfig.SubsamplingX))>>util.Int(sh.ColorConfig.SubsamplingX); x++ {
+					for y := 0; y < (uh.FrameHeight+util.Int(sh.ColorConfig.SubsamplingY))>>util.Int(sh.ColorConfig.SubsamplingY); y++ {
 						t.FrameStore[i][plane][y][x] = state.LrFrame[plane][y][x]
 					}
 				}
@@ -243,8 +243,8 @@ func (t *TileGroup) referenceFrameLoadingProcess(state *state.State, u *uncompre
 	}
 
 	for plane := 1; plane <= 2; plane++ {
-		for x := 0; x < ((u.UpscaledWidth+subsamplingX)>>subsamplingX)-1; x++ {
-			for y := 0; y < ((u.FrameHeight+subsamplingY)>>subsamplingY)-1; x++ {
+		for x := 0; x < (u.UpscaledWidth+subsamplingX)>>subsamplingX; x++ {
+			for y := 0; y < (u.FrameHeight+subsamplingY)>>subsamplingY; y++ {
 				state.LrFrame[plane][y][x] = t.FrameStore[u.FrameToShowMapIdx][plane][y][x]
 			}
 		}
-- 
2.43.0


From 1c936d45bae5a421262f063a7df3dbdc94ac8c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:45 +0000
Subject: [PATCH 112/152] fix: keep the loop filter deltas and segmentation
 features of reference frames

---
 internal/state/state.go                       |  5 ++++
 internal/tilegroup/decode_frame_wrapup.go     | 20 +++-----------
 .../uncompressedheader/uncompressed_header.go | 26 ++++++++++++++-----
 3 files changed, 29 insertions(+), 22 deletions(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index 506917c..01c219f 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -89,6 +89,11 @@ type State struct {
 	SavedGmParams          [shared.NUM_REF_FRAMES][shared.ALTREF_FRAME + 1][6]int
 	SavedSegmentIds        [shared.NUM_REF_FRAMES][][]int
 
+	SavedLoopFilterRefDeltas  [shared.NUM_REF_FRAMES][8]int
+	SavedLoopFilterModeDeltas [shared.NUM_REF_FRAMES][2]int
+	SavedFeatureEnabled       [shared.NUM_REF_FRAMES][shared.MAX_SEGMENTS][shared.SEG_LVL_MAX]int
+	SavedFeatureData          [shared.NUM_REF_FRAMES][shared.MAX_SEGMENTS][shared.SEG_LVL_MAX]int
+
 	TxbSkipCdf      [][][]int
 	EobPt16Cdf      [][][]int
 	EobPt32Cdf      [][][]int
diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index e9dda21..ea3682f 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -180,8 +180,8 @@ func (t *TileGroup) referenceFrameUpdate(state *state.State, uh uncompressedhead
 				saveGrainParams(i)
 			}
 
-			saveLoopFilterParams(i)
-			saveSegmentationParams(i)
+			uh.SaveLoopFilterParams(i, state)
+			uncompressedheader.SaveSegmentationParams(i, state)
 
 			for i := 0; i < shared.NUM_REF_FRAMES; i++ {
 				if ((uh.RefreshFrameFlags >> i) & 1) == 1 {
@@ -199,18 +199,6 @@ func saveGrainParams(ctx int) {
 	//panic("not implemented")
 }
 
-// save_loop_filter_params( i )
-func saveLoopFilterParams(ctx int) {
-	// TODO: implement
-	//panic("not implemented")
-}
-
-// save_segmentation_params( i )
-func saveSegmentationParams(ctx int) {
-	// TODO: implement
-	//panic("not implemented")
-}
-
 // 7.21 Reference frame loading process
 func (t *TileGroup) referenceFrameLoadingProcess(state *state.State, u *uncompressedheader.UncompressedHeader, sh *sequenceheader.SequenceHeader) {
 	// where does i really come from?
@@ -284,6 +272,6 @@ func (t *TileGroup) referenceFrameLoadingProcess(state *state.State, u *uncompre
 		u.LoadGrainParams(u.FrameToShowMapIdx)
 	}
 
-	uncompressedheader.LoadLoopFilterParams(u.FrameToShowMapIdx)
-	uncompressedheader.LoadSegmentationParams(u.FrameToShowMapIdx)
+	u.LoadLoopFilterParams(u.FrameToShowMapIdx, state)
+	uncompressedheader.LoadSegmentationParams(u.FrameToShowMapIdx, state)
 }
diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 70be6f7..7c118bc 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -626,20 +626,34 @@ func (u *UncompressedHeader) setupPastIndependence(s *state.State) {
 func (u *UncompressedHeader) loadPrevious(state *state.State) {
 	prevFrame := u.RefFrameIdx[u.PrimaryRefFrame]
 	state.PrevGmParams = state.SavedGmParams[prevFrame]
-	LoadLoopFilterParams(prevFrame)
-	LoadSegmentationParams(prevFrame)
+	u.LoadLoopFilterParams(prevFrame, state)
+	LoadSegmentationParams(prevFrame, state)
 
 	panic("not implemented")
 }
 
+// save_loop_filter_params( i )
+func (u *UncompressedHeader) SaveLoopFilterParams(i int, state *state.State) {
+	state.SavedLoopFilterRefDeltas[i] = u.LoopFilterRefDeltas
+	state.SavedLoopFilterModeDeltas[i] = u.LoopFilterModeDeltas
+}
+
 // load_loop_filter_params( i )
-func LoadLoopFilterParams(i int) {
-	panic("not implemented")
+func (u *UncompressedHeader) LoadLoopFilterParams(i int, state *state.State) {
+	u.LoopFilterRefDeltas = state.SavedLoopFilterRefDeltas[i]
+	u.LoopFilterModeDeltas = state.SavedLoopFilterModeDeltas[i]
+}
+
+// save_segmentation_params( i )
+func SaveSegmentationParams(i int, state *state.State) {
+	state.SavedFeatureEnabled[i] = state.FeatureEnabled
+	state.SavedFeatureData[i] = state.FeatureData
 }
 
 // load_segmentation_params( i )
-func LoadSegmentationParams(i int) {
-	panic("not implemented")
+func LoadSegmentationParams(i int, state *state.State) {
+	state.FeatureEnabled = state.SavedFeatureEnabled[i]
+	state.FeatureData = state.SavedFeatureData[i]
 }
 
 func (u *UncompressedHeader) motionFieldEstimation() {
-- 
2.43.0


From 1fb7902d6a7c923fa9e4578984e08eb827d437b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:47 +0000
Subject: [PATCH 113/152] fix: output planes have the size of the frame

---
 internal/tilegroup/output.go     | 29 +++++++++++++++++++----------
 internal/tilegroup/tile_group.go |  6 +++---
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/internal/tilegroup/output.go b/internal/tilegroup/output.go
index 1588c50..bd7a7fc 100644
--- a/internal/tilegroup/output.go
+++ b/internal/tilegroup/output.go
@@ -24,10 +24,11 @@ func (t *TileGroup) outputProcess(state *state.State, uh uncompressedheader.Unco
 func (t *TileGroup) intermediateOutputPreparation(uh uncompressedheader.UncompressedHeader, state *state.State, sh *sequenceheader.SequenceHeader) (int, int, int, int) {
 	var w, h, subX, subY int
 	if uh.ShowExistingFrame {
-		w := state.RefUpscaledWidth[uh.FrameToShowMapIdx]
-		h := state.RefFrameHeight[uh.FrameToShowMapIdx]
-		subX := state.RefSubsamplingX[uh.FrameToShowMapIdx]
-		subY := state.RefSubsamplingY[uh.FrameToShowMapIdx]
+		w = state.RefUpscaledWidth[uh.FrameToShowMapIdx]
+		h = state.RefFrameHeight[uh.FrameToShowMapIdx]
+		subX = state.RefSubsamplingX[uh.FrameToShowMapIdx]
+		subY = state.RefSubsamplingY[uh.FrameToShowMapIdx]
+		t.allocateOutput(w, h, subX, subY)
 
 		for x := 0; x < w; x++ {
 			for y := 0; y < h; y++ {
@@ -37,23 +38,24 @@ func (t *TileGroup) intermediateOutputPreparation(uh uncompressedheader.Uncompre
 
 		for x := 0; x < (w+subX)>>subX; x++ {
 			for y := 0; y < (h+subY)>>subY; y++ {
-				t.OutU[y][x] = t.FrameStore[uh.FrameToShowMapIdx][1][x][y]
+				t.OutU[y][x] = t.FrameStore[uh.FrameToShowMapIdx][1][y][x]
 			}
 		}
 
 		for x := 0; x < (w+subX)>>subX; x++ {
 			for y := 0; y < (h+subY)>>subY; y++ {
-				t.OutV[y][x] = t.FrameStore[uh.FrameToShowMapIdx][2][x][y]
+				t.OutV[y][x] = t.FrameStore[uh.FrameToShowMapIdx][2][y][x]
 			}
 		}
 
 		// TODO: does this assignment work? sequenceheader isn't supposed to get modified this way
 		sh.ColorConfig.BitDepth = state.RefBitDepth[uh.FrameToShowMapIdx]
 	} else {
-		w := uh.UpscaledWidth
-		h := uh.FrameHeight
-		subX := util.Int(sh.ColorConfig.SubsamplingX)
-		subY := util.Int(sh.ColorConfig.SubsamplingY)
+		w = uh.UpscaledWidth
+		h = uh.FrameHeight
+		subX = util.Int(sh.ColorConfig.SubsamplingX)
+		subY = util.Int(sh.ColorConfig.SubsamplingY)
+		t.allocateOutput(w, h, subX, subY)
 
 		for x := 0; x < w; x++ {
 			for y := 0; y < h; y++ {
@@ -77,6 +79,13 @@ func (t *TileGroup) intermediateOutputPreparation(uh uncompressedheader.Uncompre
 	return w, h, subX, subY
 }
 
+// allocateOutput allocates the planes of the frame to output.
+func (t *TileGroup) allocateOutput(w int, h int, subX int, subY int) {
+	t.OutY = util.NewGrid[int](h, w)
+	t.OutU = util.NewGrid[int]((h+subY)>>subY, (w+subX)>>subX)
+	t.OutV = util.NewGrid[int]((h+subY)>>subY, (w+subX)>>subX)
+}
+
 // 7.18.3. Film grain syntehsis
 func (t *TileGroup) filmGrainSynthesis(w int, h int, subX int, subY int) {
 	panic("not implemented")
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index cf8f04a..63c28b3 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -263,9 +263,9 @@ type TileGroup struct {
 	PlaneEndX    int
 	PlaneEndY    int
 
-	OutY [1][1]int
-	OutU [1][1]int
-	OutV [1][1]int
+	OutY [][]int
+	OutU [][]int
+	OutV [][]int
 }
 
 // NewTileGroup decodes a tile group. prev is the tile group decoded before it: it holds
-- 
2.43.0


From fc784694bab6fb575264aad67e4ffe00d29cc48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:49 +0000
Subject: [PATCH 114/152] fix: showing an existing frame outputs and, for a key
 frame, reloads it

---
 internal/obu/obu.go                                |  2 +-
 internal/tilegroup/tile_group.go                   |  4 ++--
 internal/uncompressedheader/uncompressed_header.go | 10 ----------
 3 files changed, 3 insertions(+), 13 deletions(-)

diff --git a/internal/obu/obu.go b/internal/obu/obu.go
index 4e4b8cd..c14842c 100644
--- a/internal/obu/obu.go
+++ b/internal/obu/obu.go
@@ -123,7 +123,7 @@ func (o *Obu) ParseFrameHeader(b *bitstream.BitStream, state *state.State, h hea
 		state.FrameHeaderBits = b.Position - startPosition
 
 		if uncompressedHeader.ShowExistingFrame {
-			uncompressedHeader.DecodeFrameWrapup()
+			o.TileGroup.DecodeFrameWrapup(state, uncompressedHeader, sh)
 			state.SeenFrameHeader = false
 		} else {
 			state.TileNum = 0
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 63c28b3..eae8b66 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -341,7 +341,7 @@ func (t *TileGroup) build(sz int, b *bitstream.BitStream, state *state.State, uh
 		if !uh.DisableFrameEndUpdateCdf {
 			t.frameEndUpdateCdf(state)
 		}
-		t.decodeFrameWrapup(state, uh, sh)
+		t.DecodeFrameWrapup(state, uh, sh)
 		state.SeenFrameHeader = false
 	}
 }
@@ -417,7 +417,7 @@ func (t *TileGroup) allocateRestorationUnits(state *state.State, uh uncompressed
 
 // 7.4. Decode frame wrapup process
 // decode_frame_wrapup( )
-func (t *TileGroup) decodeFrameWrapup(state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
+func (t *TileGroup) DecodeFrameWrapup(state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
 	if !uh.ShowExistingFrame {
 		if uh.LoopFilterLevel[0] != 0 || uh.LoopFilterLevel[1] != 0 {
 			t.loopFilter(state, uh, sh)
diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 7c118bc..84400f6 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -1369,16 +1369,6 @@ func (u *UncompressedHeader) resetGrainParams() {
 	u.ClipToRestrictedRange = false
 }
 
-// decode_frame_wrapup()
-func (u *UncompressedHeader) DecodeFrameWrapup() {
-	if u.ShowExistingFrame && u.FrameType != shared.KEY_FRAME {
-		// the frame is only output again, no state changes
-		return
-	}
-
-	panic("not implemented")
-}
-
 // temporal_point_info()
 func (u *UncompressedHeader) TemporalPointInfo(sh sequenceheader.SequenceHeader, b *bitstream.BitStream) {
 	n := sh.DecoderModelInfo.FramePresentationTimeLengthMinusOne + 1
-- 
2.43.0


From ea12434e3ef5d65e49f72e9b7b4a72ccc2f17925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:43 +0000
Subject: [PATCH 115/152] fix: read as many bits of the cdef index as the frame
 header says

---
 internal/cdef/cdef.go                       | 3 +--
 internal/tilegroup/intra_frame_mode_info.go | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/cdef/cdef.go b/internal/cdef/cdef.go
index 56874eb..f41dd42 100644
--- a/internal/cdef/cdef.go
+++ b/internal/cdef/cdef.go
@@ -1,8 +1,7 @@
 package cdef
 
 type Cdef struct {
-	CdefIdx  [][]int
-	CdefBits int
+	CdefIdx [][]int
 }
 
 func (cdef *Cdef) ClearCdef(r int, c int, Use128x128SuperBlock bool, cdefSize4 int) {
diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index b307d53..a5389e1 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -218,7 +218,7 @@ func (t *TileGroup) readCdef(b *bitstream.BitStream, uh uncompressedheader.Uncom
 	c := state.MiCol & cdefMask4
 
 	if state.Cdef.CdefIdx[r][c] == -1 {
-		state.Cdef.CdefIdx[r][c] = literal.L(state.Cdef.CdefBits, state, b, uh)
+		state.Cdef.CdefIdx[r][c] = literal.L(uh.CdefBits, state, b, uh)
 		w4 := shared.NUM_4X4_BLOCKS_WIDE[state.MiSize]
 		h4 := shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]
 
-- 
2.43.0


From d530ec6a531eaca813ba8dae201efe8652451064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:12 +0000
Subject: [PATCH 116/152] fix: Inter predict blocks of any size, from both
 references

---
 internal/tilegroup/predict_inter.go | 89 +++++------------------------
 1 file changed, 14 insertions(+), 75 deletions(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 37fb1a5..53582ca 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -17,8 +17,6 @@ var Quant_Dist_Lookup = [][]int{
 	{9, 7}, {11, 5}, {12, 4}, {13, 3},
 }
 
-const PRED_SIZE = 16
-
 // 7.11.3 Inter prediction process
 func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow int, candCol int, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
 	isCompound := state.RefFrames[candRow][candCol][1] > shared.INTRA_FRAME
@@ -33,61 +31,8 @@ func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow
 		t.LocalValid, _, _, _, _ = t.setupShearProcess(t.LocalWarpParams)
 	}
 
-	refList := 0
-	refFrame := state.RefFrames[candRow][candCol][refList]
-
-	var globalValid bool
-	if t.YMode == shared.GLOBALMV || t.YMode == shared.GLOBAL_GLOBALMV && state.GmType[refFrame] > shared.TRANSLATION {
-		globalValid, _, _, _, _ = t.setupShearProcess(uh.GmParams[refFrame])
-	}
-
-	useWarp := 0
-	if w < 8 || h < 8 {
-		useWarp = 0
-	} else if uh.ForceIntegerMv {
-		useWarp = 0
-	} else if t.MotionMode == LOCALWARP && t.LocalValid {
-		useWarp = 1
-	} else if (t.YMode == shared.GLOBALMV || t.YMode == shared.GLOBAL_GLOBALMV) && state.GmType[refFrame] > shared.TRANSLATION && !t.isScaled(refFrame, state, uh) && globalValid {
-		useWarp = 2
-	}
-
-	mv := t.Mvs[candRow][candCol][refList]
-
-	var refIdx int
-	if !util.Bool(t.useIntrabc) {
-		refIdx = uh.RefFrameIdx[refFrame-shared.LAST_FRAME]
-	} else {
-		refIdx = -1
-		state.RefFrameWidth[len(state.RefFrameWidth)-1] = uh.FrameWidth
-		state.RefFrameHeight[len(state.RefFrameHeight)-1] = uh.FrameHeight
-		state.RefUpscaledWidth[len(state.RefUpscaledWidth)-1] = uh.UpscaledWidth
-	}
-	startX, startY, stepX, stepY := t.motionVectorScalingProcess(plane, refIdx, x, y, mv, state, uh, sh)
-
-	if util.Bool(t.useIntrabc) {
-		state.RefFrameWidth[len(state.RefFrameWidth)-1] = state.MiCols * MI_SIZE
-		state.RefFrameHeight[len(state.RefFrameHeight)-1] = state.MiRows * MI_SIZE
-		state.RefUpscaledWidth[len(state.RefUpscaledWidth)-1] = state.MiCols * MI_SIZE
-	}
-
-	var preds [2][PRED_SIZE][PRED_SIZE]int
-	if useWarp != 0 {
-		for i8 := 0; i8 <= ((h - 1) >> 3); i8++ {
-			for j8 := 0; j8 <= ((w - 1) >> 3); j8++ {
-				// TODO: what exactly is supposed to happen here
-				preds[refList] = t.blockWarpProcess(useWarp, plane, refList, x, y, i8, j8, w, h, state, uh, sh)
-			}
-		}
-	}
-
-	if useWarp == 0 {
-		preds[refList] = t.blockInterPredictionProcess(plane, refIdx, startX, startY, stepX, stepY, w, h, candRow, candCol, state, sh)
-	}
-
-	if isCompound {
-		refList = 1
-
+	var preds [2][][]int
+	for refList := 0; refList < 1+util.Int(isCompound); refList++ {
 		refFrame := state.RefFrames[candRow][candCol][refList]
 
 		var globalValid bool
@@ -117,7 +62,6 @@ func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow
 			state.RefFrameHeight[len(state.RefFrameHeight)-1] = uh.FrameHeight
 			state.RefUpscaledWidth[len(state.RefUpscaledWidth)-1] = uh.UpscaledWidth
 		}
-
 		startX, startY, stepX, stepY := t.motionVectorScalingProcess(plane, refIdx, x, y, mv, state, uh, sh)
 
 		if util.Bool(t.useIntrabc) {
@@ -126,12 +70,11 @@ func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow
 			state.RefUpscaledWidth[len(state.RefUpscaledWidth)-1] = state.MiCols * MI_SIZE
 		}
 
-		var preds [][PRED_SIZE][PRED_SIZE]int
 		if useWarp != 0 {
+			preds[refList] = util.NewGrid[int](h, w)
 			for i8 := 0; i8 <= ((h - 1) >> 3); i8++ {
 				for j8 := 0; j8 <= ((w - 1) >> 3); j8++ {
-					// TODO: what exactly is supposed to happen here
-					preds[refList] = t.blockWarpProcess(useWarp, plane, refList, x, y, i8, j8, w, h, state, uh, sh)
+					t.blockWarpProcess(preds[refList], useWarp, plane, refList, x, y, i8, j8, w, h, state, uh, sh)
 				}
 			}
 		}
@@ -156,19 +99,19 @@ func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow
 	if !isCompound && !t.IsInterIntra {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
-				state.CurrFrame[plane][y+i][x+i] = util.Clip1(preds[0][i][j], sh.ColorConfig.BitDepth)
+				state.CurrFrame[plane][y+i][x+j] = util.Clip1(preds[0][i][j], sh.ColorConfig.BitDepth)
 			}
 		}
 	} else if t.CompoundType == COMPOUND_AVERAGE {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
-				state.CurrFrame[plane][y+i][x+i] = util.Clip1(util.Round2(preds[0][i][j]+preds[1][i][j], 1+t.InterPostRound), sh.ColorConfig.BitDepth)
+				state.CurrFrame[plane][y+i][x+j] = util.Clip1(util.Round2(preds[0][i][j]+preds[1][i][j], 1+t.InterPostRound), sh.ColorConfig.BitDepth)
 			}
 		}
 	} else if t.CompoundType == COMPOUND_DISTANCE {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
-				state.CurrFrame[plane][y+i][x+i] = util.Clip1(util.Round2(t.FwdWeight*preds[0][i][j]+t.BckWeight*preds[1][i][j], 4+t.InterPostRound), sh.ColorConfig.BitDepth)
+				state.CurrFrame[plane][y+i][x+j] = util.Clip1(util.Round2(t.FwdWeight*preds[0][i][j]+t.BckWeight*preds[1][i][j], 4+t.InterPostRound), sh.ColorConfig.BitDepth)
 			}
 		}
 	} else {
@@ -250,7 +193,7 @@ func (t *TileGroup) motionVectorScalingProcess(plane int, refIdx int, x int, y i
 }
 
 // 7.11.3.4 Block inter prediction process
-func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y int, xStep int, yStep int, w int, h int, candRow int, candCol int, state *state.State, sh sequenceheader.SequenceHeader) [PRED_SIZE][PRED_SIZE]int {
+func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y int, xStep int, yStep int, w int, h int, candRow int, candCol int, state *state.State, sh sequenceheader.SequenceHeader) [][]int {
 	var ref [3][][]int
 	if refIdx == -1 {
 		ref = state.CurrFrame
@@ -279,7 +222,7 @@ func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y
 		}
 	}
 
-	var intermediate [8][8]int
+	intermediate := util.NewGrid[int](intermediateHeight, w)
 	for r := 0; r < intermediateHeight; r++ {
 		for c := 0; c < w; c++ {
 			s := 0
@@ -300,7 +243,7 @@ func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y
 		}
 	}
 
-	var pred [PRED_SIZE][PRED_SIZE]int
+	pred := util.NewGrid[int](h, w)
 	for r := 0; r < h; r++ {
 		for c := 0; c < w; c++ {
 			s := 0
@@ -316,9 +259,7 @@ func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y
 }
 
 // 7.11.3.5 Block warp process
-func (t *TileGroup) blockWarpProcess(useWarp int, plane int, refList int, x int, y int, i8 int, j8 int, w int, h int, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) [PRED_SIZE][PRED_SIZE]int {
-	var pred [PRED_SIZE][PRED_SIZE]int
-
+func (t *TileGroup) blockWarpProcess(pred [][]int, useWarp int, plane int, refList int, x int, y int, i8 int, j8 int, w int, h int, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
 	refIdx := uh.RefFrameIdx[state.RefFrame[refList]-shared.LAST_FRAME]
 	ref := t.FrameStore[refIdx]
 
@@ -381,8 +322,6 @@ func (t *TileGroup) blockWarpProcess(useWarp int, plane int, refList int, x int,
 			pred[i8*8+i1+4][j8*8+i2+4] = util.Round2(s, t.InterRound1)
 		}
 	}
-
-	return pred
 }
 
 // 7.11.3.6 Setup shear process
@@ -601,7 +540,7 @@ func (t *TileGroup) overlappedMotionCompensationProcess(plane int, w int, h int,
 }
 
 // 7.11.3.10 Overlap blending process
-func (t *TileGroup) overlapBlendingProcess(plane int, predX int, predY int, predW int, predH int, pass bool, obmcPred [PRED_SIZE][PRED_SIZE]int, mask []int, state *state.State) {
+func (t *TileGroup) overlapBlendingProcess(plane int, predX int, predY int, predW int, predH int, pass bool, obmcPred [][]int, mask []int, state *state.State) {
 	for i := 0; i < predH; i++ {
 		var m int
 		for j := 0; j < predW; j++ {
@@ -627,7 +566,7 @@ func (t *TileGroup) wedgeMaskProcess(w int, h int, state *state.State) {
 }
 
 // 7.11.3.12 Difference weight mask process
-func (t *TileGroup) differenceWeightMaskProcess(preds [2][PRED_SIZE][PRED_SIZE]int, w int, h int, sh sequenceheader.SequenceHeader) {
+func (t *TileGroup) differenceWeightMaskProcess(preds [2][][]int, w int, h int, sh sequenceheader.SequenceHeader) {
 	for i := 0; i < h; i++ {
 		for j := 0; j < w; j++ {
 			diff := util.Abs(preds[0][i][j] - preds[1][i][j])
@@ -661,7 +600,7 @@ func (t *TileGroup) intraModeVariantMaskProcess(w int, h int) {
 }
 
 // 7.11.3.14 Mask blend process
-func (t *TileGroup) maskBlendProcess(preds [2][PRED_SIZE][PRED_SIZE]int, plane int, dstX int, dstY int, w int, h int, sh sequenceheader.SequenceHeader, state *state.State) {
+func (t *TileGroup) maskBlendProcess(preds [2][][]int, plane int, dstX int, dstY int, w int, h int, sh sequenceheader.SequenceHeader, state *state.State) {
 	subX := 0
 	subY := 0
 	if plane != 0 {
-- 
2.43.0


From f64756df937584109244e73c2958efdd3f6c371f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:14 +0000
Subject: [PATCH 117/152] fix: Take the fraction of a motion vector modulo a
 sample

---
 internal/tilegroup/predict_inter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 53582ca..4764e25 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -228,7 +228,7 @@ func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y
 			s := 0
 			p := x + xStep*c
 			for t := 0; t < 8; t++ {
-				s += Subpel_Filters[interpFilter][(p>>6)*SUBPEL_MASK][t] * ref[plane][util.Clip3(0, lastY, (y>>10)+r-3)][util.Clip3(0, lastX, (p>>10)+t-3)]
+				s += Subpel_Filters[interpFilter][(p>>6)&SUBPEL_MASK][t] * ref[plane][util.Clip3(0, lastY, (y>>10)+r-3)][util.Clip3(0, lastX, (p>>10)+t-3)]
 			}
 			intermediate[r][c] = util.Round2(s, t.InterRound0)
 		}
@@ -249,7 +249,7 @@ func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y
 			s := 0
 			p := (y & 1023) + yStep*r
 			for t := 0; t < 8; t++ {
-				s += Subpel_Filters[interpFilter][(p>>6)*SUBPEL_MASK][t] * intermediate[(p>>10)+t][c]
+				s += Subpel_Filters[interpFilter][(p>>6)&SUBPEL_MASK][t] * intermediate[(p>>10)+t][c]
 			}
 			pred[r][c] = util.Round2(s, t.InterRound1)
 		}
-- 
2.43.0


From 1a49ce038cf9d6234a149bd3b5c84a0a81ecd6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:53 +0000
Subject: [PATCH 118/152] fix: Intra block copy predicts from the current frame
 without touching the references

---
 internal/tilegroup/predict_inter.go | 37 +++++++++++++----------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 4764e25..ff5d2b7 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -58,18 +58,9 @@ func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow
 			refIdx = uh.RefFrameIdx[refFrame-shared.LAST_FRAME]
 		} else {
 			refIdx = -1
-			state.RefFrameWidth[len(state.RefFrameWidth)-1] = uh.FrameWidth
-			state.RefFrameHeight[len(state.RefFrameHeight)-1] = uh.FrameHeight
-			state.RefUpscaledWidth[len(state.RefUpscaledWidth)-1] = uh.UpscaledWidth
 		}
 		startX, startY, stepX, stepY := t.motionVectorScalingProcess(plane, refIdx, x, y, mv, state, uh, sh)
 
-		if util.Bool(t.useIntrabc) {
-			state.RefFrameWidth[len(state.RefFrameWidth)-1] = state.MiCols * MI_SIZE
-			state.RefFrameHeight[len(state.RefFrameHeight)-1] = state.MiRows * MI_SIZE
-			state.RefUpscaledWidth[len(state.RefUpscaledWidth)-1] = state.MiCols * MI_SIZE
-		}
-
 		if useWarp != 0 {
 			preds[refList] = util.NewGrid[int](h, w)
 			for i8 := 0; i8 <= ((h - 1) >> 3); i8++ {
@@ -145,27 +136,30 @@ func (t *TileGroup) roundVariablesDerivationProcess(isCompound bool, sh sequence
 
 // 7.11.3.3  Motion vector scaling process
 func (t *TileGroup) motionVectorScalingProcess(plane int, refIdx int, x int, y int, mv [2]int, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) (int, int, int, int) {
-	if !(2*uh.FrameWidth >= state.RefUpscaledWidth[refIdx]) {
+	// intra block copy predicts from the current frame
+	refUpscaledWidth, refFrameHeight := uh.UpscaledWidth, uh.FrameHeight
+	if refIdx != -1 {
+		refUpscaledWidth, refFrameHeight = state.RefUpscaledWidth[refIdx], state.RefFrameHeight[refIdx]
+	}
+
+	if !(2*uh.FrameWidth >= refUpscaledWidth) {
 		panic("bitstream conformance violated: 2*uh.FrameWidth >= t.RefUpscaledWidth[refIdx]")
 	}
 
-	if !(2*uh.FrameHeight >= state.RefFrameHeight[refIdx]) {
+	if !(2*uh.FrameHeight >= refFrameHeight) {
 		panic("bitstream conformance violated: 2*uh.FrameHeight >= t.RefFrameHeight[refIdx]")
 	}
 
-	if !(uh.FrameWidth <= 16*state.RefUpscaledWidth[refIdx]) {
+	if !(uh.FrameWidth <= 16*refUpscaledWidth) {
 		panic("bitstream conformance violated: uh.FrameWidth <= 16*t.RefUpscaledWidth[refIdx]")
 	}
 
-	if !(uh.FrameHeight <= 16*state.RefFrameHeight[refIdx]) {
+	if !(uh.FrameHeight <= 16*refFrameHeight) {
 		panic("bitstream conformance violated: uh.FrameHeight <= 16*t.RefFrameHeight[refIdx]")
 	}
 
-	// TODO: Note: When intra block copy is being used, refIdx will be equal to -1 to signal prediction from the frame currently
-	// being decoded. The arrays RefFrameWidth, RefFrameHeight, and RefUpscaledWidth include values at index -1
-	// giving the dimensions of the current frame.
-	xScale := ((state.RefUpscaledWidth[refIdx] << REF_SCALE_SHIFT) + (uh.FrameWidth / 2)) / uh.FrameWidth
-	yScale := ((state.RefFrameHeight[refIdx] << REF_SCALE_SHIFT) + (uh.FrameHeight / 2)) / uh.FrameHeight
+	xScale := ((refUpscaledWidth << REF_SCALE_SHIFT) + (uh.FrameWidth / 2)) / uh.FrameWidth
+	yScale := ((refFrameHeight << REF_SCALE_SHIFT) + (uh.FrameHeight / 2)) / uh.FrameHeight
 
 	subX := 0
 	subY := 0
@@ -195,10 +189,13 @@ func (t *TileGroup) motionVectorScalingProcess(plane int, refIdx int, x int, y i
 // 7.11.3.4 Block inter prediction process
 func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y int, xStep int, yStep int, w int, h int, candRow int, candCol int, state *state.State, sh sequenceheader.SequenceHeader) [][]int {
 	var ref [3][][]int
+	var refUpscaledWidth, refFrameHeight int
 	if refIdx == -1 {
 		ref = state.CurrFrame
+		refUpscaledWidth, refFrameHeight = state.MiCols*MI_SIZE, state.MiRows*MI_SIZE
 	} else {
 		ref = t.FrameStore[refIdx]
+		refUpscaledWidth, refFrameHeight = state.RefUpscaledWidth[refIdx], state.RefFrameHeight[refIdx]
 	}
 
 	subX := 0
@@ -208,8 +205,8 @@ func (t *TileGroup) blockInterPredictionProcess(plane int, refIdx int, x int, y
 		subY = util.Int(sh.ColorConfig.SubsamplingY)
 	}
 
-	lastX := ((state.RefUpscaledWidth[refIdx] + subX) >> subX) - 1
-	lastY := ((state.RefFrameHeight[refIdx] + subY) >> subY) - 1
+	lastX := ((refUpscaledWidth + subX) >> subX) - 1
+	lastY := ((refFrameHeight + subY) >> subY) - 1
 
 	intermediateHeight := (((h-1)*yStep + (1 << SCALE_SUBPEL_BITS) - 1) >> SCALE_SUBPEL_BITS) + 8
 
-- 
2.43.0


From 84ddcd648214d57eaa9b39d89ef7f1011f9b6c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:55 +0000
Subject: [PATCH 119/152] fix: Predict the chroma of small blocks with the
 motion of each

---
 internal/tilegroup/compute_prediction.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/compute_prediction.go b/internal/tilegroup/compute_prediction.go
index 51579b2..779989e 100644
--- a/internal/tilegroup/compute_prediction.go
+++ b/internal/tilegroup/compute_prediction.go
@@ -77,11 +77,13 @@ func (t *TileGroup) computePrediction(state *state.State, sh sequenceheader.Sequ
 				candCol = state.MiCol
 			}
 			r := 0
-			for y := 0; y < num4x4H; y += predH {
+			for y := 0; y < num4x4H*4; y += predH {
 				c := 0
-				for x := 0; x < num4x4W; x += predW {
+				for x := 0; x < num4x4W*4; x += predW {
 					t.predictInter(plane, baseX+x, baseY+y, predW, predH, candRow+r, candCol+c, state, uh, sh)
+					c++
 				}
+				r++
 			}
 		}
 	}
-- 
2.43.0


From 20a94018409391c5cd4caf2f3fc6b3ef4ee49534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:40 +0000
Subject: [PATCH 120/152] fix: Bring blended inter predictions back to the
 range of the samples

---
 internal/tilegroup/predict_inter.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index ff5d2b7..f1f1607 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -132,6 +132,8 @@ func (t *TileGroup) roundVariablesDerivationProcess(isCompound bool, sh sequence
 		t.InterRound1 = t.InterRound1 - 2
 	}
 
+	// both filters scale by 128
+	t.InterPostRound = 14 - t.InterRound0 - t.InterRound1
 }
 
 // 7.11.3.3  Motion vector scaling process
-- 
2.43.0


From 461f5faab55200271986a7c16ba24ac5836f3f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:42 +0000
Subject: [PATCH 121/152] fix: Weigh compound predictions by distance

---
 internal/tilegroup/predict_inter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index f1f1607..35b81aa 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -634,7 +634,7 @@ func (t *TileGroup) maskBlendProcess(preds [2][][]int, plane int, dstX int, dstY
 
 // 7.11.3.15 Distance weights process
 func (t *TileGroup) distanceWeightsProcess(candRow int, candCol int, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) {
-	var dist []int
+	var dist [2]int
 	for refList := 0; refList < 2; refList++ {
 		h := uh.OrderHints[state.RefFrames[candRow][candCol][refList]]
 		dist[refList] = util.Clip3(0, MAX_FRAME_DISTANCE, util.Abs(uh.GetRelativeDist(h, uh.OrderHint, sh)))
-- 
2.43.0


From 1a5d1639c5735420daf43844248dac538dde3cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:44 +0000
Subject: [PATCH 122/152] fix: The difference mask of a block comes from its
 luma

---
 internal/tilegroup/predict_inter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 35b81aa..bc2c4aa 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -79,7 +79,7 @@ func (t *TileGroup) predictInter(plane int, x int, y int, w int, h int, candRow
 		t.wedgeMaskProcess(w, h, state)
 	} else if t.CompoundType == COMPOUND_INTRA {
 		t.intraModeVariantMaskProcess(w, h)
-	} else if t.CompoundType == COMPOUND_DIFFWTD {
+	} else if t.CompoundType == COMPOUND_DIFFWTD && plane == 0 {
 		t.differenceWeightMaskProcess(preds, w, h, sh)
 	}
 
-- 
2.43.0


From df3edd6f2a812b363fc8a5c3867d3a4d4b465644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:46 +0000
Subject: [PATCH 123/152] fix: Make the masks that compound predictions are
 blended with

---
 internal/tilegroup/predict_inter.go |  4 ++-
 internal/wedgemask/wedge_mask.go    | 40 ++++++++++++++++-------------
 2 files changed, 25 insertions(+), 19 deletions(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index bc2c4aa..63664e8 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -556,7 +556,7 @@ func (t *TileGroup) overlapBlendingProcess(plane int, predX int, predY int, pred
 
 // 7.11.3.11 Wedge mask process
 func (t *TileGroup) wedgeMaskProcess(w int, h int, state *state.State) {
-	wedgemask.InitialiseWedgeMaskTable(state)
+	t.Mask = util.NewGrid[int](h, w)
 	for i := 0; i < h; i++ {
 		for j := 0; j < w; j++ {
 			t.Mask[i][j] = wedgemask.WedgeMasks[state.MiSize][t.WedgeSign][t.WedgeIndex][i][j]
@@ -566,6 +566,7 @@ func (t *TileGroup) wedgeMaskProcess(w int, h int, state *state.State) {
 
 // 7.11.3.12 Difference weight mask process
 func (t *TileGroup) differenceWeightMaskProcess(preds [2][][]int, w int, h int, sh sequenceheader.SequenceHeader) {
+	t.Mask = util.NewGrid[int](h, w)
 	for i := 0; i < h; i++ {
 		for j := 0; j < w; j++ {
 			diff := util.Abs(preds[0][i][j] - preds[1][i][j])
@@ -582,6 +583,7 @@ func (t *TileGroup) differenceWeightMaskProcess(preds [2][][]int, w int, h int,
 
 // 7.11.3.13 Intra mode variant mask proces
 func (t *TileGroup) intraModeVariantMaskProcess(w int, h int) {
+	t.Mask = util.NewGrid[int](h, w)
 	sizeScale := MAX_SB_SIZE / util.Max(h, w)
 	for i := 0; i < h; i++ {
 		for j := 0; j < w; j++ {
diff --git a/internal/wedgemask/wedge_mask.go b/internal/wedgemask/wedge_mask.go
index 05e3c54..ee06983 100644
--- a/internal/wedgemask/wedge_mask.go
+++ b/internal/wedgemask/wedge_mask.go
@@ -2,7 +2,6 @@ package wedgemask
 
 import (
 	"github.com/m4tthewde/gov1/internal/shared"
-	"github.com/m4tthewde/gov1/internal/state"
 	"github.com/m4tthewde/gov1/internal/util"
 )
 
@@ -72,13 +71,14 @@ var Wedge_Codebook = [][][]int{
 	},
 }
 
-var WedgeMasks = [][][][][]int{}
+// WedgeMasks is made once: it is the same for all frames.
+var WedgeMasks = initialiseWedgeMaskTable()
 
-func InitialiseWedgeMaskTable(state *state.State) {
+func initialiseWedgeMaskTable() (wedgeMasks [shared.BLOCK_SIZES][2][WEDGE_TYPES][][]int) {
 	w := MASK_MASTER_SIZE
 	h := MASK_MASTER_SIZE
 
-	var MasterMask [][][]int
+	var MasterMask [WEDGE_OBLIQUE153 + 1][MASK_MASTER_SIZE][MASK_MASTER_SIZE]int
 	for j := 0; j < w; j++ {
 		shift := MASK_MASTER_SIZE / 4
 		for i := 0; i < h; i += 2 {
@@ -102,13 +102,13 @@ func InitialiseWedgeMaskTable(state *state.State) {
 
 	for bsize := shared.BLOCK_8X8; bsize < shared.BLOCK_SIZES; bsize++ {
 		if Wedge_Bits[bsize] > 0 {
-			w := state.BlockWidth[bsize]
-			h := state.BlockHeight[bsize]
+			w := shared.BLOCK_WIDTH[bsize]
+			h := shared.BLOCK_HEIGHT[bsize]
 
 			for wedge := 0; wedge < WEDGE_TYPES; wedge++ {
-				dir := getWedgeDirection(bsize, wedge, state)
-				xoff := MASK_MASTER_SIZE/2 - ((getWedgeXoff(bsize, wedge, state) * w) >> 3)
-				yoff := MASK_MASTER_SIZE/2 - ((getWedgeYoff(bsize, wedge, state) * h) >> 3)
+				dir := getWedgeDirection(bsize, wedge)
+				xoff := MASK_MASTER_SIZE/2 - ((getWedgeXoff(bsize, wedge) * w) >> 3)
+				yoff := MASK_MASTER_SIZE/2 - ((getWedgeYoff(bsize, wedge) * h) >> 3)
 				sum := 0
 				for i := 0; i < w; i++ {
 					sum += MasterMask[dir][yoff][xoff+i]
@@ -118,30 +118,34 @@ func InitialiseWedgeMaskTable(state *state.State) {
 				}
 				avg := (sum + (w+h-1)/2) / (w + h - 1)
 				flipSign := avg < 32
+				wedgeMasks[bsize][0][wedge] = util.NewGrid[int](h, w)
+				wedgeMasks[bsize][1][wedge] = util.NewGrid[int](h, w)
 				for i := 0; i < h; i++ {
 					for j := 0; j < w; j++ {
-						WedgeMasks[bsize][util.Int(flipSign)][wedge][i][j] = MasterMask[dir][yoff+i][xoff+j]
-						WedgeMasks[bsize][util.Int(!flipSign)][wedge][i][j] = 64 - MasterMask[dir][yoff+i][xoff+j]
+						wedgeMasks[bsize][util.Int(flipSign)][wedge][i][j] = MasterMask[dir][yoff+i][xoff+j]
+						wedgeMasks[bsize][util.Int(!flipSign)][wedge][i][j] = 64 - MasterMask[dir][yoff+i][xoff+j]
 					}
 				}
 			}
 		}
 	}
+
+	return wedgeMasks
 }
 
-func getWedgeDirection(bsize int, index int, state *state.State) int {
-	return Wedge_Codebook[blockShape(bsize, state)][index][0]
+func getWedgeDirection(bsize int, index int) int {
+	return Wedge_Codebook[blockShape(bsize)][index][0]
 }
 
-func getWedgeXoff(bsize int, index int, state *state.State) int {
-	return Wedge_Codebook[blockShape(bsize, state)][index][1]
+func getWedgeXoff(bsize int, index int) int {
+	return Wedge_Codebook[blockShape(bsize)][index][1]
 }
 
-func getWedgeYoff(bsize int, index int, state *state.State) int {
-	return Wedge_Codebook[blockShape(bsize, state)][index][2]
+func getWedgeYoff(bsize int, index int) int {
+	return Wedge_Codebook[blockShape(bsize)][index][2]
 }
 
-func blockShape(bsize int, state *state.State) int {
+func blockShape(bsize int) int {
 	w4 := shared.NUM_4X4_BLOCKS_WIDE[bsize]
 	h4 := shared.NUM_4X4_BLOCKS_HIGH[bsize]
 	if h4 > w4 {
-- 
2.43.0


From 315c726d75549264034a15ca15a822c2ea255d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:48 +0000
Subject: [PATCH 124/152] fix: Count the corner of a wedge once when choosing
 its sign

---
 internal/wedgemask/wedge_mask.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/wedgemask/wedge_mask.go b/internal/wedgemask/wedge_mask.go
index ee06983..e5c368f 100644
--- a/internal/wedgemask/wedge_mask.go
+++ b/internal/wedgemask/wedge_mask.go
@@ -113,7 +113,7 @@ func initialiseWedgeMaskTable() (wedgeMasks [shared.BLOCK_SIZES][2][WEDGE_TYPES]
 				for i := 0; i < w; i++ {
 					sum += MasterMask[dir][yoff][xoff+i]
 				}
-				for i := 0; i < h; i++ {
+				for i := 1; i < h; i++ {
 					sum += MasterMask[dir][yoff+i][xoff]
 				}
 				avg := (sum + (w+h-1)/2) / (w + h - 1)
-- 
2.43.0


From 8559d553026d2d44b906e812a6227b1a02a83543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:50 +0000
Subject: [PATCH 125/152] fix: Clip blended compound predictions

---
 internal/tilegroup/predict_inter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 63664e8..8bc8281 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -628,7 +628,7 @@ func (t *TileGroup) maskBlendProcess(preds [2][][]int, plane int, dstX int, dstY
 			} else {
 				pred0 := preds[0][y][x]
 				pred1 := preds[1][y][x]
-				state.CurrFrame[plane][y+dstY][x+dstX] = util.Round2(m*pred0+(64-m)*pred1, 6+t.InterPostRound)
+				state.CurrFrame[plane][y+dstY][x+dstX] = util.Clip1(util.Round2(m*pred0+(64-m)*pred1, 6+t.InterPostRound), sh.ColorConfig.BitDepth)
 			}
 		}
 	}
-- 
2.43.0


From 9a5784629634cb224cd099f5f0539e782a2f787b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:53 +0000
Subject: [PATCH 126/152] fix: Warp blocks

---
 internal/tilegroup/predict_inter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 8bc8281..1086d03 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -294,7 +294,7 @@ func (t *TileGroup) blockWarpProcess(pred [][]int, useWarp int, plane int, refLi
 	iy4 := y4 >> shared.WARPEDMODEL_PREC_BITS
 	sy4 := y4 & ((1 << shared.WARPEDMODEL_PREC_BITS) - 1)
 
-	var intermediate [][]int
+	var intermediate [15][8]int
 	for i1 := -7; i1 < 8; i1++ {
 		for i2 := -4; i2 < 4; i2++ {
 			sx := sx4 + alpha*i2 + beta*i1
-- 
2.43.0


From cf5018b19d64db2ff0edf4cd536d26a48a830a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:55 +0000
Subject: [PATCH 127/152] fix: One entry of the table of divisors

---
 internal/tilegroup/predict_inter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index 1086d03..ba23ee0 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -786,7 +786,7 @@ var Div_Lut = []int{
 	11125, 11096, 11067, 11038, 11009, 10980, 10951, 10923, 10894, 10866, 10838,
 	10810, 10782, 10755, 10727, 10700, 10673, 10645, 10618, 10592, 10565, 10538,
 	10512, 10486, 10460, 10434, 10408, 10382, 10356, 10331, 10305, 10280, 10255,
-	10230, 10205, 10180, 10156, 10131, 10107, 10082, 10058, 10034, 10010, 99869,
+	10230, 10205, 10180, 10156, 10131, 10107, 10082, 10058, 10034, 10010, 9986,
 	9963, 9939, 9916, 9892, 9869, 9846, 9823, 9800, 9777, 9754, 9732,
 	9709, 9687, 9664, 9642, 9620, 9598, 9576, 9554, 9533, 9511, 9489,
 	9468, 9447, 9425, 9404, 9383, 9362, 9341, 9321, 9300, 9279, 9259,
-- 
2.43.0


From bf48cdddd06691458b82b91ef15a31d2683366fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:57 +0000
Subject: [PATCH 128/152] fix: Fit the warp of a block to its samples

---
 internal/tilegroup/predict_inter.go | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index ba23ee0..a620355 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -377,17 +377,9 @@ func (t *TileGroup) resolveDivisorProcess(d int) (int, int) {
 
 // 7.11.3.8 Warp estimation process
 func (t *TileGroup) warpEstimationProcess(state *state.State) {
-	var A [][]int
-	var Bx []int
-	var By []int
-	for i := 0; i < 2; i++ {
-		for j := 0; j < 2; j++ {
-			A[i][j] = 0
-		}
-
-		Bx[i] = 0
-		By[i] = 0
-	}
+	var A [2][2]int
+	var Bx [2]int
+	var By [2]int
 
 	// TODO: matrix is symmetrical, so an entry is omitted!
 	w4 := shared.NUM_4X4_BLOCKS_WIDE[state.MiSize]
@@ -408,11 +400,11 @@ func (t *TileGroup) warpEstimationProcess(state *state.State) {
 		if util.Abs(sx-dx) < LS_MV_MAX && util.Abs(sy-dy) < LS_MV_MAX {
 			A[0][0] += util.LsProduct(sx, sx) + 8
 			A[0][1] += util.LsProduct(sx, sy) + 4
-			A[1][1] += util.LsProduct(sy, sx) + 8
+			A[1][1] += util.LsProduct(sy, sy) + 8
 			Bx[0] += util.LsProduct(sx, dx) + 8
 			Bx[1] += util.LsProduct(sy, dx) + 4
-			Bx[0] += util.LsProduct(sx, dy) + 4
-			Bx[1] += util.LsProduct(sy, dy) + 8
+			By[0] += util.LsProduct(sx, dy) + 4
+			By[1] += util.LsProduct(sy, dy) + 8
 		}
 	}
 
@@ -430,19 +422,19 @@ func (t *TileGroup) warpEstimationProcess(state *state.State) {
 	divShift -= shared.WARPEDMODEL_PREC_BITS
 
 	if divShift < 0 {
-		divFactor = divFactor << (divShift)
+		divFactor = divFactor << -divShift
 		divShift = 0
 	}
 
 	t.LocalWarpParams[2] = t.diag(A[1][1]*Bx[0]-A[0][1]*Bx[1], divFactor, divShift)
-	t.LocalWarpParams[3] = t.nondiag(-A[1][1]*Bx[0]+A[0][0]*Bx[1], divFactor, divShift)
+	t.LocalWarpParams[3] = t.nondiag(-A[0][1]*Bx[0]+A[0][0]*Bx[1], divFactor, divShift)
 	t.LocalWarpParams[4] = t.nondiag(A[1][1]*By[0]-A[0][1]*By[1], divFactor, divShift)
-	t.LocalWarpParams[5] = t.diag(-A[1][1]*By[0]+A[0][0]*By[1], divFactor, divShift)
+	t.LocalWarpParams[5] = t.diag(-A[0][1]*By[0]+A[0][0]*By[1], divFactor, divShift)
 
 	mvx := t.Mv[0][1]
 	mvy := t.Mv[0][0]
 	vx := mvx*(1<<(shared.WARPEDMODEL_PREC_BITS-3)) - (midX*(t.LocalWarpParams[2]-(1<<shared.WARPEDMODEL_PREC_BITS)) + midY*t.LocalWarpParams[3])
-	vy := mvy*(1<<(shared.WARPEDMODEL_PREC_BITS-3)) - (midX * (t.LocalWarpParams[4] + midY + (t.LocalWarpParams[5]) - (1 << shared.WARPEDMODEL_PREC_BITS)))
+	vy := mvy*(1<<(shared.WARPEDMODEL_PREC_BITS-3)) - (midX*t.LocalWarpParams[4] + midY*(t.LocalWarpParams[5]-(1<<shared.WARPEDMODEL_PREC_BITS)))
 
 	t.LocalWarpParams[0] = util.Clip3(-shared.WARPEDMODEL_TRANS_CLAMP, shared.WARPEDMODEL_TRANS_CLAMP-1, vx)
 	t.LocalWarpParams[1] = util.Clip3(-shared.WARPEDMODEL_TRANS_CLAMP, shared.WARPEDMODEL_TRANS_CLAMP-1, vy)
-- 
2.43.0


From c70293450f08e2390115fb617047b3a359470298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:59 +0000
Subject: [PATCH 129/152] fix: Overlap with the mask of the right length and
 direction

---
 internal/tilegroup/predict_inter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/predict_inter.go b/internal/tilegroup/predict_inter.go
index a620355..36c330f 100644
--- a/internal/tilegroup/predict_inter.go
+++ b/internal/tilegroup/predict_inter.go
@@ -467,7 +467,7 @@ func (t *TileGroup) overlappedMotionCompensationProcess(plane int, w int, h int,
 					nCount += 1
 					predW := util.Min(w, (step4*MI_SIZE)>>subX)
 					predH := util.Min(h>>1, 32>>subY)
-					mask := util.GetObmcMask(predW)
+					mask := util.GetObmcMask(predH)
 
 					// predict_overlap( )
 					mv := t.Mvs[candRow][candCol][0]
@@ -491,7 +491,7 @@ func (t *TileGroup) overlappedMotionCompensationProcess(plane int, w int, h int,
 	}
 
 	if state.AvailL {
-		pass := 0
+		pass := 1
 		h4 := shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]
 		x4 := state.MiCol
 		y4 := state.MiRow
-- 
2.43.0


From fe5fb88cae36482dd8a25f2153a99c875cd16349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:58 +0000
Subject: [PATCH 130/152] fix: Weights of all nearest motion vectors, matches
 in the last column

---
 internal/tilegroup/find_mv_stack.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/find_mv_stack.go b/internal/tilegroup/find_mv_stack.go
index 5e67198..6e00320 100644
--- a/internal/tilegroup/find_mv_stack.go
+++ b/internal/tilegroup/find_mv_stack.go
@@ -68,7 +68,7 @@ func (t *TileGroup) findMvStack(isCompound bool, state *state.State, uh uncompre
 
 	// 15.
 	if numNearest > 0 {
-		for idx := 0; idx < numNearest-1; idx++ {
+		for idx := 0; idx < numNearest; idx++ {
 			t.WeightStack[idx] += REF_CAT_LEVEL
 		}
 	}
@@ -134,7 +134,7 @@ func (t *TileGroup) findMvStack(isCompound bool, state *state.State, uh uncompre
 
 	// 31.
 	if t.FoundMatch == 1 {
-		foundAboveMatch = 1
+		foundLeftMatch = 1
 	}
 
 	// 32.
-- 
2.43.0


From a921f1ae2fe65fea763dba82dc269860620c66ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:00 +0000
Subject: [PATCH 131/152] fix: Room for all predicted motion vectors, and
 swapping them

---
 internal/tilegroup/find_mv_stack.go |  8 +++-----
 internal/tilegroup/tile_group.go    | 10 +++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/internal/tilegroup/find_mv_stack.go b/internal/tilegroup/find_mv_stack.go
index 6e00320..51a9c5d 100644
--- a/internal/tilegroup/find_mv_stack.go
+++ b/internal/tilegroup/find_mv_stack.go
@@ -534,11 +534,9 @@ func (t *TileGroup) swapStack(i int, j int, isCompound bool) {
 	t.WeightStack[j] = temp
 
 	for list := 0; list < 1+util.Int(isCompound); list++ {
-		for comp := 0; comp < 2; comp++ {
-			t.RefStackMv[i][list][comp] = t.RefStackMv[j][list][comp]
-			t.RefStackMv[j][list][comp] = temp
-		}
-
+		tempMv := t.RefStackMv[i][list]
+		t.RefStackMv[i][list] = t.RefStackMv[j][list]
+		t.RefStackMv[j][list] = tempMv
 	}
 }
 
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index eae8b66..8290524 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -154,12 +154,12 @@ type TileGroup struct {
 	FoundMatch          int
 	TotalMatches        int
 	CloseMatches        int
-	RefStackMv          [2][2][2]int
+	RefStackMv          [MAX_REF_MV_STACK_SIZE][2][2]int
 	RefIdCount          [2]int
-	RefIdMvs            [][][2]int
+	RefIdMvs            [2][2][2]int
 	RefDiffCount        [2]int
-	RefDiffMvs          [][][2]int
-	WeightStack         [8]int
+	RefDiffMvs          [2][2][2]int
+	WeightStack         [MAX_REF_MV_STACK_SIZE]int
 	AngleDeltaY         int
 	AngleDeltaUV        int
 	CflAlphaU           int
@@ -240,7 +240,7 @@ type TileGroup struct {
 	BckWeight int
 
 	ZeroMvContext int
-	DrlCtxStack   [1]int
+	DrlCtxStack   [MAX_REF_MV_STACK_SIZE]int
 
 	MaxLumaH int
 	MaxLumaW int
-- 
2.43.0


From 8377a9832fa0159d0e292e15f9bd125289b11a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:02 +0000
Subject: [PATCH 132/152] fix: Use motion vectors of lowered precision

---
 internal/tilegroup/find_mv_stack.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/tilegroup/find_mv_stack.go b/internal/tilegroup/find_mv_stack.go
index 51a9c5d..36693b7 100644
--- a/internal/tilegroup/find_mv_stack.go
+++ b/internal/tilegroup/find_mv_stack.go
@@ -322,7 +322,7 @@ func (t *TileGroup) temporalSampleProcess(deltaRow int, deltaCol int, isCompound
 			return
 		}
 
-		t.lowerPrecisionProcess(candMv, uh)
+		candMv = t.lowerPrecisionProcess(candMv, uh)
 
 		if deltaRow == 0 && deltaCol == 0 {
 			if util.Abs(candMv[0]-t.GlobalMvs[0][0]) >= 16 ||
@@ -356,8 +356,8 @@ func (t *TileGroup) temporalSampleProcess(deltaRow int, deltaCol int, isCompound
 		if candMv1[0] == -1<<15 {
 			return
 		}
-		t.lowerPrecisionProcess(candMv0, uh)
-		t.lowerPrecisionProcess(candMv1, uh)
+		candMv0 = t.lowerPrecisionProcess(candMv0, uh)
+		candMv1 = t.lowerPrecisionProcess(candMv1, uh)
 
 		if deltaRow == 0 && deltaCol == 0 {
 			if util.Abs(candMv0[0]-t.GlobalMvs[0][0]) >= 16 ||
@@ -460,7 +460,7 @@ func (t *TileGroup) compoundSearchStackProcess(mvRow int, mvCol int, weight int,
 	}
 
 	for i := 0; i <= 1; i++ {
-		t.lowerPrecisionProcess(candMvs[i], uh)
+		candMvs[i] = t.lowerPrecisionProcess(candMvs[i], uh)
 	}
 
 	t.FoundMatch = 1
-- 
2.43.0


From bcbf1ebf4d552e513e2da1923e33d49332a0a5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:04 +0000
Subject: [PATCH 133/152] fix: Find motion vectors that are in the stack
 already

---
 internal/tilegroup/find_mv_stack.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/internal/tilegroup/find_mv_stack.go b/internal/tilegroup/find_mv_stack.go
index 36693b7..1effd11 100644
--- a/internal/tilegroup/find_mv_stack.go
+++ b/internal/tilegroup/find_mv_stack.go
@@ -334,7 +334,7 @@ func (t *TileGroup) temporalSampleProcess(deltaRow int, deltaCol int, isCompound
 		}
 
 		var idx int
-		for idx := 0; idx < t.NumMvFound; idx++ {
+		for idx = 0; idx < t.NumMvFound; idx++ {
 			if candMv[0] == t.RefStackMv[idx][0][0] &&
 				candMv[1] == t.RefStackMv[idx][0][1] {
 				break
@@ -371,7 +371,7 @@ func (t *TileGroup) temporalSampleProcess(deltaRow int, deltaCol int, isCompound
 
 		}
 		var idx int
-		for idx := 0; idx < t.NumMvFound; idx++ {
+		for idx = 0; idx < t.NumMvFound; idx++ {
 			if candMv0[0] == t.RefStackMv[idx][0][0] &&
 				candMv0[1] == t.RefStackMv[idx][0][1] &&
 				candMv1[0] == t.RefStackMv[idx][1][0] &&
@@ -463,11 +463,16 @@ func (t *TileGroup) compoundSearchStackProcess(mvRow int, mvCol int, weight int,
 		candMvs[i] = t.lowerPrecisionProcess(candMvs[i], uh)
 	}
 
+	if util.HasNewmv(candMode) {
+		t.NewMvCount++
+	}
+
 	t.FoundMatch = 1
 
 	for idx := 0; idx < t.NumMvFound; idx++ {
 		if candMvs[0] == t.RefStackMv[idx][0] && candMvs[1] == t.RefStackMv[idx][1] {
 			t.WeightStack[idx] += weight
+			return
 		}
 	}
 
@@ -477,11 +482,6 @@ func (t *TileGroup) compoundSearchStackProcess(mvRow int, mvCol int, weight int,
 		t.WeightStack[t.NumMvFound] = weight
 		t.NumMvFound++
 	}
-
-	if util.HasNewmv(candMode) {
-		t.NewMvCount++
-	}
-
 }
 
 // 7.10.2.10. Lower precision process
@@ -676,7 +676,7 @@ func (t *TileGroup) addExtraMvCandidateProcess(mvRow int, mvCol int, isCompound
 					candMv[1] *= -1
 				}
 				var idx int
-				for idx := 0; idx < t.NumMvFound; idx++ {
+				for idx = 0; idx < t.NumMvFound; idx++ {
 					if util.Equals(candMv, t.RefStackMv[idx][0]) {
 						break
 					}
-- 
2.43.0


From a4930c18c5ee647b9ac457510f68a86e32aa3c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:06 +0000
Subject: [PATCH 134/152] fix: Temporal candidates next to the block

---
 internal/tilegroup/find_mv_stack.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/internal/tilegroup/find_mv_stack.go b/internal/tilegroup/find_mv_stack.go
index 1effd11..7f1095f 100644
--- a/internal/tilegroup/find_mv_stack.go
+++ b/internal/tilegroup/find_mv_stack.go
@@ -298,6 +298,24 @@ func (t *TileGroup) temporalScanProcess(isCompound bool, state *state.State, uh
 		}
 	}
 
+	allowExtension := bh4 >= shared.NUM_4X4_BLOCKS_HIGH[shared.BLOCK_8X8] &&
+		bh4 < shared.NUM_4X4_BLOCKS_HIGH[shared.BLOCK_64X64] &&
+		bw4 >= shared.NUM_4X4_BLOCKS_WIDE[shared.BLOCK_8X8] &&
+		bw4 < shared.NUM_4X4_BLOCKS_WIDE[shared.BLOCK_64X64]
+	if allowExtension {
+		for _, pos := range [3][2]int{{bh4, -2}, {bh4, bw4}, {bh4 - 2, bw4}} {
+			if checkSbBorder(pos[0], pos[1], state) {
+				t.temporalSampleProcess(pos[0], pos[1], isCompound, state, uh)
+			}
+		}
+	}
+}
+
+// check_sb_border( deltaRow, deltaCol )
+func checkSbBorder(deltaRow int, deltaCol int, state *state.State) bool {
+	row := (state.MiRow & 15) + deltaRow
+	col := (state.MiCol & 15) + deltaCol
+	return row >= 0 && row < 16 && col >= 0 && col < 16
 }
 
 // 7.10.2.6 Temporal sample process
-- 
2.43.0


From 1fd57f635fb6da2d0e7f8cd441368e4143a8fd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:08 +0000
Subject: [PATCH 135/152] fix: Search for motion vectors with other references

---
 internal/tilegroup/find_mv_stack.go | 21 ++-------------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/internal/tilegroup/find_mv_stack.go b/internal/tilegroup/find_mv_stack.go
index 7f1095f..5a1918a 100644
--- a/internal/tilegroup/find_mv_stack.go
+++ b/internal/tilegroup/find_mv_stack.go
@@ -584,20 +584,12 @@ func (t *TileGroup) extraSearchProcess(isCompound bool, state *state.State, uh u
 				mvCol = state.MiCol - 1
 			}
 
-			if t.isInside(mvRow, mvCol, state) {
+			if !t.isInside(mvRow, mvCol, state) {
 				break
 			}
 
 			t.addExtraMvCandidateProcess(mvRow, mvCol, isCompound, state, uh)
 
-			// Unsure if negative indexing here is intended
-			if mvRow < 0 {
-				mvRow = len(state.MiSizes) + mvRow
-			}
-			if mvCol < 0 {
-				mvCol = len(state.MiSizes) + mvCol
-			}
-
 			if pass == 0 {
 				idx += shared.NUM_4X4_BLOCKS_WIDE[state.MiSizes[mvRow][mvCol]]
 			} else {
@@ -606,7 +598,7 @@ func (t *TileGroup) extraSearchProcess(isCompound bool, state *state.State, uh u
 		}
 	}
 
-	var combinedMvs [][][2]int
+	var combinedMvs [2][2][2]int
 	if isCompound {
 		for list := 0; list < 2; list++ {
 			compCount := 0
@@ -653,15 +645,6 @@ func (t *TileGroup) extraSearchProcess(isCompound bool, state *state.State, uh u
 
 // 7.10.2.13 Add extra mv candidate process
 func (t *TileGroup) addExtraMvCandidateProcess(mvRow int, mvCol int, isCompound bool, state *state.State, uh uncompressedheader.UncompressedHeader) {
-	// Unsure if negative indexing here is intended
-	if mvRow < 0 {
-		mvRow = len(state.RefFrames) + mvRow
-	}
-
-	if mvCol < 0 {
-		mvCol = len(state.RefFrames) + mvCol
-	}
-
 	var candRef int
 	var candMv [2]int
 	if isCompound {
-- 
2.43.0


From 4629e895fc0933c53347391b93307a92a91a66bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:10 +0000
Subject: [PATCH 136/152] fix: Tell blocks that are not decoded yet from intra
 blocks

---
 internal/tilegroup/find_mv_stack.go         | 3 +--
 internal/tilegroup/inter_block_mode_info.go | 3 +--
 internal/tilegroup/tile_group.go            | 6 ++++++
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/internal/tilegroup/find_mv_stack.go b/internal/tilegroup/find_mv_stack.go
index 5a1918a..a7c8229 100644
--- a/internal/tilegroup/find_mv_stack.go
+++ b/internal/tilegroup/find_mv_stack.go
@@ -272,8 +272,7 @@ func (t *TileGroup) scanPointProcess(deltaRow int, deltaCol int, isCompound bool
 	mvCol := state.MiCol + deltaCol
 	weight := 4
 
-	// "has been written to" - what does this mean?
-	if t.isInside(mvRow, mvCol, state) && state.RefFrames[mvRow][mvCol][0] != 0 {
+	if t.isInside(mvRow, mvCol, state) && state.RefFrames[mvRow][mvCol][0] != shared.NONE {
 		t.addRefMvCandidate(mvRow, mvCol, isCompound, weight, state, uh)
 	}
 }
diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index 9c49f11..08bd2c6 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -350,8 +350,7 @@ func (t *TileGroup) addSample(deltaRow int, deltaCol int, state *state.State) {
 		return
 	}
 
-	// TODO: how do we know if something has not been writte to?
-	if state.RefFrames[mvRow][mvCol][0] == 0 {
+	if state.RefFrames[mvRow][mvCol][0] == shared.NONE {
 		return
 	}
 
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 8290524..d9f17fc 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -386,6 +386,12 @@ func (t *TileGroup) allocateModeInfo(state *state.State) {
 	state.MiSizes = util.NewGrid[int](rows, cols)
 	state.DeltaLFs = util.NewGrid[[shared.FRAME_LF_COUNT]int](rows, cols)
 	state.RefFrames = util.NewGrid[[2]int](rows, cols)
+	for row := range state.RefFrames {
+		for col := range state.RefFrames[row] {
+			// not decoded yet
+			state.RefFrames[row][col][0] = shared.NONE
+		}
+	}
 	state.MfMvs = util.NewGrid[[2]int](rows, cols)
 	state.MfRefFrames = util.NewGrid[int](rows, cols)
 }
-- 
2.43.0


From 85fd869020555e9f46b143620f8c37932991f6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:12 +0000
Subject: [PATCH 137/152] fix: Samples for local warps

---
 internal/tilegroup/inter_block_mode_info.go | 4 ++--
 internal/tilegroup/tile_group.go            | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index 08bd2c6..f513b45 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -374,14 +374,14 @@ func (t *TileGroup) addSample(deltaRow int, deltaCol int, state *state.State) {
 	mvDiffCol := util.Abs(t.Mvs[candRow][candCol][0][1] - t.Mv[0][1])
 	valid := (mvDiffRow + mvDiffCol) <= threshold
 
-	var cand []int
+	var cand [4]int
 	cand[0] = midY * 8
 	cand[1] = midX * 8
 	cand[2] = midY*8 + t.Mvs[candRow][candCol][0][0]
 	cand[3] = midX*8 + t.Mvs[candRow][candCol][0][1]
 
 	t.NumSamplesScanned++
-	if valid && t.NumSamplesScanned > 1 {
+	if !valid && t.NumSamplesScanned > 1 {
 		return
 	}
 
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index d9f17fc..a85d189 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -378,6 +378,7 @@ func (t *TileGroup) allocateModeInfo(state *state.State) {
 	t.ColorMapY = util.NewGrid[int](64, 64)
 	t.ColorMapUV = util.NewGrid[int](64, 64)
 	t.ColorOrder = make([]int, PALETTE_COLORS)
+	t.CandList = util.NewGrid[int](LEAST_SQUARES_SAMPLES_MAX, 4)
 
 	for plane := range t.LoopFilterTxSizes {
 		t.LoopFilterTxSizes[plane] = util.NewGrid[int](rows, cols)
-- 
2.43.0


From d369eaf1ec100afa6aa279c5d465b481c9965ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:08 +0000
Subject: [PATCH 138/152] fix: Motion vectors of intra block copies, and large
 ones

---
 internal/tilegroup/assign_mv.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/assign_mv.go b/internal/tilegroup/assign_mv.go
index 886240e..fdc4fb0 100644
--- a/internal/tilegroup/assign_mv.go
+++ b/internal/tilegroup/assign_mv.go
@@ -39,7 +39,7 @@ func (t *TileGroup) assignMv(isCompound int, b *bitstream.BitStream, state *stat
 					t.PredMv[0][1] = -(sbSize4*MI_SIZE + INTRABC_DELAY_PIXELS) * 8
 				} else {
 					t.PredMv[0][0] = -(sbSize4 * MI_SIZE * 8)
-					t.PredMv[0][0] = 1
+					t.PredMv[0][1] = 0
 				}
 			}
 
@@ -122,7 +122,7 @@ func (t *TileGroup) readMvComponent(comp int, b *bitstream.BitStream, uh uncompr
 		d := 0
 		for i := 0; i < mvClass; i++ {
 			mvBit := symbol.ReadSymbol(state.TileMvBitCdf[t.MvCtx][comp][i], state, b, uh)
-			d |= mvBit << 1
+			d |= mvBit << i
 		}
 
 		mag = CLASS0_SIZE << (mvClass + 2)
-- 
2.43.0


From 05b3331d3f38d9db98a7c21c21c24ba1fe22b5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:11 +0000
Subject: [PATCH 139/152] fix: Nearest motion vectors of the second reference

---
 internal/tilegroup/assign_mv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/assign_mv.go b/internal/tilegroup/assign_mv.go
index fdc4fb0..aff5429 100644
--- a/internal/tilegroup/assign_mv.go
+++ b/internal/tilegroup/assign_mv.go
@@ -170,7 +170,7 @@ func (t *TileGroup) getMode(refList int) int {
 		if t.YMode == shared.NEW_NEWMV || t.YMode == shared.NEAREST_NEWMV || t.YMode == shared.NEAR_NEWMV {
 			compMode = shared.NEWMV
 		} else if t.YMode == shared.NEAREST_NEARESTMV || t.YMode == shared.NEW_NEARESTMV {
-			compMode = shared.NEARMV
+			compMode = shared.NEARESTMV
 		} else if t.YMode == shared.NEAR_NEARMV || t.YMode == shared.NEW_NEARMV {
 			compMode = shared.NEARMV
 		} else {
-- 
2.43.0


From aa6952ffcf342a1da155e18308e717599242b17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:13 +0000
Subject: [PATCH 140/152] fix: Read the modes of inter blocks

---
 internal/tilegroup/inter_block_mode_info.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index f513b45..70986ca 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -12,6 +12,8 @@ import (
 	"github.com/m4tthewde/gov1/internal/wedgemask"
 )
 
+const COMP_NEWMV_CTXS = 5
+
 var COMPOUND_MODE_CTX_MAP = [][]int{
 	{0, 1, 1, 1, 1},
 	{1, 2, 3, 4, 4},
@@ -32,8 +34,8 @@ func (t *TileGroup) interBlockModeInfo(b *bitstream.BitStream, state *state.Stat
 	} else if t.segFeatureActive(shared.SEG_LVL_SKIP, uh, state) || t.segFeatureActive(shared.SEG_LVL_GLOBALMV, uh, state) {
 		t.YMode = shared.GLOBALMV
 	} else if isCompound {
-		compoundMode := b.S()
-
+		ctx := COMPOUND_MODE_CTX_MAP[t.RefMvContext>>1][util.Min(t.NewMvContext, COMP_NEWMV_CTXS-1)]
+		compoundMode := symbol.ReadSymbol(state.TileCompoundModeCdf[ctx], state, b, uh)
 		t.YMode = shared.NEAREST_NEARESTMV + compoundMode
 	} else {
 		newMv := symbol.ReadSymbol(state.TileNewMvCdf[t.NewMvContext], state, b, uh)
@@ -44,7 +46,7 @@ func (t *TileGroup) interBlockModeInfo(b *bitstream.BitStream, state *state.Stat
 			if zeroMv == 0 {
 				t.YMode = shared.GLOBALMV
 			} else {
-				refMv := b.S()
+				refMv := symbol.ReadSymbol(state.TileRefMvCdf[t.RefMvContext], state, b, uh)
 				if refMv == 0 {
 					t.YMode = shared.NEARESTMV
 				} else {
@@ -58,7 +60,7 @@ func (t *TileGroup) interBlockModeInfo(b *bitstream.BitStream, state *state.Stat
 	if t.YMode == shared.NEWMV || t.YMode == shared.NEW_NEWMV {
 		for idx := 0; idx < 2; idx++ {
 			if t.NumMvFound > idx+1 {
-				drlMode := b.S()
+				drlMode := symbol.ReadSymbol(state.TileDrlModeCdf[t.DrlCtxStack[idx]], state, b, uh)
 				if drlMode == 0 {
 					t.RefMvIdx = idx
 					break
@@ -70,7 +72,7 @@ func (t *TileGroup) interBlockModeInfo(b *bitstream.BitStream, state *state.Stat
 		t.RefMvIdx = 1
 		for idx := 1; idx < 3; idx++ {
 			if t.NumMvFound > idx+1 {
-				drlMode := b.S()
+				drlMode := symbol.ReadSymbol(state.TileDrlModeCdf[t.DrlCtxStack[idx]], state, b, uh)
 				if drlMode == 0 {
 					t.RefMvIdx = idx
 					break
-- 
2.43.0


From 415f570ca8809de28bb1234487ce37566d1f081b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:15 +0000
Subject: [PATCH 141/152] fix: Read single references

---
 internal/tilegroup/inter_block_mode_info.go |  2 +-
 internal/tilegroup/syntax_element.go        | 21 ++++++++++++---------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index 70986ca..5778234 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -209,7 +209,7 @@ func (t *TileGroup) readRefFrames(b *bitstream.BitStream, state *state.State, uh
 			} else {
 				singleRefP3 := t.singleRefP3Symbol(state, b, uh)
 				if util.Bool(singleRefP3) {
-					singleRefP5 := b.S()
+					singleRefP5 := t.singleRefP5Symbol(state, b, uh)
 					if util.Bool(singleRefP5) {
 						state.RefFrame[0] = shared.GOLDEN_FRAME
 					} else {
diff --git a/internal/tilegroup/syntax_element.go b/internal/tilegroup/syntax_element.go
index e515381..8bf1d0f 100644
--- a/internal/tilegroup/syntax_element.go
+++ b/internal/tilegroup/syntax_element.go
@@ -56,7 +56,8 @@ func (t *TileGroup) singleRefP1Symbol(state *state.State, b *bitstream.BitStream
 func (t *TileGroup) singleRefP2Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
 	brfCount := t.countRefs(shared.BWDREF_FRAME, state)
 	arf2Count := t.countRefs(shared.ALTREF2_FRAME, state)
-	ctx := refCountCtx(brfCount, arf2Count)
+	arfCount := t.countRefs(shared.ALTREF_FRAME, state)
+	ctx := refCountCtx(brfCount+arf2Count, arfCount)
 
 	return symbol.ReadSymbol(state.TileSingleRefCdf[ctx][1], state, b, uh)
 }
@@ -69,17 +70,19 @@ func (t *TileGroup) singleRefP3Symbol(state *state.State, b *bitstream.BitStream
 }
 
 func (t *TileGroup) singleRefP4Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
-	fwdCount := t.countRefs(shared.LAST_FRAME, state)
-	fwdCount += t.countRefs(shared.LAST2_FRAME, state)
-	fwdCount += t.countRefs(shared.LAST3_FRAME, state)
-	fwdCount += t.countRefs(shared.GOLDEN_FRAME, state)
-	bwdCount := t.countRefs(shared.BWDREF_FRAME, state)
-	bwdCount += t.countRefs(shared.ALTREF2_FRAME, state)
-	bwdCount += t.countRefs(shared.ALTREF_FRAME, state)
-	ctx := refCountCtx(fwdCount, bwdCount)
+	lastCount := t.countRefs(shared.LAST_FRAME, state)
+	last2Count := t.countRefs(shared.LAST2_FRAME, state)
+	ctx := refCountCtx(lastCount, last2Count)
 	return symbol.ReadSymbol(state.TileSingleRefCdf[ctx][3], state, b, uh)
 }
 
+func (t *TileGroup) singleRefP5Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	last3Count := t.countRefs(shared.LAST3_FRAME, state)
+	goldCount := t.countRefs(shared.GOLDEN_FRAME, state)
+	ctx := refCountCtx(last3Count, goldCount)
+	return symbol.ReadSymbol(state.TileSingleRefCdf[ctx][4], state, b, uh)
+}
+
 func (t *TileGroup) singleRefP6Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
 	brfCount := t.countRefs(shared.BWDREF_FRAME, state)
 	arf2Count := t.countRefs(shared.ALTREF2_FRAME, state)
-- 
2.43.0


From 37f82ebfadd161b5d23fc0e4f7e860a7d9e0f5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:17 +0000
Subject: [PATCH 142/152] fix: Read compound references

---
 internal/tilegroup/inter_block_mode_info.go |  20 +--
 internal/tilegroup/syntax_element.go        | 150 ++++++++++++++++++++
 2 files changed, 160 insertions(+), 10 deletions(-)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index 5778234..8879592 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -124,22 +124,22 @@ func (t *TileGroup) readRefFrames(b *bitstream.BitStream, state *state.State, uh
 
 		var compMode int
 		if uh.ReferenceSelect && util.Min(bw4, bh4) >= 2 {
-			compMode = b.S()
+			compMode = t.compModeSymbol(state, b, uh)
 		} else {
 			compMode = SINGLE_REFERENCE
 		}
 
 		if compMode == COMPOUND_REFERENCE {
-			compRefType := b.S()
+			compRefType := t.compRefTypeSymbol(state, b, uh)
 			if compRefType == UNIDIR_COMP_REFERENCE {
-				uniCompRef := b.S()
+				uniCompRef := t.uniCompRefSymbol(state, b, uh)
 				if util.Bool(uniCompRef) {
 					state.RefFrame[0] = shared.BWDREF_FRAME
 					state.RefFrame[1] = shared.ALTREF_FRAME
 				} else {
-					uniCompRefP1 := b.S()
+					uniCompRefP1 := t.uniCompRefP1Symbol(state, b, uh)
 					if util.Bool(uniCompRefP1) {
-						uniCompRefP2 := b.S()
+						uniCompRefP2 := t.uniCompRefP2Symbol(state, b, uh)
 
 						if util.Bool(uniCompRefP2) {
 							state.RefFrame[0] = shared.LAST_FRAME
@@ -155,9 +155,9 @@ func (t *TileGroup) readRefFrames(b *bitstream.BitStream, state *state.State, uh
 					}
 				}
 			} else {
-				compRef := b.S()
+				compRef := t.compRefSymbol(state, b, uh)
 				if compRef == 0 {
-					compRefP1 := b.S()
+					compRefP1 := t.compRefP1Symbol(state, b, uh)
 
 					if util.Bool(compRefP1) {
 						state.RefFrame[0] = shared.LAST2_FRAME
@@ -166,7 +166,7 @@ func (t *TileGroup) readRefFrames(b *bitstream.BitStream, state *state.State, uh
 
 					}
 				} else {
-					compRefP2 := b.S()
+					compRefP2 := t.compRefP2Symbol(state, b, uh)
 
 					if util.Bool(compRefP2) {
 						state.RefFrame[0] = shared.GOLDEN_FRAME
@@ -177,9 +177,9 @@ func (t *TileGroup) readRefFrames(b *bitstream.BitStream, state *state.State, uh
 
 				}
 
-				compBwdref := b.S()
+				compBwdref := t.compBwdrefSymbol(state, b, uh)
 				if compBwdref == 0 {
-					compBwdrefP1 := b.S()
+					compBwdrefP1 := t.compBwdrefP1Symbol(state, b, uh)
 
 					if util.Bool(compBwdrefP1) {
 						state.RefFrame[1] = shared.ALTREF2_FRAME
diff --git a/internal/tilegroup/syntax_element.go b/internal/tilegroup/syntax_element.go
index 8bf1d0f..ad1f9b5 100644
--- a/internal/tilegroup/syntax_element.go
+++ b/internal/tilegroup/syntax_element.go
@@ -6,6 +6,7 @@ import (
 	"github.com/m4tthewde/gov1/internal/state"
 	"github.com/m4tthewde/gov1/internal/symbol"
 	"github.com/m4tthewde/gov1/internal/uncompressedheader"
+	"github.com/m4tthewde/gov1/internal/util"
 )
 
 func (t *TileGroup) countRefs(frameType int, state *state.State) int {
@@ -90,3 +91,152 @@ func (t *TileGroup) singleRefP6Symbol(state *state.State, b *bitstream.BitStream
 
 	return symbol.ReadSymbol(state.TileSingleRefCdf[ctx][5], state, b, uh)
 }
+
+func (t *TileGroup) refCountCtxOf(first []int, second []int, state *state.State) int {
+	var counts [2]int
+	for _, frame := range first {
+		counts[0] += t.countRefs(frame, state)
+	}
+	for _, frame := range second {
+		counts[1] += t.countRefs(frame, state)
+	}
+
+	return refCountCtx(counts[0], counts[1])
+}
+
+func checkBackward(refFrame int) bool {
+	return refFrame >= shared.BWDREF_FRAME && refFrame <= shared.ALTREF_FRAME
+}
+
+func (t *TileGroup) compModeSymbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	var ctx int
+	if state.AvailU && state.AvailL {
+		if t.AboveSingle && t.LeftSingle {
+			ctx = util.Int(checkBackward(t.AboveRefFrame[0])) ^ util.Int(checkBackward(t.LeftRefFrame[0]))
+		} else if t.AboveSingle {
+			ctx = 2 + util.Int(checkBackward(t.AboveRefFrame[0]) || t.AboveIntra)
+		} else if t.LeftSingle {
+			ctx = 2 + util.Int(checkBackward(t.LeftRefFrame[0]) || t.LeftIntra)
+		} else {
+			ctx = 4
+		}
+	} else if state.AvailU {
+		if t.AboveSingle {
+			ctx = util.Int(checkBackward(t.AboveRefFrame[0]))
+		} else {
+			ctx = 3
+		}
+	} else if state.AvailL {
+		if t.LeftSingle {
+			ctx = util.Int(checkBackward(t.LeftRefFrame[0]))
+		} else {
+			ctx = 3
+		}
+	} else {
+		ctx = 1
+	}
+
+	return symbol.ReadSymbol(state.TileCompModeCdf[ctx], state, b, uh)
+}
+
+func (t *TileGroup) compRefTypeSymbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	above0 := t.AboveRefFrame[0]
+	above1 := t.AboveRefFrame[1]
+	left0 := t.LeftRefFrame[0]
+	left1 := t.LeftRefFrame[1]
+	aboveCompInter := state.AvailU && !t.AboveIntra && !t.AboveSingle
+	leftCompInter := state.AvailL && !t.LeftIntra && !t.LeftSingle
+	aboveUniComp := aboveCompInter && checkBackward(above0) == checkBackward(above1)
+	leftUniComp := leftCompInter && checkBackward(left0) == checkBackward(left1)
+
+	var ctx int
+	if state.AvailU && !t.AboveIntra && state.AvailL && !t.LeftIntra {
+		samedir := util.Int(checkBackward(above0) == checkBackward(left0))
+
+		if !aboveCompInter && !leftCompInter {
+			ctx = 1 + 2*samedir
+		} else if !aboveCompInter {
+			if !leftUniComp {
+				ctx = 1
+			} else {
+				ctx = 3 + samedir
+			}
+		} else if !leftCompInter {
+			if !aboveUniComp {
+				ctx = 1
+			} else {
+				ctx = 3 + samedir
+			}
+		} else {
+			if !aboveUniComp && !leftUniComp {
+				ctx = 0
+			} else if !aboveUniComp || !leftUniComp {
+				ctx = 2
+			} else {
+				ctx = 3 + util.Int((above0 == shared.BWDREF_FRAME) == (left0 == shared.BWDREF_FRAME))
+			}
+		}
+	} else if state.AvailU && state.AvailL {
+		if aboveCompInter {
+			ctx = 1 + 2*util.Int(aboveUniComp)
+		} else if leftCompInter {
+			ctx = 1 + 2*util.Int(leftUniComp)
+		} else {
+			ctx = 2
+		}
+	} else if aboveCompInter {
+		ctx = 4 * util.Int(aboveUniComp)
+	} else if leftCompInter {
+		ctx = 4 * util.Int(leftUniComp)
+	} else {
+		ctx = 2
+	}
+
+	return symbol.ReadSymbol(state.TileCompRefTypeCdf[ctx], state, b, uh)
+}
+
+var (
+	fwdFrames   = []int{shared.LAST_FRAME, shared.LAST2_FRAME, shared.LAST3_FRAME, shared.GOLDEN_FRAME}
+	bwdFrames   = []int{shared.BWDREF_FRAME, shared.ALTREF2_FRAME, shared.ALTREF_FRAME}
+	last3OrGold = []int{shared.LAST3_FRAME, shared.GOLDEN_FRAME}
+)
+
+func (t *TileGroup) uniCompRefSymbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	ctx := t.refCountCtxOf(fwdFrames, bwdFrames, state)
+	return symbol.ReadSymbol(state.TileUniCompRefCdf[ctx][0], state, b, uh)
+}
+
+func (t *TileGroup) uniCompRefP1Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	ctx := t.refCountCtxOf([]int{shared.LAST2_FRAME}, last3OrGold, state)
+	return symbol.ReadSymbol(state.TileUniCompRefCdf[ctx][1], state, b, uh)
+}
+
+func (t *TileGroup) uniCompRefP2Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	ctx := t.refCountCtxOf([]int{shared.LAST3_FRAME}, []int{shared.GOLDEN_FRAME}, state)
+	return symbol.ReadSymbol(state.TileUniCompRefCdf[ctx][2], state, b, uh)
+}
+
+func (t *TileGroup) compRefSymbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	ctx := t.refCountCtxOf([]int{shared.LAST_FRAME, shared.LAST2_FRAME}, last3OrGold, state)
+	return symbol.ReadSymbol(state.TileCompRefCdf[ctx][0], state, b, uh)
+}
+
+func (t *TileGroup) compRefP1Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	ctx := t.refCountCtxOf([]int{shared.LAST_FRAME}, []int{shared.LAST2_FRAME}, state)
+	return symbol.ReadSymbol(state.TileCompRefCdf[ctx][1], state, b, uh)
+}
+
+func (t *TileGroup) compRefP2Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	ctx := t.refCountCtxOf([]int{shared.LAST3_FRAME}, []int{shared.GOLDEN_FRAME}, state)
+	return symbol.ReadSymbol(state.TileCompRefCdf[ctx][2], state, b, uh)
+}
+
+func (t *TileGroup) compBwdrefSymbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	ctx := t.refCountCtxOf([]int{shared.BWDREF_FRAME, shared.ALTREF2_FRAME}, []int{shared.ALTREF_FRAME}, state)
+	return symbol.ReadSymbol(state.TileCompBwdRefCdf[ctx][0], state, b, uh)
+}
+
+func (t *TileGroup) compBwdrefP1Symbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	ctx := t.refCountCtxOf([]int{shared.BWDREF_FRAME}, []int{shared.ALTREF2_FRAME}, state)
+	return symbol.ReadSymbol(state.TileCompBwdRefCdf[ctx][1], state, b, uh)
+}
-- 
2.43.0


From c0eb7cb8f650752eabd9d347fd3a2b1bb400f13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:19 +0000
Subject: [PATCH 143/152] fix: References of segments that are skipped or have
 global motion

---
 internal/tilegroup/inter_block_mode_info.go | 3 +++
 internal/tilegroup/inter_frame_mode_info.go | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index 8879592..9a742c9 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -118,6 +118,9 @@ func (t *TileGroup) readRefFrames(b *bitstream.BitStream, state *state.State, uh
 	} else if t.segFeatureActive(shared.SEG_LVL_REF_FRAME, uh, state) {
 		state.RefFrame[0] = state.FeatureData[t.SegmentId][shared.SEG_LVL_REF_FRAME]
 		state.RefFrame[1] = shared.NONE
+	} else if t.segFeatureActive(shared.SEG_LVL_SKIP, uh, state) || t.segFeatureActive(shared.SEG_LVL_GLOBALMV, uh, state) {
+		state.RefFrame[0] = shared.LAST_FRAME
+		state.RefFrame[1] = shared.NONE
 	} else {
 		bw4 := shared.NUM_4X4_BLOCKS_WIDE[state.MiSize]
 		bh4 := shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]
diff --git a/internal/tilegroup/inter_frame_mode_info.go b/internal/tilegroup/inter_frame_mode_info.go
index 201d241..230c2df 100644
--- a/internal/tilegroup/inter_frame_mode_info.go
+++ b/internal/tilegroup/inter_frame_mode_info.go
@@ -186,7 +186,7 @@ func (t *TileGroup) readIsInter(b *bitstream.BitStream, state *state.State, uh u
 	} else if t.segFeatureActive(shared.SEG_LVL_REF_FRAME, uh, state) {
 		t.IsInter = util.Int(state.FeatureData[t.SegmentId][shared.SEG_LVL_REF_FRAME] != shared.INTRA_FRAME)
 	} else if t.segFeatureActive(shared.SEG_LVL_GLOBALMV, uh, state) {
-		t.IsInter = 0
+		t.IsInter = 1
 	} else {
 		// S()
 		var ctx int
-- 
2.43.0


From dc758a533bdc329bb630739bf64c80a2e549e636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:21 +0000
Subject: [PATCH 144/152] fix: Read the skip mode

---
 internal/tilegroup/inter_frame_mode_info.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/tilegroup/inter_frame_mode_info.go b/internal/tilegroup/inter_frame_mode_info.go
index 230c2df..5f369bf 100644
--- a/internal/tilegroup/inter_frame_mode_info.go
+++ b/internal/tilegroup/inter_frame_mode_info.go
@@ -175,7 +175,15 @@ func (t *TileGroup) readSkipMode(b *bitstream.BitStream, state *state.State, uh
 	if t.segFeatureActive(shared.SEG_LVL_SKIP, uh, state) || t.segFeatureActive(shared.SEG_LVL_REF_FRAME, uh, state) || t.segFeatureActive(shared.SEG_LVL_GLOBALMV, uh, state) || !util.Bool(uh.SkipModePresent) || shared.BLOCK_WIDTH[state.MiSize] < 8 || shared.BLOCK_HEIGHT[state.MiSize] < 8 {
 		t.SkipMode = 0
 	} else {
-		t.SkipMode = b.S()
+		ctx := 0
+		if state.AvailU {
+			ctx += t.SkipModes[state.MiRow-1][state.MiCol]
+		}
+		if state.AvailL {
+			ctx += t.SkipModes[state.MiRow][state.MiCol-1]
+		}
+
+		t.SkipMode = symbol.ReadSymbol(state.TileSkipModeCdf[ctx], state, b, uh)
 	}
 }
 
-- 
2.43.0


From 6d83ae624c01f2027dbc6d9d3d3763b19929bf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:23 +0000
Subject: [PATCH 145/152] fix: Read whether the segment is predicted

---
 internal/tilegroup/inter_frame_mode_info.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/inter_frame_mode_info.go b/internal/tilegroup/inter_frame_mode_info.go
index 5f369bf..faae65a 100644
--- a/internal/tilegroup/inter_frame_mode_info.go
+++ b/internal/tilegroup/inter_frame_mode_info.go
@@ -120,7 +120,7 @@ func (t *TileGroup) interSegmentId(preSkip int, b *bitstream.BitStream, uh uncom
 						t.AboveSegPredContext[state.MiCol+i] = segIdPredicted
 					}
 					for i := 0; i < shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]; i++ {
-						t.AboveSegPredContext[state.MiRow+i] = segIdPredicted
+						t.LeftSegPredContext[state.MiRow+i] = segIdPredicted
 					}
 					t.readSegmentId(b, uh, state)
 					return
@@ -128,7 +128,8 @@ func (t *TileGroup) interSegmentId(preSkip int, b *bitstream.BitStream, uh uncom
 			}
 
 			if uh.SegmentationTemporalUpdate == 1 {
-				segIdPredicted := b.S()
+				ctx := t.LeftSegPredContext[state.MiRow] + t.AboveSegPredContext[state.MiCol]
+				segIdPredicted := symbol.ReadSymbol(state.TileSegmentIdPredictedCdf[ctx], state, b, uh)
 				if util.Bool(segIdPredicted) {
 					t.SegmentId = predictedSegmentId
 				} else {
@@ -139,7 +140,7 @@ func (t *TileGroup) interSegmentId(preSkip int, b *bitstream.BitStream, uh uncom
 					t.AboveSegPredContext[state.MiCol+i] = segIdPredicted
 				}
 				for i := 0; i < shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]; i++ {
-					t.AboveSegPredContext[state.MiRow+i] = segIdPredicted
+					t.LeftSegPredContext[state.MiRow+i] = segIdPredicted
 				}
 
 			} else {
-- 
2.43.0


From c95549b8f47baf6d25610bd8e9e1feff8ec6414b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:25 +0000
Subject: [PATCH 146/152] fix: Read interpolation filters

---
 internal/tilegroup/inter_block_mode_info.go |  4 +--
 internal/tilegroup/syntax_element.go        | 27 +++++++++++++++++++++
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index 9a742c9..d48dd99 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -94,7 +94,7 @@ func (t *TileGroup) interBlockModeInfo(b *bitstream.BitStream, state *state.Stat
 		}
 		for dir := 0; dir < x; dir++ {
 			if t.needsInterpFilter(state) {
-				t.InterpFilter[dir] = b.S()
+				t.InterpFilter[dir] = t.interpFilterSymbol(dir, state, b, uh)
 			} else {
 				t.InterpFilter[dir] = shared.EIGHTTAP
 			}
@@ -408,7 +408,7 @@ func (t *TileGroup) needsInterpFilter(state *state.State) bool {
 	} else if large && t.YMode == shared.GLOBALMV {
 		return state.GmType[state.RefFrame[0]] == shared.TRANSLATION
 	} else if large && t.YMode == shared.GLOBAL_GLOBALMV {
-		return state.GmType[state.RefFrame[0]] == shared.TRANSLATION || state.GmType[1] == shared.TRANSLATION
+		return state.GmType[state.RefFrame[0]] == shared.TRANSLATION || state.GmType[state.RefFrame[1]] == shared.TRANSLATION
 	} else {
 		return true
 	}
diff --git a/internal/tilegroup/syntax_element.go b/internal/tilegroup/syntax_element.go
index ad1f9b5..f7f83cc 100644
--- a/internal/tilegroup/syntax_element.go
+++ b/internal/tilegroup/syntax_element.go
@@ -240,3 +240,30 @@ func (t *TileGroup) compBwdrefP1Symbol(state *state.State, b *bitstream.BitStrea
 	ctx := t.refCountCtxOf([]int{shared.BWDREF_FRAME}, []int{shared.ALTREF2_FRAME}, state)
 	return symbol.ReadSymbol(state.TileCompBwdRefCdf[ctx][1], state, b, uh)
 }
+
+// neighborFilterType returns the filter of a neighbor that uses the same reference, 3 for other neighbors.
+func (t *TileGroup) neighborFilterType(avail bool, refFrames [2]int, row int, col int, dir int, state *state.State) int {
+	if avail && (refFrames[0] == state.RefFrame[0] || refFrames[1] == state.RefFrame[0]) {
+		return t.InterpFilters[row][col][dir]
+	}
+
+	return 3
+}
+
+func (t *TileGroup) interpFilterSymbol(dir int, state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	ctx := ((dir&1)*2 + util.Int(state.RefFrame[1] > shared.INTRA_FRAME)) * 4
+	leftType := t.neighborFilterType(state.AvailL, t.LeftRefFrame, state.MiRow, state.MiCol-1, dir, state)
+	aboveType := t.neighborFilterType(state.AvailU, t.AboveRefFrame, state.MiRow-1, state.MiCol, dir, state)
+
+	if leftType == aboveType {
+		ctx += leftType
+	} else if leftType == 3 {
+		ctx += aboveType
+	} else if aboveType == 3 {
+		ctx += leftType
+	} else {
+		ctx += 3
+	}
+
+	return symbol.ReadSymbol(state.TileInterpFilterCdf[ctx], state, b, uh)
+}
-- 
2.43.0


From d4db823845bfd428af9f999b1205292cb8d89ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:27 +0000
Subject: [PATCH 147/152] fix: Read inter-intra modes

---
 internal/tilegroup/inter_block_mode_info.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index d48dd99..9731010 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -83,7 +83,7 @@ func (t *TileGroup) interBlockModeInfo(b *bitstream.BitStream, state *state.Stat
 	}
 
 	t.assignMv(util.Int(isCompound), b, state, sh, uh)
-	t.readInterIntraMode(isCompound, b, state, sh)
+	t.readInterIntraMode(isCompound, b, state, sh, uh)
 	t.readMotionMode(isCompound, b, uh, state)
 	t.readCompoundType(isCompound, b, state, sh, uh)
 
@@ -470,19 +470,20 @@ func (t *TileGroup) readCompoundType(isCompound bool, b *bitstream.BitStream, st
 }
 
 // read_interintra_mode( isCompound )
-func (t *TileGroup) readInterIntraMode(isCompound bool, b *bitstream.BitStream, state *state.State, sh sequenceheader.SequenceHeader) {
-	if util.Bool(t.SkipMode) && sh.EnableInterIntraCompound && !isCompound && state.MiSize > +shared.BLOCK_8X8 && state.MiSize <= shared.BLOCK_32X32 {
-		t.InterIntra = b.S()
+func (t *TileGroup) readInterIntraMode(isCompound bool, b *bitstream.BitStream, state *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) {
+	if !util.Bool(t.SkipMode) && sh.EnableInterIntraCompound && !isCompound && state.MiSize >= shared.BLOCK_8X8 && state.MiSize <= shared.BLOCK_32X32 {
+		ctx := SIZE_GROUP[state.MiSize] - 1
+		t.InterIntra = symbol.ReadSymbol(state.TileInterIntraCdf[ctx], state, b, uh)
 
 		if util.Bool(t.InterIntra) {
-			t.InterIntraMode = b.S()
+			t.InterIntraMode = symbol.ReadSymbol(state.TileInterIntraModeCdf[ctx], state, b, uh)
 			state.RefFrame[1] = shared.INTRA_FRAME
 			t.AngleDeltaY = 0
 			t.AngleDeltaUV = 0
 			t.UseFilterIntra = false
-			t.WedgeInterIntra = b.S()
+			t.WedgeInterIntra = symbol.ReadSymbol(state.TileWedgeInterIntraCdf[state.MiSize], state, b, uh)
 			if util.Bool(t.WedgeInterIntra) {
-				t.WedgeIndex = b.S()
+				t.WedgeIndex = symbol.ReadSymbol(state.TileWedgeIndexCdf[state.MiSize], state, b, uh)
 				t.WedgeSign = 0
 			}
 		}
-- 
2.43.0


From f71502a31f5c0fb1a0f806cdbb7c3ff8b3db3592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:30 +0000
Subject: [PATCH 148/152] fix: Read motion modes

---
 internal/tilegroup/inter_block_mode_info.go | 34 +++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index 9731010..f732d46 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -256,9 +256,14 @@ func (t *TileGroup) readMotionMode(isCompound bool, b *bitstream.BitStream, uh u
 		}
 	}
 
+	if isCompound || state.RefFrame[1] == shared.INTRA_FRAME || !t.hasOverlappableCandidates(state) {
+		t.MotionMode = SIMPLE
+		return
+	}
+
 	t.findWarpSamples(state)
 	if uh.ForceIntegerMv || t.NumSamples == 0 || !uh.AllowWarpedMotion || t.isScaled(state.RefFrame[0], state, uh) {
-		useObmc := b.S()
+		useObmc := symbol.ReadSymbol(state.TileUseObmcCdf[state.MiSize], state, b, uh)
 		if util.Bool(useObmc) {
 			t.MotionMode = OBMC
 
@@ -266,8 +271,33 @@ func (t *TileGroup) readMotionMode(isCompound bool, b *bitstream.BitStream, uh u
 			t.MotionMode = SIMPLE
 		}
 	} else {
-		t.MotionMode = b.S()
+		t.MotionMode = symbol.ReadSymbol(state.TileMotionModeCdf[state.MiSize], state, b, uh)
+	}
+}
+
+// has_overlappable_candidates()
+func (t *TileGroup) hasOverlappableCandidates(state *state.State) bool {
+	if state.AvailU {
+		w4 := shared.NUM_4X4_BLOCKS_WIDE[state.MiSize]
+		for x4 := state.MiCol; x4 < util.Min(state.MiCols, state.MiCol+w4); x4 += 2 {
+			x5 := util.Min(x4|1, state.MiCols-1)
+			if state.RefFrames[state.MiRow-1][x5][0] > shared.INTRA_FRAME {
+				return true
+			}
+		}
+	}
+
+	if state.AvailL {
+		h4 := shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]
+		for y4 := state.MiRow; y4 < util.Min(state.MiRows, state.MiRow+h4); y4 += 2 {
+			y5 := util.Min(y4|1, state.MiRows-1)
+			if state.RefFrames[y5][state.MiCol-1][0] > shared.INTRA_FRAME {
+				return true
+			}
+		}
 	}
+
+	return false
 }
 
 // TODO: consider separate file for this procedure
-- 
2.43.0


From e43cf5ce83e61327c482fff9709266dea920aeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:32 +0000
Subject: [PATCH 149/152] fix: Read compound types

---
 internal/tilegroup/inter_block_mode_info.go | 10 ++---
 internal/tilegroup/syntax_element.go        | 46 +++++++++++++++++++++
 2 files changed, 51 insertions(+), 5 deletions(-)

diff --git a/internal/tilegroup/inter_block_mode_info.go b/internal/tilegroup/inter_block_mode_info.go
index f732d46..5352214 100644
--- a/internal/tilegroup/inter_block_mode_info.go
+++ b/internal/tilegroup/inter_block_mode_info.go
@@ -456,12 +456,12 @@ func (t *TileGroup) readCompoundType(isCompound bool, b *bitstream.BitStream, st
 	if isCompound {
 		n := wedgemask.Wedge_Bits[state.MiSize]
 		if sh.EnableMaskedCompound {
-			t.CompGroupIdx = b.S()
+			t.CompGroupIdx = t.compGroupIdxSymbol(state, b, uh)
 		}
 
 		if t.CompGroupIdx == 0 {
 			if sh.EnableJntComp {
-				t.CompoundIdx = b.S()
+				t.CompoundIdx = t.compoundIdxSymbol(state, b, uh, sh)
 				if util.Bool(t.CompoundIdx) {
 					t.CompoundType = COMPOUND_AVERAGE
 
@@ -475,13 +475,13 @@ func (t *TileGroup) readCompoundType(isCompound bool, b *bitstream.BitStream, st
 			if n == 0 {
 				t.CompoundType = COMPOUND_DIFFWTD
 			} else {
-				t.CompoundType = b.S()
+				t.CompoundType = symbol.ReadSymbol(state.TileCompoundTypeCdf[state.MiSize], state, b, uh)
 			}
 		}
 
 		if t.CompoundType == COMPOUND_WEDGE {
-			t.WedgeIndex = b.S()
-			t.WedgeIndex = literal.L(1, state, b, uh)
+			t.WedgeIndex = symbol.ReadSymbol(state.TileWedgeIndexCdf[state.MiSize], state, b, uh)
+			t.WedgeSign = literal.L(1, state, b, uh)
 		} else if t.CompoundType == COMPOUND_DIFFWTD {
 			t.MaskType = literal.L(1, state, b, uh)
 		}
diff --git a/internal/tilegroup/syntax_element.go b/internal/tilegroup/syntax_element.go
index f7f83cc..e821607 100644
--- a/internal/tilegroup/syntax_element.go
+++ b/internal/tilegroup/syntax_element.go
@@ -2,6 +2,7 @@ package tilegroup
 
 import (
 	"github.com/m4tthewde/gov1/internal/bitstream"
+	"github.com/m4tthewde/gov1/internal/sequenceheader"
 	"github.com/m4tthewde/gov1/internal/shared"
 	"github.com/m4tthewde/gov1/internal/state"
 	"github.com/m4tthewde/gov1/internal/symbol"
@@ -267,3 +268,48 @@ func (t *TileGroup) interpFilterSymbol(dir int, state *state.State, b *bitstream
 
 	return symbol.ReadSymbol(state.TileInterpFilterCdf[ctx], state, b, uh)
 }
+
+func (t *TileGroup) compGroupIdxSymbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) int {
+	ctx := 0
+	if state.AvailU {
+		if !t.AboveSingle {
+			ctx += t.CompGroupIdxs[state.MiRow-1][state.MiCol]
+		} else if t.AboveRefFrame[0] == shared.ALTREF_FRAME {
+			ctx += 3
+		}
+	}
+	if state.AvailL {
+		if !t.LeftSingle {
+			ctx += t.CompGroupIdxs[state.MiRow][state.MiCol-1]
+		} else if t.LeftRefFrame[0] == shared.ALTREF_FRAME {
+			ctx += 3
+		}
+	}
+
+	return symbol.ReadSymbol(state.TileCompGroupIdxCdf[util.Min(5, ctx)], state, b, uh)
+}
+
+func (t *TileGroup) compoundIdxSymbol(state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) int {
+	fwd := util.Abs(uh.GetRelativeDist(uh.OrderHints[state.RefFrame[0]], uh.OrderHint, sh))
+	bck := util.Abs(uh.GetRelativeDist(uh.OrderHints[state.RefFrame[1]], uh.OrderHint, sh))
+	ctx := 0
+	if fwd == bck {
+		ctx = 3
+	}
+	if state.AvailU {
+		if !t.AboveSingle {
+			ctx += t.CompoundIdxs[state.MiRow-1][state.MiCol]
+		} else if t.AboveRefFrame[0] == shared.ALTREF_FRAME {
+			ctx++
+		}
+	}
+	if state.AvailL {
+		if !t.LeftSingle {
+			ctx += t.CompoundIdxs[state.MiRow][state.MiCol-1]
+		} else if t.LeftRefFrame[0] == shared.ALTREF_FRAME {
+			ctx++
+		}
+	}
+
+	return symbol.ReadSymbol(state.TileCompoundIdxCdf[ctx], state, b, uh)
+}
-- 
2.43.0


From 85b02e00d4f0f5bbda58203fc97499332b8d72d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:28 +0000
Subject: [PATCH 150/152] fix: Load what frames inherit from their primary
 reference frame

---
 .../uncompressedheader/uncompressed_header.go  | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 84400f6..5ce57e5 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -418,7 +418,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 
 		initCoeffCdfs(s, *u)
 	} else {
-		u.loadPreviousSegementIds()
+		u.loadPreviousSegementIds(s)
 	}
 
 	u.CodedLossless = true
@@ -628,8 +628,6 @@ func (u *UncompressedHeader) loadPrevious(state *state.State) {
 	state.PrevGmParams = state.SavedGmParams[prevFrame]
 	u.LoadLoopFilterParams(prevFrame, state)
 	LoadSegmentationParams(prevFrame, state)
-
-	panic("not implemented")
 }
 
 // save_loop_filter_params( i )
@@ -819,8 +817,18 @@ func (u *UncompressedHeader) deltaLfParams(b *bitstream.BitStream) {
 	}
 }
 
-func (u *UncompressedHeader) loadPreviousSegementIds() {
-	panic("not implemented")
+// load_previous_segment_ids()
+func (u *UncompressedHeader) loadPreviousSegementIds(s *state.State) {
+	prevFrame := u.RefFrameIdx[u.PrimaryRefFrame]
+	usePrev := u.SegmentationEnabled && s.RefMiCols[prevFrame] == s.MiCols && s.RefMiRows[prevFrame] == s.MiRows
+
+	s.PrevSegmentIds = make([][]int, s.MiRows)
+	for row := range s.PrevSegmentIds {
+		s.PrevSegmentIds[row] = make([]int, s.MiCols)
+		if usePrev {
+			copy(s.PrevSegmentIds[row], s.SavedSegmentIds[prevFrame][row])
+		}
+	}
 }
 
 // get_qindex( ignoreDeltaQ, segmentId )
-- 
2.43.0


From fc7ced980bb59d160cea4fb44b2cc4a8438ed569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:32 +0000
Subject: [PATCH 151/152] fix: Read frame sizes taken from reference frames

---
 .../uncompressedheader/uncompressed_header.go | 22 ++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 5ce57e5..8bf1aed 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -354,7 +354,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		}
 
 		if u.FrameSizeOverrideFlag && !errorResilientMode {
-			u.frameSizeWithRefs()
+			u.frameSizeWithRefs(b, s, sh)
 		} else {
 			u.frameSize(b, s, sh)
 			u.renderSize(b)
@@ -487,8 +487,24 @@ func (u *UncompressedHeader) setFrameRefs() {
 	panic("not implemented")
 }
 
-func (u *UncompressedHeader) frameSizeWithRefs() {
-	panic("not implemented")
+// frame_size_with_refs()
+func (u *UncompressedHeader) frameSizeWithRefs(b *bitstream.BitStream, s *state.State, sh sequenceheader.SequenceHeader) {
+	for i := 0; i < shared.REFS_PER_FRAME; i++ {
+		foundRef := util.Bool(b.F(1))
+		if foundRef {
+			ref := u.RefFrameIdx[i]
+			u.FrameWidth = s.RefUpscaledWidth[ref]
+			u.FrameHeight = s.RefFrameHeight[ref]
+			u.RenderWidth = s.RefRenderWidth[ref]
+			u.RenderHeight = s.RefRenderHeight[ref]
+			u.superResParams(b, sh)
+			u.computeImageSize(s)
+			return
+		}
+	}
+
+	u.frameSize(b, s, sh)
+	u.renderSize(b)
 }
 
 // frame_size()
-- 
2.43.0


From e5dde99febb99ddbe218dd8f4608940b8b360312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:20 +0000
Subject: [PATCH 152/152] fix: Precision of the table of divisors

---
 internal/tilegroup/tile_group.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index a85d189..c3c825e 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -119,7 +119,7 @@ const REF_SCALE_SHIFT = 14
 const INTRA_FILTER_SCALE_BITS = 4
 
 const LS_MV_MAX = 256
-const DIV_LUT_PREC_BITS = 13
+const DIV_LUT_PREC_BITS = 14
 const DIV_LUT_BITS = 8
 
 type TileGroup struct {
-- 
2.43.0

