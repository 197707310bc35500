From ea2432d708c927d46622b31c7fd5b8ad378068e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 01/78] fix: break the import cycle so the decoder compiles

uncompressedheader imported tilegroup only for two load stubs, while
tilegroup, symbol and literal import uncompressedheader: none of them, nor
obu and parser, could be built. The stubs move next to their caller.
---
 internal/tilegroup/decode_frame_wrapup.go       | 16 ++--------------
 .../uncompressedheader/uncompressed_header.go   | 17 ++++++++++++++---
 2 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index 3bff199..50c9f9a 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -268,18 +268,6 @@ func (t *TileGroup) referenceFrameLoadingProcess(state *state.State, u *uncompre
 		u.LoadGrainParams(u.FrameToShowMapIdx)
 	}
 
-	LoadLoopFilterParams(u.FrameToShowMapIdx)
-	LoadSegmentationParams(u.FrameToShowMapIdx)
-}
-
-// load_loop_filter_params( i )
-func LoadLoopFilterParams(i int) {
-	panic("not implemented")
-
-}
-
-// load_segmentation_params( i )
-func LoadSegmentationParams(i int) {
-	panic("not implemented")
-
+	uncompressedheader.LoadLoopFilterParams(u.FrameToShowMapIdx)
+	uncompressedheader.LoadSegmentationParams(u.FrameToShowMapIdx)
 }
diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index a26a0d5..80eb5cb 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -6,7 +6,6 @@ import (
 	"github.com/m4tthewde/gov1/internal/sequenceheader"
 	"github.com/m4tthewde/gov1/internal/shared"
 	"github.com/m4tthewde/gov1/internal/state"
-	"github.com/m4tthewde/gov1/internal/tilegroup"
 	"github.com/m4tthewde/gov1/internal/tileinfo"
 	"github.com/m4tthewde/gov1/internal/util"
 )
@@ -631,8 +630,8 @@ func (u *UncompressedHeader) setupPastIndependence(s *state.State) {
 func (u *UncompressedHeader) loadPrevious(state *state.State) {
 	prevFrame := u.RefFrameIdx[u.PrimaryRefFrame]
 	state.PrevGmParams = state.SavedGmParams[prevFrame]
-	tilegroup.LoadLoopFilterParams(prevFrame)
-	tilegroup.LoadSegmentationParams(prevFrame)
+	LoadLoopFilterParams(prevFrame)
+	LoadSegmentationParams(prevFrame)
 
 	panic("not implemented")
 }
@@ -1341,3 +1340,15 @@ func (u *UncompressedHeader) TemporalPointInfo(sh sequenceheader.SequenceHeader,
 func (u *UncompressedHeader) LoadGrainParams(idx int) {
 	panic("not implemented")
 }
+
+// load_loop_filter_params( i )
+func LoadLoopFilterParams(i int) {
+	panic("not implemented")
+
+}
+
+// load_segmentation_params( i )
+func LoadSegmentationParams(i int) {
+	panic("not implemented")
+
+}
-- 
2.43.0


From ab78aa1ddccc99a86e723f68f31589dd51ba2d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 02/78] fix: adapt tile CDFs in their own storage

init_symbol handed the frame CDFs, and through them the package-level
default tables, to the symbol decoder, which adapts them in place: every
decoded tile changed the defaults of all later frames, tiles and decoders.
---
 internal/state/tile_cdfs.go      | 43 ++++++++++++++++++++++++++++++++
 internal/tilegroup/tile_group.go |  2 ++
 2 files changed, 45 insertions(+)
 create mode 100644 internal/state/tile_cdfs.go

diff --git a/internal/state/tile_cdfs.go b/internal/state/tile_cdfs.go
new file mode 100644
index 0000000..ecb476e
--- /dev/null
+++ b/internal/state/tile_cdfs.go
@@ -0,0 +1,43 @@
+package state
+
+import (
+	"reflect"
+	"strings"
+)
+
+// DetachTileCdfs replaces every tile CDF by a copy of itself.
+// The symbol decoder adapts the tile CDFs in place, so they must not share
+// storage with the default tables, the frame CDFs or the saved CDFs.
+func (s *State) DetachTileCdfs() {
+	v := reflect.ValueOf(s).Elem()
+	for i := 0; i < v.NumField(); i++ {
+		name := v.Type().Field(i).Name
+		if strings.HasPrefix(name, "Tile") && strings.HasSuffix(name, "Cdf") {
+			v.Field(i).Set(copyCdf(v.Field(i)))
+		}
+	}
+}
+
+func copyCdf(src reflect.Value) reflect.Value {
+	dst := reflect.New(src.Type()).Elem()
+	switch src.Kind() {
+	case reflect.Slice:
+		if src.IsNil() {
+			return dst
+		}
+		dst.Set(reflect.MakeSlice(src.Type(), src.Len(), src.Len()))
+		if src.Type().Elem().Kind() == reflect.Int {
+			reflect.Copy(dst, src)
+			return dst
+		}
+		fallthrough
+	case reflect.Array:
+		for i := 0; i < src.Len(); i++ {
+			dst.Index(i).Set(copyCdf(src.Index(i)))
+		}
+	default:
+		dst.Set(src)
+	}
+
+	return dst
+}
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 45669ac..8cf0d7f 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -576,6 +576,8 @@ func (t *TileGroup) initSymbol(sz int, b *bitstream.BitStream, state *state.Stat
 	state.TileCoeffBaseEobCdf = state.CoeffBaseEobCdf
 	state.TileCoeffBaseCdf = state.CoeffBaseCdf
 	state.TileCoeffBrCdf = state.CoeffBrCdf
+
+	state.DetachTileCdfs()
 }
 
 // 8.2.4 Exit process for symbol decoder
-- 
2.43.0


From d7388f4d41362c4800efcd102dac35f969fe659f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 03/78] fix: carry the comp_ref_type CDF from tile to frame

---
 internal/tilegroup/tile_group.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 8cf0d7f..c344f68 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -439,7 +439,7 @@ func (t *TileGroup) frameEndUpdateCdf(state *state.State) {
 	state.InterTxTypeSet3Cdf = state.SavedInterTxTypeSet3Cdf
 	state.UseObmcCdf = state.SavedUseObmcCdf
 	state.InterIntraCdf = state.SavedInterIntraCdf
-	state.CompRefTypeCdf = state.CompRefTypeCdf
+	state.CompRefTypeCdf = state.SavedCompRefTypeCdf
 	state.CflSignCdf = state.SavedCflSignCdf
 	state.UniCompRefCdf = state.SavedUniCompRefCdf
 	state.WedgeInterIntraCdf = state.SavedWedgeInterIntraCdf
@@ -660,7 +660,7 @@ func (t *TileGroup) exitSymbol(b *bitstream.BitStream, state *state.State, uh un
 		state.SavedInterTxTypeSet3Cdf = state.TileInterTxTypeSet3Cdf
 		state.SavedUseObmcCdf = state.TileUseObmcCdf
 		state.SavedInterIntraCdf = state.TileInterIntraCdf
-		state.SavedCompRefTypeCdf = state.CompRefTypeCdf
+		state.SavedCompRefTypeCdf = state.TileCompRefTypeCdf
 		state.SavedCflSignCdf = state.TileCflSignCdf
 		state.SavedUniCompRefCdf = state.TileUniCompRefCdf
 		state.SavedWedgeInterIntraCdf = state.TileWedgeInterIntraCdf
-- 
2.43.0


From 5736942a632adfa4d80591944071632dfdf4f35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 04/78] fix: initialise the ref_mv CDF from its default table

---
 internal/uncompressedheader/cdf.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index 2e4e5d9..d1dba6f 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -30,6 +30,7 @@ func initNonCoeffCdfs(state *state.State) {
 	state.MotionModeCdf = DEFAULT_MOTION_MODE_CDF
 	state.NewMvCdf = DEFAULT_NEW_MV_CDF
 	state.ZeroMvCdf = DFEAULT_ZERO_MV_CDF
+	state.RefMvCdf = DEFAULT_REF_MV_CDF
 	state.CompoundModeCdf = DEFAULT_COMPOUND_MODE_CDF
 	state.DrlModeCdf = DEFAULT_DRL_MODE_CDF
 	state.IsInterCdf = DEFAULT_IS_INTER_CDF
@@ -1355,6 +1356,21 @@ var DFEAULT_ZERO_MV_CDF = [][]int{
 	{1054, 32768, 0},
 }
 
+var DEFAULT_REF_MV_CDF = [][]int{
+	{
+		23974, 32768, 0},
+	{
+		24188, 32768, 0},
+	{
+		17848, 32768, 0},
+	{
+		28622, 32768, 0},
+	{
+		24312, 32768, 0},
+	{
+		19923, 32768, 0},
+}
+
 var DEFAULT_NEW_MV_CDF = [][]int{
 	{
 		24035, 32768, 0},
-- 
2.43.0


From f41448bc6c92210a76033ecf9a335d78bb448280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 05/78] fix: parse sequence headers as sequence_header_obu()
 lays them out

Full headers without timing info, or with more than one operating point,
and all reduced headers were misread: the level came before its branch, the
operating points were read only with timing info into arrays of one, levels
had 12 bits, and reduced headers skipped frame size and tool flags. The
operating point masks were not kept.
---
 internal/sequenceheader/sequence_header.go | 197 +++++++++++----------
 1 file changed, 105 insertions(+), 92 deletions(-)

diff --git a/internal/sequenceheader/sequence_header.go b/internal/sequenceheader/sequence_header.go
index f56b718..146bb64 100644
--- a/internal/sequenceheader/sequence_header.go
+++ b/internal/sequenceheader/sequence_header.go
@@ -108,15 +108,16 @@ func NewSequenceHeader(b *bitstream.BitStream, state *state.State) SequenceHeade
 	s.InitialDisplayDelayPresent = false
 	s.OperatingPointsCountMinusOne = 0
 
-	operatingPointIdcArray := []int{0}
-
-	s.SeqLevelIdx = []int{b.F(5)}
+	s.OperatingPointIdc = []int{0}
+	s.SeqLevelIdx = []int{0}
 	s.SeqTier = []int{0}
 	s.DecoderModelPresentForThisOp = []bool{false}
 	s.InitialDisplayDelayPresentForThisOp = []bool{false}
-	s.InitialDisplayDelayMinusOne = []int{}
+	s.InitialDisplayDelayMinusOne = []int{0}
 
-	if !s.ReducedStillPictureHeader {
+	if s.ReducedStillPictureHeader {
+		s.SeqLevelIdx[0] = b.F(5)
+	} else {
 		timingInfoPresent := b.F(1) != 0
 		if timingInfoPresent {
 			s.TimingInfo = NewTimingInfo(b)
@@ -130,115 +131,127 @@ func NewSequenceHeader(b *bitstream.BitStream, state *state.State) SequenceHeade
 					FramePresentationTimeLengthMinusOne: b.F(5),
 				}
 			}
+		}
 
-			s.InitialDisplayDelayPresent = util.Bool(b.F(1))
-			s.OperatingPointsCountMinusOne = b.F(5)
-
-			for i := 0; i <= s.OperatingPointsCountMinusOne; i++ {
-				operatingPointIdcArray[i] = b.F(12)
-				s.SeqLevelIdx[i] = b.F(12)
-
-				if s.SeqLevelIdx[i] > 7 {
-					s.SeqTier[i] = b.F(1)
-				} else {
-					s.SeqTier[i] = 0
-				}
-				if s.DecoderModelInfoPresent {
-					s.DecoderModelPresentForThisOp[i] = util.Bool(b.F(1))
+		s.InitialDisplayDelayPresent = util.Bool(b.F(1))
+		s.OperatingPointsCountMinusOne = b.F(5)
+
+		n := s.OperatingPointsCountMinusOne + 1
+		s.OperatingPointIdc = make([]int, n)
+		s.SeqLevelIdx = make([]int, n)
+		s.SeqTier = make([]int, n)
+		s.DecoderModelPresentForThisOp = make([]bool, n)
+		s.DecoderBufferDelay = make([]int, n)
+		s.EncoderBufferDelay = make([]int, n)
+		s.LowDelayModeFlag = make([]bool, n)
+		s.InitialDisplayDelayPresentForThisOp = make([]bool, n)
+		s.InitialDisplayDelayMinusOne = make([]int, n)
+
+		for i := 0; i <= s.OperatingPointsCountMinusOne; i++ {
+			s.OperatingPointIdc[i] = b.F(12)
+			s.SeqLevelIdx[i] = b.F(5)
+
+			if s.SeqLevelIdx[i] > 7 {
+				s.SeqTier[i] = b.F(1)
+			} else {
+				s.SeqTier[i] = 0
+			}
+			if s.DecoderModelInfoPresent {
+				s.DecoderModelPresentForThisOp[i] = util.Bool(b.F(1))
 
-					if s.DecoderModelPresentForThisOp[i] {
-						s.operatingParametersInfo(b, i)
-					}
-				} else {
-					s.DecoderModelPresentForThisOp[i] = false
+				if s.DecoderModelPresentForThisOp[i] {
+					s.operatingParametersInfo(b, i)
 				}
+			} else {
+				s.DecoderModelPresentForThisOp[i] = false
+			}
 
-				if s.InitialDisplayDelayPresent {
-					s.InitialDisplayDelayPresentForThisOp[i] = util.Bool(b.F(1))
+			if s.InitialDisplayDelayPresent {
+				s.InitialDisplayDelayPresentForThisOp[i] = util.Bool(b.F(1))
 
-					if s.InitialDisplayDelayPresentForThisOp[i] {
-						s.InitialDisplayDelayMinusOne[i] = b.F(4)
-					}
+				if s.InitialDisplayDelayPresentForThisOp[i] {
+					s.InitialDisplayDelayMinusOne[i] = b.F(4)
 				}
 			}
 		}
-		operatingPoint := chooseOperatingPoint()
-		state.OperatingPointIdc = operatingPointIdcArray[operatingPoint]
+	}
 
-		s.FrameWidthBitsMinusOne = b.F(4)
-		s.FrameHeightBitsMinusOne = b.F(4)
+	operatingPoint := chooseOperatingPoint()
+	state.OperatingPointIdc = s.OperatingPointIdc[operatingPoint]
 
-		n := s.FrameWidthBitsMinusOne + 1
-		s.MaxFrameWidthMinusOne = b.F(n)
+	s.FrameWidthBitsMinusOne = b.F(4)
+	s.FrameHeightBitsMinusOne = b.F(4)
 
-		n = s.FrameHeightBitsMinusOne + 1
-		s.MaxFrameHeightMinusOne = b.F(n)
+	n := s.FrameWidthBitsMinusOne + 1
+	s.MaxFrameWidthMinusOne = b.F(n)
 
+	n = s.FrameHeightBitsMinusOne + 1
+	s.MaxFrameHeightMinusOne = b.F(n)
+
+	s.FrameIdNumbersPresent = false
+
+	if s.ReducedStillPictureHeader {
 		s.FrameIdNumbersPresent = false
+	} else {
+		s.FrameIdNumbersPresent = b.F(1) != 0
+	}
 
-		if s.ReducedStillPictureHeader {
-			s.FrameIdNumbersPresent = false
-		} else {
-			s.FrameIdNumbersPresent = b.F(1) != 0
-		}
+	if s.FrameIdNumbersPresent {
+		s.DeltaFrameIdLengthMinusTwo = b.F(4)
+		s.AdditionalFrameIdLengthMinusOne = b.F(3)
+	}
 
-		if s.FrameIdNumbersPresent {
-			s.DeltaFrameIdLengthMinusTwo = b.F(4)
-			s.AdditionalFrameIdLengthMinusOne = b.F(3)
-		}
+	s.Use128x128SuperBlock = b.F(1) != 0
+	s.EnableFilterIntra = b.F(1) != 0
+	s.EnableIntraEdgeFilter = b.F(1) != 0
+	s.EnableInterIntraCompound = false
+	s.EnableMaskedCompound = false
+	s.EnableWarpedMotion = false
+	s.EnableDualFilter = false
+	s.EnableOrderHint = false
+	s.EnableJntComp = false
+	s.EnableRefFrameMvs = false
 
-		s.Use128x128SuperBlock = b.F(1) != 0
-		s.EnableFilterIntra = b.F(1) != 0
-		s.EnableIntraEdgeFilter = b.F(1) != 0
-		s.EnableInterIntraCompound = false
-		s.EnableMaskedCompound = false
-		s.EnableWarpedMotion = false
-		s.EnableDualFilter = false
-		s.EnableOrderHint = false
-		s.EnableJntComp = false
-		s.EnableRefFrameMvs = false
-
-		// SELECT_SCREEN_CONTENT_TOOLS
-		s.SeqForceScreenContentTools = 2
-
-		// SELECT_INTEGER_MV
-		s.SeqForceIntegerMv = 2
-
-		s.OrderHintBits = 0
-
-		if !s.ReducedStillPictureHeader {
-			s.EnableInterIntraCompound = b.F(1) != 0
-			s.EnableMaskedCompound = b.F(1) != 0
-			s.EnableWarpedMotion = b.F(1) != 0
-			s.EnableDualFilter = b.F(1) != 0
-			s.EnableOrderHint = b.F(1) != 0
-			if s.EnableOrderHint {
-				s.EnableJntComp = b.F(1) != 0
-				s.EnableRefFrameMvs = b.F(1) != 0
-			}
+	// SELECT_SCREEN_CONTENT_TOOLS
+	s.SeqForceScreenContentTools = 2
 
-			s.SeqChooseScreenContentTools = b.F(1) != 0
-			if s.SeqChooseScreenContentTools {
-				s.SeqForceScreenContentTools = 2
-			} else {
-				s.SeqForceScreenContentTools = b.F(1)
-			}
+	// SELECT_INTEGER_MV
+	s.SeqForceIntegerMv = 2
 
-			if s.SeqForceScreenContentTools > 0 {
-				seqChooseIntegerMv := b.F(1) != 0
+	s.OrderHintBits = 0
 
-				if seqChooseIntegerMv {
-					s.SeqForceIntegerMv = 2
-				} else {
-					s.SeqForceIntegerMv = b.F(1)
-				}
-			} else {
+	if !s.ReducedStillPictureHeader {
+		s.EnableInterIntraCompound = b.F(1) != 0
+		s.EnableMaskedCompound = b.F(1) != 0
+		s.EnableWarpedMotion = b.F(1) != 0
+		s.EnableDualFilter = b.F(1) != 0
+		s.EnableOrderHint = b.F(1) != 0
+		if s.EnableOrderHint {
+			s.EnableJntComp = b.F(1) != 0
+			s.EnableRefFrameMvs = b.F(1) != 0
+		}
+
+		s.SeqChooseScreenContentTools = b.F(1) != 0
+		if s.SeqChooseScreenContentTools {
+			s.SeqForceScreenContentTools = 2
+		} else {
+			s.SeqForceScreenContentTools = b.F(1)
+		}
+
+		if s.SeqForceScreenContentTools > 0 {
+			s.SeqChooseIntegerMv = b.F(1) != 0
+
+			if s.SeqChooseIntegerMv {
 				s.SeqForceIntegerMv = 2
+			} else {
+				s.SeqForceIntegerMv = b.F(1)
 			}
+		} else {
+			s.SeqForceIntegerMv = 2
+		}
 
-			if s.EnableOrderHint {
-				s.OrderHintBits = b.F(3) + 1
-			}
+		if s.EnableOrderHint {
+			s.OrderHintBits = b.F(3) + 1
 		}
 	}
 
-- 
2.43.0


From 958818745d78b8dc59e2352085656de45d193d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 06/78] fix: derive superblock rows and uniform tile rows in
 tile_info()

With 128x128 superblocks the column count was overwritten by the row count,
and increment_tile_rows_log2 was never read.
---
 internal/tileinfo/tile_info.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tileinfo/tile_info.go b/internal/tileinfo/tile_info.go
index 1a9cd19..fcf37a4 100644
--- a/internal/tileinfo/tile_info.go
+++ b/internal/tileinfo/tile_info.go
@@ -22,7 +22,7 @@ func NewTileInfo(sh sequenceheader.SequenceHeader, s *state.State, b *bitstream.
 
 	sbRows := (s.MiRows + 15) >> 4
 	if sh.Use128x128SuperBlock {
-		sbCols = (s.MiRows + 31) >> 5
+		sbRows = (s.MiRows + 31) >> 5
 	}
 
 	sbShift := 4
@@ -67,7 +67,7 @@ func NewTileInfo(sh sequenceheader.SequenceHeader, s *state.State, b *bitstream.
 
 		minLog2TileRows := util.Max(minLog2Tiles-s.TileColsLog2, 0)
 		s.TileRowsLog2 = minLog2TileRows
-		for s.TileRowsLog2 > maxLog2TileRows {
+		for s.TileRowsLog2 < maxLog2TileRows {
 			incrementTileRowsLog2 := b.F(1) != 0
 			if incrementTileRowsLog2 {
 				s.TileRowsLog2++
-- 
2.43.0


From 0d4923fe22c33931ee359faf470343aee79f9afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 07/78] fix: read refresh_frame_flags for every frame but
 switch and shown key frames

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 80eb5cb..b6f67f0 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -302,7 +302,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 
 	u.UseRefFrameMvs = false
 
-	if u.FrameType == 3 || u.FrameType == 0 || u.ShowFrame {
+	if u.FrameType == 3 || u.FrameType == 0 && u.ShowFrame {
 		u.RefreshFrameFlags = allFrames
 	} else {
 		u.RefreshFrameFlags = b.F(8)
-- 
2.43.0


From 83a9f3d1d322ca020135d92b674a4158c88ce7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 08/78] fix: take screen content and integer mv choices forced
 by the sequence

---
 internal/uncompressedheader/uncompressed_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index b6f67f0..2539aaa 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -236,14 +236,14 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 	if sh.SeqForceScreenContentTools == 2 {
 		u.AllowScreenContentTools = b.F(1)
 	} else {
-		u.AllowScreenContentTools = 1
+		u.AllowScreenContentTools = sh.SeqForceScreenContentTools
 	}
 
 	if util.Bool(u.AllowScreenContentTools) {
 		if sh.SeqForceIntegerMv == 2 {
 			u.ForceIntegerMv = util.Bool(b.F(1))
 		} else {
-			u.ForceIntegerMv = true
+			u.ForceIntegerMv = util.Bool(sh.SeqForceIntegerMv)
 		}
 	} else {
 		u.ForceIntegerMv = false
-- 
2.43.0


From 362332d23ce648cca0020195cee2d7b3eb0c2601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 09/78] fix: read buffer removal times for the right spatial
 layers without panicking

---
 internal/uncompressedheader/uncompressed_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 2539aaa..d0e4365 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -159,7 +159,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 	var refOrderHint [shared.NUM_REF_FRAMES]int
 	var orderHints [shared.REFS_PER_FRAME]int
 
-	bufferRemovalTime := []int{}
+	bufferRemovalTime := make([]int, sh.OperatingPointsCountMinusOne+1)
 
 	allFrames := ((1 << shared.NUM_REF_FRAMES) - 1)
 	if sh.ReducedStillPictureHeader {
@@ -287,7 +287,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 				if sh.DecoderModelPresentForThisOp[opNum] {
 					opPtIdc := sh.OperatingPointIdc[opNum]
 					inTemporalLayer := ((opPtIdc >> h.ExtensionHeader.TemporalID) & 1) != 0
-					inSpatialLayer := ((opPtIdc >> h.ExtensionHeader.SpatialID) & 1) != 0
+					inSpatialLayer := ((opPtIdc >> (h.ExtensionHeader.SpatialID + 8)) & 1) != 0
 
 					if opPtIdc == 0 || (inTemporalLayer && inSpatialLayer) {
 						n := sh.DecoderModelInfo.BufferRemovalTimeLengthMinusOne + 1
-- 
2.43.0


From e03268b49d1faaed2b29a06e4f38d0a26e73262f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 10/78] fix: keep order hints per reference frame

The key frame reset went to locals, only one reference got a hint and a sign
bias, relative distances were always zero because order hints never counted
as enabled, and error resilient frames panicked on ref_order_hint.
---
 .../uncompressedheader/uncompressed_header.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index d0e4365..0cac18d 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -136,7 +136,7 @@ type UncompressedHeader struct {
 	ClipToRestrictedRange bool
 	RefreshFrameFlags     int
 	FrameToShowMapIdx     int
-	RefFrameSignBias      [3]bool
+	RefFrameSignBias      [shared.ALTREF_FRAME + 1]bool
 }
 
 func NewUncompressedHeader(h header.Header, sh sequenceheader.SequenceHeader, b *bitstream.BitStream, s *state.State) UncompressedHeader {
@@ -153,11 +153,10 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 			sh.DeltaFrameIdLengthMinusTwo + 3
 	}
 
-	var errorResilientMode bool
+	u.EnableOrderHint = sh.EnableOrderHint
+	u.OrderHintBits = sh.OrderHintBits
 
-	var refValid [shared.NUM_REF_FRAMES]int
-	var refOrderHint [shared.NUM_REF_FRAMES]int
-	var orderHints [shared.REFS_PER_FRAME]int
+	var errorResilientMode bool
 
 	bufferRemovalTime := make([]int, sh.OperatingPointsCountMinusOne+1)
 
@@ -222,12 +221,12 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 
 	if u.FrameType == 0 && u.ShowFrame {
 		for i := 0; i < shared.NUM_REF_FRAMES; i++ {
-			refValid[i] = 0
-			refOrderHint[i] = 0
+			s.RefValid[i] = 0
+			s.RefOrderHint[i] = 0
 		}
 
 		for i := 0; i < shared.REFS_PER_FRAME; i++ {
-			orderHints[shared.LAST_FRAME+1] = 0
+			u.OrderHints[shared.LAST_FRAME+i] = 0
 		}
 	}
 
@@ -298,7 +297,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		}
 	}
 
-	ref_order_hint := []int{}
+	var ref_order_hint [shared.NUM_REF_FRAMES]int
 
 	u.UseRefFrameMvs = false
 
@@ -382,7 +381,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		}
 
 		for i := 0; i < shared.REFS_PER_FRAME; i++ {
-			refFrame := shared.LAST_FRAME + 1
+			refFrame := shared.LAST_FRAME + i
 			hint := s.RefOrderHint[u.RefFrameIdx[i]]
 			u.OrderHints[refFrame] = hint
 			if !sh.EnableOrderHint {
-- 
2.43.0


From a93d4a573107b82950fcd903821d19f8bdc27c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 11/78] fix: read each ref_frame_idx once

---
 internal/uncompressedheader/uncompressed_header.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 0cac18d..e37dfaf 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -345,7 +345,6 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		for i := 0; i < shared.REFS_PER_FRAME; i++ {
 			if !frameRefsShortSignaling {
 				u.RefFrameIdx[i] = b.F(3)
-				u.RefFrameIdx[i] = b.F(3)
 			}
 
 			if sh.FrameIdNumbersPresent {
-- 
2.43.0


From e86e615cef7448d6a5f85f0f5aa8ed035508d43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 12/78] fix: derive skip mode as skip_mode_params() does

The availability test was inverted, the nearest backward reference was not
the one chosen, and storing the pair panicked.
---
 internal/uncompressedheader/uncompressed_header.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index e37dfaf..2444e24 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -1003,7 +1003,8 @@ func (u *UncompressedHeader) skipModeParams(state *state.State, b *bitstream.Bit
 	var skipModeAllowed = 0
 	var forwardHint int
 	var backwardHint int
-	if u.FrameIsIntra || u.ReferenceSelect || u.EnableOrderHint {
+	u.SkipModeFrame = make([]int, 2)
+	if u.FrameIsIntra || !u.ReferenceSelect || !u.EnableOrderHint {
 		skipModeAllowed = 0
 	} else {
 		forwardIdx := -1
@@ -1018,7 +1019,7 @@ func (u *UncompressedHeader) skipModeParams(state *state.State, b *bitstream.Bit
 					forwardHint = refHint
 				}
 			} else if u.GetRelativeDist(refHint, u.OrderHint, sh) > 0 {
-				if backwardIdx < 0 || u.GetRelativeDist(refHint, backwardHint, sh) > 0 {
+				if backwardIdx < 0 || u.GetRelativeDist(refHint, backwardHint, sh) < 0 {
 					backwardIdx = i
 					backwardHint = refHint
 				}
-- 
2.43.0


From 30c99c0af4dbceae0aab08b959d748999ce460fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 13/78] fix: keep frame ids in the decoder state

Every frame header with frame ids panicked on the empty id table of its own
header, and ids were neither saved with a reference nor kept between frames.
---
 internal/state/state.go                            |  2 ++
 internal/tilegroup/decode_frame_wrapup.go          |  3 ++-
 internal/uncompressedheader/uncompressed_header.go | 12 ++++++------
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index bc3aaf0..2848304 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -53,6 +53,8 @@ type State struct {
 	AvailLChroma           bool
 	RefFrame               [2]int
 	RefFrames              [shared.MAX_TILE_ROWS][shared.MAX_TILE_COLS][2]int
+	CurrentFrameId         int
+	RefFrameId             [shared.NUM_REF_FRAMES]int
 	RefFrameWidth          [shared.NUM_REF_FRAMES]int
 	RefFrameHeight         [shared.NUM_REF_FRAMES]int
 	RefRenderWidth         [shared.NUM_REF_FRAMES]int
diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index 50c9f9a..c648298 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -115,6 +115,7 @@ func (t *TileGroup) referenceFrameUpdate(state *state.State, uh uncompressedhead
 			state.RefMiCols[i] = state.MiCols
 			state.RefMiRows[i] = state.MiRows
 			state.RefFrameType[i] = uh.FrameType
+			state.RefFrameId[i] = uh.CurrentFrameId
 			state.RefSubsamplingX[i] = util.Int(sh.ColorConfig.SubsamplingX)
 			state.RefSubsamplingY[i] = util.Int(sh.ColorConfig.SubsamplingY)
 			state.RefBitDepth[i] = sh.ColorConfig.BitDepth
@@ -204,7 +205,7 @@ func saveSegmentationParams(ctx int) {
 func (t *TileGroup) referenceFrameLoadingProcess(state *state.State, u *uncompressedheader.UncompressedHeader, sh *sequenceheader.SequenceHeader) {
 	// where does i really come from?
 	i := u.FrameToShowMapIdx
-	u.CurrentFrameId = u.RefFrameId[i]
+	u.CurrentFrameId = state.RefFrameId[i]
 	u.UpscaledWidth = state.RefUpscaledWidth[u.FrameToShowMapIdx]
 	u.FrameWidth = state.RefFrameWidth[u.FrameToShowMapIdx]
 	u.FrameHeight = state.RefFrameHeight[u.FrameToShowMapIdx]
diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 2444e24..fbc945d 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -70,7 +70,6 @@ type UncompressedHeader struct {
 	InterpolationFilter        int
 	PrevFrameId                int
 	CurrentFrameId             int
-	RefFrameId                 []int
 	TileInfo                   tileinfo.TileInfo
 	FramePresentationTime      int
 	PrimaryRefFrame            int
@@ -253,12 +252,13 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 	}
 
 	if sh.FrameIdNumbersPresent {
-		u.PrevFrameId = u.CurrentFrameId
+		u.PrevFrameId = s.CurrentFrameId
 		u.CurrentFrameId = b.F(idLen)
 		u.markRefFrames(idLen, s, sh)
 	} else {
 		u.CurrentFrameId = 0
 	}
+	s.CurrentFrameId = u.CurrentFrameId
 
 	if u.FrameType == SWITCH_FRAME {
 		u.FrameSizeOverrideFlag = true
@@ -319,7 +319,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		}
 	}
 
-	expectedFrameId := []int{}
+	var expectedFrameId [shared.REFS_PER_FRAME]int
 
 	if u.FrameIsIntra {
 		u.frameSize(b, s, sh)
@@ -473,12 +473,12 @@ func (u *UncompressedHeader) markRefFrames(idLen int, state *state.State, sh seq
 
 	for i := 0; i < shared.NUM_REF_FRAMES; i++ {
 		if u.CurrentFrameId > (1 << diffLen) {
-			if u.RefFrameId[i] > u.CurrentFrameId ||
-				u.RefFrameId[i] < (u.CurrentFrameId-(1<<diffLen)) {
+			if state.RefFrameId[i] > u.CurrentFrameId ||
+				state.RefFrameId[i] < (u.CurrentFrameId-(1<<diffLen)) {
 				state.RefValid[i] = 0
 			}
 		} else {
-			if u.RefFrameId[i] > u.CurrentFrameId && u.RefFrameId[i] < ((1<<idLen)+u.CurrentFrameId-(1<<diffLen)) {
+			if state.RefFrameId[i] > u.CurrentFrameId && state.RefFrameId[i] < ((1<<idLen)+u.CurrentFrameId-(1<<diffLen)) {
 				state.RefValid[i] = 0
 			}
 		}
-- 
2.43.0


From 9da19171db36e9f9f9a4b8f50e826679412ba94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 14/78] fix: record show_existing_frame so that it is acted
 upon

---
 internal/uncompressedheader/uncompressed_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index fbc945d..7a7de51 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -168,9 +168,9 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 		u.ShowFrame = true
 		u.ShowableFrame = false
 	} else {
-		showExistingFrame := util.Bool(b.F(1))
+		u.ShowExistingFrame = util.Bool(b.F(1))
 
-		if showExistingFrame {
+		if u.ShowExistingFrame {
 			u.FrameToShowMapIdx = b.F(3)
 
 			if sh.DecoderModelInfoPresent && !sh.TimingInfo.EqualPictureInterval {
-- 
2.43.0


From d4df6662274ecca3e8237e911f18bb9d96d0556a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 15/78] fix: default the render height to the frame height

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 7a7de51..2cd9ad6 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -550,7 +550,7 @@ func (u *UncompressedHeader) renderSize(b *bitstream.BitStream) {
 		u.RenderHeight = renderHeightMinusOne + 1
 	} else {
 		u.RenderWidth = u.UpscaledWidth
-		u.RenderHeight = u.UpscaledHeight
+		u.RenderHeight = u.FrameHeight
 	}
 }
 
-- 
2.43.0


From 70dab778054e390ffa1d2797e517d58a7b2d0459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 16/78] fix: read unsigned segmentation features as unsigned

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 2cd9ad6..d477550 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -729,7 +729,7 @@ func (u *UncompressedHeader) segmentationParams(b *bitstream.BitStream, s *state
 							featureValue = b.Su(1 + bitsToRead)
 							clippedValue = util.Clip3(-limit, limit, featureValue)
 						} else {
-							featureValue = b.Su(bitsToRead)
+							featureValue = b.F(bitsToRead)
 							clippedValue = util.Clip3(0, limit, featureValue)
 
 						}
-- 
2.43.0


From 557a952f964996d0d6695eb6cfb2cf81364a71d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 17/78] fix: use the chroma quantizer matrix levels for chroma

---
 internal/uncompressedheader/uncompressed_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index d477550..f051acd 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -440,8 +440,8 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 				u.SegQMLevel[2][segmentId] = 15
 			} else {
 				u.SegQMLevel[0][segmentId] = u.Qmy
-				u.SegQMLevel[1][segmentId] = u.Qmy
-				u.SegQMLevel[2][segmentId] = u.Qmy
+				u.SegQMLevel[1][segmentId] = u.Qmu
+				u.SegQMLevel[2][segmentId] = u.Qmv
 			}
 		}
 	}
-- 
2.43.0


From 64c0b339bca63f72e2e4eb2d1f74897e5968bb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 18/78] fix: loop filter sharpness has three bits and lossless
 frames no filter

---
 internal/uncompressedheader/uncompressed_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index f051acd..66842c0 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -831,7 +831,7 @@ func (u *UncompressedHeader) segFeatureActiveIdx(idx int, feature int, s *state.
 func (u *UncompressedHeader) loopFilterParams(b *bitstream.BitStream, sh sequenceheader.SequenceHeader) {
 	if u.CodedLossless || u.AllowIntraBc {
 		u.LoopFilterLevel[0] = 0
-		u.LoopFilterLevel[1] = 1
+		u.LoopFilterLevel[1] = 0
 		u.LoopFilterRefDeltas[shared.INTRA_FRAME] = 1
 		u.LoopFilterRefDeltas[shared.LAST_FRAME] = 0
 		u.LoopFilterRefDeltas[shared.LAST2_FRAME] = 0
@@ -857,7 +857,7 @@ func (u *UncompressedHeader) loopFilterParams(b *bitstream.BitStream, sh sequenc
 		}
 	}
 
-	u.LoopFilterSharpness = b.F(6)
+	u.LoopFilterSharpness = b.F(3)
 	u.LoopFilterDeltaEnabled = util.Bool(b.F(1))
 
 	if u.LoopFilterDeltaEnabled {
-- 
2.43.0


From c34b149cccd84f5d631974dfa470e4288ec4f2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 19/78] fix: read the global motion parameters

global_motion_params() read the type of each motion but never its parameters,
and the signed subexponential code ignored its range.
---
 .../uncompressedheader/uncompressed_header.go | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 66842c0..4a1904e 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -1100,6 +1100,22 @@ func (u *UncompressedHeader) globalMotionParams(b *bitstream.BitStream, s *state
 			typ = shared.IDENTITY
 		}
 		s.GmType[ref] = typ
+
+		if typ >= shared.ROTZOOM {
+			u.readGlobalParam(typ, ref, 2, b, s)
+			u.readGlobalParam(typ, ref, 3, b, s)
+			if typ == shared.AFFINE {
+				u.readGlobalParam(typ, ref, 4, b, s)
+				u.readGlobalParam(typ, ref, 5, b, s)
+			} else {
+				u.GmParams[ref][4] = -u.GmParams[ref][3]
+				u.GmParams[ref][5] = u.GmParams[ref][2]
+			}
+		}
+		if typ >= shared.TRANSLATION {
+			u.readGlobalParam(typ, ref, 0, b, s)
+			u.readGlobalParam(typ, ref, 1, b, s)
+		}
 	}
 
 }
@@ -1136,10 +1152,14 @@ func (u *UncompressedHeader) readGlobalParam(typ int, ref int, idx int, b *bitst
 
 	mx := 1 << absBits
 	r := (s.PrevGmParams[ref][idx] >> precDiff) - sub
-	u.GmParams[ref][idx] = (u.decodeSignedSubexpWithRef(mx, r, b) << precDiff) + round
+	u.GmParams[ref][idx] = (u.decodeSignedSubexpWithRef(-mx, mx+1, r, b) << precDiff) + round
+}
+
+func (u *UncompressedHeader) decodeSignedSubexpWithRef(low int, high int, r int, b *bitstream.BitStream) int {
+	return u.decodeUnsignedSubexpWithRef(high-low, r-low, b) + low
 }
 
-func (u *UncompressedHeader) decodeSignedSubexpWithRef(mx int, r int, b *bitstream.BitStream) int {
+func (u *UncompressedHeader) decodeUnsignedSubexpWithRef(mx int, r int, b *bitstream.BitStream) int {
 	v := u.decodeSubexp(mx, b)
 	if (r << 1) <= mx {
 		return util.InverseRecenter(r, v)
-- 
2.43.0


From 6091e6f2a3e417f6b7e12d1f261afdf4bd73b259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 20/78] fix: keep the decoder state across frame units

The state was created afresh for each frame unit, so the selected operating
point, the reference slots and the saved CDFs were forgotten after one frame.
---
 internal/parser/parser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 0d9035c..83020fb 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -16,6 +16,7 @@ type Parser struct {
 	SequenceHeader     sequenceheader.SequenceHeader
 	UncompressedHeader uncompressedheader.UncompressedHeader
 	obus               []obu.Obu
+	state              *state.State
 }
 
 func NewParser(b *bitstream.BitStream) Parser {
@@ -23,6 +24,7 @@ func NewParser(b *bitstream.BitStream) Parser {
 
 	return Parser{
 		bitStream: b,
+		state:     &state.State{},
 	}
 }
 
@@ -38,14 +40,13 @@ func (p *Parser) temporalUnit(sz int) {
 
 // frame_unit( sz )
 func (p *Parser) frameUnit(sz int) {
-	state := state.State{}
 	for sz > 0 {
 		obuLength := p.bitStream.Leb128()
 		sz -= p.bitStream.Leb128Bytes
 
 		logger.Logger.Info("Starting obu parsing process...", zap.Int("sz", sz))
 
-		o := obu.NewObu(obuLength, &state, p.bitStream, p.SequenceHeader, p.UncompressedHeader)
+		o := obu.NewObu(obuLength, p.state, p.bitStream, p.SequenceHeader, p.UncompressedHeader)
 		p.obus = append(p.obus, o)
 
 		switch o.Header.Type {
-- 
2.43.0


From 0c2a9a5d3d0cf917f92e087550b6776ad0741570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 21/78] fix: keep the header of a frame OBU for the tile groups
 that follow

---
 internal/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 83020fb..ccd21bf 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -52,7 +52,7 @@ func (p *Parser) frameUnit(sz int) {
 		switch o.Header.Type {
 		case header.OBU_SEQUENCE_HEADER:
 			p.SequenceHeader = o.SequenceHeader
-		case header.OBU_FRAME_HEADER:
+		case header.OBU_FRAME_HEADER, header.OBU_FRAME:
 			p.UncompressedHeader = o.UncompressedHeader
 		}
 
-- 
2.43.0


From ebe3b0d8e55968f0233ccefbcc378734ce214a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:06 +0000
Subject: [PATCH 22/78] fix: skip padding and unknown OBUs by their size

Padding was scanned for a zero byte, past the end of the unit if it had none,
and metadata, tile list and reserved units stopped the decode.
---
 internal/obu/obu.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/internal/obu/obu.go b/internal/obu/obu.go
index d044376..6e0fb75 100644
--- a/internal/obu/obu.go
+++ b/internal/obu/obu.go
@@ -72,10 +72,13 @@ func (o *Obu) build(sz int, b *bitstream.BitStream, state *state.State) {
 		o.TileGroup = o.newFrame(o.Size, b, state, o.Header, o.SequenceHeader)
 	case header.OBU_PADDING:
 		o.paddingObu(b)
+		return
 	case header.OBU_TILE_GROUP:
 		o.TileGroup = tilegroup.NewTileGroup(o.Size, b, state, o.UncompressedHeader, o.SequenceHeader)
 	default:
-		panic("not implemented")
+		// metadata, tile list and reserved obus are ignored
+		b.Position += o.Size * 8
+		return
 	}
 
 	payloadBits := b.Position - startPosition
@@ -134,10 +137,5 @@ func FrameHeaderCopy() uncompressedheader.UncompressedHeader {
 
 // padding_obu( )
 func (o *Obu) paddingObu(b *bitstream.BitStream) {
-	obuPaddingByte := 1
-	for obuPaddingByte != 0 {
-		obuPaddingByte = b.F(8)
-	}
-
-	b.Position -= 8
+	b.Position += o.Size * 8
 }
-- 
2.43.0


From 76f28a09765eeb6b9bc1c91d54d33d5e594cf680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 23/78] fix: clear the CDEF index of every 64x64 block of a
 superblock

The table grew by capacity instead of length and only at the first block, and
the distance between the blocks was never set, so wide frames panicked and
128x128 superblocks kept stale indices.
---
 internal/cdef/cdef.go            | 14 +++++++++++---
 internal/state/state.go          |  1 -
 internal/tilegroup/tile_group.go |  2 +-
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/internal/cdef/cdef.go b/internal/cdef/cdef.go
index 7d7ec02..9ba73c2 100644
--- a/internal/cdef/cdef.go
+++ b/internal/cdef/cdef.go
@@ -6,12 +6,20 @@ type Cdef struct {
 }
 
 func (cdef *Cdef) ClearCdef(r int, c int, Use128x128SuperBlock bool, cdefSize4 int) {
-	for cap(cdef.CdefIdx) < r+1 {
+	rows, cols := r+1, c+1
+	if Use128x128SuperBlock {
+		rows += cdefSize4
+		cols += cdefSize4
+	}
+
+	for len(cdef.CdefIdx) < rows {
 		cdef.CdefIdx = append(cdef.CdefIdx, make([]int, 0))
 	}
 
-	for cap(cdef.CdefIdx[r]) < c+1 {
-		cdef.CdefIdx[r] = append(cdef.CdefIdx[r], 0)
+	for i := r; i < rows; i++ {
+		for len(cdef.CdefIdx[i]) < cols {
+			cdef.CdefIdx[i] = append(cdef.CdefIdx[i], 0)
+		}
 	}
 
 	cdef.CdefIdx[r][c] = -1
diff --git a/internal/state/state.go b/internal/state/state.go
index 2848304..5c579ab 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -73,7 +73,6 @@ type State struct {
 	RefFrameTypes          [7]int
 	Skip                   int
 	IsInter                int
-	CdefSize4              int
 	CdefFrame              [3][16][16]int
 	UpscaledCurrFrame      [3][9][9]int
 	UpscaledCdefFrame      [3][9][9]int
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index c344f68..c216fe6 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -760,7 +760,7 @@ func (t *TileGroup) decodeTile(b *bitstream.BitStream, state *state.State, sh se
 
 		for c := state.MiColStart; c < state.MiColEnd; c += sbSize4 {
 			state.ReadDeltas = uh.DeltaQPresent
-			state.Cdef.ClearCdef(r, c, sh.Use128x128SuperBlock, state.CdefSize4)
+			state.Cdef.ClearCdef(r, c, sh.Use128x128SuperBlock, shared.NUM_4X4_BLOCKS_WIDE[shared.BLOCK_64X64])
 			t.clearBlockDecodedFlags(r, c, sbSize, state, sh)
 			t.readLr(r, c, sbSize, b, state, uh, sh)
 			t.decodePartition(r, c, sbSize, b, state, sh, uh)
-- 
2.43.0


From f3c49e5f642ad889cc0355af814dd3241958f07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 24/78] fix: read cdef_idx with the width the frame header sets

The tile decoder read it with zero bits and copied it to the wrong blocks.
---
 internal/tilegroup/intra_frame_mode_info.go        | 2 +-
 internal/uncompressedheader/uncompressed_header.go | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index ee55ec4..f84861b 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -222,7 +222,7 @@ func (t *TileGroup) readCdef(b *bitstream.BitStream, uh uncompressedheader.Uncom
 		h4 := shared.NUM_4X4_BLOCKS_HIGH[state.MiSize]
 
 		for i := r; i < r+h4; i += cdefSize4 {
-			for j := c; i < c+w4; i += cdefSize4 {
+			for j := c; j < c+w4; j += cdefSize4 {
 				state.Cdef.CdefIdx[i][j] = state.Cdef.CdefIdx[r][c]
 			}
 
diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 4a1904e..9a9409d 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -450,6 +450,7 @@ func (u *UncompressedHeader) build(h header.Header, sh sequenceheader.SequenceHe
 
 	u.loopFilterParams(b, sh)
 	u.cdefParams(b, sh)
+	s.Cdef.CdefBits = u.CdefBits
 	u.lrParams(b, s, sh)
 	u.readTxMode(b)
 	u.frameReferenceMode(b)
-- 
2.43.0


From 436f15ac9f101c8663d4837fb0bcf096fb630f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:42 +0000
Subject: [PATCH 25/78] fix: remove a stray group from the default coefficient
 base CDFs

---
 internal/uncompressedheader/cdf.go | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index d1dba6f..1832b02 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -10713,16 +10713,6 @@ var DEFAULT_COEFF_BASE_CDF = [][][][][]int{
 				{
 					8192, 16384, 24576, 32768, 0},
 			},
-			{
-				{
-					9320, 22102, 27840, 32768, 0},
-				{
-					2795, 10410, 17361, 32768, 0},
-				{
-					8192, 16384, 24576, 32768, 0},
-				{
-					8192, 16384, 24576, 32768, 0},
-			},
 			{
 				{
 					9320, 22102, 27840, 32768, 0},
-- 
2.43.0


From 9bbc9df1fc764d7c37c09e0961607231001d3e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 26/78] fix: skip mode default CDFs were doubled values

---
 internal/uncompressedheader/cdf.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index 1832b02..0b40723 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -1291,11 +1291,11 @@ var DEFAULT_SKIP_CDF = [][]int{
 }
 
 var DEFAULT_SKIP_MODE_CDF = [][]int{
-	{3262132621,
+	{32621,
 		32768, 00},
-	{2070820708,
+	{20708,
 		32768, 00},
-	{81278127,
+	{8127,
 		32768, 00},
 }
 
-- 
2.43.0


From 6608d5d5b5ddb233f721a1a7bcbba2af0af06ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 27/78] fix: predicted segment id default CDFs end at 32768

---
 internal/uncompressedheader/cdf.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/uncompressedheader/cdf.go b/internal/uncompressedheader/cdf.go
index 0b40723..0785b86 100644
--- a/internal/uncompressedheader/cdf.go
+++ b/internal/uncompressedheader/cdf.go
@@ -1601,9 +1601,9 @@ var DEFAULT_TX_8X8_CDF = [][]int{
 }
 
 var DEFAULT_SEGMENT_ID_PREDICTED_CDF = [][]int{
-	{128 * 128, 32678, 0},
-	{128 * 128, 32678, 0},
-	{128 * 128, 32678, 0},
+	{128 * 128, 32768, 0},
+	{128 * 128, 32768, 0},
+	{128 * 128, 32768, 0},
 }
 
 var DEFAULT_SEGMENT_ID_CDF = [][]int{
-- 
2.43.0


From ebabe0546ecb06ebf7b29d39fad250fa8ee8a592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:59 +0000
Subject: [PATCH 28/78] fix: end a golomb coded coefficient without a length

---
 internal/tilegroup/coeffs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/tilegroup/coeffs.go b/internal/tilegroup/coeffs.go
index 8c9d7ad..245dfcc 100644
--- a/internal/tilegroup/coeffs.go
+++ b/internal/tilegroup/coeffs.go
@@ -160,6 +160,10 @@ func (t *TileGroup) coeffs(plane int, startX int, startY int, txSz int, b *bitst
 					if util.Bool(golombLengthBit) {
 						break
 					}
+
+					if length == 20 {
+						panic("Violating bitstream conformance!")
+					}
 				}
 				x := 1
 				for i := length - 2; i >= 0; i-- {
-- 
2.43.0


From 43be1c5a0eda4811efa410e5b2a6c933973e842c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:03 +0000
Subject: [PATCH 29/78] fix: read the sign of AC coefficients

---
 internal/tilegroup/coeffs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/coeffs.go b/internal/tilegroup/coeffs.go
index 245dfcc..ae0d7a4 100644
--- a/internal/tilegroup/coeffs.go
+++ b/internal/tilegroup/coeffs.go
@@ -144,7 +144,7 @@ func (t *TileGroup) coeffs(plane int, startX int, startY int, txSz int, b *bitst
 					dcSign := t.readDcSignSymbol(plane, w4, h4, x4, y4, ptype, state, b, uh, sh)
 					sign = dcSign
 				} else {
-					signBit := literal.L(0, state, b, uh)
+					signBit := literal.L(1, state, b, uh)
 					sign = signBit
 				}
 			} else {
-- 
2.43.0


From 798ee925f1759e1ae61f549c4932d9de9723799e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:06 +0000
Subject: [PATCH 30/78] fix: coefficients have twenty bits

---
 internal/tilegroup/coeffs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/coeffs.go b/internal/tilegroup/coeffs.go
index ae0d7a4..f5e41cf 100644
--- a/internal/tilegroup/coeffs.go
+++ b/internal/tilegroup/coeffs.go
@@ -180,7 +180,7 @@ func (t *TileGroup) coeffs(plane int, startX int, startY int, txSz int, b *bitst
 				}
 			}
 
-			t.Quant[pos] = t.Quant[pos] & 0xFFFF
+			t.Quant[pos] = t.Quant[pos] & 0xFFFFF
 			culLevel += t.Quant[pos]
 			if util.Bool(sign) {
 				t.Quant[pos] = -t.Quant[pos]
-- 
2.43.0


From 4a829d36e9ab7eafb50fb4ddfdc7ca7fbd434684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:10 +0000
Subject: [PATCH 31/78] fix: decode the upper block of a horizontal partition

---
 internal/tilegroup/decode_partition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/decode_partition.go b/internal/tilegroup/decode_partition.go
index ba90c0d..d4775c5 100644
--- a/internal/tilegroup/decode_partition.go
+++ b/internal/tilegroup/decode_partition.go
@@ -53,7 +53,7 @@ func (t *TileGroup) decodePartition(r int, c int, bSize int, b *bitstream.BitStr
 	if partition == PARTITION_NONE {
 		t.decodeBlock(r, c, subSize, b, state, sh, uh)
 	} else if partition == PARTITION_HORZ {
-		t.decodeBlock(r+halfBlock4x4, c, subSize, b, state, sh, uh)
+		t.decodeBlock(r, c, subSize, b, state, sh, uh)
 		if hasRows {
 			t.decodeBlock(r+halfBlock4x4, c, subSize, b, state, sh, uh)
 		}
-- 
2.43.0


From f95cc8c1465cb5aa1c7bf436999b1fdc0d71cf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:13 +0000
Subject: [PATCH 32/78] fix: derive the skip context from the neighbours skip
 flags

---
 internal/tilegroup/intra_frame_mode_info.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index f84861b..a23baf3 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -174,10 +174,10 @@ func (t *TileGroup) readSkip(b *bitstream.BitStream, uh uncompressedheader.Uncom
 	} else {
 		ctx := 0
 		if state.AvailU {
-			ctx += t.SkipModes[state.MiRow-1][state.MiCol]
+			ctx += t.Skips[state.MiRow-1][state.MiCol]
 		}
 		if state.AvailL {
-			ctx += t.SkipModes[state.MiRow][state.MiCol-1]
+			ctx += t.Skips[state.MiRow][state.MiCol-1]
 		}
 
 		t.Skip = symbol.ReadSymbol(state.TileSkipCdf[ctx], state, b, uh)
-- 
2.43.0


From 3d8e788615e0535ed900dbaaff0c66aabd707b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:16 +0000
Subject: [PATCH 33/78] fix: reset the coefficient contexts of skipped blocks

---
 internal/tilegroup/decode_block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/decode_block.go b/internal/tilegroup/decode_block.go
index 7a120d6..44cb4cf 100644
--- a/internal/tilegroup/decode_block.go
+++ b/internal/tilegroup/decode_block.go
@@ -46,7 +46,7 @@ func (t *TileGroup) decodeBlock(r int, c int, subSize int, b *bitstream.BitStrea
 	t.paletteTokens(b, state, sh)
 	t.readBlockTxSize(b, state, uh)
 
-	if util.Bool(state.Skip) {
+	if util.Bool(t.Skip) {
 		t.resetBlockContext(bw4, bh4, b, state, sh)
 	}
 
-- 
2.43.0


From 43475a92fbb761a744eda513ae08581bbb31e9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:20 +0000
Subject: [PATCH 34/78] fix: keep the segment id of every block

---
 internal/tilegroup/decode_block.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/tilegroup/decode_block.go b/internal/tilegroup/decode_block.go
index 44cb4cf..86efe30 100644
--- a/internal/tilegroup/decode_block.go
+++ b/internal/tilegroup/decode_block.go
@@ -87,6 +87,7 @@ func (t *TileGroup) decodeBlock(r int, c int, subSize int, b *bitstream.BitStrea
 			t.IsInters[r+y][c+x] = t.IsInter
 			t.SkipModes[r+y][c+x] = t.SkipMode
 			t.Skips[r+y][c+x] = t.Skip
+			t.SegmentIds[r+y][c+x] = t.SegmentId
 			t.TxSizes[r+y][c+x] = t.TxSize
 			state.MiSizes[r+y][c+x] = state.MiSize
 			t.PaletteSizes[0][r+y][c+x] = t.PaletteSizeY
-- 
2.43.0


From 382403a435060d4e509e1b1463f7940b25f90bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:24 +0000
Subject: [PATCH 35/78] fix: undo the interleaving of segment ids as
 neg_deinterleave() does

---
 internal/tilegroup/intra_frame_mode_info.go | 2 +-
 internal/util/util.go                       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index a23baf3..b519581 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -163,7 +163,7 @@ func (t *TileGroup) readSegmentId(b *bitstream.BitStream, uh uncompressedheader.
 		}
 
 		t.SegmentId = symbol.ReadSymbol(state.TileSegmentIdCdf[ctx], state, b, uh)
-		t.SegmentId = util.NegDeinterleave(t.SegmentId, pred, uh.LastActiveSegId+1)
+		t.SegmentId = util.Clip3(0, uh.LastActiveSegId, util.NegDeinterleave(t.SegmentId, pred, uh.LastActiveSegId+1))
 	}
 }
 
diff --git a/internal/util/util.go b/internal/util/util.go
index 688fa5f..1109879 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -127,7 +127,7 @@ func Clip1(x int, bitDepth int) int {
 }
 
 func NegDeinterleave(diff int, ref int, max int) int {
-	if !(ref == 1) {
+	if ref == 0 {
 		return diff
 	}
 
@@ -153,7 +153,7 @@ func NegDeinterleave(diff int, ref int, max int) int {
 				return ref - (diff >> 1)
 			}
 		}
-		return max - diff + 1
+		return max - (diff + 1)
 	}
 }
 
-- 
2.43.0


From ef9557dc5f78d8e3421e6ac6d2d8750c9a5059d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:27 +0000
Subject: [PATCH 36/78] fix: mark blocks of intra frames as intra

---
 internal/tilegroup/intra_frame_mode_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index b519581..288b84a 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -30,7 +30,7 @@ func (t *TileGroup) intraFrameModeInfo(b *bitstream.BitStream, uh uncompressedhe
 
 	state.ReadDeltas = false
 	state.RefFrame[0] = shared.INTRA_FRAME
-	state.RefFrame[0] = shared.NONE
+	state.RefFrame[1] = shared.NONE
 
 	if uh.AllowIntraBc {
 		t.useIntrabc = b.S()
-- 
2.43.0


From 8c2888d55e169326e868584e910860c5f9e74d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:30 +0000
Subject: [PATCH 37/78] fix: derive the transform depth context from the left
 block

---
 internal/tilegroup/tx_size.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/tx_size.go b/internal/tilegroup/tx_size.go
index a05e8ec..d93b001 100644
--- a/internal/tilegroup/tx_size.go
+++ b/internal/tilegroup/tx_size.go
@@ -74,7 +74,7 @@ func (t *TileGroup) txDepthSymbol(maxRectTxSize int, maxTxDepth int, state *stat
 	var leftH int
 	if state.AvailL && util.Bool(t.IsInters[state.MiRow][state.MiCol-1]) {
 		leftH = shared.BLOCK_HEIGHT[state.MiSizes[state.MiRow][state.MiCol-1]]
-	} else if state.AvailU {
+	} else if state.AvailL {
 		leftH = t.getLeftTxHeight(state.MiRow, state.MiCol, state)
 	} else {
 		leftH = 0
@@ -106,7 +106,7 @@ func (t *TileGroup) getAboveTxWidth(row int, col int, state *state.State) int {
 }
 
 func (t *TileGroup) getLeftTxHeight(row int, col int, state *state.State) int {
-	if row == state.MiCol {
+	if col == state.MiCol {
 		if !state.AvailL {
 			return 64
 		} else if util.Bool(t.Skips[row][col-1]) && util.Bool(t.IsInters[row][col-1]) {
-- 
2.43.0


From c0e69b7373d9c26407b672f663df9f0289d5b6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:45 +0000
Subject: [PATCH 38/78] fix: derive the column of a transform block from its x
 position

---
 internal/tilegroup/residual.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index 4e93f38..21d7c22 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -94,7 +94,7 @@ func (t *TileGroup) transformBlock(plane int, baseX int, baseY int, txSz int, x
 	}
 
 	row := (startY << subY) >> shared.MI_SIZE_LOG2
-	col := (startY << subY) >> shared.MI_SIZE_LOG2
+	col := (startX << subX) >> shared.MI_SIZE_LOG2
 
 	sbMask := 15
 	if sh.Use128x128SuperBlock {
-- 
2.43.0


From f19fe9f746e4ac9bcbe4e5d8725c31a46f3ec628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:45 +0000
Subject: [PATCH 39/78] fix: mark every column of a transform block as decoded

---
 internal/tilegroup/residual.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index 21d7c22..eed29e7 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -183,7 +183,7 @@ func (t *TileGroup) transformBlock(plane int, baseX int, baseY int, txSz int, x
 	}
 
 	for i := 0; i < stepY; i++ {
-		for j := 0; j < stepY; j++ {
+		for j := 0; j < stepX; j++ {
 			t.LoopFilterTxSizes[plane][(row>>subY)+i][(col>>subX + j)] = txSz
 			state.BlockDecoded[plane][(subBlockMiRow>>subY)+i][(subBlockMiCol>>subX)+j] = true
 		}
-- 
2.43.0


From 60d70c9ec0714cc91a4f8623ecc4ae7d233b4a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:45 +0000
Subject: [PATCH 40/78] fix: give the negative sign of chroma from luma its
 value

---
 internal/tilegroup/tile_group.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index c216fe6..99e1194 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -87,7 +87,7 @@ const UV_CFL_PRED = 13
 const MAX_ANGLE_DELTA = 3
 
 const CFL_SIGN_ZERO = 0
-const CFL_SIGN_NEG = 2
+const CFL_SIGN_NEG = 1
 
 const INTRABC_DELAY_PIXELS = 256
 
-- 
2.43.0


From 5e1f94f952ca8519137b4d184da8caf0f2e2912a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:45 +0000
Subject: [PATCH 41/78] fix: read the transform depth of skipped intra blocks

---
 internal/tilegroup/tx_size.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/tx_size.go b/internal/tilegroup/tx_size.go
index d93b001..1fced08 100644
--- a/internal/tilegroup/tx_size.go
+++ b/internal/tilegroup/tx_size.go
@@ -29,7 +29,7 @@ func (t *TileGroup) readBlockTxSize(b *bitstream.BitStream, state *state.State,
 			}
 		}
 	} else {
-		t.readTxSize(!util.Bool(t.Skip) || util.Bool(t.IsInter), b, state, uh)
+		t.readTxSize(!util.Bool(t.Skip) || !util.Bool(t.IsInter), b, state, uh)
 		for row := state.MiRow; row < state.MiRow+bh4; row++ {
 			for col := state.MiCol; col < state.MiCol+bw4; col++ {
 				t.InterTxSizes[row][col] = t.TxSize
-- 
2.43.0


From 74c7289974d2b9f78539ff6b0ef981def2c58e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:45 +0000
Subject: [PATCH 42/78] fix: step over chroma planes, not luma, by their
 subsampling in the loop filter

---
 internal/tilegroup/loop_filter_process.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index 96ee525..4769cc9 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -15,9 +15,9 @@ func (t *TileGroup) loopFilter(state *state.State, uh uncompressedheader.Uncompr
 			for pass := 0; pass < 2; pass++ {
 				rowStep := 1
 				colStep := 1
-				if plane == 0 {
-					rowStep = 1 << util.Int(sh.ColorConfig.SubsamplingX)
-					colStep = 1 << util.Int(sh.ColorConfig.SubsamplingY)
+				if plane > 0 {
+					rowStep = 1 << util.Int(sh.ColorConfig.SubsamplingY)
+					colStep = 1 << util.Int(sh.ColorConfig.SubsamplingX)
 				}
 
 				for row := 0; row < state.MiRows; row += rowStep {
-- 
2.43.0


From 46a3807d32660878817b4d66f0620a28712a7149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:45 +0000
Subject: [PATCH 43/78] fix: read only the samples a loop filter of its size
 covers

---
 internal/tilegroup/loop_filter_process.go | 25 ++++++++++++++---------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/internal/tilegroup/loop_filter_process.go b/internal/tilegroup/loop_filter_process.go
index 4769cc9..0c2c7f9 100644
--- a/internal/tilegroup/loop_filter_process.go
+++ b/internal/tilegroup/loop_filter_process.go
@@ -241,18 +241,23 @@ func (t *TileGroup) sampleFiltering(x int, y int, plane int, limit int, blimit i
 func (t *TileGroup) filterMask(x int, y int, plane int, limit int, blimit int, thresh int, dx int, dy int, filterSize int, state *state.State, sh sequenceheader.SequenceHeader) (int, int, int, int) {
 	q0 := state.CurrFrame[plane][y][x]
 	q1 := state.CurrFrame[plane][y+dy][x+dx]
-	q2 := state.CurrFrame[plane][y+dy*2][x+dx*2]
-	q3 := state.CurrFrame[plane][y+dy*3][x+dx*3]
-	q4 := state.CurrFrame[plane][y+dy*4][x+dx*4]
-	q5 := state.CurrFrame[plane][y+dy*5][x+dx*5]
-	q6 := state.CurrFrame[plane][y+dy*6][x+dx*6]
 	p0 := state.CurrFrame[plane][y-dy][x-dx]
 	p1 := state.CurrFrame[plane][y-dy*2][x-dx*2]
-	p2 := state.CurrFrame[plane][y-dy*3][x-dx*3]
-	p3 := state.CurrFrame[plane][y-dy*4][x-dx*4]
-	p4 := state.CurrFrame[plane][y-dy*5][x-dx*5]
-	p5 := state.CurrFrame[plane][y-dy*6][x-dx*6]
-	p6 := state.CurrFrame[plane][y-dy*7][x-dx*7]
+	var q2, q3, q4, q5, q6, p2, p3, p4, p5, p6 int
+	if filterSize >= 8 {
+		q2 = state.CurrFrame[plane][y+dy*2][x+dx*2]
+		q3 = state.CurrFrame[plane][y+dy*3][x+dx*3]
+		p2 = state.CurrFrame[plane][y-dy*3][x-dx*3]
+		p3 = state.CurrFrame[plane][y-dy*4][x-dx*4]
+	}
+	if filterSize >= 16 {
+		q4 = state.CurrFrame[plane][y+dy*4][x+dx*4]
+		q5 = state.CurrFrame[plane][y+dy*5][x+dx*5]
+		q6 = state.CurrFrame[plane][y+dy*6][x+dx*6]
+		p4 = state.CurrFrame[plane][y-dy*5][x-dx*5]
+		p5 = state.CurrFrame[plane][y-dy*6][x-dx*6]
+		p6 = state.CurrFrame[plane][y-dy*7][x-dx*7]
+	}
 
 	hevMask := 0
 	threshBd := thresh << (sh.ColorConfig.BitDepth - 8)
-- 
2.43.0


From a74637504dc2a7562e8566ca504a1f9885c266f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:45 +0000
Subject: [PATCH 44/78] fix: keep decoded flags for superblocks of 128x128

---
 internal/state/state.go          |  2 +-
 internal/tilegroup/residual.go   |  2 +-
 internal/tilegroup/tile_group.go | 14 ++++++++------
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/internal/state/state.go b/internal/state/state.go
index 5c579ab..af0de3b 100644
--- a/internal/state/state.go
+++ b/internal/state/state.go
@@ -44,7 +44,7 @@ type State struct {
 	ReadDeltas      bool
 	Cdef            cdef.Cdef
 
-	BlockDecoded           [3][13][13]bool
+	BlockDecoded           [3][34][34]bool
 	FrameRestorationType   []int
 	LoopRestorationSize    [3]int
 	AvailU                 bool
diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index eed29e7..ac5157c 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -98,7 +98,7 @@ func (t *TileGroup) transformBlock(plane int, baseX int, baseY int, txSz int, x
 
 	sbMask := 15
 	if sh.Use128x128SuperBlock {
-		sbMask = 21
+		sbMask = 31
 	}
 
 	subBlockMiRow := row & sbMask
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 99e1194..1640590 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -761,7 +761,7 @@ func (t *TileGroup) decodeTile(b *bitstream.BitStream, state *state.State, sh se
 		for c := state.MiColStart; c < state.MiColEnd; c += sbSize4 {
 			state.ReadDeltas = uh.DeltaQPresent
 			state.Cdef.ClearCdef(r, c, sh.Use128x128SuperBlock, shared.NUM_4X4_BLOCKS_WIDE[shared.BLOCK_64X64])
-			t.clearBlockDecodedFlags(r, c, sbSize, state, sh)
+			t.clearBlockDecodedFlags(r, c, sbSize4, state, sh)
 			t.readLr(r, c, sbSize, b, state, uh, sh)
 			t.decodePartition(r, c, sbSize, b, state, sh, uh)
 		}
@@ -787,20 +787,22 @@ func (t *TileGroup) clearBlockDecodedFlags(r int, c int, sbSize4 int, state *sta
 
 		for y := -1; y <= (sbSize4 >> subY); y++ {
 			for x := -1; x <= (sbSize4 >> subX); x++ {
+				row := y
 				if y < 0 {
-					y = len(state.BlockDecoded[plane]) + y
+					row = len(state.BlockDecoded[plane]) + y
 				}
 
+				col := x
 				if x < 0 {
-					x = len(state.BlockDecoded[plane][y]) + x
+					col = len(state.BlockDecoded[plane][row]) + x
 				}
 
 				if y < 0 && x < sbWidth4 {
-					state.BlockDecoded[plane][y][x] = true
+					state.BlockDecoded[plane][row][col] = true
 				} else if x < 0 && y < sbHeight4 {
-					state.BlockDecoded[plane][y][x] = true
+					state.BlockDecoded[plane][row][col] = true
 				} else {
-					state.BlockDecoded[plane][y][x] = false
+					state.BlockDecoded[plane][row][col] = false
 				}
 			}
 		}
-- 
2.43.0


From 871d6510a3d5128b74096df79be7317bf2ff0419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:30 +0000
Subject: [PATCH 45/78] fix: take the luma neighbours for luma and the chroma
 neighbours for chroma

The availability of the blocks to the left and above was exchanged between
luma and chroma, so luma at the edge of a frame was predicted from samples
that do not exist, which is what an earlier frame left at the far edge of
the buffer.
---
 internal/tilegroup/residual.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index ac5157c..354bc96 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -132,7 +132,7 @@ func (t *TileGroup) transformBlock(plane int, baseX int, baseY int, txSz int, x
 
 			conditionL := state.AvailL
 			conditionU := state.AvailU
-			if plane == 0 {
+			if plane > 0 {
 				conditionL = state.AvailLChroma
 				conditionU = state.AvailUChroma
 			}
-- 
2.43.0


From ae182e190086bdad480bae05e075c762bf489f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:19 +0000
Subject: [PATCH 46/78] fix: predict from the row above, not from the row
 itself

The row of samples above a block was read from the first row of the block,
which is not decoded yet: the prediction depended on what an earlier frame
had left there.
---
 internal/tilegroup/predict_intra.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index b026a4c..b589161 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -15,7 +15,7 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 	maxX := (state.MiCols * MI_SIZE) - 1
 	maxY := (state.MiRows * MI_SIZE) - 1
 
-	yMinusOne := y
+	yMinusOne := y - 1
 	if y-1 == -1 {
 		yMinusOne = len(state.CurrFrame[plane]) - 1
 	}
-- 
2.43.0


From aed76e56f5dc6f24028616e075347f75c3b423df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:21 +0000
Subject: [PATCH 47/78] fix: read skip_mode

---
 internal/tilegroup/inter_frame_mode_info.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/tilegroup/inter_frame_mode_info.go b/internal/tilegroup/inter_frame_mode_info.go
index 26a30c6..42147e5 100644
--- a/internal/tilegroup/inter_frame_mode_info.go
+++ b/internal/tilegroup/inter_frame_mode_info.go
@@ -175,7 +175,15 @@ func (t *TileGroup) readSkipMode(b *bitstream.BitStream, state *state.State, uh
 	if t.segFeatureActive(shared.SEG_LVL_SKIP, uh, state) || t.segFeatureActive(shared.SEG_LVL_REF_FRAME, uh, state) || t.segFeatureActive(shared.SEG_LVL_GLOBALMV, uh, state) || !util.Bool(uh.SkipModePresent) || shared.BLOCK_WIDTH[state.MiSize] < 8 || shared.BLOCK_HEIGHT[state.MiSize] < 8 {
 		t.SkipMode = 0
 	} else {
-		t.SkipMode = b.S()
+		ctx := 0
+		if state.AvailU {
+			ctx += t.SkipModes[state.MiRow-1][state.MiCol]
+		}
+		if state.AvailL {
+			ctx += t.SkipModes[state.MiRow][state.MiCol-1]
+		}
+
+		t.SkipMode = symbol.ReadSymbol(state.TileSkipModeCdf[ctx], state, b, uh)
 	}
 }
 
-- 
2.43.0


From 21f43bec1a43f16427af48f24973a4a6561deee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:50 +0000
Subject: [PATCH 48/78] fix: read filter intra modes and keep them for
 prediction and transform types

---
 internal/tilegroup/inter_frame_mode_info.go |  2 +-
 internal/tilegroup/intra_frame_mode_info.go | 12 ++++++------
 internal/tilegroup/predict_intra.go         |  6 ++++--
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/internal/tilegroup/inter_frame_mode_info.go b/internal/tilegroup/inter_frame_mode_info.go
index 42147e5..6665afe 100644
--- a/internal/tilegroup/inter_frame_mode_info.go
+++ b/internal/tilegroup/inter_frame_mode_info.go
@@ -99,7 +99,7 @@ func (t *TileGroup) intraBlockModeInfo(b *bitstream.BitStream, state *state.Stat
 		t.paletteModeInfo(b, state, sh, uh)
 	}
 
-	t.filterIntraModeInfo(b, sh, state)
+	t.filterIntraModeInfo(b, sh, state, uh)
 }
 
 // inter_segment_id( preSkip )
diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index 288b84a..677f816 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -81,7 +81,7 @@ func (t *TileGroup) intraFrameModeInfo(b *bitstream.BitStream, uh uncompressedhe
 		if state.MiSize >= shared.BLOCK_8X8 && shared.BLOCK_WIDTH[state.MiSize] <= 64 && shared.BLOCK_HEIGHT[state.MiSize] <= 64 && util.Bool(uh.AllowScreenContentTools) {
 			t.paletteModeInfo(b, state, sh, uh)
 		}
-		t.filterIntraModeInfo(b, sh, state)
+		t.filterIntraModeInfo(b, sh, state, uh)
 	}
 }
 
@@ -382,13 +382,13 @@ func (t *TileGroup) intraAngleInfoUv(b *bitstream.BitStream, state *state.State,
 }
 
 // filter_intra_mode_info()
-func (t *TileGroup) filterIntraModeInfo(b *bitstream.BitStream, sh sequenceheader.SequenceHeader, state *state.State) {
-	useFilterIntra := false
+func (t *TileGroup) filterIntraModeInfo(b *bitstream.BitStream, sh sequenceheader.SequenceHeader, state *state.State, uh uncompressedheader.UncompressedHeader) {
+	t.UseFilterIntra = false
 	if sh.EnableFilterIntra && t.YMode == DC_PRED && t.PaletteSizeY == 0 && util.Max(shared.BLOCK_WIDTH[state.MiSize], shared.BLOCK_HEIGHT[state.MiSize]) <= 32 {
-		useFilterIntra = util.Bool(b.S())
+		t.UseFilterIntra = util.Bool(symbol.ReadSymbol(state.TileFilterIntraCdf[state.MiSize], state, b, uh))
 
-		if useFilterIntra {
-			t.FilterIntraMode = b.S()
+		if t.UseFilterIntra {
+			t.FilterIntraMode = symbol.ReadSymbol(state.TileFilterIntraModeCdf, state, b, uh)
 		}
 	}
 }
diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index b589161..eac316b 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -137,10 +137,12 @@ func (t *TileGroup) recursiveIntraPredictionProcess(w int, h int, sh sequencehea
 	var pred [15][15]int
 	for i2 := 0; i2 <= h2-1; i2++ {
 		for j4 := 0; j4 <= w4-1; j4++ {
-			var p []int
+			var p [7]int
 			for i := 0; i <= 6; i++ {
 				if i < 5 {
-					if i2 == 0 {
+					if i2 == 0 && j4 == 0 && i == 0 {
+						p[i] = t.AboveRow[len(t.AboveRow)-1]
+					} else if i2 == 0 {
 						p[i] = t.AboveRow[(j4<<2)+i-1]
 					} else if j4 == 0 && i == 0 {
 						p[i] = t.LeftCol[(i2<<1)-1]
-- 
2.43.0


From 31e6497c30d2c7b892307d7216002a0e5e88f811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:17 +0000
Subject: [PATCH 49/78] fix: read loop restoration units

---
 internal/tilegroup/read_loop_restoration.go | 12 ++++++------
 internal/tilegroup/tile_group.go            |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/internal/tilegroup/read_loop_restoration.go b/internal/tilegroup/read_loop_restoration.go
index bf28edb..9d3fec6 100644
--- a/internal/tilegroup/read_loop_restoration.go
+++ b/internal/tilegroup/read_loop_restoration.go
@@ -64,13 +64,13 @@ func (t *TileGroup) readLr(r int, c int, bSize int, b *bitstream.BitStream, stat
 func (t *TileGroup) readLrUnit(plane int, unitRow int, unitCol int, state *state.State, b *bitstream.BitStream, uh uncompressedheader.UncompressedHeader) {
 	var restorationType int
 	if uh.FrameRestorationType[plane] == shared.RESTORE_WIENER {
-		useWiener := b.S()
+		useWiener := symbol.ReadSymbol(state.TileUseWienerCdf, state, b, uh)
 		restorationType = shared.RESTORE_NONE
 		if useWiener == 1 {
 			restorationType = shared.RESTORE_WIENER
 		}
 	} else if uh.FrameRestorationType[plane] == shared.RESTORE_SGRPROJ {
-		useSgrproj := b.S()
+		useSgrproj := symbol.ReadSymbol(state.TileUseSgrprojCdf, state, b, uh)
 		restorationType = shared.RESTORE_NONE
 		if useSgrproj == 1 {
 			restorationType = shared.RESTORE_SGRPROJ
@@ -84,7 +84,7 @@ func (t *TileGroup) readLrUnit(plane int, unitRow int, unitCol int, state *state
 	if restorationType == shared.RESTORE_WIENER {
 		for pass := 0; pass < 2; pass++ {
 			var firstCoeff int
-			if plane == 1 {
+			if plane > 0 {
 				firstCoeff = 1
 				t.LrWiener[plane][unitRow][unitCol][pass][0] = 0
 			} else {
@@ -145,14 +145,14 @@ func (t *TileGroup) decodeSubexpBool(numSyms int, k int, state *state.State, b *
 	mk := 0
 	for {
 		b2 := k
-		if i == 1 {
+		if i > 0 {
 			b2 = k + i - 1
 		}
 
 		a := 1 << b2
 
-		if numSyms <= -mk+3*a {
-			subexpUnifBools := literal.L(1, state, b, uh)
+		if numSyms <= mk+3*a {
+			subexpUnifBools := literal.NS(numSyms-mk, state, b, uh)
 			return subexpUnifBools + mk
 		} else {
 			subexpMoreBools := literal.L(1, state, b, uh) != 0
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 1640590..0a9b979 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -125,7 +125,7 @@ const DIV_LUT_BITS = 8
 type TileGroup struct {
 	LrType              [3][1][1]int
 	RefLrWiener         [3][2][3]int
-	LrWiener            [][][][][3]int
+	LrWiener            [3][1][1][2][3]int
 	LrSgrSet            [3][1][1]int
 	RefSgrXqd           [3][2]int
 	LrSgrXqd            [3][1][1][2]int
-- 
2.43.0


From 14dcdad1411c087577db61cbdf20e29c78d1ff2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:03 +0000
Subject: [PATCH 50/78] fix: loop restoration of blocks of more than one sample

---
 internal/tilegroup/loop_restoration.go | 47 ++++++--------------------
 1 file changed, 11 insertions(+), 36 deletions(-)

diff --git a/internal/tilegroup/loop_restoration.go b/internal/tilegroup/loop_restoration.go
index a4d4e0e..9b7426b 100644
--- a/internal/tilegroup/loop_restoration.go
+++ b/internal/tilegroup/loop_restoration.go
@@ -104,11 +104,11 @@ func (t *TileGroup) selfGuidedFilter(plane int, unitRow int, unitCol int, x int,
 }
 
 // 7.17.3. Box filter process
-func (t *TileGroup) boxFilter(plane int, x int, y int, w int, h int, set int, pass bool, state *state.State, sh sequenceheader.SequenceHeader) [1][1]int {
+func (t *TileGroup) boxFilter(plane int, x int, y int, w int, h int, set int, pass bool, state *state.State, sh sequenceheader.SequenceHeader) [MI_SIZE][MI_SIZE]int {
 
 	r := SGR_PARAMS[set][util.Int(pass)*2+0]
 	if r == 0 {
-		return [1][1]int{}
+		return [MI_SIZE][MI_SIZE]int{}
 	}
 
 	eps := SGR_PARAMS[set][util.Int(pass)*2+1]
@@ -117,7 +117,8 @@ func (t *TileGroup) boxFilter(plane int, x int, y int, w int, h int, set int, pa
 	n2e := n * n * eps
 	s := (((1 << SGRPROJ_MTABLE_BITS) + n2e/2) / n2e)
 
-	var A, B [3][3]int
+	// one more entry on each side of the block
+	var A, B [MI_SIZE + 2][MI_SIZE + 2]int
 	for i := -1; i < h+1; i++ {
 		for j := -1; j < w+1; j++ {
 			a := 0
@@ -144,25 +145,12 @@ func (t *TileGroup) boxFilter(plane int, x int, y int, w int, h int, set int, pa
 			oneOverN := ((1 << SGRPROJ_RECIP_BITS) + (n / 2)) / n
 			b2 := ((1 << SGRPROJ_SGR_BITS) - a2) * b * oneOverN
 
-			// ugly negative indexing workaround
-			if i == -1 && j == -1 {
-				A[len(A)-1][len(A[len(A)-1])-1] = a2
-				B[len(B)-1][len(B[len(B)-1])-1] = util.Round2(b2, SGRPROJ_RECIP_BITS)
-			} else if i == -1 {
-				A[len(A)-1][j] = a2
-				B[len(B)-1][j] = util.Round2(b2, SGRPROJ_RECIP_BITS)
-			} else if j == -1 {
-				A[i][len(A[i])-1] = a2
-				B[i][len(B[i])-1] = util.Round2(b2, SGRPROJ_RECIP_BITS)
-
-			} else {
-				A[i][j] = a2
-				B[i][j] = util.Round2(b2, SGRPROJ_RECIP_BITS)
-			}
+			A[i+1][j+1] = a2
+			B[i+1][j+1] = util.Round2(b2, SGRPROJ_RECIP_BITS)
 		}
 	}
 
-	var F [1][1]int
+	var F [MI_SIZE][MI_SIZE]int
 	for i := 0; i < h; i++ {
 		shift := 5
 		if !pass && util.Bool(i&1) {
@@ -192,21 +180,8 @@ func (t *TileGroup) boxFilter(plane int, x int, y int, w int, h int, set int, pa
 						}
 					}
 
-					// ugly negative indexing workaround
-					if i+dy == -1 && j+dx == -1 {
-						a += weight * A[len(A)-1][len(A[len(A)-1])-1]
-						b += weight * B[len(B)-1][len(B[len(B)-1])-1]
-					} else if i+dy == -1 {
-						a += weight * A[len(A)-1][j+dx]
-						b += weight * B[len(B)-1][j+dx]
-					} else if j+dx == -1 {
-						a += weight * A[i+dy][len(A[len(A)-1])-1]
-						b += weight * B[i+dy][len(B[len(B)-1])-1]
-					} else {
-						a += weight * A[i+dy][j+dx]
-						b += weight * B[i+dy][j+dx]
-
-					}
+					a += weight * A[i+1+dy][j+1+dx]
+					b += weight * B[i+1+dy][j+1+dx]
 				}
 			}
 			v := a*state.UpscaledCdefFrame[plane][y+i][x+j] + b
@@ -233,7 +208,7 @@ func (tg *TileGroup) wienerFilter(plane int, unitRow int, unitCol int, x int, y
 	offset := (1 << (sh.ColorConfig.BitDepth + FILTER_BITS - tg.InterRound0 - 1))
 	limit := (1 << (sh.ColorConfig.BitDepth + 1 + FILTER_BITS - tg.InterRound0)) - 1
 
-	var intermediate [][]int
+	var intermediate [MI_SIZE + 6][MI_SIZE]int
 	for r := 0; r < h+6; r++ {
 		for c := 0; c < w; c++ {
 			s := 0
@@ -263,7 +238,7 @@ func (t *TileGroup) wienerCoefficient(coeff [3]int) [7]int {
 	for i := 0; i < 3; i++ {
 		c := coeff[i]
 		filter[i] = c
-		filter[6-1] = c
+		filter[6-i] = c
 		filter[3] -= 2 * c
 	}
 
-- 
2.43.0


From 27edd32f39d8a83ac83719d5ba0a7e02422795d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:36 +0000
Subject: [PATCH 51/78] fix: read use_intrabc

---
 internal/tilegroup/intra_frame_mode_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/intra_frame_mode_info.go b/internal/tilegroup/intra_frame_mode_info.go
index 677f816..e46ee7a 100644
--- a/internal/tilegroup/intra_frame_mode_info.go
+++ b/internal/tilegroup/intra_frame_mode_info.go
@@ -33,7 +33,7 @@ func (t *TileGroup) intraFrameModeInfo(b *bitstream.BitStream, uh uncompressedhe
 	state.RefFrame[1] = shared.NONE
 
 	if uh.AllowIntraBc {
-		t.useIntrabc = b.S()
+		t.useIntrabc = symbol.ReadSymbol(state.TileIntrabcCdf, state, b, uh)
 	} else {
 		t.useIntrabc = 0
 	}
-- 
2.43.0


From 607b82c2ff701ce0c507853f25ce669a564e2b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:38 +0000
Subject: [PATCH 52/78] fix: read has_palette_uv

---
 internal/tilegroup/palette.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/palette.go b/internal/tilegroup/palette.go
index e5245ec..7352c1e 100644
--- a/internal/tilegroup/palette.go
+++ b/internal/tilegroup/palette.go
@@ -66,7 +66,7 @@ func (t *TileGroup) paletteModeInfo(b *bitstream.BitStream, state *state.State,
 	}
 
 	if t.HasChroma && t.UVMode == DC_PRED {
-		hasPaletteUv := b.S()
+		hasPaletteUv := symbol.ReadSymbol(state.TilePaletteUVModeCdf[util.Int(t.PaletteSizeY > 0)], state, b, uh)
 		if util.Bool(hasPaletteUv) {
 			paletteSizeUvMinus2 := b.S()
 			t.PaletteSizeUV = paletteSizeUvMinus2 + 2
-- 
2.43.0


From fcfe6def8d9ee6ed7cc175f3d8abc0966d5671b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:40 +0000
Subject: [PATCH 53/78] fix: clip samples to the range of the bit depth

---
 internal/util/util.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 1109879..8c68656 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -1,7 +1,6 @@
 package util
 
 import (
-	"math"
 	"sort"
 
 	"github.com/m4tthewde/gov1/internal/shared"
@@ -123,7 +122,7 @@ func Clip3(x int, y int, z int) int {
 }
 
 func Clip1(x int, bitDepth int) int {
-	return Clip3(0, int(math.Pow(2, float64(bitDepth)-1)), 2)
+	return Clip3(0, (1<<bitDepth)-1, x)
 }
 
 func NegDeinterleave(diff int, ref int, max int) int {
-- 
2.43.0


From 932f9a6ef9d6b695159ea8286f8c461d5b3db689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:44 +0000
Subject: [PATCH 54/78] fix: round signed values, not a constant

---
 internal/util/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 8c68656..85d68db 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -93,7 +93,7 @@ func Round2(x int, n int) int {
 
 func Round2Signed(x int, n int) int {
 	if x >= 0 {
-		return Round2(2, n)
+		return Round2(x, n)
 	} else {
 		return -Round2(-x, n)
 	}
-- 
2.43.0


From 47d2642a388a7dd575aa44e9a2d62299bce5136f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:48 +0000
Subject: [PATCH 55/78] fix: reverse every bit of an index

---
 internal/util/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 85d68db..7892f1b 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -243,7 +243,7 @@ func Sin128(angle int) int {
 func Brev(numBits int, x int) int {
 	t := 0
 	for i := 0; i < numBits; i++ {
-		bit := (x >> 1) & 1
+		bit := (x >> i) & 1
 		t += bit << (numBits - 1 - i)
 	}
 
-- 
2.43.0


From 462d2ea0ffd1663ff03c7cd2795dde6455a5c43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:51 +0000
Subject: [PATCH 56/78] fix: cosines beyond the first quarter

---
 internal/util/util.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 7892f1b..a68a1b1 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -223,17 +223,17 @@ var Cos128_Lookup = []int{
 
 func Cos128(angle int) int {
 	angle2 := angle & 255
-	if angle2 >= 0 || angle2 <= 64 {
+	if angle2 >= 0 && angle2 <= 64 {
 		return Cos128_Lookup[angle2]
 	}
-	if angle2 >= 64 || angle2 <= 128 {
+	if angle2 >= 64 && angle2 <= 128 {
 		return Cos128_Lookup[128-angle2] * -1
 	}
-	if angle2 >= 128 || angle2 <= 192 {
+	if angle2 >= 128 && angle2 <= 192 {
 		return Cos128_Lookup[angle2-128] * -1
 	}
 
-	return Cos128_Lookup[256-angle2] * -1
+	return Cos128_Lookup[256-angle2]
 }
 
 func Sin128(angle int) int {
-- 
2.43.0


From b22180fab1c002410f57c4fb138122a581dabe76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:53 +0000
Subject: [PATCH 57/78] fix: keep AC quantizers apart from DC quantizers

---
 internal/tilegroup/reconstruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/reconstruct.go b/internal/tilegroup/reconstruct.go
index b50e99e..237cf44 100644
--- a/internal/tilegroup/reconstruct.go
+++ b/internal/tilegroup/reconstruct.go
@@ -127,7 +127,7 @@ func (t *TileGroup) getAcQuant(plane int, sh sequenceheader.SequenceHeader, uh u
 }
 
 func acQ(b int, sh sequenceheader.SequenceHeader) int {
-	return Dc_Qlookup[(sh.ColorConfig.BitDepth-8)>>1][util.Clip3(0, 255, b)]
+	return Ac_Qlookup[(sh.ColorConfig.BitDepth-8)>>1][util.Clip3(0, 255, b)]
 }
 
 var Dc_Qlookup = [][]int{
-- 
2.43.0


From 54a75b17838dbbc9c0a7aed52c38bbc0a1992711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:55 +0000
Subject: [PATCH 58/78] fix: give the inverse transform its buffers

---
 internal/tilegroup/tile_group.go | 4 ++--
 internal/tilegroup/transform.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 0a9b979..3040904 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -250,8 +250,8 @@ type TileGroup struct {
 	TxType            int
 	PlaneTxType       int
 	TxTypes           [2][2]int
-	T                 []int
-	Residual          [][]int
+	T                 [64]int
+	Residual          [64][64]int
 	LoopFilterTxSizes [3][2][2]int
 
 	NewMvContext  int
diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index 3b7452f..67c47d8 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -382,8 +382,8 @@ const SINPI_4_9 = 3803
 // 7.13.2.6 Inverse ADST4 process
 func (t *TileGroup) inverseADST4(r int) {
 	// TODO: bistream conformance precision ???
-	s := []int{}
-	x := []int{}
+	var s [7]int
+	var x [4]int
 
 	s[0] = SINPI_1_9 * t.T[0]
 	s[1] = SINPI_2_9 * t.T[0]
-- 
2.43.0


From b93e32c16cfd44843f8768a9af2fb430b4ca0f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:57 +0000
Subject: [PATCH 59/78] fix: transform the columns of the residual

---
 internal/tilegroup/transform.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index 67c47d8..dcacb2f 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -78,6 +78,10 @@ func (t *TileGroup) InverseTranform(txSz int, sh sequenceheader.SequenceHeader)
 	}
 
 	for j := 0; j < w; j++ {
+		for i := 0; i < h; i++ {
+			t.T[i] = t.Residual[i][j]
+		}
+
 		if t.Lossless {
 			t.inverseWalshHadamardTransform(0)
 		} else if t.PlaneTxType == DCT_DCT ||
-- 
2.43.0


From 2c9ef2b6732832e9ec258759f2c288cfce5418b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:59 +0000
Subject: [PATCH 60/78] fix: butterfly rotation

---
 internal/tilegroup/transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index dcacb2f..2483f2c 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -117,7 +117,7 @@ func (t *TileGroup) b(a int, b int, angle int, flag int, r int) {
 		return
 	}
 	x := t.T[a]*util.Cos128(angle) - t.T[b]*util.Sin128(angle)
-	y := t.T[a]*util.Sin128(angle) - t.T[b]*util.Cos128(angle)
+	y := t.T[a]*util.Sin128(angle) + t.T[b]*util.Cos128(angle)
 	t.T[a] = util.Round2(x, 12)
 	t.T[b] = util.Round2(y, 12)
 }
-- 
2.43.0


From e72d0ec09d6ceea2dcc4009e2bead0fd014c4fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:01 +0000
Subject: [PATCH 61/78] fix: output order of the eight point ADST

---
 internal/tilegroup/transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index 2483f2c..ba36ec2 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -440,7 +440,7 @@ func (t *TileGroup) inverseADST8(r int) {
 		t.b(2+4*i, 3+4*i, 32, 1, r)
 	}
 
-	t.inverseADSTOutputArrayPermutation(4)
+	t.inverseADSTOutputArrayPermutation(3)
 }
 
 // 7.13.2.8 Inverse ADST16 process
-- 
2.43.0


From 47b2e28cafe2ac1afe2416898324f789c7e7ada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:03 +0000
Subject: [PATCH 62/78] fix: reconstruct blocks that have coefficients

---
 internal/tilegroup/coeffs.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/internal/tilegroup/coeffs.go b/internal/tilegroup/coeffs.go
index f5e41cf..a9cf742 100644
--- a/internal/tilegroup/coeffs.go
+++ b/internal/tilegroup/coeffs.go
@@ -87,7 +87,6 @@ func (t *TileGroup) coeffs(plane int, startX int, startY int, txSz int, b *bitst
 			eobPt = eob_pt_1024 + 1
 		}
 
-		var eob int
 		if eobPt < 2 {
 			eob = eobPt
 		} else {
-- 
2.43.0


From 3c56cb00c482d0f864b4a7c3d1cd6079f93ed1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:05 +0000
Subject: [PATCH 63/78] fix: edges of intra prediction

---
 internal/tilegroup/predict_intra.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index eac316b..3c3f7a4 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -25,7 +25,7 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 		maxY = ((state.MiRows * MI_SIZE) >> util.Int(sh.ColorConfig.SubsamplingY)) - 1
 	}
 
-	for i := 0; i < w+h-1; i++ {
+	for i := 0; i < w+h; i++ {
 		if util.Int(haveAbove) == 0 && util.Int(haveLeft) == 1 {
 			if x-1 == -1 {
 				t.AboveRow[i] = state.CurrFrame[plane][y][len(state.CurrFrame[plane][y])-1]
@@ -44,11 +44,11 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 		}
 	}
 
-	for i := 0; i < w+h-1; i++ {
+	for i := 0; i < w+h; i++ {
 		if util.Int(haveLeft) == 0 && util.Int(haveAbove) == 1 {
 			t.LeftCol[i] = state.CurrFrame[plane][yMinusOne][x]
 		} else if util.Int(haveLeft) == 0 && util.Int(haveAbove) == 0 {
-			t.AboveRow[i] = (1 << (sh.ColorConfig.BitDepth - 1)) + 1
+			t.LeftCol[i] = (1 << (sh.ColorConfig.BitDepth - 1)) + 1
 
 		} else {
 			leftLimit := util.Min(maxY, y+h-1)
@@ -57,9 +57,9 @@ func (t *TileGroup) predictIntra(plane int, x int, y int, haveLeft bool, haveAbo
 			}
 
 			if x-1 == -1 {
-				t.AboveRow[i] = state.CurrFrame[plane][util.Min(leftLimit, y+i)][len(state.CurrFrame[plane][util.Min(leftLimit, y+i)])-1]
+				t.LeftCol[i] = state.CurrFrame[plane][util.Min(leftLimit, y+i)][len(state.CurrFrame[plane][util.Min(leftLimit, y+i)])-1]
 			} else {
-				t.AboveRow[i] = state.CurrFrame[plane][util.Min(leftLimit, y+i)][x-1]
+				t.LeftCol[i] = state.CurrFrame[plane][util.Min(leftLimit, y+i)][x-1]
 			}
 		}
 	}
-- 
2.43.0


From 0f7072f991d908ccdf602e6c4a90537a43f3be9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:08 +0000
Subject: [PATCH 64/78] fix: DC prediction from the samples above

---
 internal/tilegroup/predict_intra.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 3c3f7a4..e034245 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -356,6 +356,18 @@ func (t *TileGroup) dcIntraPredictionProcess(haveLeft bool, haveAbove bool, log2
 			}
 		}
 
+	} else if !haveLeft && haveAbove {
+		for i := 0; i < h; i++ {
+			for j := 0; j < w; j++ {
+				sum := 0
+				for k := 0; k < w; k++ {
+					sum += t.AboveRow[k]
+				}
+				aboveAvg := util.Clip1((sum+(w>>1))>>log2W, sh.ColorConfig.BitDepth)
+				pred[i][j] = aboveAvg
+			}
+		}
+
 	} else if !haveLeft && !haveAbove {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
-- 
2.43.0


From 172aca31a34a29be268c60f47ba85d3fb5404a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:10 +0000
Subject: [PATCH 65/78] fix: horizontal prediction

---
 internal/tilegroup/predict_intra.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index e034245..ad39438 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -318,7 +318,7 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 	} else if pAngle == 180 {
 		for j := 0; j < w; j++ {
 			for i := 0; i < h; i++ {
-				pred[i][j] = t.LeftCol[j]
+				pred[i][j] = t.LeftCol[i]
 			}
 		}
 	}
-- 
2.43.0


From e2ea99332227e7321fe07df9b7caf33fbc1850d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:13 +0000
Subject: [PATCH 66/78] fix: positions of directional prediction

---
 internal/tilegroup/predict_intra.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index ad39438..7735b70 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -262,7 +262,7 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 	if pAngle < 90 {
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
-				idx := (i + i) * dx
+				idx := (i + 1) * dx
 				base := (idx >> (6 - util.Int(upsampleAbove))) + (j << util.Int(upsampleAbove))
 				shift := ((idx << util.Int(upsampleAbove)) >> 1) & 0x1F
 				maxBaseX := (w + h - 1) << util.Int(upsampleAbove)
@@ -303,7 +303,7 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 		for i := 0; i < h; i++ {
 			for j := 0; j < w; j++ {
 				idx := (j + 1) * dy
-				base := (idx >> (6 >> util.Int(upsampleLeft))) + (i << util.Int(upsampleLeft))
+				base := (idx >> (6 - util.Int(upsampleLeft))) + (i << util.Int(upsampleLeft))
 				shift := ((idx << util.Int(upsampleLeft)) >> 1) & 0x1F
 				pred[i][j] = util.Round2(t.LeftCol[base]*(32-shift)+t.LeftCol[base+1]*shift, 5)
 			}
-- 
2.43.0


From 8994aaa1f3f4d807054e2250f4f0fe1a806330a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:15 +0000
Subject: [PATCH 67/78] fix: directional prediction from the corner sample

---
 internal/tilegroup/predict_intra.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 7735b70..f427a09 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -283,18 +283,12 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 
 				if base >= -(1 << util.Int(upsampleAbove)) {
 					shift := ((idx << util.Int(upsampleAbove)) >> 1) & 0x1F
-					pred[i][j] = util.Round2(t.AboveRow[base]*(32-shift)+t.AboveRow[base+1]*shift, 5)
+					pred[i][j] = util.Round2(t.AboveRow[edgeIndex(base)]*(32-shift)+t.AboveRow[edgeIndex(base+1)]*shift, 5)
 				} else {
 					idx = (i << 6) - (j+1)*dy
 					base = idx >> (6 - util.Int(upsampleLeft))
 					shift := ((idx << util.Int(upsampleLeft)) >> 1) & 0x1F
-
-					// handle negative indezes
-					if base < 0 {
-						pred[i][j] = util.Round2(t.LeftCol[len(t.LeftCol)+base]*(32-shift)+t.LeftCol[base+1]*shift, 5)
-					} else {
-						pred[i][j] = util.Round2(t.LeftCol[base]*(32-shift)+t.LeftCol[base+1]*shift, 5)
-					}
+					pred[i][j] = util.Round2(t.LeftCol[edgeIndex(base)]*(32-shift)+t.LeftCol[edgeIndex(base+1)]*shift, 5)
 				}
 			}
 		}
@@ -326,6 +320,15 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 	return pred
 }
 
+// edgeIndex maps the index of an edge sample, which can be negative, to its place in AboveRow or LeftCol
+func edgeIndex(i int) int {
+	if i < 0 {
+		return 32768 + i
+	}
+
+	return i
+}
+
 // 7.11.2.5 DC intra prediction process
 func (t *TileGroup) dcIntraPredictionProcess(haveLeft bool, haveAbove bool, log2W int, log2H int, w int, h int, sh sequenceheader.SequenceHeader) [15][15]int {
 	var pred [15][15]int
-- 
2.43.0


From 467932b44788f88bd30cbfa072c5e937b74cc4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:18 +0000
Subject: [PATCH 68/78] fix: number of samples the intra edge filter takes

---
 internal/tilegroup/predict_intra.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index f427a09..86ceb3a 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -204,7 +204,7 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 				if pAngle < 90 {
 					sumPart = h
 				}
-				numPx := util.Min(w, (maxX-x+1)) + sumPart
+				numPx := util.Min(w, (maxX-x+1)) + sumPart + 1
 				t.intraEdgeFilterProcess(numPx, strength, 0)
 			}
 
@@ -214,7 +214,7 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 				if pAngle > 180 {
 					sumPart = w
 				}
-				numPx := util.Min(h, (maxY-y+1)) + sumPart
+				numPx := util.Min(h, (maxY-y+1)) + sumPart + 1
 				t.intraEdgeFilterProcess(numPx, strength, 1)
 			}
 		}
-- 
2.43.0


From af50988b02af3f894c52c8e2228251428e070e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:20 +0000
Subject: [PATCH 69/78] fix: filter the corner sample once

---
 internal/tilegroup/predict_intra.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 86ceb3a..2c0ca54 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -193,8 +193,9 @@ func (t *TileGroup) directionalIntraPredictionProcess(plane int, x int, y int, h
 		var filterType int
 		if pAngle != 90 && pAngle != 180 {
 			if pAngle > 90 && pAngle < 180 && (w+h) >= 24 {
-				t.LeftCol[len(t.LeftCol)-1] = t.filterCornerProcess()
-				t.AboveRow[len(t.AboveRow)-1] = t.filterCornerProcess()
+				corner := t.filterCornerProcess()
+				t.LeftCol[len(t.LeftCol)-1] = corner
+				t.AboveRow[len(t.AboveRow)-1] = corner
 			}
 			filterType = util.Int(t.getFilterType(plane, state, sh))
 
-- 
2.43.0


From d03c4b090f9ae820cc560ab58960c37dd12ce039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:23 +0000
Subject: [PATCH 70/78] fix: intra edge filter

---
 internal/tilegroup/predict_intra.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 2c0ca54..4b238f2 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -632,26 +632,26 @@ func (t *TileGroup) intraEdgeFilterProcess(sz int, strength int, left int) {
 		return
 	}
 
-	var edge []int
+	edge := make([]int, sz)
 	for i := 0; i < sz; i++ {
 		if util.Bool(left) {
-			edge[i] = t.LeftCol[i-1]
+			edge[i] = t.LeftCol[edgeIndex(i-1)]
 		} else {
-			edge[i] = t.AboveRow[i-1]
+			edge[i] = t.AboveRow[edgeIndex(i-1)]
 		}
 	}
 
-	for i := 0; i < sz; i++ {
+	for i := 1; i < sz; i++ {
 		s := 0
 		for j := 0; j < INTRA_EDGE_TAPS; j++ {
-			k := util.Clip3(0, sz-12, i-2+j)
+			k := util.Clip3(0, sz-1, i-2+j)
 			s += Intra_Edge_Kernel[strength-1][j] * edge[k]
-			if left == 1 {
-				t.LeftCol[i-1] = (s + 8) >> 4
-			}
-			if left == 0 {
-				t.AboveRow[i-1] = (s + 8) >> 4
-			}
+		}
+		if left == 1 {
+			t.LeftCol[i-1] = (s + 8) >> 4
+		}
+		if left == 0 {
+			t.AboveRow[i-1] = (s + 8) >> 4
 		}
 	}
 }
-- 
2.43.0


From 3b2347537c8f1a1e439115478a819d8ef20fbb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:25 +0000
Subject: [PATCH 71/78] fix: intra edge upsampling

---
 internal/tilegroup/predict_intra.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 4b238f2..c1e2290 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -610,10 +610,10 @@ func (t *TileGroup) intraEdgeUpsampleProcess(numPx int, dir bool, sh sequencehea
 		buf = &t.LeftCol
 	}
 
-	var dup []int
+	dup := make([]int, numPx+3)
 	dup[0] = buf[len(buf)-1]
 	for i := -1; i < numPx; i++ {
-		dup[i+2] = buf[i]
+		dup[i+2] = buf[edgeIndex(i)]
 	}
 	dup[numPx+2] = buf[numPx-1]
 
@@ -621,7 +621,7 @@ func (t *TileGroup) intraEdgeUpsampleProcess(numPx int, dir bool, sh sequencehea
 	for i := 0; i < numPx; i++ {
 		s := -dup[i] + (9 * dup[i+1]) + (9 * dup[i+2]) - dup[i+3]
 		s = util.Clip1(util.Round2(s, 4), sh.ColorConfig.BitDepth)
-		buf[2*i-1] = s
+		buf[edgeIndex(2*i-1)] = s
 		buf[2*i] = dup[i+2]
 	}
 }
-- 
2.43.0


From 19af50c8efd1130ddb8ee88a8e1884919e024e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:27 +0000
Subject: [PATCH 72/78] fix: strength of the intra edge filter

---
 internal/tilegroup/predict_intra.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index c1e2290..31c5b38 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -539,6 +539,10 @@ func (t *TileGroup) intraEdgeFilterStrengthSelectionProcess(w int, h int, filter
 				strength = 1
 			}
 		} else if blkWh <= 16 {
+			if d >= 40 {
+				strength = 1
+			}
+		} else if blkWh <= 24 {
 			if d >= 8 {
 				strength = 1
 			}
@@ -553,9 +557,11 @@ func (t *TileGroup) intraEdgeFilterStrengthSelectionProcess(w int, h int, filter
 			if d >= 4 {
 				strength = 2
 			}
-			if d >= 4 {
+			if d >= 32 {
 				strength = 3
 			}
+		} else {
+			strength = 3
 		}
 	} else {
 		if blkWh <= 8 {
-- 
2.43.0


From 32b6d6b6955fab25392994fd21389417b68aa674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:30 +0000
Subject: [PATCH 73/78] fix: smooth neighbours of intra edges

---
 internal/tilegroup/predict_intra.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tilegroup/predict_intra.go b/internal/tilegroup/predict_intra.go
index 31c5b38..64e5a51 100644
--- a/internal/tilegroup/predict_intra.go
+++ b/internal/tilegroup/predict_intra.go
@@ -490,7 +490,7 @@ func (t *TileGroup) getFilterType(plane int, state *state.State, sh sequencehead
 		c := state.MiCol
 
 		if plane > 0 {
-			if sh.ColorConfig.SubsamplingX && util.Bool(state.MiCol&1) {
+			if sh.ColorConfig.SubsamplingX && !util.Bool(state.MiCol&1) {
 				c++
 			}
 			if sh.ColorConfig.SubsamplingY && util.Bool(state.MiRow&1) {
@@ -513,11 +513,11 @@ func (t *TileGroup) getFilterType(plane int, state *state.State, sh sequencehead
 			if sh.ColorConfig.SubsamplingX && util.Bool(state.MiCol&1) {
 				c--
 			}
-			if sh.ColorConfig.SubsamplingY && util.Bool(state.MiRow&1) {
+			if sh.ColorConfig.SubsamplingY && !util.Bool(state.MiRow&1) {
 				r++
 			}
 		}
-		aboveSmooth = t.isSmooth(r, c, plane, state)
+		leftSmooth = t.isSmooth(r, c, plane, state)
 	}
 
 	return aboveSmooth || leftSmooth
-- 
2.43.0


From d77bf2b6a80c8e74b1d76cba1e560cf3834aac6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:32 +0000
Subject: [PATCH 74/78] fix: alpha of the first chroma plane

---
 internal/tilegroup/residual.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/residual.go b/internal/tilegroup/residual.go
index 354bc96..231fa4b 100644
--- a/internal/tilegroup/residual.go
+++ b/internal/tilegroup/residual.go
@@ -224,7 +224,7 @@ func (t *TileGroup) predictChromaFromLuma(plane int, startX int, startY int, txS
 	subX := util.Int(sh.ColorConfig.SubsamplingX)
 	subY := util.Int(sh.ColorConfig.SubsamplingY)
 	var alpha int
-	if plane == 0 {
+	if plane == 1 {
 		alpha = t.CflAlphaU
 	} else {
 		alpha = t.CflAlphaV
-- 
2.43.0


From 6c6f7d2002d71029f91a785d422ae4204a6cd37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:48 +0000
Subject: [PATCH 75/78] fix: do not upscale frames without superresolution

---
 internal/tilegroup/decode_frame_wrapup.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/tilegroup/decode_frame_wrapup.go b/internal/tilegroup/decode_frame_wrapup.go
index c648298..34d76c1 100644
--- a/internal/tilegroup/decode_frame_wrapup.go
+++ b/internal/tilegroup/decode_frame_wrapup.go
@@ -11,6 +11,15 @@ import (
 // 7.16 Upscaling process
 func (t *TileGroup) upscalingProcess(inputFrame [3][16][16]int, state *state.State, sh sequenceheader.SequenceHeader, uh uncompressedheader.UncompressedHeader) [3][9][9]int {
 	var outputFrame [3][9][9]int
+	if !uh.UseSuperRes {
+		for plane := range outputFrame {
+			for y := range outputFrame[plane] {
+				copy(outputFrame[plane][y][:], inputFrame[plane][y][:])
+			}
+		}
+		return outputFrame
+	}
+
 	for plane := 0; plane < sh.ColorConfig.NumPlanes; plane++ {
 		var subX, subY int
 		if plane > 0 {
-- 
2.43.0


From 0f12f047005aced0e4082d170b17e791aecff3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:51 +0000
Subject: [PATCH 76/78] fix: output frames of more than one sample

---
 internal/tilegroup/output.go     | 33 ++++++++++++++++++++++++--------
 internal/tilegroup/tile_group.go |  6 +++---
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/internal/tilegroup/output.go b/internal/tilegroup/output.go
index 1588c50..b63d626 100644
--- a/internal/tilegroup/output.go
+++ b/internal/tilegroup/output.go
@@ -24,10 +24,11 @@ func (t *TileGroup) outputProcess(state *state.State, uh uncompressedheader.Unco
 func (t *TileGroup) intermediateOutputPreparation(uh uncompressedheader.UncompressedHeader, state *state.State, sh *sequenceheader.SequenceHeader) (int, int, int, int) {
 	var w, h, subX, subY int
 	if uh.ShowExistingFrame {
-		w := state.RefUpscaledWidth[uh.FrameToShowMapIdx]
-		h := state.RefFrameHeight[uh.FrameToShowMapIdx]
-		subX := state.RefSubsamplingX[uh.FrameToShowMapIdx]
-		subY := state.RefSubsamplingY[uh.FrameToShowMapIdx]
+		w = state.RefUpscaledWidth[uh.FrameToShowMapIdx]
+		h = state.RefFrameHeight[uh.FrameToShowMapIdx]
+		subX = state.RefSubsamplingX[uh.FrameToShowMapIdx]
+		subY = state.RefSubsamplingY[uh.FrameToShowMapIdx]
+		t.allocateOutput(w, h, subX, subY)
 
 		for x := 0; x < w; x++ {
 			for y := 0; y < h; y++ {
@@ -50,10 +51,11 @@ func (t *TileGroup) intermediateOutputPreparation(uh uncompressedheader.Uncompre
 		// TODO: does this assignment work? sequenceheader isn't supposed to get modified this way
 		sh.ColorConfig.BitDepth = state.RefBitDepth[uh.FrameToShowMapIdx]
 	} else {
-		w := uh.UpscaledWidth
-		h := uh.FrameHeight
-		subX := util.Int(sh.ColorConfig.SubsamplingX)
-		subY := util.Int(sh.ColorConfig.SubsamplingY)
+		w = uh.UpscaledWidth
+		h = uh.FrameHeight
+		subX = util.Int(sh.ColorConfig.SubsamplingX)
+		subY = util.Int(sh.ColorConfig.SubsamplingY)
+		t.allocateOutput(w, h, subX, subY)
 
 		for x := 0; x < w; x++ {
 			for y := 0; y < h; y++ {
@@ -77,6 +79,21 @@ func (t *TileGroup) intermediateOutputPreparation(uh uncompressedheader.Uncompre
 	return w, h, subX, subY
 }
 
+// allocateOutput makes room for the samples of an output frame
+func (t *TileGroup) allocateOutput(w int, h int, subX int, subY int) {
+	plane := func(w int, h int) [][]int {
+		rows := make([][]int, h)
+		for y := range rows {
+			rows[y] = make([]int, w)
+		}
+		return rows
+	}
+
+	t.OutY = plane(w, h)
+	t.OutU = plane((w+subX)>>subX, (h+subY)>>subY)
+	t.OutV = plane((w+subX)>>subX, (h+subY)>>subY)
+}
+
 // 7.18.3. Film grain syntehsis
 func (t *TileGroup) filmGrainSynthesis(w int, h int, subX int, subY int) {
 	panic("not implemented")
diff --git a/internal/tilegroup/tile_group.go b/internal/tilegroup/tile_group.go
index 3040904..abf523f 100644
--- a/internal/tilegroup/tile_group.go
+++ b/internal/tilegroup/tile_group.go
@@ -263,9 +263,9 @@ type TileGroup struct {
 	PlaneEndX    int
 	PlaneEndY    int
 
-	OutY [1][1]int
-	OutU [1][1]int
-	OutV [1][1]int
+	OutY [][]int
+	OutU [][]int
+	OutV [][]int
 }
 
 func NewTileGroup(sz int, b *bitstream.BitStream, state *state.State, uh uncompressedheader.UncompressedHeader, sh sequenceheader.SequenceHeader) TileGroup {
-- 
2.43.0


From 39b17466ca648d74cbebcbace1c173b88bae399d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:09 +0000
Subject: [PATCH 77/78] fix: rows of the column transform's output

---
 internal/tilegroup/transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tilegroup/transform.go b/internal/tilegroup/transform.go
index ba36ec2..95fee0f 100644
--- a/internal/tilegroup/transform.go
+++ b/internal/tilegroup/transform.go
@@ -103,7 +103,7 @@ func (t *TileGroup) InverseTranform(txSz int, sh sequenceheader.SequenceHeader)
 		}
 
 		for i := 0; i < h; i++ {
-			t.Residual[i][j] = util.Round2(t.T[j], colShift)
+			t.Residual[i][j] = util.Round2(t.T[i], colShift)
 		}
 	}
 }
-- 
2.43.0


From a9f4230aa0497c1285328a931b1134bc41a0d663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:08 +0000
Subject: [PATCH 78/78] fix: quantizer index of a segment with delta_q

---
 internal/uncompressedheader/uncompressed_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/uncompressedheader/uncompressed_header.go b/internal/uncompressedheader/uncompressed_header.go
index 9a9409d..b037cac 100644
--- a/internal/uncompressedheader/uncompressed_header.go
+++ b/internal/uncompressedheader/uncompressed_header.go
@@ -809,7 +809,7 @@ func (u *UncompressedHeader) GetQIndex(ignoreDeltaQ int, segmentId int, s *state
 		qindex := u.BaseQIdx + data
 
 		if ignoreDeltaQ == 0 && u.DeltaQPresent {
-			qindex = s.CurrentQIndex
+			qindex = s.CurrentQIndex + data
 		}
 
 		return util.Clip3(0, 255, qindex)
-- 
2.43.0

