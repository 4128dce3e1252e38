From eb8d3e73f4739e7f06cf83729185e7a75d7497f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 1/5] fix: keep the fast readers' 16 byte loads inside the
 input stream

ReadAllFast and ReadAllDeltaFast counted a trailing partial group as a full
4 bytes of padding, so for e.g. 17 one byte integers the last vector load ran
up to 3 bytes past the end of the stream (a fault when the stream ends at a
page boundary). Only count full groups as padding.
---
 pkg/stream/reader/reader_amd64.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pkg/stream/reader/reader_amd64.go b/pkg/stream/reader/reader_amd64.go
index eb03649..b70cdc6 100644
--- a/pkg/stream/reader/reader_amd64.go
+++ b/pkg/stream/reader/reader_amd64.go
@@ -34,7 +34,11 @@ func ReadAllFast(count int, stream []byte, out []uint32) {
 		// since it will load the last 3 (unused) bytes. However, when attempting
 		// to decode the last three groups of 4, each load will need an extra
 		// 1, 2, or 3 bytes (respectively) in order to be considered safe.
-		lowest32 = ((ctrlLen - 3) * 4) &^ 31
+		//
+		// Only the groups that hold four integers count here: a trailing partial
+		// group can be as short as one byte, so it isn't enough padding by itself.
+		quads    = count / 4
+		lowest32 = ((quads - 3) * 4) &^ 31
 	)
 
 	for ; decoded < lowest32; decoded += 32 {
@@ -86,9 +90,9 @@ func ReadAllFast(count int, stream []byte, out []uint32) {
 		ctrlPos += 8
 	}
 
-	// Must be strictly less than the last 4 blocks of integers, since we can't safely
+	// Must be strictly less than the last 4 full blocks of integers, since we can't safely
 	// decode 8 if our ctrl pos starts at the first 4 in the block.
-	for ; ctrlPos < ctrlLen-4; ctrlPos += 2 {
+	for ; ctrlPos < quads-4; ctrlPos += 2 {
 		ctrl := uint16(stream[ctrlPos]) | uint16(stream[ctrlPos+1])<<8
 		decode.Get8uint32FastAsm(
 			stream[dataPos:],
@@ -144,7 +148,11 @@ func ReadAllDeltaFast(count int, stream []byte, out []uint32, prev uint32) {
 		// since it will load the last 3 (unused) bytes. However, when attempting
 		// to decode the last three groups of 4, each load will need an extra
 		// 1, 2, or 3 bytes (respectively) in order to be considered safe.
-		lowest32 = ((ctrlLen - 3) * 4) &^ 31
+		//
+		// Only the groups that hold four integers count here: a trailing partial
+		// group can be as short as one byte, so it isn't enough padding by itself.
+		quads    = count / 4
+		lowest32 = ((quads - 3) * 4) &^ 31
 	)
 
 	for ; decoded < lowest32; decoded += 32 {
@@ -201,9 +209,9 @@ func ReadAllDeltaFast(count int, stream []byte, out []uint32, prev uint32) {
 		prev = nums[31]
 	}
 
-	// Must be strictly less than the last 4 blocks of integers, since we can't safely
+	// Must be strictly less than the last 4 full blocks of integers, since we can't safely
 	// decode 8 if our ctrl pos starts at the first 4 in the block.
-	for ; ctrlPos < ctrlLen-4; ctrlPos += 2 {
+	for ; ctrlPos < quads-4; ctrlPos += 2 {
 		ctrl := uint16(stream[ctrlPos]) | uint16(stream[ctrlPos+1])<<8
 		decode.Get8uint32DeltaFastAsm(
 			stream[dataPos:],
-- 
2.43.0


From 5d59615f624b5e43d0896ac6234336199aeb4eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:52 +0000
Subject: [PATCH 2/5] fix: make the non-amd64 fallbacks compile

The stubs for the accelerated funcs had drifted from their amd64 counterparts:
Get8uint32Fast and Get8uint32DeltaFast had a stale return value, and
ReadAllDeltaFast and WriteAllDeltaFast were missing, so no package that decodes
or streams built on anything but amd64.
---
 pkg/decode/decode_base.go        | 4 ++--
 pkg/stream/reader/reader_base.go | 4 ++++
 pkg/stream/writer/writer_base.go | 4 ++++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/decode/decode_base.go b/pkg/decode/decode_base.go
index decaee5..ee83b9c 100644
--- a/pkg/decode/decode_base.go
+++ b/pkg/decode/decode_base.go
@@ -10,10 +10,10 @@ func GetMode() shared.PerformanceMode {
 	return shared.Normal
 }
 
-func Get8uint32Fast(in []byte, out []uint32, ctrl uint16) int {
+func Get8uint32Fast(in []byte, out []uint32, ctrl uint16) {
 	panic("unreachable")
 }
 
-func Get8uint32DeltaFast(in []byte, out []uint32, ctrl uint16, prev uint32) int {
+func Get8uint32DeltaFast(in []byte, out []uint32, ctrl uint16, prev uint32) {
 	panic("unreachable")
 }
diff --git a/pkg/stream/reader/reader_base.go b/pkg/stream/reader/reader_base.go
index 18a7b86..7a6cdf4 100644
--- a/pkg/stream/reader/reader_base.go
+++ b/pkg/stream/reader/reader_base.go
@@ -5,3 +5,7 @@ package reader
 func ReadAllFast(count int, stream []byte, out []uint32) {
 	panic("unreachable")
 }
+
+func ReadAllDeltaFast(count int, stream []byte, out []uint32, prev uint32) {
+	panic("unreachable")
+}
diff --git a/pkg/stream/writer/writer_base.go b/pkg/stream/writer/writer_base.go
index 6a54520..7e815f0 100644
--- a/pkg/stream/writer/writer_base.go
+++ b/pkg/stream/writer/writer_base.go
@@ -5,3 +5,7 @@ package writer
 func WriteAllFast(in []uint32) []byte {
 	panic("unreachable")
 }
+
+func WriteAllDeltaFast(in []uint32, prev uint32) []byte {
+	panic("unreachable")
+}
-- 
2.43.0


From c628db5385decd208b2bde29689122e9bec5ce7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:12 +0000
Subject: [PATCH 3/5] fix: look for the end of the benchmark block after its
 start

The benchmark writer took the first closing fence of the README as the end of
the block, so a code block ahead of the benchmarks made it duplicate everything
between the two (and a missing fence made it panic).
---
 tools/parse_and_write_bench.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tools/parse_and_write_bench.go b/tools/parse_and_write_bench.go
index 740771c..a96f5ce 100644
--- a/tools/parse_and_write_bench.go
+++ b/tools/parse_and_write_bench.go
@@ -99,7 +99,13 @@ func main() {
 		log.Fatalf("couldn't find start sentinel")
 	}
 
-	restStart := bytes.Index(allData, bEnd)
+	// Only a fence that comes after the start sentinel can close the block.
+	blockStart := start + len(bStart)
+	blockLen := bytes.Index(allData[blockStart:], bEnd)
+	if blockLen < 0 {
+		log.Fatalf("couldn't find end sentinel")
+	}
+	restStart := blockStart + blockLen
 
 	var final []byte
 	final = append(final, allData[:start]...)
-- 
2.43.0


From 29aea3eb4e39b69c58c7e376261cf574e31a7536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:23 +0000
Subject: [PATCH 4/5] fix: keep RandUint32's generators within their byte
 length

The ranges are inclusive, so the 1, 2 and 3 byte generators could each return
the first number that needs one byte more.
---
 pkg/util/rand.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/util/rand.go b/pkg/util/rand.go
index 34ee6c8..4fa1f45 100644
--- a/pkg/util/rand.go
+++ b/pkg/util/rand.go
@@ -22,15 +22,15 @@ var (
 	generators = []generator{
 		// 1 byte,
 		func() uint32 {
-			return randUint32Range(0, 1<<8)
+			return randUint32Range(0, 1<<8-1)
 		},
 		// 2 byte,
 		func() uint32 {
-			return randUint32Range(1<<8, 1<<16)
+			return randUint32Range(1<<8, 1<<16-1)
 		},
 		// 3 byte,
 		func() uint32 {
-			return randUint32Range(1<<16, 1<<24)
+			return randUint32Range(1<<16, 1<<24-1)
 		},
 		// 4 byte,
 		func() uint32 {
-- 
2.43.0


From f2b7ee3e35303786d26858460afeb905140f2762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:50 +0000
Subject: [PATCH 5/5] fix: don't register avo's command line flags in programs
 using the codec

The assembly generator helpers lived in package shared, so every importer of
the codec also linked avo, whose init registers -out, -pkg, -log, -e, -stubs
and -cpuprofile on flag.CommandLine: a program defining one of those flags
panicked at start up. Move the helpers to a package only the generators use.
---
 pkg/decode/main/asm.go         |  8 ++++----
 pkg/encode/main/asm.go         | 12 ++++++------
 pkg/shared/{ => avogen}/asm.go |  5 ++++-
 3 files changed, 14 insertions(+), 11 deletions(-)
 rename pkg/shared/{ => avogen}/asm.go (83%)

diff --git a/pkg/decode/main/asm.go b/pkg/decode/main/asm.go
index 5d037a1..73a1092 100644
--- a/pkg/decode/main/asm.go
+++ b/pkg/decode/main/asm.go
@@ -7,7 +7,7 @@ import (
 	. "github.com/mmcloughlin/avo/build"
 	"github.com/mmcloughlin/avo/operand"
 	"github.com/mmcloughlin/avo/reg"
-	"github.com/theMPatel/streamvbyte-simdgo/pkg/shared"
+	"github.com/theMPatel/streamvbyte-simdgo/pkg/shared/avogen"
 )
 
 const (
@@ -88,13 +88,13 @@ func coreAlgorithm() (reg.VecVirtual, reg.VecVirtual) {
 	Load(Param(pCtrl), ctrl)
 
 	shuffleBase := Load(Param(pShuffle), GP64())
-	shuffleA := shared.CalculateShuffleAddrFromCtrl(shuffleBase, ctrl, false)
-	shuffleB := shared.CalculateShuffleAddrFromCtrl(shuffleBase, ctrl, true)
+	shuffleA := avogen.CalculateShuffleAddrFromCtrl(shuffleBase, ctrl, false)
+	shuffleB := avogen.CalculateShuffleAddrFromCtrl(shuffleBase, ctrl, true)
 
 	firstBlock := Load(Param(pIn).Base(), GP64())
 	secondBlock := GP64()
 	MOVQ(firstBlock, secondBlock)
-	lowerAddr, lowerSize := shared.LenValueAddr(ctrl, false, pLenTable)
+	lowerAddr, lowerSize := avogen.LenValueAddr(ctrl, false, pLenTable)
 
 	MOVBQZX(lowerAddr, lowerSize)
 	ADDQ(lowerSize, secondBlock)
diff --git a/pkg/encode/main/asm.go b/pkg/encode/main/asm.go
index fbf0648..8004f23 100644
--- a/pkg/encode/main/asm.go
+++ b/pkg/encode/main/asm.go
@@ -7,7 +7,7 @@ import (
 	. "github.com/mmcloughlin/avo/build"
 	"github.com/mmcloughlin/avo/operand"
 	"github.com/mmcloughlin/avo/reg"
-	"github.com/theMPatel/streamvbyte-simdgo/pkg/shared"
+	"github.com/theMPatel/streamvbyte-simdgo/pkg/shared/avogen"
 )
 
 const (
@@ -48,7 +48,7 @@ func differential() {
 		log.Fatalf("failed to get addr of prev")
 	}
 
-	firstFour, secondFour := shared.Load8(pIn)
+	firstFour, secondFour := avogen.Load8(pIn)
 	prev := XMM()
 	VPALIGNR(operand.Imm(12), firstFour, secondFour, prev)
 	VPSUBD(prev, secondFour, secondFour)
@@ -62,7 +62,7 @@ func differential() {
 
 func regular() {
 	TEXT(name, NOSPLIT, signature)
-	coreAlgorithm(shared.Load8(pIn))
+	coreAlgorithm(avogen.Load8(pIn))
 }
 
 func coreAlgorithm(firstFour, secondFour reg.VecVirtual) {
@@ -86,8 +86,8 @@ func coreAlgorithm(firstFour, secondFour reg.VecVirtual) {
 	Store(ctrl.As16(), Return(pR))
 
 	shuffleBase := Load(Param(pShuffle), GP64())
-	firstShuffle := shared.CalculateShuffleAddrFromCtrl(shuffleBase, ctrl, false)
-	secondShuffle := shared.CalculateShuffleAddrFromCtrl(shuffleBase, ctrl, true)
+	firstShuffle := avogen.CalculateShuffleAddrFromCtrl(shuffleBase, ctrl, false)
+	secondShuffle := avogen.CalculateShuffleAddrFromCtrl(shuffleBase, ctrl, true)
 
 	VPSHUFB(firstShuffle, firstFour, firstFour)
 	VPSHUFB(secondShuffle, secondFour, secondFour)
@@ -96,7 +96,7 @@ func coreAlgorithm(firstFour, secondFour reg.VecVirtual) {
 	secondAddr := GP64()
 	MOVQ(firstAddr, secondAddr)
 
-	lenAddr, lenValue := shared.LenValueAddr(ctrl, false, pLenTable)
+	lenAddr, lenValue := avogen.LenValueAddr(ctrl, false, pLenTable)
 
 	MOVBQZX(lenAddr, lenValue)
 	ADDQ(lenValue, secondAddr)
diff --git a/pkg/shared/asm.go b/pkg/shared/avogen/asm.go
similarity index 83%
rename from pkg/shared/asm.go
rename to pkg/shared/avogen/asm.go
index 34d5e66..7499522 100644
--- a/pkg/shared/asm.go
+++ b/pkg/shared/avogen/asm.go
@@ -1,4 +1,7 @@
-package shared
+// Package avogen holds the helpers shared by the assembly generators. It is
+// separate from package shared because importing avo registers its command
+// line flags globally, which must not leak into programs using the codec.
+package avogen
 
 import (
 	. "github.com/mmcloughlin/avo/build"
-- 
2.43.0

