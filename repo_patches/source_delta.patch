From 84639ac31d8ff58e6a74821be9921cbbfacb1c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 01/59] fix: pad Keccak messages missing exactly one byte with
 0x81

Pad101Bits started another block and PadBits101 emitted an over-long block when
the message length is 135 modulo 136; GetRoundIndex named the block after the
last one.
---
 circuits/gadgets/keccak/pad.go       | 16 ++++++----------
 circuits/gadgets/keccak/periphery.go | 14 +++++++++-----
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/circuits/gadgets/keccak/pad.go b/circuits/gadgets/keccak/pad.go
index 57156e8..6ffb158 100644
--- a/circuits/gadgets/keccak/pad.go
+++ b/circuits/gadgets/keccak/pad.go
@@ -75,19 +75,15 @@ func Pad101Bits(
 		}
 
 		actualLen := j
-		rounds := (actualLen+8)/1088 + 1
+		rounds := actualLen/1088 + 1
 
-		// insert the padding part
-		for ; j < actualLen+7; j++ {
+		// insert the padding part: the first padding byte is 0x01, the last byte of the block gets 0x80. If only
+		// one byte is missing they are the same byte, 0x81
+		for ; j < rounds*1088; j++ {
 			padded[i][j] = 0
 		}
-		padded[i][j] = 1
-		j++
-		for ; j < rounds*1088-8; j++ {
-			padded[i][j] = 0
-		}
-		padded[i][j] = 1
-		j++
+		padded[i][actualLen+7] = 1
+		padded[i][rounds*1088-8] = 1
 
 		// populate the rest with dummy zeros
 		for ; j < outBitsLen; j++ {
diff --git a/circuits/gadgets/keccak/periphery.go b/circuits/gadgets/keccak/periphery.go
index 65f53f5..7c97e92 100644
--- a/circuits/gadgets/keccak/periphery.go
+++ b/circuits/gadgets/keccak/periphery.go
@@ -37,7 +37,7 @@ func GetKeccakRoundForPaddedBytes(data []byte) int {
 }
 
 func GetRoundIndex(bitsLen int) int {
-	return (bitsLen + 8) / 1088
+	return bitsLen / 1088
 }
 
 func Bytes2BlockBits(bytes []byte) (bits []uint8) {
@@ -246,11 +246,15 @@ func PadBits101(api frontend.API, data []frontend.Variable, maxRound int) []fron
 	var missedLen = 1088 - len(data)%1088
 	var zeroBitLen = missedLen - 8*2
 
-	padBits = append(padBits, api.ToBinary(1, 8)...) // 1000, 0000
-	for i := 0; i < zeroBitLen; i++ {
-		padBits = append(padBits, 0) //00...0000
+	if missedLen == 8 {
+		padBits = append(padBits, api.ToBinary(129, 8)...) // 1000 0001
+	} else {
+		padBits = append(padBits, api.ToBinary(1, 8)...) // 1000, 0000
+		for i := 0; i < zeroBitLen; i++ {
+			padBits = append(padBits, 0) //00...0000
+		}
+		padBits = append(padBits, api.ToBinary(128, 8)...) // 0000 0001
 	}
-	padBits = append(padBits, api.ToBinary(128, 8)...) // 0000 0001
 
 	padZeroLen := maxRound*1088 - len(padBits)
 
-- 
2.43.0


From 8376aae3f6fef283ddad3f3ea1f61fa611508348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 02/59] fix: do not pad Keccak messages inside the caller's
 buffer

---
 circuits/gadgets/keccak/periphery.go | 3 ++-
 common/circuits/keccak.go            | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/keccak/periphery.go b/circuits/gadgets/keccak/periphery.go
index 7c97e92..0535390 100644
--- a/circuits/gadgets/keccak/periphery.go
+++ b/circuits/gadgets/keccak/periphery.go
@@ -24,7 +24,8 @@ func Pad101Bytes(data []byte) []byte {
 	if len(data)%136 == 0 {
 		miss = 136
 	}
-	data = append(data, 1)
+	// the padding must not be written into spare capacity of the caller's slice
+	data = append(data[:len(data):len(data)], 1)
 	for i := 0; i < miss-1; i++ {
 		data = append(data, 0)
 	}
diff --git a/common/circuits/keccak.go b/common/circuits/keccak.go
index 5ebb751..56a63c8 100644
--- a/common/circuits/keccak.go
+++ b/common/circuits/keccak.go
@@ -9,7 +9,8 @@ func Pad101Bytes(data []byte) []byte {
 	if len(data)%136 == 0 {
 		miss = 136
 	}
-	data = append(data, 1)
+	// the padding must not be written into spare capacity of the caller's slice
+	data = append(data[:len(data):len(data)], 1)
 	for i := 0; i < miss-1; i++ {
 		data = append(data, 0)
 	}
-- 
2.43.0


From 8227db771c4c773344e0f31af08db52e7f575c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:10 +0000
Subject: [PATCH 03/59] fix: check the length of RLP lists that contain an
 empty list

---
 circuits/gadgets/rlp/rlp.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/circuits/gadgets/rlp/rlp.go b/circuits/gadgets/rlp/rlp.go
index afa2884..c84c711 100644
--- a/circuits/gadgets/rlp/rlp.go
+++ b/circuits/gadgets/rlp/rlp.go
@@ -259,13 +259,9 @@ func RlpFieldPrefix(api frontend.API, in [2]frontend.Variable) (frontend.Variabl
 	//	    prefixOrTotalHexLen <== (1 - isEmptyList) * lenTemp2;
 	prefixOrTotalHexLen := api.Mul(lenTemp2, api.Sub(1, isEmptyList))
 
-	//	    isValid <== lt1.out + isEmptyList - lt1.out * isEmptyList;
-
-	isValid := api.Add(lt1, isEmptyList)
-	isValid = api.Sub(isValid, api.Mul(lt1, isEmptyList))
-
-	prefixOrTotalHexLen = api.Add(api.Mul(isValid, prefixOrTotalHexLen), api.Mul(isArray, arrayHexLen))
-	isValid = api.Add(isValid, isArray)
+	// a string, or a list (which may be empty: counted once)
+	prefixOrTotalHexLen = api.Add(api.Mul(lt1, prefixOrTotalHexLen), api.Mul(isArray, arrayHexLen))
+	isValid := api.Add(lt1, isArray)
 
 	isBig = api.Add(isBig, isArrayBig)
 
@@ -474,7 +470,7 @@ func (a *ArrayCheck) RlpNestArrayCheck(api frontend.API, in []frontend.Variable)
 			shiftToFieldIn = append(shiftToFieldIn, shiftToFieldRlpsOuts[idx][j])
 		}
 
-		fieldPrefixIsBig, fieldPrefixIsLiteral, fieldPrefixPrefixOrTotalHexLen, fieldPrefixIsValid, isArrayField, isEmptyList, isZero := RlpFieldPrefix(api, [2]frontend.Variable{shiftToFieldRlpsOuts[idx][0], shiftToFieldRlpsOuts[idx][1]})
+		fieldPrefixIsBig, fieldPrefixIsLiteral, fieldPrefixPrefixOrTotalHexLen, fieldPrefixIsValid, isArrayField, _, isZero := RlpFieldPrefix(api, [2]frontend.Variable{shiftToFieldRlpsOuts[idx][0], shiftToFieldRlpsOuts[idx][1]})
 
 		fieldRlpPrefix1HexLen := api.Mul(fieldPrefixIsBig, fieldPrefixPrefixOrTotalHexLen)
 
@@ -517,7 +513,6 @@ func (a *ArrayCheck) RlpNestArrayCheck(api frontend.API, in []frontend.Variable)
 
 		//  lenSum = lenSum + 2 - 2 * fieldPrefix[idx].isLiteral + fieldRlpPrefix1HexLen[idx] + fieldHexLen[idx];
 		lenSum = api.Sub(api.Add(lenSum, 2), api.Mul(2, fieldPrefixIsLiteral))
-		lenSum = api.Sub(lenSum, api.Mul(1, isEmptyList))
 		lenSum = api.Add(lenSum, fieldRlpPrefix1HexLen, fieldHexLen)
 
 		fieldHexLen = api.Add(fieldHexLen, keptArrayPrefixLen)
-- 
2.43.0


From 11f0e5bfe49ad51cfba74e5ee3f2b6baa6ad8f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:01 +0000
Subject: [PATCH 04/59] fix: keep single zero-byte fields of nested RLP lists

---
 circuits/gadgets/rlp/rlp.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/circuits/gadgets/rlp/rlp.go b/circuits/gadgets/rlp/rlp.go
index c84c711..10e493e 100644
--- a/circuits/gadgets/rlp/rlp.go
+++ b/circuits/gadgets/rlp/rlp.go
@@ -507,7 +507,9 @@ func (a *ArrayCheck) RlpNestArrayCheck(api frontend.API, in []frontend.Variable)
 
 		fieldHexLen := api.Add(fieldTemp, api.Mul(2, fieldPrefixIsLiteral))
 		fieldHexLen = api.Sub(fieldHexLen, api.Mul(fieldTemp, fieldPrefixIsLiteral))
-		fieldHexLen = api.Mul(fieldHexLen, api.Sub(1, isZero))
+		// zero padding after the end of the array stands for absent fields; a zero byte inside it is a literal
+		isAbsent := api.Mul(isZero, Equal(api, lenSum, totalArrayHexLen))
+		fieldHexLen = api.Mul(fieldHexLen, api.Sub(1, isAbsent))
 
 		check = api.Add(check, fieldPrefixIsValid)
 
-- 
2.43.0


From cbae26719e394ca1607c6b6f5ae6bc2a90badc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:06 +0000
Subject: [PATCH 05/59] fix: ignore the bytes after a block header's last field

---
 circuits/gadgets/rlp/rlp.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/circuits/gadgets/rlp/rlp.go b/circuits/gadgets/rlp/rlp.go
index 10e493e..3211bbe 100644
--- a/circuits/gadgets/rlp/rlp.go
+++ b/circuits/gadgets/rlp/rlp.go
@@ -730,6 +730,11 @@ func (a *ArrayCheck) BlkHeaderRlpCheck(api frontend.API, in []frontend.Variable,
 
 		fieldPrefixIsBig, fieldPrefixIsLiteral, fieldPrefixPrefixOrTotalHexLen, fieldPrefixIsValid, _, _, _ := RlpFieldPrefix(api, [2]frontend.Variable{shiftToFieldRlpsOuts[idx][0], shiftToFieldRlpsOuts[idx][1]})
 
+		// what follows the header's last field is padding, not a field
+		idxLessThanMaxFields := LessThan(api, idx, FieldsNum)
+		fieldPrefixIsLiteral = api.Or(fieldPrefixIsLiteral, api.Sub(1, idxLessThanMaxFields))
+		fieldPrefixIsBig = api.Mul(fieldPrefixIsBig, idxLessThanMaxFields)
+
 		fieldRlpPrefix1HexLen := api.Mul(fieldPrefixIsBig, fieldPrefixPrefixOrTotalHexLen)
 
 		lenPrefixMaxHexs := LogCeil(a.FieldMaxHexLen[idx]) / 8
@@ -761,7 +766,6 @@ func (a *ArrayCheck) BlkHeaderRlpCheck(api frontend.API, in []frontend.Variable,
 		temp2 := api.Sub(api.Mul(fieldHexLenMultiOut[0], 2), fieldPrefixPrefixOrTotalHexLen)
 		fieldTemp := api.Add(fieldPrefixPrefixOrTotalHexLen, api.Mul(fieldPrefixIsBig, temp2))
 
-		idxLessThanMaxFields := LessThan(api, idx, FieldsNum)
 		fieldHexLen := api.Add(fieldTemp, api.Mul(2, fieldPrefixIsLiteral))
 		fieldHexLen = api.Sub(fieldHexLen, api.Mul(fieldTemp, fieldPrefixIsLiteral))
 		fieldHexLen = api.Mul(fieldHexLen, idxLessThanMaxFields)
-- 
2.43.0


From df385a895954cacd95bb03b520ef39536e20e469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:20 +0000
Subject: [PATCH 06/59] fix: reject fixed-length RLP fields of another length

---
 circuits/gadgets/rlp/rlp.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/circuits/gadgets/rlp/rlp.go b/circuits/gadgets/rlp/rlp.go
index 3211bbe..bece305 100644
--- a/circuits/gadgets/rlp/rlp.go
+++ b/circuits/gadgets/rlp/rlp.go
@@ -286,6 +286,8 @@ func ShiftLeft(api frontend.API, nIn int, minShift int, maxShift int, in []front
 	var out []frontend.Variable
 
 	if minShift == maxShift {
+		// the only shift the data can be read with
+		api.AssertIsEqual(shift, minShift)
 		for i := 0; i < nIn; i++ {
 			out = append(out, in[(i+minShift)%nIn])
 		}
-- 
2.43.0


From 8d8afe7ff4c9726d294a4a8f8f8da5bae126db92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 07/59] fix: check the key fragments of the nodes above the
 last one only

---
 circuits/gadgets/mpt/mpt.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index 5663ed5..3474177 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -62,15 +62,15 @@ func CheckMPTInclusionFixedKeyLength(
 		if len(allFragmentsInput) == 0 {
 			allFragmentsInput = append(allFragmentsInput, []frontend.Variable{})
 		}
+		// the nodes above the last one are checked, and where the last one starts
+		allFragmentsInput[0] = append(allFragmentsInput[0], api.Add(tmp, isStartRange[i]))
 		tmp = api.Add(tmp, keyFragmentValidBranch[i], isMonotoneStart[i], isStartRange[i])
-		allFragmentsInput[0] = append(allFragmentsInput[0], tmp)
 	}
 
-	tmp = api.Add(tmp, 2, isStartRange[maxDepth-1])
-	allFragmentsInput[0] = append(allFragmentsInput[0], tmp)
+	allFragmentsInput[0] = append(allFragmentsInput[0], api.Add(tmp, isStartRange[maxDepth-1]))
 
 	allFragmentsValidMultiplexer := rlp.Multiplexer(api, api.Sub(depth, 1), 1, maxDepth, allFragmentsInput)
-	allFragmentsValid := rlp.Equal(api, allFragmentsValidMultiplexer[0], api.Mul(3, depth))
+	allFragmentsValid := rlp.Equal(api, allFragmentsValidMultiplexer[0], api.Sub(api.Mul(3, depth), 2))
 
 	var leafStartInput [][]frontend.Variable
 	for i := 0; i < maxDepth; i++ {
-- 
2.43.0


From 38fe7765a2300bcc223c34f79a7e0aff04b31008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 08/59] fix: take storage leaves shorter than a branch node

---
 circuits/gadgets/mpt/mpt.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index 3474177..112bce4 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -103,7 +103,11 @@ func CheckMPTInclusionFixedKeyLength(
 
 		// layer index start at 0, last node layer = depth -1
 		lastNodeBranchCheck := NewMPTBranchCheck(64)
-		lastNodeBranchNonExistence := lastNodeBranchCheck.CheckBranchForNonExistence(api, lastNodeKeySelector, lastNodeRlp)
+		branchNodeRlp := append([]frontend.Variable{}, lastNodeRlp...)
+		for len(branchNodeRlp) < MaxBranchNodeRlpHexLen {
+			branchNodeRlp = append(branchNodeRlp, 0)
+		}
+		lastNodeBranchNonExistence := lastNodeBranchCheck.CheckBranchForNonExistence(api, lastNodeKeySelector, branchNodeRlp)
 		log.Infoln("lastNodeBranchNonExistence:", lastNodeBranchNonExistence)
 
 		lastNodeExtensionCheck := NewMPTExtensionCheck(keyLength, 64)
-- 
2.43.0


From af9a9ef6fa879bdec40d27c5662cd78a1a906dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 09/59] fix: bind the last node to the root when the trie depth
 is 1

---
 circuits/gadgets/mpt/mpt.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index 112bce4..91198fe 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -227,7 +227,12 @@ func CheckMPTInclusionFixedKeyLength(
 		nodeHashes[layer] = *rlp.Keccak256AsNibbles(api, nodeHashInputLengthAtCurrentLayer, nodeRlpBlock, nodeRoundIndexes[layer])
 	}
 
-	rootHashCheck := rlp.ArrayEqual(api, rootHash[:], nodeHashes[0].Output[:], 64, 64)
+	// a trie of depth 1 consists of the last node alone
+	var rootNodeHash [64]frontend.Variable
+	for i := 0; i < 64; i++ {
+		rootNodeHash[i] = api.Select(depthEqual[0], leafHash.Output[i], nodeHashes[0].Output[i])
+	}
+	rootHashCheck := rlp.ArrayEqual(api, rootHash[:], rootNodeHash[:], 64, 64)
 	log.Debug(rootHashCheck, lastNodeCheckResult.result.output, allFragmentsValid, extensionCheckResults, branchCheckResults)
 
 	var allCheckMultiplexerInput [][]frontend.Variable
-- 
2.43.0


From c6e3f956d983ec763db34fd5056b3d69ffbb683a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 10/59] fix: start the trie walk at the first nibble of the key

---
 circuits/gadgets/mpt/mpt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index 91198fe..67c1646 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -233,6 +233,8 @@ func CheckMPTInclusionFixedKeyLength(
 		rootNodeHash[i] = api.Select(depthEqual[0], leafHash.Output[i], nodeHashes[0].Output[i])
 	}
 	rootHashCheck := rlp.ArrayEqual(api, rootHash[:], rootNodeHash[:], 64, 64)
+	// the walk from the root covers the key from its first nibble on
+	rootHashCheck = api.Mul(rootHashCheck, api.IsZero(keyFragmentStarts[0]))
 	log.Debug(rootHashCheck, lastNodeCheckResult.result.output, allFragmentsValid, extensionCheckResults, branchCheckResults)
 
 	var allCheckMultiplexerInput [][]frontend.Variable
@@ -443,6 +445,8 @@ func CheckMPTInclusionNoBranchTermination(
 	}
 
 	rootHashCheck := rlp.ArrayEqual(api, rootHash[:], nodeHashes[0].Output[:], 64, 64)
+	// the walk from the root covers the key from its first nibble on
+	rootHashCheck = api.Mul(rootHashCheck, api.IsZero(keyFragmentStarts[0]))
 	log.Debug("Inclusion Check:", rootHashCheck, allFragmentsValid, extensionCheckResults, branchCheckResults)
 
 	var allCheckMultiplexerInput [][]frontend.Variable
-- 
2.43.0


From 25453070ec65bd7c342dfe076106347f6250483a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:27 +0000
Subject: [PATCH 11/59] fix: check the empty slot of an exclusion proof's
 branch at the nibble reached

---
 circuits/gadgets/mpt/mpt.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index 67c1646..c25d55e 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -4,7 +4,6 @@ import (
 	"github.com/brevis-network/zk-utils/circuits/gadgets/keccak"
 	"github.com/brevis-network/zk-utils/circuits/gadgets/rlp"
 	"github.com/brevis-network/zk-utils/common/utils"
-	"github.com/consensys/gnark/std/selector"
 
 	"github.com/celer-network/goutils/log"
 	"github.com/consensys/gnark/frontend"
@@ -98,10 +97,9 @@ func CheckMPTInclusionFixedKeyLength(
 	// 1. the node is last node
 	// 2. in case of the node is branch node or an extension node, but the key path is not matched
 	if isStorageProof {
-		lastNodeLayer := api.Sub(depth, 1)
-		lastNodeKeySelector := selector.Mux(api, lastNodeLayer, key[:]...)
+		// the nibble the walk has reached
+		lastNodeKeySelector := leafSelector[0]
 
-		// layer index start at 0, last node layer = depth -1
 		lastNodeBranchCheck := NewMPTBranchCheck(64)
 		branchNodeRlp := append([]frontend.Variable{}, lastNodeRlp...)
 		for len(branchNodeRlp) < MaxBranchNodeRlpHexLen {
-- 
2.43.0


From 20c479b544fb1883ccd4cf323f5aeaec82a48423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 12/59] fix: accept branch and extension exclusion proofs for
 the zero value only

---
 circuits/gadgets/mpt/mpt.go      | 2 ++
 circuits/gadgets/mpt/mpt_util.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index c25d55e..1a9403a 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -113,6 +113,8 @@ func CheckMPTInclusionFixedKeyLength(
 		log.Infoln("lastNodeExtensionNonExistence:", lastNodeExtensionNonExistence)
 
 		isNotExist := api.Or(lastNodeBranchNonExistence, lastNodeExtensionNonExistence)
+		// an absent slot holds zero
+		isNotExist = api.And(isNotExist, lastNodeCheckResult.isZeroValue)
 		lastNodeCheckResult.result.output = api.Select(isNotExist, 4, lastNodeCheckResult.result.output)
 
 	}
diff --git a/circuits/gadgets/mpt/mpt_util.go b/circuits/gadgets/mpt/mpt_util.go
index a3d3328..9db70f3 100644
--- a/circuits/gadgets/mpt/mpt_util.go
+++ b/circuits/gadgets/mpt/mpt_util.go
@@ -33,6 +33,7 @@ type MPTLeafCheck struct {
 }
 
 type MPTLeafCheckResult struct {
+	isZeroValue frontend.Variable
 	result      MPTCheckResult
 	valueLength frontend.Variable
 }
@@ -104,6 +105,7 @@ func (leafCheck *MPTLeafCheck) CheckLeaf(
 	checkOut := api.Add(rlpCheckOut, keyPass, valueMatched)
 	checkOut = api.Select(isNonExistence, api.Add(rlpCheckOut, 2), checkOut)
 	return MPTLeafCheckResult{
+		isZeroValue: isZeroValue,
 		result: MPTCheckResult{
 			output:         checkOut,
 			rlpTotalLength: totalRlpLength,
-- 
2.43.0


From 0f83f7b9195c11fa970f7e65c46ea46c1d10f718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:03 +0000
Subject: [PATCH 13/59] fix: do not take an extension node on the key's path
 for an exclusion proof

---
 circuits/gadgets/mpt/mpt.go      | 2 +-
 circuits/gadgets/mpt/mpt_util.go | 7 +++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index 1a9403a..c6813d3 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -109,7 +109,7 @@ func CheckMPTInclusionFixedKeyLength(
 		log.Infoln("lastNodeBranchNonExistence:", lastNodeBranchNonExistence)
 
 		lastNodeExtensionCheck := NewMPTExtensionCheck(keyLength, 64)
-		lastNodeExtensionNonExistence := lastNodeExtensionCheck.checkExtensionNodeNonExistence(api, leafSelector, leafSelectorLength, lastNodeRlp, leafPathPrefixLength)
+		lastNodeExtensionNonExistence := lastNodeExtensionCheck.checkExtensionNodeNonExistence(api, leafSelector, lastNodeRlp, leafPathPrefixLength)
 		log.Infoln("lastNodeExtensionNonExistence:", lastNodeExtensionNonExistence)
 
 		isNotExist := api.Or(lastNodeBranchNonExistence, lastNodeExtensionNonExistence)
diff --git a/circuits/gadgets/mpt/mpt_util.go b/circuits/gadgets/mpt/mpt_util.go
index 9db70f3..c9b1305 100644
--- a/circuits/gadgets/mpt/mpt_util.go
+++ b/circuits/gadgets/mpt/mpt_util.go
@@ -202,7 +202,6 @@ func (extensionCheck *MPTExtensionCheck) CheckExtension(
 func (ec *MPTExtensionCheck) checkExtensionNodeNonExistence(
 	api frontend.API,
 	keyNibbles []frontend.Variable,
-	keyNibbleLen frontend.Variable,
 	nodeRlp []frontend.Variable,
 	nodeTypePrefixLength frontend.Variable) frontend.Variable {
 
@@ -234,11 +233,11 @@ func (ec *MPTExtensionCheck) checkExtensionNodeNonExistence(
 
 	// check key path part
 	keyNibblesMatched := rlp.ArrayEqual(api, keyNibbles, keyPathsArr, ec.maxKeyLength, api.Sub(fieldsLength[0], nodeTypePrefixLength))
-	keyNibblesLengthMatched := rlp.Equal(api, keyNibbleLen, api.Sub(fieldsLength[0], nodeTypePrefixLength))
 
-	keyNotExistInPath := api.Sub(1, api.And(keyNibblesMatched, keyNibblesLengthMatched))
+	// the key leaves the trie here if it does not continue with the whole path of the node
+	keyNotExistInPath := api.Sub(1, keyNibblesMatched)
 
-	isNotExist := rlp.Equal(api, api.Add(prefixCheck, keyNotExistInPath), 2)
+	isNotExist := rlp.Equal(api, api.Add(rlpout, prefixCheck, keyNotExistInPath), 3)
 	return isNotExist
 
 }
-- 
2.43.0


From 438ff7c08c803e18e2b6eeafce22a9039b6a2340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 14/59] fix: require every check of a transaction trie proof,
 not all but one

---
 circuits/gadgets/mpt/mpt.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index c6813d3..d0252a9 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -295,27 +295,27 @@ func CheckMPTInclusionNoBranchTermination(
 	for index := 0; index < maxDepth-1; index++ {
 		isSingleKeyFragment = append(isSingleKeyFragment, rlp.Equal(api, api.Add(keyFragmentStarts[index], 1), keyFragmentStarts[index+1]))
 		isMonotoneStart = append(isMonotoneStart, rlp.LessThan(api, keyFragmentStarts[index], keyFragmentStarts[index+1]))
-		keyFragmentValidBranch = append(keyFragmentValidBranch, api.Or(isSingleKeyFragment[index], api.Sub(1, nodeTypes[index])))
+		keyFragmentValidBranch = append(keyFragmentValidBranch, api.Or(isSingleKeyFragment[index], nodeTypes[index]))
 		isStartRange = append(isStartRange, rlp.LessThan(api, keyFragmentStarts[index], keyLength))
 	}
 
-	isStartRange = append(isStartRange, rlp.LessThan(api, keyFragmentStarts[maxDepth-1], keyLength))
-
 	var allFragmentsInput [][]frontend.Variable
 	var tmp frontend.Variable = 0
 	for i := 0; i < maxDepth-1; i++ {
 		if len(allFragmentsInput) == 0 {
 			allFragmentsInput = append(allFragmentsInput, []frontend.Variable{})
 		}
+		// the nodes above the leaf are checked, and that they do not consume more than the key
+		isWithinKey := rlp.LessThan(api, keyFragmentStarts[i], api.Add(keyLength, 1))
+		allFragmentsInput[0] = append(allFragmentsInput[0], api.Add(tmp, isWithinKey))
 		tmp = api.Add(tmp, keyFragmentValidBranch[i], isMonotoneStart[i], isStartRange[i])
-		allFragmentsInput[0] = append(allFragmentsInput[0], tmp)
 	}
 
-	tmp = api.Add(tmp, 2, isStartRange[maxDepth-1])
-	allFragmentsInput[0] = append(allFragmentsInput[0], tmp)
+	isWithinKey := rlp.LessThan(api, keyFragmentStarts[maxDepth-1], api.Add(keyLength, 1))
+	allFragmentsInput[0] = append(allFragmentsInput[0], api.Add(tmp, isWithinKey))
 
 	allFragmentsValidMultiplexer := rlp.Multiplexer(api, api.Sub(depth, 1), 1, maxDepth, allFragmentsInput)
-	allFragmentsValid := rlp.Equal(api, allFragmentsValidMultiplexer[0], api.Mul(3, depth))
+	allFragmentsValid := rlp.Equal(api, allFragmentsValidMultiplexer[0], api.Sub(api.Mul(3, depth), 2))
 
 	var leafStartInput [][]frontend.Variable
 	for i := 0; i < maxDepth; i++ {
@@ -474,7 +474,7 @@ func CheckMPTInclusionNoBranchTermination(
 	allCheckMultiplexer := rlp.Multiplexer(api, api.Sub(depth, 1), 1, maxDepth, allCheckMultiplexerInput)
 
 	return CheckMPTInclusionFixedKeyLengthResult{
-		Output:      rlp.Equal(api, allCheckMultiplexer[0], api.Add(api.Mul(depth, 4), 1)),
+		Output:      rlp.Equal(api, allCheckMultiplexer[0], api.Add(api.Mul(depth, 4), 2)),
 		ValueLength: 0,
 	}
 }
-- 
2.43.0


From 6e6ff0dad2dd9ef450fc626183b3c400d894525a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:31 +0000
Subject: [PATCH 15/59] fix: take keys of the configured length in transaction
 trie proofs

---
 circuits/gadgets/mpt/mpt.go | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index d0252a9..d37da93 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -326,12 +326,7 @@ func CheckMPTInclusionNoBranchTermination(
 	}
 	leafStartMultiplexer := rlp.Multiplexer(api, api.Sub(depth, 1), 1, maxDepth, leafStartInput)
 
-	var leafSubArrayInput [6]frontend.Variable
-	for i := 0; i < 6; i++ {
-		leafSubArrayInput[i] = key[i]
-	}
-
-	log.Debug(leafSubArrayInput, leafStartMultiplexer[0], keyLength)
+	log.Debug(key, leafStartMultiplexer[0], keyLength)
 
 	subArray := rlp.NewSubArray(maxKeyHexLen, maxKeyHexLen, rlp.LogCeil(maxKeyHexLen))
 
@@ -359,12 +354,7 @@ func CheckMPTInclusionNoBranchTermination(
 	}
 
 	for layer := maxDepth - 2; layer >= 0; layer-- {
-		var keySubArrayInput [7]frontend.Variable
-		for i := 0; i < 7; i++ {
-			keySubArrayInput[i] = key[i]
-		}
-
-		keySelector, _ := subArray.SubArray(api, keySubArrayInput[:], keyFragmentStarts[layer], keyFragmentStarts[layer+1])
+		keySelector, _ := subArray.SubArray(api, key, keyFragmentStarts[layer], keyFragmentStarts[layer+1])
 
 		extensionCheck := NewMPTExtensionCheck(maxKeyHexLen, 64)
 
-- 
2.43.0


From f8e960b7ab11acce9425697970fb3e6804e9cad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 16/59] fix: bind the leaf to the root when the transaction
 trie depth is 1

---
 circuits/gadgets/mpt/mpt.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index d37da93..73ca11c 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -434,7 +434,12 @@ func CheckMPTInclusionNoBranchTermination(
 		nodeHashes[layer] = *rlp.Keccak256AsNibbles(api, nodeHashInputLengthAtCurrentLayer, nodeRlpBlock, nodeRoundIndexes[layer])
 	}
 
-	rootHashCheck := rlp.ArrayEqual(api, rootHash[:], nodeHashes[0].Output[:], 64, 64)
+	// a trie of depth 1 consists of the leaf alone
+	var rootNodeHash [64]frontend.Variable
+	for i := 0; i < 64; i++ {
+		rootNodeHash[i] = api.Select(depthEqual[0], leafHash[i], nodeHashes[0].Output[i])
+	}
+	rootHashCheck := rlp.ArrayEqual(api, rootHash[:], rootNodeHash[:], 64, 64)
 	// the walk from the root covers the key from its first nibble on
 	rootHashCheck = api.Mul(rootHashCheck, api.IsZero(keyFragmentStarts[0]))
 	log.Debug("Inclusion Check:", rootHashCheck, allFragmentsValid, extensionCheckResults, branchCheckResults)
-- 
2.43.0


From fab8c89c43447ef71e8a6d0af7dce28cd3580872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:57 +0000
Subject: [PATCH 17/59] fix: accept transaction trie proofs whose nodes consume
 a key of maximal length

---
 circuits/gadgets/mpt/mpt.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index 73ca11c..6194df2 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -398,7 +398,8 @@ func CheckMPTInclusionNoBranchTermination(
 			}
 			nibbleSelectorInput[0] = append(nibbleSelectorInput[0], key[i])
 		}
-		nibbleSelector := rlp.Multiplexer(api, api.Mul(depthLessThan[layer], keyFragmentStarts[layer]), 1, maxKeyHexLen, nibbleSelectorInput)
+		// only the nodes above the leaf select a nibble: the leaf may start at the end of the key
+		nibbleSelector := rlp.Multiplexer(api, api.Mul(depthLessThan[layer+1], keyFragmentStarts[layer]), 1, maxKeyHexLen, nibbleSelectorInput)
 
 		branchCheck := NewMPTBranchCheck(64)
 
-- 
2.43.0


From 9f79a554ef69aac912be34b2025e0237c00010f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 18/59] fix: select sub-arrays of more than 127 elements

---
 circuits/gadgets/rlp/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/gadgets/rlp/util.go b/circuits/gadgets/rlp/util.go
index a8f615f..7d6603f 100644
--- a/circuits/gadgets/rlp/util.go
+++ b/circuits/gadgets/rlp/util.go
@@ -232,7 +232,7 @@ func (subArray *SubArray) SubArray(api frontend.API, in []frontend.Variable, fro
 
 	var shifts [][]frontend.Variable
 	for i := 0; i < subArray.nIn; i++ {
-		shifts = append(shifts, make([]frontend.Variable, 7))
+		shifts = append(shifts, make([]frontend.Variable, subArray.nInBits))
 	}
 	for i := 0; i < subArray.nInBits; i++ {
 		for j := 0; j < subArray.nIn; j++ {
-- 
2.43.0


From 4b9832949b35407b0e76874dc1e34db783e45f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:43 +0000
Subject: [PATCH 19/59] fix: convert every nibble in Bits2Nibbles

---
 circuits/gadgets/conv/bits.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/conv/bits.go b/circuits/gadgets/conv/bits.go
index 4e232ca..bc047f7 100644
--- a/circuits/gadgets/conv/bits.go
+++ b/circuits/gadgets/conv/bits.go
@@ -49,8 +49,8 @@ func Bits2Uint128s(api frontend.API, bits [256]frontend.Variable) [2]frontend.Va
 
 func Bits2Nibbles(api frontend.API, bits []frontend.Variable) []frontend.Variable {
 	bytes := []frontend.Variable{}
-	for i := 0; i < len(bits); i += 8 {
-		bytes = append(bytes, api.FromBinary(bits[i:i+4]))
+	for i := 0; i < len(bits); i += 4 {
+		bytes = append(bytes, api.FromBinary(bits[i:i+4]...))
 	}
 	return bytes
 }
-- 
2.43.0


From a2eee313878661b2ca9ad12c09290d81bfd12e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:45 +0000
Subject: [PATCH 20/59] fix: reduce a bit string equal to the modulus in
 BitsToFrBigInt

---
 common/utils/binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/utils/binary.go b/common/utils/binary.go
index ba021f6..0b6ee43 100644
--- a/common/utils/binary.go
+++ b/common/utils/binary.go
@@ -59,7 +59,7 @@ func BitsToFrBigInt(b []uint, frModulus *big.Int) *big.Int {
 			var decimal = big.NewInt(1)
 			decimal.Lsh(decimal, uint(lens-i-1))
 			res.Add(res, decimal)
-			if res.Cmp(frModulus) > 0 {
+			if res.Cmp(frModulus) >= 0 {
 				res.Mod(res, frModulus)
 			}
 		}
-- 
2.43.0


From ca9ef2035ff1cebb17c62f398d15147232011db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:47 +0000
Subject: [PATCH 21/59] fix: reduce hash blocks by the modulus of the hash's
 own field in GenerateBls12377Hash

---
 common/utils/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/utils/utils.go b/common/utils/utils.go
index 32a162b..05c6885 100644
--- a/common/utils/utils.go
+++ b/common/utils/utils.go
@@ -181,9 +181,9 @@ func GenerateBls12377Hash(input []byte) []byte {
 	var i int
 	for i < len(bits) {
 		if i+bitSize > len(bits) {
-			frDataArray = append(frDataArray, BitsToFrBigInt(bits[i:], ecc.BN254.ScalarField()))
+			frDataArray = append(frDataArray, BitsToFrBigInt(bits[i:], ecc.BLS12_377.ScalarField()))
 		} else {
-			frDataArray = append(frDataArray, BitsToFrBigInt(bits[i:i+bitSize], ecc.BN254.ScalarField()))
+			frDataArray = append(frDataArray, BitsToFrBigInt(bits[i:i+bitSize], ecc.BLS12_377.ScalarField()))
 		}
 		i += bitSize
 	}
-- 
2.43.0


From c6a21ad9b5898992ca0efebb21628d0bd0552b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 22/59] fix: copy the value written to PoseidonBn254Hasher

---
 common/utils/poseidon_bn254.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/utils/poseidon_bn254.go b/common/utils/poseidon_bn254.go
index 1e72e45..1349e97 100644
--- a/common/utils/poseidon_bn254.go
+++ b/common/utils/poseidon_bn254.go
@@ -14,7 +14,7 @@ func NewPoseidonBn254() *PoseidonBn254Hasher {
 }
 
 func (p *PoseidonBn254Hasher) Write(input *big.Int) {
-	p.preimages = append(p.preimages, input)
+	p.preimages = append(p.preimages, new(big.Int).Set(input))
 }
 
 func (p *PoseidonBn254Hasher) Reset() {
-- 
2.43.0


From 904d79ff4768d7b142547a875e2180b30a9653a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:51 +0000
Subject: [PATCH 23/59] fix: return copies of the method id from ContractCodec

---
 common/utils/contract_codec.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/utils/contract_codec.go b/common/utils/contract_codec.go
index 90dc59c..21acf53 100644
--- a/common/utils/contract_codec.go
+++ b/common/utils/contract_codec.go
@@ -25,7 +25,7 @@ func (c *ContractCodec) ABI() *abi.ABI {
 }
 
 func (c *ContractCodec) Selector(methodName string) []byte {
-	return c.abi.Methods[methodName].ID
+	return append([]byte(nil), c.abi.Methods[methodName].ID...)
 }
 
 func (c *ContractCodec) EncodeCalldata(methodName string, args ...interface{}) ([]byte, error) {
@@ -37,7 +37,7 @@ func (c *ContractCodec) EncodeCalldata(methodName string, args ...interface{}) (
 	if err != nil {
 		return nil, err
 	}
-	return append(method.ID, inputs...), nil
+	return append(append([]byte(nil), method.ID...), inputs...), nil
 }
 
 func (c *ContractCodec) DecodeCalldata(methodName string, data []byte, ptrs ...interface{}) error {
-- 
2.43.0


From e396bcffd6e1d0fa94def4f7fa68c5b07bb64522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:52 +0000
Subject: [PATCH 24/59] fix: resplit single limbs and totals that are not a
 multiple of the new limb size

---
 circuits/gadgets/limbs/limbapi.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/circuits/gadgets/limbs/limbapi.go b/circuits/gadgets/limbs/limbapi.go
index 5dd8357..5784c7e 100644
--- a/circuits/gadgets/limbs/limbapi.go
+++ b/circuits/gadgets/limbs/limbapi.go
@@ -123,15 +123,17 @@ func (wa *API) Merge(ws Limbs) Limb {
 	}
 }
 
-// Resplit resplits limbs into new limb sizes
+// Resplit resplits limbs into limbs of `newLimbSize` except the last one, which holds what remains
 func (wa *API) Resplit(ws Limbs, newLimbSize int) Limbs {
-	if len(ws) == 1 {
-		return ws
-	}
 	totalSize := ws.TotalSize()
 	f := wa.api.Compiler().FieldBitLen()
-	if totalSize <= f {
-		return wa.Split(wa.Merge(ws), newLimbSize)
+	// a merged limb as wide as the field would not have a unique split
+	if totalSize < f {
+		merged := wa.Merge(ws)
+		if totalSize <= newLimbSize {
+			return Limbs{merged}
+		}
+		return wa.Split(merged, newLimbSize)
 	}
 	// if the total limb size is greater than the field size, we cannot merge all the limbs together then
 	// split. in this case, we split all limbs into 1-bit limbs then merge them to `newLimbSize` limbs
@@ -141,7 +143,11 @@ func (wa *API) Resplit(ws Limbs, newLimbSize int) Limbs {
 	}
 	var ret Limbs
 	for i := 0; i < totalSize; i += newLimbSize {
-		ret = append(ret, wa.Merge(bits[i:i+newLimbSize]))
+		end := i + newLimbSize
+		if end > totalSize {
+			end = totalSize
+		}
+		ret = append(ret, wa.Merge(bits[i:end]))
 	}
 	return ret
 }
-- 
2.43.0


From a3d6f0d7e8d51d1d51684d08df313b29a1b3942d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:53 +0000
Subject: [PATCH 25/59] fix: constrain the sizes of the parts of a split limb

---
 circuits/gadgets/limbs/limbapi.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/circuits/gadgets/limbs/limbapi.go b/circuits/gadgets/limbs/limbapi.go
index 5784c7e..41685d9 100644
--- a/circuits/gadgets/limbs/limbapi.go
+++ b/circuits/gadgets/limbs/limbapi.go
@@ -57,7 +57,8 @@ func NewAPI(api frontend.API) *API {
 }
 
 // Split splits the word into parts of `limbSize` except the last element.
-// this function uses a hint function to compute the Split results, then constrains the sum.
+// this function uses a hint function to compute the Split results, then constrains the sum
+// and the size of every part.
 // nbLimbs is the number of equal sized parts of `limbSize`. optional, if not specified, the word is Split into as many
 // `limbSize` chunks as possible.
 // e.g. for word 1010 if `limbSize = 1` and `nbLimbsOpt = 2` then the result is [1, 0, 10]
@@ -97,6 +98,13 @@ func (wa *API) Split(l Limb, newLimbSize int, nbLimbsOpt ...int) Limbs {
 		ret = append(ret, Limb{Val: out[len(out)-1], Size: remSize})
 	}
 	wa.api.AssertIsEqual(acc, l.Val)
+	// the sum alone does not determine the parts: they must also fit their sizes
+	f := wa.api.Compiler().FieldBitLen()
+	for _, part := range ret {
+		if part.Size < f {
+			wa.api.ToBinary(part.Val, part.Size)
+		}
+	}
 	return ret
 }
 
-- 
2.43.0


From da9e3c6bfbd3be048ccc0bbda91b9d7090ea2c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:54 +0000
Subject: [PATCH 26/59] fix: do not absorb data again in a second Sum of the
 emulated MiMC

---
 circuits/gadgets/emulated/mimc/mimc.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/circuits/gadgets/emulated/mimc/mimc.go b/circuits/gadgets/emulated/mimc/mimc.go
index 470222c..6be4f5a 100644
--- a/circuits/gadgets/emulated/mimc/mimc.go
+++ b/circuits/gadgets/emulated/mimc/mimc.go
@@ -82,5 +82,6 @@ func (h *MiMC[Base]) Sum() *emulated.Element[Base] {
 		temp := h.fp.Add(h.h, r)
 		h.h = h.fp.Add(temp, stream)
 	}
+	h.data = nil // flush the data already hashed
 	return h.fp.Reduce(h.h)
 }
-- 
2.43.0


From 1445cdab189268e48f08be83d00e2ec8ee8e2446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:09 +0000
Subject: [PATCH 27/59] fix: align ToElement input of partial limbs to the
 least significant end

---
 circuits/gadgets/emulated/element.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/circuits/gadgets/emulated/element.go b/circuits/gadgets/emulated/element.go
index a5048a6..ae0f318 100644
--- a/circuits/gadgets/emulated/element.go
+++ b/circuits/gadgets/emulated/element.go
@@ -21,8 +21,15 @@ func ToElement[T emulated.FieldParams](api frontend.API, in []frontend.Variable,
 	var p T
 	la := limbs.NewAPI(api)
 	ls := limbs.NewLimbs(in, inBitSize)
+	// the input is big endian: it is extended to whole limbs at its most significant end
+	if rem := ls.TotalSize() % int(p.BitsPerLimb()); rem != 0 {
+		ls = append(limbs.Limbs{{Val: 0, Size: int(p.BitsPerLimb()) - rem}}, ls...)
+	}
 	elLimbs := la.Resplit(ls, int(p.BitsPerLimb()))
 	elLimbs = utils.Flip(elLimbs)
+	for len(elLimbs) < int(p.NbLimbs()) {
+		elLimbs = append(elLimbs, limbs.Limb{Val: 0, Size: int(p.BitsPerLimb())})
+	}
 	f, err := emulated.NewField[T](api)
 	if err != nil {
 		panic(fmt.Errorf("failed to new field: %s", err.Error()))
-- 
2.43.0


From f5e05d51721d7c74dcd55f91541cd2ed6e962e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:10 +0000
Subject: [PATCH 28/59] fix: refuse ToElements input that does not fill whole
 limbs and elements

---
 circuits/gadgets/emulated/element.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/circuits/gadgets/emulated/element.go b/circuits/gadgets/emulated/element.go
index ae0f318..f17cb61 100644
--- a/circuits/gadgets/emulated/element.go
+++ b/circuits/gadgets/emulated/element.go
@@ -41,6 +41,9 @@ func ToElements[T emulated.FieldParams](api frontend.API, in []frontend.Variable
 	var p T
 	s := inBitSize
 	inBits := len(in) * s
+	if s <= 0 || int(p.BitsPerLimb())%s != 0 || inBits%(int(p.BitsPerLimb())*int(p.NbLimbs())) != 0 {
+		panic(fmt.Errorf("cannot pack %d inputs of %d bits into whole elements", len(in), s))
+	}
 	varsPerLimb := int(p.BitsPerLimb()) / s
 	la := limbs.NewAPI(api)
 	ls := limbs.NewLimbs(in, s)
-- 
2.43.0


From d64f83ef6b285f0a475df9cdc33ea03f3b8a2c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:33 +0000
Subject: [PATCH 29/59] fix: encode headers without a base fee

---
 circuits/fabric/smt/utils.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/circuits/fabric/smt/utils.go b/circuits/fabric/smt/utils.go
index ce88e17..e9caca0 100644
--- a/circuits/fabric/smt/utils.go
+++ b/circuits/fabric/smt/utils.go
@@ -59,15 +59,23 @@ func EncodeHeaders(headers []types.Header) (encoded [][]frontend.Variable, idxs
 
 func checkDynamicFieldLen(h types.Header) bool {
 	hasErr := 0
-	hasErr += checkLen("Difficulty", len(h.Difficulty.Bytes()), 7)
-	hasErr += checkLen("Number", len(h.Number.Bytes()), 8)
+	hasErr += checkLen("Difficulty", getBigByteLen(h.Difficulty), 7)
+	hasErr += checkLen("Number", getBigByteLen(h.Number), 8)
 	hasErr += checkLen("GasLimit", getUintByteLen(h.GasLimit), 4)
 	hasErr += checkLen("GasUsed", getUintByteLen(h.GasUsed), 4)
 	hasErr += checkLen("Time", getUintByteLen(h.Time), 4)
-	hasErr += checkLen("BaseFee", len(h.BaseFee.Bytes()), 7)
+	hasErr += checkLen("BaseFee", getBigByteLen(h.BaseFee), 7)
 	return hasErr == 0
 }
 
+// getBigByteLen returns the byte length of x, 0 if x is a field that the header does not have
+func getBigByteLen(x *big.Int) int {
+	if x == nil {
+		return 0
+	}
+	return len(x.Bytes())
+}
+
 func getUintByteLen(x uint64) int {
 	i := 0
 	for x > 0 {
-- 
2.43.0


From b60c188677b3414e9fa72b099959ac022fa4c69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:34 +0000
Subject: [PATCH 30/59] fix: refuse headers that do not fit the blocks of
 EncodeHeaders

---
 circuits/fabric/smt/utils.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/circuits/fabric/smt/utils.go b/circuits/fabric/smt/utils.go
index e9caca0..9e0fd72 100644
--- a/circuits/fabric/smt/utils.go
+++ b/circuits/fabric/smt/utils.go
@@ -47,8 +47,11 @@ func EncodeHeaders(headers []types.Header) (encoded [][]frontend.Variable, idxs
 		for _, b := range paddedBits {
 			fv = append(fv, b)
 		}
-		idxs = append(idxs, len(fv)/1088-1)
 		zerosToPad := 5*1088 - len(paddedBits)
+		if zerosToPad < 0 {
+			return nil, nil, fmt.Errorf("header encoding of %d bytes does not fit 5 blocks", len(headerRLP))
+		}
+		idxs = append(idxs, len(fv)/1088-1)
 		for i := 0; i < zerosToPad; i++ {
 			fv = append(fv, 0)
 		}
-- 
2.43.0


From cedd59d521a220009bbc02bf399c60ff0e8535f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:59 +0000
Subject: [PATCH 31/59] fix: refuse proofs for an index that the block does not
 have

---
 common/proof/tx_merkel_proof.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/common/proof/tx_merkel_proof.go b/common/proof/tx_merkel_proof.go
index be7a453..86b115c 100644
--- a/common/proof/tx_merkel_proof.go
+++ b/common/proof/tx_merkel_proof.go
@@ -28,6 +28,10 @@ func (p *ProofWriter) Delete(key []byte) error {
 }
 
 func GetTransactionProof(bk *types.Block, index int) (nodes [][]byte, keyIndex, leafRlpPrefix []byte, err error) {
+	if index < 0 || index >= len(bk.Transactions()) {
+		err = fmt.Errorf("index %d out of range, blk: %d, transactions: %d", index, bk.NumberU64(), len(bk.Transactions()))
+		return
+	}
 	var indexBuf []byte
 	keyIndex = rlp.AppendUint64(indexBuf[:0], uint64(index))
 
@@ -61,6 +65,10 @@ func GetTransactionProof(bk *types.Block, index int) (nodes [][]byte, keyIndex,
 }
 
 func GetReceiptProof(bk *types.Block, receipts types.Receipts, index int) (nodes [][]byte, keyIndex, leafRlpPrefix []byte, err error) {
+	if index < 0 || index >= len(receipts) {
+		err = fmt.Errorf("index %d out of range, blk: %d, receipts: %d", index, bk.NumberU64(), len(receipts))
+		return
+	}
 	var indexBuf []byte
 	keyIndex = rlp.AppendUint64(indexBuf[:0], uint64(index))
 
-- 
2.43.0


From ffdf215a0d5d14e0d1c1cd8280b7f52b48a317e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:02 +0000
Subject: [PATCH 32/59] fix: refuse transaction signatures that the network
 does not accept

---
 common/proof/util.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/proof/util.go b/common/proof/util.go
index 29f7146..4fcd3bd 100644
--- a/common/proof/util.go
+++ b/common/proof/util.go
@@ -90,9 +90,15 @@ func RecoverTransactionSignerAddress(transaction *ethtypes.Transaction) ([]byte,
 	v, r, s := transaction.RawSignatureValues()
 
 	if transactionType == types.LegacyTxType {
+		if v.Cmp(big.NewInt(35)) < 0 {
+			return nil, fmt.Errorf("legacy transaction without replay protection, v: %s", v)
+		}
 		actualV := v.Uint64() - 35 - transaction.ChainId().Uint64()*2
 		v = new(big.Int).SetUint64(actualV)
 	}
+	if !v.IsUint64() || v.Uint64() > 1 || !crypto.ValidateSignatureValues(byte(v.Uint64()), r, s, true) {
+		return nil, types.ErrInvalidSig
+	}
 
 	var rBuf [32]byte
 	var sBuf [32]byte
-- 
2.43.0


From 76e97925c37e400d36ee359ddaa2d8038b934229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:05 +0000
Subject: [PATCH 33/59] fix: refuse to decompose negative integers, whose bits
 are those of other integers

---
 common/utils/compose.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/utils/compose.go b/common/utils/compose.go
index 585d162..7397861 100644
--- a/common/utils/compose.go
+++ b/common/utils/compose.go
@@ -23,6 +23,9 @@ func recompose[T uint | byte](data []T, bitSize int) *big.Int {
 }
 
 func decompose[T uint | byte](data *big.Int, bitSize uint, length int) []T {
+	if data.Sign() < 0 {
+		panic(fmt.Errorf("decomposed integer %s is negative", data))
+	}
 	if data.BitLen() > length*int(bitSize) {
 		panic(fmt.Errorf("decomposed integer (bit len %d) does not fit into output (bit len %d, length %d)",
 			data.BitLen(), bitSize, length))
-- 
2.43.0


From 5ba639fb6fbc3f643b260ada90130482a0feadd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:41 +0000
Subject: [PATCH 34/59] fix: report malformed query values as errors

---
 common/proof/query_id.go | 42 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/common/proof/query_id.go b/common/proof/query_id.go
index 6016fd2..5c9a812 100644
--- a/common/proof/query_id.go
+++ b/common/proof/query_id.go
@@ -1,6 +1,8 @@
 package proof
 
 import (
+	"encoding/hex"
+	"fmt"
 	"math/big"
 
 	"github.com/brevis-network/zk-utils/common/utils"
@@ -10,7 +12,8 @@ import (
 
 func MiMCHashReceiptCustomInputs(
 	receiptInfo *SDKQueryProvingInfoForReceipt,
-) ([]byte, error) {
+) (hash []byte, err error) {
+	defer refuseMalformed(&hash, &err)
 	hasher := utils.NewPoseidonBn254()
 
 	var bits []uint
@@ -65,7 +68,8 @@ func MiMCHashReceiptCustomInputs(
 
 func MiMCHashStorageCustomInputs(
 	data *SDKQueryProvingInfoForStorageSlot,
-) ([]byte, error) {
+) (hash []byte, err error) {
+	defer refuseMalformed(&hash, &err)
 	hasher := utils.NewPoseidonBn254()
 
 	var bits []uint
@@ -75,10 +79,16 @@ func MiMCHashStorageCustomInputs(
 
 	bits = append(bits, utils.DecomposeBits(utils.Var2BigInt(data.AccountAddress), 8*20)...)
 
+	if err = checkHex(data.Slot); err != nil {
+		return nil, err
+	}
 	var slot = utils.ParseBytes32(GetPaddedSlotBytes(data.Slot), 248)
 	bits = append(bits, utils.Byte32ToFrBits(slot, 248)...)
 
-	storageValue, _ := new(big.Int).SetString(data.SlotValue, 10)
+	storageValue, ok := new(big.Int).SetString(data.SlotValue, 10)
+	if !ok || storageValue.Sign() < 0 {
+		return nil, fmt.Errorf("invalid slot value %q", data.SlotValue)
+	}
 
 	var value = utils.ParseBytes32(storageValue.Bytes(), 248)
 	bits = append(bits, utils.Byte32ToFrBits(value, 248)...)
@@ -99,7 +109,8 @@ func MiMCHashStorageCustomInputs(
 
 func MiMCHashTxCustomInputs(
 	tsInfo *SDKQueryProvingInfoForTransaction,
-) ([]byte, error) {
+) (hash []byte, err error) {
+	defer refuseMalformed(&hash, &err)
 	hasher := utils.NewPoseidonBn254()
 
 	var bits []uint
@@ -122,6 +133,9 @@ func MiMCHashTxCustomInputs(
 	// var value32Byte = utils.ParseBytes32(value, 248)
 	// bits = append(bits, utils.Byte32ToFrBits(value32Byte, 248)...)
 
+	if err = checkHex(tsInfo.LeafHash); err != nil {
+		return nil, err
+	}
 	leafHash := utils.Hex2Bytes(tsInfo.LeafHash)
 	var leafHashByte = utils.ParseBytes32(leafHash, 248)
 	bits = append(bits, utils.Byte32ToFrBits(leafHashByte, 248)...)
@@ -140,6 +154,26 @@ func MiMCHashTxCustomInputs(
 	return result.Bytes(), nil
 }
 
+// refuseMalformed turns the panic of an encoding helper on a value that is not a number or does not fit its width
+// into an error.
+func refuseMalformed(hash *[]byte, err *error) {
+	if e := recover(); e != nil {
+		*hash, *err = nil, fmt.Errorf("malformed query: %v", e)
+	}
+}
+
+// checkHex returns an error for a string that utils.Hex2Bytes would not decode completely
+func checkHex(s string) error {
+	if len(s) >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') {
+		s = s[2:]
+	}
+	if len(s)%2 == 1 {
+		s = "0" + s
+	}
+	_, err := hex.DecodeString(s)
+	return err
+}
+
 // 0x01 ===> 0x0000000000000000000000000000000000000000000000000000000000000001
 func GetPaddedSlotBytes(slot string) []byte {
 	slotBytes := utils.Hex2Bytes(slot)
-- 
2.43.0


From b3205849bc25bec24664ca751e658ae8323bcd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:44 +0000
Subject: [PATCH 35/59] fix: encode block numbers above 2^63 in
 ChunkProof.EncodeABI

---
 common/proof/types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/proof/types.go b/common/proof/types.go
index 640f609..9bf473d 100644
--- a/common/proof/types.go
+++ b/common/proof/types.go
@@ -175,9 +175,9 @@ func (p *ChunkProof) EncodeABI() []byte {
 	args = append(args, prevHash[0:16], prevHash[16:])
 	endHash := utils.Hex2Hash(p.EndHash)
 	args = append(args, endHash[0:16], endHash[16:])
-	startBlockNum := big.NewInt(int64(p.StartBlockNum)).Bytes()
+	startBlockNum := new(big.Int).SetUint64(p.StartBlockNum).Bytes()
 	args = append(args, startBlockNum)
-	endBlockNum := big.NewInt(int64(p.EndBlockNum)).Bytes()
+	endBlockNum := new(big.Int).SetUint64(p.EndBlockNum).Bytes()
 	args = append(args, endBlockNum)
 
 	var ret []byte
-- 
2.43.0


From 8e9b3d545e9572629cd75cce0eb4c87e3b17f544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:47 +0000
Subject: [PATCH 36/59] fix: export proofs of circuits without commitments

---
 common/utils/groth16_util.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/common/utils/groth16_util.go b/common/utils/groth16_util.go
index 71d3ee2..747e88e 100644
--- a/common/utils/groth16_util.go
+++ b/common/utils/groth16_util.go
@@ -22,8 +22,11 @@ func ExportProof(proof groth16.Proof) (a [2]*big.Int, b [2][2]*big.Int, c [2]*bi
 	c[0] = bn254Proof.Krs.X.BigInt(new(big.Int))
 	c[1] = bn254Proof.Krs.Y.BigInt(new(big.Int))
 
-	commitment[0] = bn254Proof.Commitments[0].X.BigInt(new(big.Int))
-	commitment[1] = bn254Proof.Commitments[0].Y.BigInt(new(big.Int))
+	commitment[0], commitment[1] = new(big.Int), new(big.Int)
+	if len(bn254Proof.Commitments) > 0 {
+		bn254Proof.Commitments[0].X.BigInt(commitment[0])
+		bn254Proof.Commitments[0].Y.BigInt(commitment[1])
+	}
 
 	commitmentPok[0] = bn254Proof.CommitmentPok.X.BigInt(new(big.Int))
 	commitmentPok[1] = bn254Proof.CommitmentPok.Y.BigInt(new(big.Int))
-- 
2.43.0


From f5e8888056b72f7a6c88ce0727486a19bc3c49d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:50 +0000
Subject: [PATCH 37/59] fix: parse numbers above 2^63 in Str2Uint64

---
 common/utils/string.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/utils/string.go b/common/utils/string.go
index 8fd7855..9f800cb 100644
--- a/common/utils/string.go
+++ b/common/utils/string.go
@@ -17,5 +17,6 @@ func Str2Int(str string) int {
 }
 
 func Str2Uint64(str string) uint64 {
-	return uint64(Str2Int(str))
+	ret, _ := strconv.ParseUint(str, 10, 64)
+	return ret
 }
-- 
2.43.0


From a23b5f7fd82058fac89862fe0261cd2e4d139fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:56 +0000
Subject: [PATCH 38/59] fix: close the response body of failed beacon requests

---
 common/eth/client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/eth/client.go b/common/eth/client.go
index f7b7159..83bc24d 100644
--- a/common/eth/client.go
+++ b/common/eth/client.go
@@ -52,11 +52,11 @@ func (ec *Client) GetSlot(block uint64) (uint64, bool) {
 		fmt.Println("Err is", err)
 		return 0, false
 	}
+	defer res.Body.Close()
 	if res.StatusCode != 200 {
 		log.Errorf("failed to curl slot by block: status code %d", res.StatusCode)
 		return 0, false
 	}
-	defer res.Body.Close()
 	resBody, _ := io.ReadAll(res.Body)
 	var jsonRes map[string]interface{}    // declaring a map for key names as string and values as interface
 	_ = json.Unmarshal(resBody, &jsonRes) // Unmarshalling
@@ -95,11 +95,11 @@ func (ec *Client) GetBlock(slot uint64) uint64 {
 		fmt.Println("Err is", err)
 		return 0
 	}
+	defer res.Body.Close()
 	if res.StatusCode != 200 {
 		log.Errorf("failed to curl block by slot: status code %d", res.StatusCode)
 		return 0
 	}
-	defer res.Body.Close()
 	resBody, _ := io.ReadAll(res.Body)
 	var jsonRes map[string]interface{}    // declaring a map for key names as string and values as interface
 	_ = json.Unmarshal(resBody, &jsonRes) // Unmarshalling
-- 
2.43.0


From 54ad82ba973da7415d1ea7d1dff07ef2b274d308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:01 +0000
Subject: [PATCH 39/59] fix: do not panic on unexpected beacon responses and
 keep large numbers exact

---
 common/eth/client.go | 54 ++++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/common/eth/client.go b/common/eth/client.go
index 83bc24d..4c95815 100644
--- a/common/eth/client.go
+++ b/common/eth/client.go
@@ -57,21 +57,31 @@ func (ec *Client) GetSlot(block uint64) (uint64, bool) {
 		log.Errorf("failed to curl slot by block: status code %d", res.StatusCode)
 		return 0, false
 	}
-	resBody, _ := io.ReadAll(res.Body)
-	var jsonRes map[string]interface{}    // declaring a map for key names as string and values as interface
-	_ = json.Unmarshal(resBody, &jsonRes) // Unmarshalling
-	dataList := jsonRes["data"].([]interface{})
-	data := dataList[0].(map[string]interface{})
-	if data["posConsensus"] == nil {
+	resBody, err := io.ReadAll(res.Body)
+	if err != nil {
+		log.Errorf("failed to read slot by block: %s", err)
 		return 0, false
 	}
-	posConsensus := data["posConsensus"].(map[string]interface{})
-	slot := uint64(0)
-	finilized := false
-
-	slot = uint64(posConsensus["slot"].(float64))
-	finilized = posConsensus["finalized"].(bool)
-	return slot, finilized
+	var jsonRes struct {
+		Data []struct {
+			PosConsensus *struct {
+				Slot      *uint64 `json:"slot"`
+				Finalized *bool   `json:"finalized"`
+			} `json:"posConsensus"`
+		} `json:"data"`
+	}
+	if err = json.Unmarshal(resBody, &jsonRes); err != nil {
+		log.Errorf("failed to decode slot by block: %s", err)
+		return 0, false
+	}
+	if len(jsonRes.Data) == 0 || jsonRes.Data[0].PosConsensus == nil {
+		return 0, false
+	}
+	posConsensus := jsonRes.Data[0].PosConsensus
+	if posConsensus.Slot == nil || posConsensus.Finalized == nil {
+		return 0, false
+	}
+	return *posConsensus.Slot, *posConsensus.Finalized
 }
 
 func (ec *Client) GetBlock(slot uint64) uint64 {
@@ -100,15 +110,19 @@ func (ec *Client) GetBlock(slot uint64) uint64 {
 		log.Errorf("failed to curl block by slot: status code %d", res.StatusCode)
 		return 0
 	}
-	resBody, _ := io.ReadAll(res.Body)
-	var jsonRes map[string]interface{}    // declaring a map for key names as string and values as interface
-	_ = json.Unmarshal(resBody, &jsonRes) // Unmarshalling
-	data := jsonRes["data"].(map[string]interface{})
-	if data == nil {
+	resBody, err := io.ReadAll(res.Body)
+	if err != nil {
+		log.Errorf("failed to read block by slot: %s", err)
 		return 0
 	}
-	if data["exec_block_number"] == nil {
+	var jsonRes struct {
+		Data struct {
+			ExecBlockNumber uint64 `json:"exec_block_number"`
+		} `json:"data"`
+	}
+	if err = json.Unmarshal(resBody, &jsonRes); err != nil {
+		log.Errorf("failed to decode block by slot: %s", err)
 		return 0
 	}
-	return uint64(data["exec_block_number"].(float64))
+	return jsonRes.Data.ExecBlockNumber
 }
-- 
2.43.0


From db51687300ddd13aeb33d7b8d3facfe1e6407ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:04 +0000
Subject: [PATCH 40/59] fix: list all pages of objects

---
 common/s3api/client.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/common/s3api/client.go b/common/s3api/client.go
index ae6b386..709b0a6 100644
--- a/common/s3api/client.go
+++ b/common/s3api/client.go
@@ -64,14 +64,18 @@ func NewClient(bucket string) (*Client, error) {
 }
 
 func (s *Client) ListObjects(prefix string) ([]*s3.Object, error) {
-	res, err := s.s3.ListObjects(&s3.ListObjectsInput{
+	var objects []*s3.Object
+	err := s.s3.ListObjectsPages(&s3.ListObjectsInput{
 		Bucket: aws.String(s.bucket),
 		Prefix: aws.String(prefix),
+	}, func(page *s3.ListObjectsOutput, lastPage bool) bool {
+		objects = append(objects, page.Contents...)
+		return true
 	})
 	if err != nil {
 		return nil, err
 	}
-	return res.Contents, nil
+	return objects, nil
 }
 
 func (s *Client) Upload(key string, body io.Reader) error {
-- 
2.43.0


From b511aacbe507e908d7cdc0ef0303b09da892dc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:27 +0000
Subject: [PATCH 41/59] fix: close the files that keys, witnesses and
 constraint systems are written to

---
 common/utils/pk-vk-utils.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/utils/pk-vk-utils.go b/common/utils/pk-vk-utils.go
index 9968f8e..2a89a33 100644
--- a/common/utils/pk-vk-utils.go
+++ b/common/utils/pk-vk-utils.go
@@ -60,6 +60,7 @@ func WritePlonkVerifyingKey(filename string, vk plonk.VerifyingKey) error {
 	if err != nil {
 		return err
 	}
+	defer f.Close()
 
 	_, err = vk.WriteTo(f)
 	if err != nil {
@@ -85,6 +86,7 @@ func WriteWitness(filename string, witness witness.Witness) error {
 		log.Error("witness writing failed... ", err)
 		return err
 	}
+	defer f.Close()
 
 	_, err = witness.WriteTo(f)
 	if err != nil {
@@ -110,6 +112,7 @@ func WritePlonkCcs(filename string, css constraint.ConstraintSystem) error {
 	if err != nil {
 		return err
 	}
+	defer f.Close()
 	_, err = css.WriteTo(f)
 	if err != nil {
 		return err
@@ -178,6 +181,7 @@ func WriteProvingKey(filename string, pk groth16.ProvingKey) error {
 	if err != nil {
 		return err
 	}
+	defer f.Close()
 	_, err = pk.WriteTo(f)
 	if err != nil {
 		return err
@@ -202,6 +206,7 @@ func WriteVerifyingKey(filename string, vk groth16.VerifyingKey) error {
 		log.Error("vk writing failed... ", err)
 		return err
 	}
+	defer f.Close()
 
 	_, err = vk.WriteTo(f)
 	if err != nil {
@@ -227,6 +232,7 @@ func WriteCcs(filename string, css constraint.ConstraintSystem) error {
 	if err != nil {
 		return err
 	}
+	defer f.Close()
 	_, err = css.WriteTo(f)
 	if err != nil {
 		return err
-- 
2.43.0


From 3323a49fa749a037a55bfdd2a2f21930e8829f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:30 +0000
Subject: [PATCH 42/59] fix: report errors of WritePlonkProvingKey

---
 common/utils/pk-vk-utils.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/common/utils/pk-vk-utils.go b/common/utils/pk-vk-utils.go
index 2a89a33..80556b5 100644
--- a/common/utils/pk-vk-utils.go
+++ b/common/utils/pk-vk-utils.go
@@ -33,15 +33,20 @@ func ReadPlonkProvingKey(filename string, pk plonk.ProvingKey) error {
 	return err
 }
 
-func WritePlonkProvingKey(filename string, pk plonk.ProvingKey) {
+func WritePlonkProvingKey(filename string, pk plonk.ProvingKey) error {
 	f, err := os.Create(filename)
 	if err != nil {
 		log.Error("pk writing open failed... ", err)
+		return err
 	}
+	defer f.Close()
+
 	_, err = pk.WriteTo(f)
 	if err != nil {
 		log.Error("pk writing failed... ", err)
+		return err
 	}
+	return nil
 }
 
 func ReadPlonkVerifyingKey(filename string, vk plonk.VerifyingKey) error {
-- 
2.43.0


From df461a561d4960046acebb4eb4a17afedb82fbaa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:01:27 +0000
Subject: [PATCH 43/59] fix: do not overwrite elements that the field emulation
 still refers to in the BLS12-381 gadgets

---
 circuits/gadgets/pairing_bls12381/g2.go       | 143 +++++++-----------
 .../gadgets/pairing_bls12381/hash2curve.go    |  36 +++--
 circuits/gadgets/pairing_bls12381/pairing.go  |  50 +++---
 3 files changed, 101 insertions(+), 128 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/g2.go b/circuits/gadgets/pairing_bls12381/g2.go
index 80cb580..26df67c 100644
--- a/circuits/gadgets/pairing_bls12381/g2.go
+++ b/circuits/gadgets/pairing_bls12381/g2.go
@@ -69,36 +69,34 @@ func G2JacobianAddAssign(api frontend.API, p, a G2Jacobian) G2Jacobian {
 	r := et2.Sub(S2, S1)
 	r = et2.Double(r)
 	V := et2.Mul(U1, I)
-	p.X = *et2.Square(r)
-	p.X = *et2.Sub(&p.X, J)
-	p.X = *et2.Sub(&p.X, V)
-	p.X = *et2.Sub(&p.X, V)
-	p.Y = *et2.Sub(V, &p.X)
-	p.Y = *et2.Mul(&p.Y, r)
+	X := et2.Square(r)
+	X = et2.Sub(X, J)
+	X = et2.Sub(X, V)
+	X = et2.Sub(X, V)
+	Y := et2.Sub(V, X)
+	Y = et2.Mul(Y, r)
 	S1 = et2.Mul(S1, J)
 	S1 = et2.Double(S1)
-	p.Y = *et2.Sub(&p.Y, S1)
-	p.Z = *et2.Add(&p.Z, &a.Z)
-	p.Z = *et2.Square(&p.Z)
-	p.Z = *et2.Sub(&p.Z, Z1Z1)
-	p.Z = *et2.Sub(&p.Z, Z2Z2)
-	p.Z = *et2.Mul(&p.Z, H)
-
-	res := p
-
-	res.X = *et2.Select(pNotEqualA, &res.X, &res3.X)
-	res.Y = *et2.Select(pNotEqualA, &res.Y, &res3.Y)
-	res.Z = *et2.Select(pNotEqualA, &res.Z, &res3.Z)
-
-	res.X = *et2.Select(aZNotZero, &res.X, &res2.X)
-	res.Y = *et2.Select(aZNotZero, &res.Y, &res2.Y)
-	res.Z = *et2.Select(aZNotZero, &res.Z, &res2.Z)
-
-	res.X = *et2.Select(pZNotZero, &res.X, &res1.X)
-	res.Y = *et2.Select(pZNotZero, &res.Y, &res1.Y)
-	res.Z = *et2.Select(pZNotZero, &res.Z, &res1.Z)
-
-	return res
+	Y = et2.Sub(Y, S1)
+	Z := et2.Add(&p.Z, &a.Z)
+	Z = et2.Square(Z)
+	Z = et2.Sub(Z, Z1Z1)
+	Z = et2.Sub(Z, Z2Z2)
+	Z = et2.Mul(Z, H)
+
+	X = et2.Select(pNotEqualA, X, &res3.X)
+	Y = et2.Select(pNotEqualA, Y, &res3.Y)
+	Z = et2.Select(pNotEqualA, Z, &res3.Z)
+
+	X = et2.Select(aZNotZero, X, &res2.X)
+	Y = et2.Select(aZNotZero, Y, &res2.Y)
+	Z = et2.Select(aZNotZero, Z, &res2.Z)
+
+	X = et2.Select(pZNotZero, X, &res1.X)
+	Y = et2.Select(pZNotZero, Y, &res1.Y)
+	Z = et2.Select(pZNotZero, Z, &res1.Z)
+
+	return G2Jacobian{X: *X, Y: *Y, Z: *Z}
 }
 
 func G2JacobianNeg(api frontend.API, p G2Jacobian) G2Jacobian {
@@ -107,20 +105,12 @@ func G2JacobianNeg(api frontend.API, p G2Jacobian) G2Jacobian {
 		log.Fatal(err)
 	}
 	et2 := NewExt2(ba)
-	p.Y = *et2.Neg(&p.Y)
-	return p
+	return G2Jacobian{X: p.X, Y: *et2.Neg(&p.Y), Z: p.Z}
 }
 
 // p - p1
 func G2JacobianSubAssign(api frontend.API, p, p1 G2Jacobian) G2Jacobian {
-	ba, err := emulated.NewField[BLS12381Fp](api)
-	if err != nil {
-		log.Fatal(err)
-	}
-	et2 := NewExt2(ba)
-
-	p1.Y = *et2.Neg(&p1.Y)
-	return G2JacobianAddAssign(api, p, p1)
+	return G2JacobianAddAssign(api, p, G2JacobianNeg(api, p1))
 }
 
 func G2JacobianDouble(api frontend.API, p G2Jacobian) G2Jacobian {
@@ -140,22 +130,21 @@ func G2JacobianDouble(api frontend.API, p G2Jacobian) G2Jacobian {
 	S = et2.Double(S)
 	M := et2.Double(XX)
 	M = et2.Add(M, XX)
-	p.Z = *et2.Add(&p.Z, &p.Y)
-	p.Z = *et2.Square(&p.Z)
-	p.Z = *et2.Sub(&p.Z, YY)
-	p.Z = *et2.Sub(&p.Z, ZZ)
-	T := *et2.Square(M)
-	p.X = T
-	T = *et2.Double(S)
-	p.X = *et2.Sub(&p.X, &T)
-	p.Y = *et2.Sub(S, &p.X)
-	p.Y = *et2.Mul(&p.Y, M)
+	Z := et2.Add(&p.Z, &p.Y)
+	Z = et2.Square(Z)
+	Z = et2.Sub(Z, YY)
+	Z = et2.Sub(Z, ZZ)
+	X := et2.Square(M)
+	T := et2.Double(S)
+	X = et2.Sub(X, T)
+	Y := et2.Sub(S, X)
+	Y = et2.Mul(Y, M)
 	YYYY = et2.Double(YYYY)
 	YYYY = et2.Double(YYYY)
 	YYYY = et2.Double(YYYY)
-	p.Y = *et2.Sub(&p.Y, YYYY)
+	Y = et2.Sub(Y, YYYY)
 
-	return p
+	return G2Jacobian{X: *X, Y: *Y, Z: *Z}
 }
 
 func G2JacobianPsi(api frontend.API, a G2Jacobian) G2Jacobian {
@@ -180,16 +169,11 @@ func G2JacobianPsi(api frontend.API, a G2Jacobian) G2Jacobian {
 		A1: emulated.ValueOf[BLS12381Fp](vA1),
 	}
 
-	var p G2Jacobian
-	p.X = a.X
-	p.Y = a.Y
-	p.Z = a.Z
-	p.X = *et2.Conjugate(&p.X)
-	p.X = *et2.Mul(&p.X, &u)
-	p.Y = *et2.Conjugate(&p.Y)
-	p.Y = *et2.Mul(&p.Y, &v)
-	p.Z = *et2.Conjugate(&p.Z)
-	return p
+	return G2Jacobian{
+		X: *et2.Mul(et2.Conjugate(&a.X), &u),
+		Y: *et2.Mul(et2.Conjugate(&a.Y), &v),
+		Z: *et2.Conjugate(&a.Z),
+	}
 }
 
 func G2Psi(api frontend.API, a G2Affine) *G2Affine {
@@ -214,14 +198,10 @@ func G2Psi(api frontend.API, a G2Affine) *G2Affine {
 		A1: emulated.ValueOf[BLS12381Fp](vA1),
 	}
 
-	var p G2Affine
-	p.X = a.X
-	p.Y = a.Y
-	p.X = *et2.Conjugate(&p.X)
-	p.X = *et2.Mul(&p.X, &u)
-	p.Y = *et2.Conjugate(&p.Y)
-	p.Y = *et2.Mul(&p.Y, &v)
-	return &p
+	return &G2Affine{
+		X: *et2.Mul(et2.Conjugate(&a.X), &u),
+		Y: *et2.Mul(et2.Conjugate(&a.Y), &v),
+	}
 }
 
 func G2JacobianConstScalarMul(api frontend.API, a G2Jacobian) G2Jacobian {
@@ -285,8 +265,7 @@ func G2JacobianPhi(api frontend.API, p G2Jacobian) G2Jacobian {
 	thirdRootOneG1.SetString("4002409555221667392624310435006688643935503118305586438271171395842971157480381377015405980053539358417135540939436")
 	thirdRootOneG2.Square(&thirdRootOneG1)
 	t := emulated.ValueOf[BLS12381Fp](thirdRootOneG2)
-	p.X = *et2.MulByElement(&p.X, &t)
-	return p
+	return G2Jacobian{X: *et2.MulByElement(&p.X, &t), Y: p.Y, Z: p.Z}
 }
 
 // Affine
@@ -329,8 +308,7 @@ func G2Phi(api frontend.API, p G2Affine) G2Affine {
 	thirdRootOneG1.SetString("4002409555221667392624310435006688643935503118305586438271171395842971157480381377015405980053539358417135540939436")
 	thirdRootOneG2.Square(&thirdRootOneG1)
 	t := emulated.ValueOf[BLS12381Fp](thirdRootOneG2)
-	p.X = *et2.MulByElement(&p.X, &t)
-	return p
+	return G2Affine{X: *et2.MulByElement(&p.X, &t), Y: p.Y}
 }
 
 // Neg outputs -p
@@ -437,17 +415,17 @@ func G2ConstScalarMul(api frontend.API, Q G2Affine) *G2Affine {
 	table[1] = *G2AddAssign(api, Q, *negPhiQ)
 	table[2] = *G2AddAssign(api, *negQ, phiQ)
 	table[3] = *G2AddAssign(api, Q, phiQ)
-	Acc := table[3]
+	Acc := &table[3]
 	if k[0].Bit(nbits-1) == 1 && k[1].Bit(nbits-1) == 1 {
-		Acc = *G2Double(api, Acc)
-		Acc = *G2AddAssign(api, Acc, table[3])
+		Acc = G2Double(api, *Acc)
+		Acc = G2AddAssign(api, *Acc, table[3])
 		nbits = nbits - 1
 	}
 	for i := nbits - 1; i > 0; i-- {
-		Acc = *DoubleAndAdd(api, &Acc, &table[k[0].Bit(i)+2*k[1].Bit(i)])
+		Acc = DoubleAndAdd(api, Acc, &table[k[0].Bit(i)+2*k[1].Bit(i)])
 	}
 
-	negQ = G2AddAssign(api, *negQ, Acc)
+	negQ = G2AddAssign(api, *negQ, *Acc)
 	negPhiQ = G2AddAssign(api, *negPhiQ, *negQ)
 
 	return &G2Affine{
@@ -458,14 +436,7 @@ func G2ConstScalarMul(api frontend.API, Q G2Affine) *G2Affine {
 
 // p - p1
 func G2SubAssign(api frontend.API, p, p1 G2Affine) *G2Affine {
-	ba, err := emulated.NewField[BLS12381Fp](api)
-	if err != nil {
-		log.Fatal(err)
-	}
-	et2 := NewExt2(ba)
-
-	p1.Y = *et2.Neg(&p1.Y)
-	return G2AddAssign(api, p, p1)
+	return G2AddAssign(api, p, *G2Neg(api, p1))
 }
 
 // ClearCofactor maps a point in curve to r-torsion
@@ -511,7 +482,7 @@ func G2ClearCofactor(api frontend.API, a G2Affine) *G2Affine {
 	var thirdRootOneG1 fp.Element
 	thirdRootOneG1.SetString("4002409555221667392624310435006688643935503118305586438271171395842971157480381377015405980053539358417135540939436")
 	trog1 := emulated.ValueOf[BLS12381Fp](thirdRootOneG1)
-	t.X = *et2.MulByElement(&t.X, &trog1)
+	t = &G2Affine{X: *et2.MulByElement(&t.X, &trog1), Y: t.Y}
 	res = G2SubAssign(api, *res, *t)
 
 	return res
diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index aec5ad2..1fcacc5 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -251,7 +251,7 @@ func g2SqrtRatio(api frontend.API, u *E2, v *E2) (z *E2, isQNr frontend.Variable
 	et2 := NewExt2(ba)
 	// https://www.ietf.org/archive/id/draft-irtf-cfrg-hash-to-curve-16.html#name-sqrt_ratio-for-any-field
 
-	tv1 := E2{
+	tv1 := &E2{
 		A0: emulated.ValueOf[BLS12381Fp](fp.Element{8921533702591418330, 15859389534032789116, 3389114680249073393, 15116930867080254631, 3288288975085550621, 1021049300055853010}),
 		A1: emulated.ValueOf[BLS12381Fp](fp.Element{8921533702591418330, 15859389534032789116, 3389114680249073393, 15116930867080254631, 3288288975085550621, 1021049300055853010}),
 	}
@@ -287,7 +287,7 @@ func g2SqrtRatio(api frontend.API, u *E2, v *E2) (z *E2, isQNr frontend.Variable
 	}
 
 	tv2 = et2.Mul(tv3, &c7)           // 13. tv2 = tv3 * c7
-	tv5 = et2.Mul(tv4, &tv1)          // 14. tv5 = tv4 * tv1
+	tv5 = et2.Mul(tv4, tv1)           // 14. tv5 = tv4 * tv1
 	tv3 = et2.Select(isQNr, tv2, tv3) // tv3.Select(int(isQNr), &tv3, &tv2) // 15. tv3 = CMOV(tv2, tv3, isQR)
 	tv4 = et2.Select(isQNr, tv5, tv4) // tv4.Select(int(isQNr), &tv4, &tv5) // 16. tv4 = CMOV(tv5, tv4, isQR)
 
@@ -296,9 +296,9 @@ func g2SqrtRatio(api frontend.API, u *E2, v *E2) (z *E2, isQNr frontend.Variable
 	for i := 3; i >= 2; i-- { // 17. for i in (c1, c1 - 1, ..., 2):
 		tv5 = E2Exp(api, *tv4, &exp)
 		nE1 := E2NotOne(api, *tv5)
-		tv2 = et2.Mul(tv3, &tv1)
-		tv1 = *et2.Mul(&tv1, &tv1)
-		tv5 = et2.Mul(tv4, &tv1)
+		tv2 = et2.Mul(tv3, tv1)
+		tv1 = et2.Mul(tv1, tv1)
+		tv5 = et2.Mul(tv4, tv1)
 		tv3 = et2.Select(nE1, tv2, tv3)
 		tv4 = et2.Select(nE1, tv5, tv4)
 		if i > 2 {
@@ -324,10 +324,11 @@ func E2Exp(api frontend.API, x E2, k *big.Int) *E2 {
 	}
 
 	e := k
+	base := &x
 	if k.Sign() == -1 {
 		// negative k, we invert
 		// if k < 0: xᵏ (mod q²) == (x⁻¹)ᵏ (mod q²)
-		x = *et2.Inverse(&x)
+		base = et2.Inverse(&x)
 
 		// we negate k in a temp big.Int since
 		// Int.Bit(_) of k and -k is different
@@ -340,7 +341,7 @@ func E2Exp(api frontend.API, x E2, k *big.Int) *E2 {
 		for j := 0; j < 8; j++ {
 			res = et2.Square(res)
 			if (w & (0b10000000 >> j)) != 0 {
-				res = et2.Mul(res, &x)
+				res = et2.Mul(res, base)
 			}
 		}
 	}
@@ -524,8 +525,7 @@ func G1NotZero(api frontend.API, x baseEl) frontend.Variable {
 	if err != nil {
 		log.Fatal(err)
 	}
-	x = *ba.Reduce(&x)
-	bs := ba.ToBits(&x)
+	bs := ba.ToBits(ba.Reduce(&x))
 	var isNotZero frontend.Variable
 	isNotZero = 0
 	for _, b := range bs {
@@ -547,10 +547,8 @@ func G1NotEqual(api frontend.API, x, y baseEl) frontend.Variable {
 	if err != nil {
 		log.Fatal(err)
 	}
-	x = *ba.Reduce(&x)
-	y = *ba.Reduce(&y)
-	xBits := ba.ToBits(&x)
-	yBits := ba.ToBits(&y)
+	xBits := ba.ToBits(ba.Reduce(&x))
+	yBits := ba.ToBits(ba.Reduce(&y))
 
 	var notEqual frontend.Variable
 	notEqual = 0
@@ -607,10 +605,10 @@ func GetG2AffineFromG2Jac(api frontend.API, Q *G2Jacobian) *G2Affine {
 	}
 	a := et2.Inverse(&Q.Z)
 	b := et2.Square(a)
-	res2 := &G2Affine{}
-	res2.X = *et2.Mul(&Q.X, b)
-	res2.Y = *et2.Mul(&Q.Y, b)
-	res2.Y = *et2.Mul(&res2.Y, a)
+	res2 := &G2Affine{
+		X: *et2.Mul(&Q.X, b),
+		Y: *et2.Mul(et2.Mul(&Q.Y, b), a),
+	}
 	jacZNotZero := E2NotZero(api, Q.Z)
 
 	final := &G2Affine{}
@@ -649,9 +647,9 @@ func ClearCofactor(api frontend.API, a G2Jacobian) *G2Jacobian {
 	thirdRootOneG1.SetString("4002409555221667392624310435006688643935503118305586438271171395842971157480381377015405980053539358417135540939436")
 	trog1 := emulated.ValueOf[BLS12381Fp](thirdRootOneG1)
 
-	t.X = *et2.MulByElement(&t.X, &trog1)
+	phi := G2Jacobian{X: *et2.MulByElement(&t.X, &trog1), Y: t.Y, Z: t.Z}
 
-	res = G2JacobianSubAssign(api, res, t)
+	res = G2JacobianSubAssign(api, res, phi)
 
 	return &res
 
diff --git a/circuits/gadgets/pairing_bls12381/pairing.go b/circuits/gadgets/pairing_bls12381/pairing.go
index 8361dea..2e57752 100644
--- a/circuits/gadgets/pairing_bls12381/pairing.go
+++ b/circuits/gadgets/pairing_bls12381/pairing.go
@@ -115,8 +115,8 @@ func (e *ext12) Mul014By014(d0, d1, d4, c0, c1, c4 *E2) *E12 {
 	x14 = e.ext2.Sub(x14, x1)  //	Sub(&x14, &x1).
 	x14 = e.ext2.Sub(x14, x4)  //	Sub(&x14, &x4)
 
-	z00 := *e.ext2.MulByNonResidue(x4) //z.C0.B0.MulByNonResidue(&x4).
-	z00 = *e.ext2.Add(&z00, x0)        //	Add(&z.C0.B0, &x0)
+	z00 := e.ext2.MulByNonResidue(x4) //z.C0.B0.MulByNonResidue(&x4).
+	z00 = e.ext2.Add(z00, x0)         //	Add(&z.C0.B0, &x0)
 
 	z01 := *x01           //z.C0.B1.Set(&x01)
 	z02 := *x1            //z.C0.B2.Set(&x1)
@@ -126,7 +126,7 @@ func (e *ext12) Mul014By014(d0, d1, d4, c0, c1, c4 *E2) *E12 {
 
 	return &E12{
 		C0: E6{
-			B0: z00,
+			B0: *z00,
 			B1: z01,
 			B2: z02,
 		},
@@ -143,19 +143,17 @@ func (pr *Pairing) MulBy014(z *E12, c0, c1, c4 *E2) *E12 {
 	//var a, b E6
 	//var d E2
 
-	a := z.C0                        //a.Set(&z.C0)
-	a = *pr.ext6.MulBy01(&a, c0, c1) //a.MulBy01(c0, c1)
+	a := pr.ext6.MulBy01(&z.C0, c0, c1) //a.MulBy01(c0, c1)
 
-	b := z.C1                   //b.Set(&z.C1)
-	b = *pr.ext6.MulBy1(&b, c4) //b.MulBy1(c4)
-	d := pr.ext2.Add(c1, c4)    //d.Add(c1, c4)
+	b := pr.ext6.MulBy1(&z.C1, c4) //b.MulBy1(c4)
+	d := pr.ext2.Add(c1, c4)       //d.Add(c1, c4)
 
-	z1 := pr.ext6.Add(&z.C1, &z.C0)   //z.C1.Add(&z.C1, &z.C0)
-	z1 = pr.ext6.MulBy01(z1, c0, d)   //z.C1.MulBy01(c0, &d)
-	z1 = pr.ext6.Sub(z1, &a)          //z.C1.Sub(&z.C1, &a)
-	z1 = pr.ext6.Sub(z1, &b)          //z.C1.Sub(&z.C1, &b)
-	z0 := pr.ext6.MulByNonResidue(&b) //z.C0.MulByNonResidue(&b)
-	z0 = pr.ext6.Add(z0, &a)          //z.C0.Add(&z.C0, &a)
+	z1 := pr.ext6.Add(&z.C1, &z.C0)  //z.C1.Add(&z.C1, &z.C0)
+	z1 = pr.ext6.MulBy01(z1, c0, d)  //z.C1.MulBy01(c0, &d)
+	z1 = pr.ext6.Sub(z1, a)          //z.C1.Sub(&z.C1, &a)
+	z1 = pr.ext6.Sub(z1, b)          //z.C1.Sub(&z.C1, &b)
+	z0 := pr.ext6.MulByNonResidue(b) //z.C0.MulByNonResidue(&b)
+	z0 = pr.ext6.Add(z0, a)          //z.C0.Add(&z.C0, &a)
 
 	return &E12{
 		C0: *z0,
@@ -208,6 +206,16 @@ type LineEvaluation struct {
 	r2 E2
 }
 
+// evaluateLine evaluates the line at the G1 point p. The operands are not
+// overwritten: the field emulation keeps references to them.
+func (pr Pairing) evaluateLine(l *LineEvaluation, p *G1Affine) *LineEvaluation {
+	return &LineEvaluation{
+		r0: l.r0,
+		r1: *pr.ext2.MulByElement(&l.r1, &p.X),
+		r2: *pr.ext2.MulByElement(&l.r2, &p.Y),
+	}
+}
+
 var loopCounter = [64]int8{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0, 1, 1}
 
 func (pr Pairing) MillerLoop(p []*G1Affine, q []*G2Affine) (*GTEl, error) {
@@ -228,14 +236,12 @@ func (pr Pairing) MillerLoop(p []*G1Affine, q []*G2Affine) (*GTEl, error) {
 
 	// i == len(loopCounter) - 2
 	for k := 0; k < n; k++ {
-		qProj[k], l1 = pr.DoubleStep(qProj[k])               // qProj[k].DoubleStep(&l1)
-		l1.r1 = *pr.ext12.ext2.MulByElement(&l1.r1, &p[k].X) // l1.r1.MulByElement(&l1.r1, &p[k].X)
-		l1.r2 = *pr.ext12.ext2.MulByElement(&l1.r2, &p[k].Y) // l1.r2.MulByElement(&l1.r2, &p[k].Y)
+		qProj[k], l1 = pr.DoubleStep(qProj[k]) // qProj[k].DoubleStep(&l1)
+		l1 = pr.evaluateLine(l1, p[k])
 
 		qProj[k], l2 = pr.AddStep(qProj[k], q[k]) // qProj[k].AddMixedStep(&l2, &q[k])
 		// line eval
-		l2.r1 = *pr.ext12.ext2.MulByElement(&l2.r1, &p[k].X) //l2.r1.MulByElement(&l2.r1, &p[k].X)
-		l2.r2 = *pr.ext12.ext2.MulByElement(&l2.r2, &p[k].Y) //l2.r2.MulByElement(&l2.r2, &p[k].Y)
+		l2 = pr.evaluateLine(l2, p[k])
 
 		// ℓ × ℓ
 		lines := pr.ext12.Mul014By014(&l1.r0, &l1.r1, &l1.r2, &l2.r0, &l2.r1, &l2.r2)
@@ -250,16 +256,14 @@ func (pr Pairing) MillerLoop(p []*G1Affine, q []*G2Affine) (*GTEl, error) {
 			qProj[k], l1 = pr.DoubleStep(qProj[k])
 
 			// line eval
-			l1.r1 = *pr.ext2.MulByElement(&l1.r1, &p[k].X) //l1.r1.MulByElement(&l1.r1, &p[k].X)
-			l1.r2 = *pr.ext2.MulByElement(&l1.r2, &p[k].Y) //l1.r2.MulByElement(&l1.r2, &p[k].Y)
+			l1 = pr.evaluateLine(l1, p[k])
 
 			if loopCounter[i] == 0 {
 				result = pr.MulBy014(result, &l1.r0, &l1.r1, &l1.r2) //result.MulBy014(&l1.r0, &l1.r1, &l1.r2)
 			} else {
 				qProj[k], l2 = pr.AddStep(qProj[k], q[k]) //qProj[k].AddMixedStep(&l2, &q[k])
 				// line eval
-				l2.r1 = *pr.ext12.ext2.MulByElement(&l2.r1, &p[k].X) //l2.r1.MulByElement(&l2.r1, &p[k].X)
-				l2.r2 = *pr.ext12.ext2.MulByElement(&l2.r2, &p[k].Y) //	l2.r2.MulByElement(&l2.r2, &p[k].Y)
+				l2 = pr.evaluateLine(l2, p[k])
 				// ℓ × ℓ
 				lines := pr.Mul014By014(&l1.r0, &l1.r1, &l1.r2, &l2.r0, &l2.r1, &l2.r2) // lines.Mul014By014(&l1.r0, &l1.r1, &l1.r2, &l2.r0, &l2.r1, &l2.r2)
 				// (ℓ × ℓ) × result
-- 
2.43.0


From 0d7feaad26260ca8524012da6fa285ed8ed9cd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:27 +0000
Subject: [PATCH 44/59] fix: compute the third power of the Frobenius in
 FrobeniusCube

---
 circuits/gadgets/pairing_bls12381/tower.go | 25 +---------------------
 1 file changed, 1 insertion(+), 24 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/tower.go b/circuits/gadgets/pairing_bls12381/tower.go
index 8dd6802..3901786 100644
--- a/circuits/gadgets/pairing_bls12381/tower.go
+++ b/circuits/gadgets/pairing_bls12381/tower.go
@@ -687,30 +687,7 @@ func (e ext12) FrobeniusSquare(x *E12) *E12 {
 }
 
 func (e ext12) FrobeniusCube(x *E12) *E12 {
-	// var t [6]E2
-	t0 := e.ext2.Conjugate(&x.C0.B0)       // t[0].Conjugate(&x.C0.B0)
-	t1 := e.ext2.Conjugate(&x.C0.B1)       // t[1].Conjugate(&x.C0.B1)
-	t2 := e.ext2.Conjugate(&x.C0.B2)       // t[2].Conjugate(&x.C0.B2)
-	t3 := e.ext2.Conjugate(&x.C1.B0)       // t[3].Conjugate(&x.C1.B0)
-	t4 := e.ext2.Conjugate(&x.C1.B1)       // t[4].Conjugate(&x.C1.B1)
-	t5 := e.ext2.Conjugate(&x.C1.B2)       // t[5].Conjugate(&x.C1.B2)
-	t1 = e.ext2.MulByNonResidue1Power2(t1) // t[1].MulByNonResidue3Power2(&t[1])
-	t2 = e.ext2.MulByNonResidue1Power4(t2) // t[2].MulByNonResidue3Power4(&t[2])
-	t3 = e.ext2.MulByNonResidue1Power1(t3) // t[3].MulByNonResidue3Power1(&t[3])
-	t4 = e.ext2.MulByNonResidue1Power3(t4) // t[4].MulByNonResidue3Power3(&t[4])
-	t5 = e.ext2.MulByNonResidue1Power5(t5) // t[5].MulByNonResidue3Power5(&t[5])
-	return &E12{                           // return z
-		C0: E6{
-			B0: *t0, // z.C0.B0 = t[0]
-			B1: *t1, // z.C0.B1 = t[1]
-			B2: *t2, // z.C0.B2 = t[2]
-		},
-		C1: E6{
-			B0: *t3, // z.C1.B0 = t[3]
-			B1: *t4, // z.C1.B1 = t[4]
-			B2: *t5, // z.C1.B2 = t[5]
-		},
-	}
+	return e.Frobenius(e.FrobeniusSquare(x))
 }
 
 func (e ext12) DecompressKarabina(x E12) *E12 {
-- 
2.43.0


From 8bf9b0f479d770a979e6bedff76d0f6a8dcd0267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:28 +0000
Subject: [PATCH 45/59] fix: decompress elements with g3 = 0 in
 DecompressKarabina

---
 circuits/gadgets/pairing_bls12381/tower.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/tower.go b/circuits/gadgets/pairing_bls12381/tower.go
index 3901786..94bd1ec 100644
--- a/circuits/gadgets/pairing_bls12381/tower.go
+++ b/circuits/gadgets/pairing_bls12381/tower.go
@@ -215,6 +215,12 @@ func (e ext2) Select(selector frontend.Variable, x, y *E2) *E2 {
 	}
 }
 
+// selectIfZero returns x if v is zero and y otherwise
+func (e ext2) selectIfZero(v, x, y *E2) *E2 {
+	z := e.Select(e.fp.IsZero(&v.A1), x, y)
+	return e.Select(e.fp.IsZero(&v.A0), z, y)
+}
+
 func (e ext2) Sub(x, y *E2) *E2 {
 	z0 := e.fp.Sub(&x.A0, &y.A0) // z.A0.Sub(&x.A0, &y.A0)
 	z1 := e.fp.Sub(&x.A1, &y.A1) // z.A1.Sub(&x.A1, &y.A1)
@@ -694,8 +700,6 @@ func (e ext12) DecompressKarabina(x E12) *E12 {
 
 	one := e.ext2.One()
 
-	// TODO: add iszero handle
-
 	t0 := e.ext2.Square(&x.C0.B1) //t0[i].Square(&x[i].C0.B1)
 	// t1 = 3 * g1^2 - 2 * g2
 	t1 := e.ext2.Sub(t0, &x.C0.B2) //			t1[i].Sub(&t0[i], &x[i].C0.B2).
@@ -709,6 +713,12 @@ func (e ext12) DecompressKarabina(x E12) *E12 {
 	t1 = e.ext2.Double(&x.C1.B0) //			t1[i].Double(&x[i].C1.B0).
 	t1 = e.ext2.Double(t1)       //				Double(&t1[i])
 
+	// if g3 == 0 then g4 = 2 * g1 * g5 / g2, and g4 = 0 if also g2 == 0
+	g15 := e.ext2.Double(e.ext2.Mul(&x.C0.B1, &x.C1.B2))
+	g2 := e.ext2.selectIfZero(&x.C0.B2, one, &x.C0.B2)
+	t0 = e.ext2.selectIfZero(&x.C1.B0, g15, t0)
+	t1 = e.ext2.selectIfZero(&x.C1.B0, g2, t1)
+
 	// z4 = g4
 	zc11 := e.ext2.Div(t0, t1) //	z.C1.B1.Div(&t[0], &t[1]) // costly
 
-- 
2.43.0


From 86346f9dcb2f4ec873dcbcde52840ad170131280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:03 +0000
Subject: [PATCH 46/59] fix: take the sign of canonical representatives in
 g2Sgn0, and that of the second component only if the first is zero

---
 .../gadgets/pairing_bls12381/hash2curve.go    | 39 +++++--------------
 1 file changed, 10 insertions(+), 29 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index 1fcacc5..b1e984b 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -211,35 +211,16 @@ func g2Sgn0(api frontend.API, u *E2) frontend.Variable {
 		log.Fatal(err)
 	}
 
-	uu := E2{
-		A0: *ba.Reduce(&u.A0),
-		A1: *ba.Reduce(&u.A1),
-	}
-	var A0Bits [6][]frontend.Variable
-	A0Bits[0] = bits.ToBinary(api, uu.A0.Limbs[0], bits.WithNbDigits(64))
-	A0Bits[1] = bits.ToBinary(api, uu.A0.Limbs[1], bits.WithNbDigits(64))
-	A0Bits[2] = bits.ToBinary(api, uu.A0.Limbs[2], bits.WithNbDigits(64))
-	A0Bits[3] = bits.ToBinary(api, uu.A0.Limbs[3], bits.WithNbDigits(64))
-	A0Bits[4] = bits.ToBinary(api, uu.A0.Limbs[4], bits.WithNbDigits(64))
-	A0Bits[5] = bits.ToBinary(api, uu.A0.Limbs[5], bits.WithNbDigits(64))
-
-	var sign, zero, signI, zeroI frontend.Variable
-	sign = 0
-	zero = 1
-	signI = A0Bits[0][0]
-
-	zeroI = 0
-	for _, subBits := range A0Bits {
-		for _, b := range subBits {
-			zeroI = api.Or(signI, b)
-		}
-	}
-
-	sign = api.Or(sign, api.And(zero, signI))
-	zero = api.And(zero, zeroI)
-	signI = bits.ToBinary(api, uu.A1.Limbs[0], bits.WithNbDigits(64))[0]
-	sign = api.Or(sign, api.And(zero, signI))
-	return sign
+	// the representatives have to be smaller than the modulus for their parity to be the sign
+	a0 := ba.Reduce(&u.A0)
+	ba.AssertIsInRange(a0)
+	a1 := ba.Reduce(&u.A1)
+	ba.AssertIsInRange(a1)
+
+	sign := bits.ToBinary(api, a0.Limbs[0], bits.WithNbDigits(64))[0]
+	zero := ba.IsZero(a0)
+	signI := bits.ToBinary(api, a1.Limbs[0], bits.WithNbDigits(64))[0]
+	return api.Or(sign, api.And(zero, signI))
 }
 
 func g2SqrtRatio(api frontend.API, u *E2, v *E2) (z *E2, isQNr frontend.Variable) {
-- 
2.43.0


From b3d14daf0b67d60ae7c67e3ee29d81853b620fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:04 +0000
Subject: [PATCH 47/59] fix: compare base field elements by value in G1NotZero
 and G1NotEqual

---
 .../gadgets/pairing_bls12381/hash2curve.go    | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index b1e984b..c8c997c 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -506,13 +506,7 @@ func G1NotZero(api frontend.API, x baseEl) frontend.Variable {
 	if err != nil {
 		log.Fatal(err)
 	}
-	bs := ba.ToBits(ba.Reduce(&x))
-	var isNotZero frontend.Variable
-	isNotZero = 0
-	for _, b := range bs {
-		isNotZero = api.Or(isNotZero, b)
-	}
-	return isNotZero
+	return api.Sub(1, ba.IsZero(&x))
 }
 
 func G1NotEqualOne(api frontend.API, x baseEl) frontend.Variable {
@@ -528,16 +522,7 @@ func G1NotEqual(api frontend.API, x, y baseEl) frontend.Variable {
 	if err != nil {
 		log.Fatal(err)
 	}
-	xBits := ba.ToBits(ba.Reduce(&x))
-	yBits := ba.ToBits(ba.Reduce(&y))
-
-	var notEqual frontend.Variable
-	notEqual = 0
-	for i, b := range xBits {
-		notEqual = api.Or(notEqual, api.Xor(b, yBits[i]))
-	}
-
-	return notEqual
+	return api.Sub(1, ba.IsZero(ba.Sub(&x, &y)))
 }
 
 func E2NotEqual(api frontend.API, x, y E2) frontend.Variable {
-- 
2.43.0


From d792a05be7e6a610dc88a94682ecee5b02872bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:46 +0000
Subject: [PATCH 48/59] fix: convert the point at infinity in
 GetG2AffineFromG2Jac

---
 circuits/gadgets/pairing_bls12381/hash2curve.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index c8c997c..465d2bc 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -569,13 +569,14 @@ func GetG2AffineFromG2Jac(api frontend.API, Q *G2Jacobian) *G2Affine {
 		X: *et2.Zero(),
 		Y: *et2.Zero(),
 	}
-	a := et2.Inverse(&Q.Z)
+	jacZNotZero := E2NotZero(api, Q.Z)
+	// the point at infinity has Z = 0, which has no inverse
+	a := et2.Inverse(et2.Select(jacZNotZero, &Q.Z, et2.One()))
 	b := et2.Square(a)
 	res2 := &G2Affine{
 		X: *et2.Mul(&Q.X, b),
 		Y: *et2.Mul(et2.Mul(&Q.Y, b), a),
 	}
-	jacZNotZero := E2NotZero(api, Q.Z)
 
 	final := &G2Affine{}
 	final.X = *et2.Select(jacZNotZero, &res2.X, &res1.X)
-- 
2.43.0


From 108c456f6fef8a3cb3142e5b18751b2aa9e63699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:46 +0000
Subject: [PATCH 49/59] fix: do not share emulated constants between circuits
 in MapElementToCurve2

---
 .../gadgets/pairing_bls12381/hash2curve.go    | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index 465d2bc..522538a 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -164,27 +164,30 @@ func MapElementToCurve2(api frontend.API, e2 E2) (x, y *E2) {
 
 	et2 := NewExt2(ba)
 
+	// the field emulation stores evaluations in the elements, so the constants are not shared
+	tv4Z, coeffA, coeffB := Tv4Z, SswuIsoCurveCoeffA, SswuIsoCurveCoeffB
+
 	tv1 := et2.Square(&e2)    // 1.  tv1 = u²
-	tv1 = et2.Mul(tv1, &Tv4Z) // 2.  tv1 = Z * tv1
+	tv1 = et2.Mul(tv1, &tv4Z) // 2.  tv1 = Z * tv1
 	tv2 := et2.Square(tv1)    // 3.  tv2 = tv1²
 	tv2 = et2.Add(tv2, tv1)   // 4.  tv2 = tv2 + tv1
 
-	tv3 := et2.Add(tv2, et2.One())          // 5.  tv3 = tv2 + 1
-	tv3 = et2.Mul(tv3, &SswuIsoCurveCoeffB) // 6.  tv3 = B * tv3
+	tv3 := et2.Add(tv2, et2.One()) // 5.  tv3 = tv2 + 1
+	tv3 = et2.Mul(tv3, &coeffB)    // 6.  tv3 = B * tv3
 
 	tv2 = et2.Neg(tv2)
-	tv4 := et2.Mul(tv2, &SswuIsoCurveCoeffA)
+	tv4 := et2.Mul(tv2, &coeffA)
 
 	tv2 = et2.Square(tv3) // 9.  tv2 = tv3²
 
-	tv6 := et2.Square(tv4)                   // 10. tv6 = tv4²
-	tv5 := et2.Mul(tv6, &SswuIsoCurveCoeffA) // 11. tv5 = A * tv6
-	tv2 = et2.Add(tv2, tv5)                  // 12. tv2 = tv2 + tv5
-	tv2 = et2.Mul(tv2, tv3)                  // 13. tv2 = tv2 * tv3
-	tv6 = et2.Mul(tv6, tv4)                  // 14. tv6 = tv6 * tv4
+	tv6 := et2.Square(tv4)       // 10. tv6 = tv4²
+	tv5 := et2.Mul(tv6, &coeffA) // 11. tv5 = A * tv6
+	tv2 = et2.Add(tv2, tv5)      // 12. tv2 = tv2 + tv5
+	tv2 = et2.Mul(tv2, tv3)      // 13. tv2 = tv2 * tv3
+	tv6 = et2.Mul(tv6, tv4)      // 14. tv6 = tv6 * tv4
 
-	tv5 = et2.Mul(tv6, &SswuIsoCurveCoeffB) // 15. tv5 = B * tv6
-	tv2 = et2.Add(tv2, tv5)                 // 16. tv2 = tv2 + tv5
+	tv5 = et2.Mul(tv6, &coeffB) // 15. tv5 = B * tv6
+	tv2 = et2.Add(tv2, tv5)     // 16. tv2 = tv2 + tv5
 
 	x = et2.Mul(tv1, tv3) // 17.   x = tv1 * tv3
 
-- 
2.43.0


From bbffd0e3e89beb051002657ac29c2d30047b400e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:46 +0000
Subject: [PATCH 50/59] fix: leave the exponent of E2Exp unchanged

---
 circuits/gadgets/pairing_bls12381/hash2curve.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index 522538a..1080d81 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -316,7 +316,7 @@ func E2Exp(api frontend.API, x E2, k *big.Int) *E2 {
 
 		// we negate k in a temp big.Int since
 		// Int.Bit(_) of k and -k is different
-		e.Neg(k)
+		e = new(big.Int).Neg(k)
 	}
 
 	b := e.Bytes()
-- 
2.43.0


From 129b129b1eb90cfdc524fba9768c439cd06d30e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:17 +0000
Subject: [PATCH 51/59] fix: map the zero field element in MapElementToCurve2

---
 circuits/gadgets/pairing_bls12381/hash2curve.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index 1080d81..a848b60 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -175,8 +175,9 @@ func MapElementToCurve2(api frontend.API, e2 E2) (x, y *E2) {
 	tv3 := et2.Add(tv2, et2.One()) // 5.  tv3 = tv2 + 1
 	tv3 = et2.Mul(tv3, &coeffB)    // 6.  tv3 = B * tv3
 
-	tv2 = et2.Neg(tv2)
-	tv4 := et2.Mul(tv2, &coeffA)
+	tv2NZero := E2NotZero(api, *tv2)
+	tv2 = et2.Select(tv2NZero, et2.Neg(tv2), &tv4Z) // 7.  tv4 = CMOV(Z, -tv2, tv2 != 0)
+	tv4 := et2.Mul(tv2, &coeffA)                    // 8.  tv4 = A * tv4
 
 	tv2 = et2.Square(tv3) // 9.  tv2 = tv3²
 
-- 
2.43.0


From 3d6493b4ad29ce39d347585f8fc086f7c7bb61c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:00 +0000
Subject: [PATCH 52/59] fix: reduce the whole hash modulo the group order in
 Ed25519 Verify

---
 circuits/gadgets/ed25519/ed25519.go | 30 +++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/ed25519/ed25519.go b/circuits/gadgets/ed25519/ed25519.go
index 10291b4..0a6965a 100644
--- a/circuits/gadgets/ed25519/ed25519.go
+++ b/circuits/gadgets/ed25519/ed25519.go
@@ -3,6 +3,7 @@ package ed25519
 import (
 	"errors"
 	"fmt"
+	"math/big"
 
 	sha512 "github.com/brevis-network/zk-utils/circuits/gadgets/sha512"
 
@@ -119,6 +120,32 @@ func (e *Ed25519) recomposePbKey(vbs []frontend.Variable) []frontend.Variable {
 	return result[:]
 }
 
+// reduceToScalar returns the little-endian integer bits modulo the group order. An element of the scalar field has
+// to have the default number of limbs, so that the integer is handled in chunks of that size.
+func (e *Ed25519) reduceToScalar(bits []frontend.Variable) *emulated.Element[Ed25519Fr] {
+	var fr Ed25519Fr
+	sf := e.fp.scalarField
+	chunkLen := int(fr.NbLimbs() * fr.BitsPerLimb())
+	var res *emulated.Element[Ed25519Fr]
+	for i := 0; i < len(bits); i += chunkLen {
+		chunk := make([]frontend.Variable, chunkLen)
+		for j := range chunk {
+			chunk[j] = 0
+			if i+j < len(bits) {
+				chunk[j] = bits[i+j]
+			}
+		}
+		weight := sf.NewElement(new(big.Int).Lsh(big.NewInt(1), uint(i)))
+		term := sf.Mul(sf.FromBits(chunk...), weight)
+		if res == nil {
+			res = term
+		} else {
+			res = sf.Add(res, term)
+		}
+	}
+	return sf.Reduce(res)
+}
+
 func (e *Ed25519) Verify(
 	originPubs []frontend.Variable,
 	sig Signature,
@@ -149,8 +176,7 @@ func (e *Ed25519) Verify(
 		bits = append(bits, e.api.ToBinary(hRam[i], 8)...)
 	}
 
-	hRamScalar := e.fp.scalarField.FromBitsOverflow(bits...)
-	hRamScalar = e.fp.scalarField.Reduce(hRamScalar)
+	hRamScalar := e.reduceToScalar(bits)
 
 	baseX := emulated.ValueOf[Ed25519Fp](curve.Params().Base[0])
 	baseY := emulated.ValueOf[Ed25519Fp](curve.Params().Base[1])
-- 
2.43.0


From c48cdc02490559242aadb4d80717ac1a9f3d2ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:00 +0000
Subject: [PATCH 53/59] fix: require the points of an Ed25519 signature to be
 on the curve

---
 circuits/gadgets/ed25519/ed25519.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/circuits/gadgets/ed25519/ed25519.go b/circuits/gadgets/ed25519/ed25519.go
index 0a6965a..7d7d16d 100644
--- a/circuits/gadgets/ed25519/ed25519.go
+++ b/circuits/gadgets/ed25519/ed25519.go
@@ -157,6 +157,10 @@ func (e *Ed25519) Verify(
 		panic("new twistededwards curve failed")
 	}
 
+	// the group law holds for points of the curve only
+	curve.AssertIsOnCurve(sig.R)
+	curve.AssertIsOnCurve(pubKey.A)
+
 	hash := sha512.New(e.api)
 	sigBytes := e.bytes(&sig.R)
 	pubKeyBytes := e.bytes(&pubKey.A)
-- 
2.43.0


From 152be26a491d283a90d06e7789b1f3ecc1bd9f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:00 +0000
Subject: [PATCH 54/59] fix: require the scalar of an Ed25519 signature to be
 below the group order

---
 circuits/gadgets/ed25519/ed25519.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/circuits/gadgets/ed25519/ed25519.go b/circuits/gadgets/ed25519/ed25519.go
index 7d7d16d..bdaf4ab 100644
--- a/circuits/gadgets/ed25519/ed25519.go
+++ b/circuits/gadgets/ed25519/ed25519.go
@@ -161,6 +161,9 @@ func (e *Ed25519) Verify(
 	curve.AssertIsOnCurve(sig.R)
 	curve.AssertIsOnCurve(pubKey.A)
 
+	// S and S plus the group order satisfy the same equation (RFC 8032, 5.1.7)
+	e.api.AssertIsLessOrEqual(sig.S, new(big.Int).Sub(curve.Params().Order, big.NewInt(1)))
+
 	hash := sha512.New(e.api)
 	sigBytes := e.bytes(&sig.R)
 	pubKeyBytes := e.bytes(&pubKey.A)
-- 
2.43.0


From 91da389bcd5fed9f79d54c3938eae2f664ac44cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:00 +0000
Subject: [PATCH 55/59] fix: encode Ed25519 points by their canonical
 coordinates

---
 circuits/gadgets/ed25519/ed25519.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/circuits/gadgets/ed25519/ed25519.go b/circuits/gadgets/ed25519/ed25519.go
index bdaf4ab..f53619f 100644
--- a/circuits/gadgets/ed25519/ed25519.go
+++ b/circuits/gadgets/ed25519/ed25519.go
@@ -58,6 +58,8 @@ func (e *Ed25519) bytes(v *Point) [32]frontend.Variable {
 }
 
 func (e *Ed25519) copyFieldElement(v *emulated.Element[Ed25519Fp]) [32]frontend.Variable {
+	// the encoding is that of the canonical representation
+	e.fp.baseField.AssertIsInRange(v)
 	bits := e.fp.baseField.ToBits(v)
 
 	var buf [32]frontend.Variable
-- 
2.43.0


From 0abe7d4eb64668cc05d87628d075866a6a008fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:16 +0000
Subject: [PATCH 56/59] fix: render a fulfilled-requests event that has fewer
 nonces than requests

---
 common/eth/evstr.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/eth/evstr.go b/common/eth/evstr.go
index a8c5ddc..cee27ad 100644
--- a/common/eth/evstr.go
+++ b/common/eth/evstr.go
@@ -15,6 +15,10 @@ func (ev *BrevisRequestRequestSent) PrettyLog(onchid uint64) string {
 func (s *BrevisRequestOpRequestsFulfilled) String() string {
 	var out string
 	for i, id := range s.ProofIds {
+		if i >= len(s.Nonces) {
+			out += fmt.Sprintf("<requestId %x> ", id)
+			continue
+		}
 		out += fmt.Sprintf("<requestId %x nonce %d> ", id, s.Nonces[i])
 	}
 	return fmt.Sprintf("< %s>", out)
-- 
2.43.0


From 8280d0678f99354848544276339ce4d4f3e22eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:40 +0000
Subject: [PATCH 57/59] fix: object keys with empty, . or .. segments are not
 rewritten to other keys

---
 common/s3api/client.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/common/s3api/client.go b/common/s3api/client.go
index 709b0a6..5387a5c 100644
--- a/common/s3api/client.go
+++ b/common/s3api/client.go
@@ -51,6 +51,8 @@ func NewClient(bucket string) (*Client, error) {
 	sess, err := session.NewSession(&aws.Config{
 		Region:      aws.String("us-west-2"),
 		Credentials: cre,
+		// a key names one object, "a//b" and "a/../b" are not other names of "a/b" and "b"
+		DisableRestProtocolURICleaning: aws.Bool(true),
 	})
 	if err != nil {
 		return nil, err
-- 
2.43.0


From e35a6b943ff83fbcd5431a970d7a17e242689f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:29 +0000
Subject: [PATCH 58/59] fix: long RLP fields of 112..127 nibbles and long lists
 with a one-byte length are accepted

---
 circuits/gadgets/rlp/rlp.go | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/circuits/gadgets/rlp/rlp.go b/circuits/gadgets/rlp/rlp.go
index bece305..e9e65e4 100644
--- a/circuits/gadgets/rlp/rlp.go
+++ b/circuits/gadgets/rlp/rlp.go
@@ -376,6 +376,24 @@ type ArrayCheck struct {
 	FieldMaxHexLen       []int
 }
 
+// arrayPrefixMaxShift returns the range of the shift over the array prefix. The prefix of a long array is at least
+// 4 nibbles, also if its length fits one byte (ArrayPrefixMaxHexLen 2).
+func (a *ArrayCheck) arrayPrefixMaxShift() int {
+	if a.ArrayPrefixMaxHexLen < 4 {
+		return 4
+	}
+	return a.ArrayPrefixMaxHexLen
+}
+
+// fieldLenPrefixMaxHexLen returns the range of the shift over the prefix of a field of up to maxHexLen nibbles. From
+// 112 nibbles (56 bytes) on the prefix is at least 4 nibbles.
+func fieldLenPrefixMaxHexLen(maxHexLen int) int {
+	if maxHexLen >= 112 && maxHexLen < 128 {
+		return 4
+	}
+	return (LogCeil(maxHexLen)/8 + 1) * 2
+}
+
 func (a *ArrayCheck) LeftShiftRlpArrayPrefix(api frontend.API, in []frontend.Variable) (out []frontend.Variable, arrayLen frontend.Variable) {
 	isBig, prefixOrTotalHexLen, isValid := RlpArrayPrefix(api, [2]frontend.Variable{in[0], in[1]})
 	api.AssertIsEqual(isValid, 1)
@@ -400,7 +418,7 @@ func (a *ArrayCheck) LeftShiftRlpArrayPrefix(api frontend.API, in []frontend.Var
 	totalArrayHexLen := api.Sub(api.Mul(2, totalArrayOut[0]), prefixOrTotalHexLen)
 	totalArrayHexLen = api.Add(prefixOrTotalHexLen, api.Mul(isBig, totalArrayHexLen))
 
-	shlOut := ShiftLeft(api, a.MaxHexLen, 0, a.ArrayPrefixMaxHexLen, in, api.Add(2, arrayRlpPrefix1HexLen))
+	shlOut := ShiftLeft(api, a.MaxHexLen, 0, a.arrayPrefixMaxShift(), in, api.Add(2, arrayRlpPrefix1HexLen))
 	return shlOut, totalArrayHexLen
 }
 
@@ -454,7 +472,7 @@ func (a *ArrayCheck) RlpNestArrayCheck(api frontend.API, in []frontend.Variable)
 			for j := 0; j < a.MaxHexLen; j++ {
 				shiftToFieldRlpsIn = append(shiftToFieldRlpsIn, in[j])
 			}
-			shlOut := ShiftLeft(api, a.MaxHexLen, 0, a.ArrayPrefixMaxHexLen, shiftToFieldRlpsIn, api.Add(2, arrayRlpPrefix1HexLen))
+			shlOut := ShiftLeft(api, a.MaxHexLen, 0, a.arrayPrefixMaxShift(), shiftToFieldRlpsIn, api.Add(2, arrayRlpPrefix1HexLen))
 			shiftToFieldRlpsOuts = append(shiftToFieldRlpsOuts, make([]frontend.Variable, len(shlOut)))
 			shiftToFieldRlpsOuts[idx] = shlOut
 		} else {
@@ -476,8 +494,7 @@ func (a *ArrayCheck) RlpNestArrayCheck(api frontend.API, in []frontend.Variable)
 
 		fieldRlpPrefix1HexLen := api.Mul(fieldPrefixIsBig, fieldPrefixPrefixOrTotalHexLen)
 
-		lenPrefixMaxHexs := LogCeil(a.FieldMaxHexLen[idx]) / 8
-		lenPrefixMaxHexs = (lenPrefixMaxHexs + 1) * 2
+		lenPrefixMaxHexs := fieldLenPrefixMaxHexLen(a.FieldMaxHexLen[idx])
 		shlToFieldShift := api.Mul(fieldPrefixIsLiteral, api.Add(2, fieldRlpPrefix1HexLen))
 		shlToFieldShift = api.Sub(api.Add(2, fieldRlpPrefix1HexLen), shlToFieldShift)
 		keptArrayPrefixLen := api.Mul(shlToFieldShift, isArrayField) // array prefix will not be remove, so len should be added to filed hex
@@ -612,8 +629,7 @@ func (a *ArrayCheck) RlpArrayCheck(api frontend.API, in []frontend.Variable, num
 		fieldRlpPrefix1HexLen := api.Mul(fieldPrefixIsBig, fieldPrefixPrefixOrTotalHexLen)
 		fieldRlpPrefix1HexLen = api.Mul(fieldRlpPrefix1HexLen, fieldIsValid)
 
-		lenPrefixMaxHexs := LogCeil(a.FieldMaxHexLen[idx]) / 8
-		lenPrefixMaxHexs = (lenPrefixMaxHexs + 1) * 2
+		lenPrefixMaxHexs := fieldLenPrefixMaxHexLen(a.FieldMaxHexLen[idx])
 		shlToFieldShift := api.Mul(fieldPrefixIsLiteral, api.Add(2, fieldRlpPrefix1HexLen))
 		shlToFieldShift = api.Sub(api.Add(2, fieldRlpPrefix1HexLen), shlToFieldShift)
 		shiftToLeftOut := ShiftLeft(api, a.MaxHexLen, 0, lenPrefixMaxHexs, shiftToFieldIn, shlToFieldShift)
@@ -712,7 +728,7 @@ func (a *ArrayCheck) BlkHeaderRlpCheck(api frontend.API, in []frontend.Variable,
 			for j := 0; j < a.MaxHexLen; j++ {
 				shiftToFieldRlpsIn = append(shiftToFieldRlpsIn, in[j])
 			}
-			shlOut := ShiftLeft(api, a.MaxHexLen, 0, a.ArrayPrefixMaxHexLen, shiftToFieldRlpsIn, api.Add(2, arrayRlpPrefix1HexLen))
+			shlOut := ShiftLeft(api, a.MaxHexLen, 0, a.arrayPrefixMaxShift(), shiftToFieldRlpsIn, api.Add(2, arrayRlpPrefix1HexLen))
 			shiftToFieldRlpsOuts = append(shiftToFieldRlpsOuts, make([]frontend.Variable, len(shlOut)))
 			shiftToFieldRlpsOuts[idx] = shlOut
 		} else {
@@ -739,8 +755,7 @@ func (a *ArrayCheck) BlkHeaderRlpCheck(api frontend.API, in []frontend.Variable,
 
 		fieldRlpPrefix1HexLen := api.Mul(fieldPrefixIsBig, fieldPrefixPrefixOrTotalHexLen)
 
-		lenPrefixMaxHexs := LogCeil(a.FieldMaxHexLen[idx]) / 8
-		lenPrefixMaxHexs = (lenPrefixMaxHexs + 1) * 2
+		lenPrefixMaxHexs := fieldLenPrefixMaxHexLen(a.FieldMaxHexLen[idx])
 		shlToFieldShift := api.Mul(fieldPrefixIsLiteral, api.Add(2, fieldRlpPrefix1HexLen))
 		shlToFieldShift = api.Sub(api.Add(2, fieldRlpPrefix1HexLen), shlToFieldShift)
 		shiftToLeftOut := ShiftLeft(api, a.MaxHexLen, 0, lenPrefixMaxHexs, shiftToFieldIn, shlToFieldShift)
-- 
2.43.0


From 550a0f48ce23e45cfb6244347df64490610b41c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:43 +0000
Subject: [PATCH 59/59] fix: trie gadgets with a maximum depth of one no longer
 panic

---
 circuits/gadgets/mpt/mpt.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index 6194df2..3f02234 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -55,12 +55,9 @@ func CheckMPTInclusionFixedKeyLength(
 
 	isStartRange = append(isStartRange, rlp.LessThan(api, keyFragmentStarts[maxDepth-1], keyLength))
 
-	var allFragmentsInput [][]frontend.Variable
+	allFragmentsInput := [][]frontend.Variable{{}}
 	var tmp frontend.Variable = 0
 	for i := 0; i < maxDepth-1; i++ {
-		if len(allFragmentsInput) == 0 {
-			allFragmentsInput = append(allFragmentsInput, []frontend.Variable{})
-		}
 		// the nodes above the last one are checked, and where the last one starts
 		allFragmentsInput[0] = append(allFragmentsInput[0], api.Add(tmp, isStartRange[i]))
 		tmp = api.Add(tmp, keyFragmentValidBranch[i], isMonotoneStart[i], isStartRange[i])
@@ -230,7 +227,10 @@ func CheckMPTInclusionFixedKeyLength(
 	// a trie of depth 1 consists of the last node alone
 	var rootNodeHash [64]frontend.Variable
 	for i := 0; i < 64; i++ {
-		rootNodeHash[i] = api.Select(depthEqual[0], leafHash.Output[i], nodeHashes[0].Output[i])
+		rootNodeHash[i] = leafHash.Output[i]
+		if maxDepth > 1 {
+			rootNodeHash[i] = api.Select(depthEqual[0], leafHash.Output[i], nodeHashes[0].Output[i])
+		}
 	}
 	rootHashCheck := rlp.ArrayEqual(api, rootHash[:], rootNodeHash[:], 64, 64)
 	// the walk from the root covers the key from its first nibble on
@@ -299,12 +299,9 @@ func CheckMPTInclusionNoBranchTermination(
 		isStartRange = append(isStartRange, rlp.LessThan(api, keyFragmentStarts[index], keyLength))
 	}
 
-	var allFragmentsInput [][]frontend.Variable
+	allFragmentsInput := [][]frontend.Variable{{}}
 	var tmp frontend.Variable = 0
 	for i := 0; i < maxDepth-1; i++ {
-		if len(allFragmentsInput) == 0 {
-			allFragmentsInput = append(allFragmentsInput, []frontend.Variable{})
-		}
 		// the nodes above the leaf are checked, and that they do not consume more than the key
 		isWithinKey := rlp.LessThan(api, keyFragmentStarts[i], api.Add(keyLength, 1))
 		allFragmentsInput[0] = append(allFragmentsInput[0], api.Add(tmp, isWithinKey))
@@ -438,7 +435,10 @@ func CheckMPTInclusionNoBranchTermination(
 	// a trie of depth 1 consists of the leaf alone
 	var rootNodeHash [64]frontend.Variable
 	for i := 0; i < 64; i++ {
-		rootNodeHash[i] = api.Select(depthEqual[0], leafHash[i], nodeHashes[0].Output[i])
+		rootNodeHash[i] = leafHash[i]
+		if maxDepth > 1 {
+			rootNodeHash[i] = api.Select(depthEqual[0], leafHash[i], nodeHashes[0].Output[i])
+		}
 	}
 	rootHashCheck := rlp.ArrayEqual(api, rootHash[:], rootNodeHash[:], 64, 64)
 	// the walk from the root covers the key from its first nibble on
-- 
2.43.0

