From 1c2f3ca40d1f9ecb1b714dec9457ab9d3c72d6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:33 +0000
Subject: [PATCH 01/65] fix: theta decoder validates the length and the entry
 width of its input

---
 theta/decoder.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/theta/decoder.go b/theta/decoder.go
index b24deca..47e5599 100644
--- a/theta/decoder.go
+++ b/theta/decoder.go
@@ -168,6 +168,9 @@ func decodeVersion4(bytes []byte, seed uint64) (compactSketchData, error) {
 	}
 
 	numEntriesBytes := bytes[compactSketchV4NumEntriesBytesByte]
+	if numEntriesBytes > 4 {
+		return compactSketchData{}, fmt.Errorf("invalid number of bytes for the number of entries: %d", numEntriesBytes)
+	}
 	dataOffsetBytes := compactSketchV4PackedDataExactByte
 	if hasTheta {
 		dataOffsetBytes = compactSketchV4PackedDataEstByte
@@ -185,6 +188,9 @@ func decodeVersion4(bytes []byte, seed uint64) (compactSketchData, error) {
 	dataOffsetBytes += int(numEntriesBytes)
 
 	entryBits := bytes[compactSketchV4EntryBitsByte]
+	if entryBits < 1 || entryBits > 63 {
+		return compactSketchData{}, fmt.Errorf("invalid number of bits per entry: %d", entryBits)
+	}
 	expectedBits := uint64(entryBits) * uint64(numEntries)
 	expectedSize := dataOffsetBytes + int(wholeBytesToHoldBits(expectedBits))
 
@@ -254,6 +260,9 @@ func decodeVersion3(bytes []byte, seed uint64) (compactSketchData, error) {
 		}, nil
 	}
 
+	if err := validateMemorySize(bytes, compactSketchEntriesExactU64*8); err != nil {
+		return compactSketchData{}, err
+	}
 	numEntries := binary.LittleEndian.Uint32(bytes[compactSketchNumEntriesU32*4:])
 	entriesStartU64 := compactSketchEntriesExactU64
 	if hasTheta {
@@ -303,6 +312,9 @@ func decodeVersion2(bytes []byte, seed uint64) (compactSketchData, error) {
 			bytes:      bytes,
 		}, nil
 	case 2:
+		if err := validateMemorySize(bytes, compactSketchEntriesExactU64*8); err != nil {
+			return compactSketchData{}, err
+		}
 		numEntries := binary.LittleEndian.Uint32(bytes[compactSketchNumEntriesU32*4:])
 		if numEntries == 0 {
 			return compactSketchData{
@@ -332,6 +344,9 @@ func decodeVersion2(bytes []byte, seed uint64) (compactSketchData, error) {
 			bytes:           bytes,
 		}, nil
 	case 3:
+		if err := validateMemorySize(bytes, compactSketchEntriesEstimationU64*8); err != nil {
+			return compactSketchData{}, err
+		}
 		numEntries := binary.LittleEndian.Uint32(bytes[compactSketchNumEntriesU32*4:])
 		theta := binary.LittleEndian.Uint64(bytes[compactSketchThetaU64*8:])
 
@@ -374,6 +389,9 @@ func decodeVersion1(bytes []byte, seed uint64) (compactSketchData, error) {
 		return compactSketchData{}, err
 	}
 
+	if err := validateMemorySize(bytes, compactSketchEntriesEstimationU64*8); err != nil {
+		return compactSketchData{}, err
+	}
 	numEntries := binary.LittleEndian.Uint32(bytes[compactSketchNumEntriesU32*4:])
 	theta := binary.LittleEndian.Uint64(bytes[compactSketchThetaU64*8:])
 
-- 
2.43.0


From 28ddbc853b00bc1f2747f946577c7dfec6046a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:19 +0000
Subject: [PATCH 02/65] fix: hash every element of an int32 slice

HashInt32SliceMurmur3 skipped the odd elements of each pair and sign-extended the even ones, so slices differing only there hashed alike.
---
 internal/murmur3.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/internal/murmur3.go b/internal/murmur3.go
index 9b00be2..4e780e1 100644
--- a/internal/murmur3.go
+++ b/internal/murmur3.go
@@ -71,8 +71,8 @@ func HashInt32SliceMurmur3(key []int32, offsetInts int, lengthInts int, seed uin
 
 	// Process the 128-bit blocks (the body) into the hash
 	for i := 0; i < nblocks; i++ {
-		k1 := uint64(key[offsetInts+(i<<2)])   //offsetInts + 0, 4, 8, ...
-		k2 := uint64(key[offsetInts+(i<<2)+2]) //offsetInts + 2, 6, 10, ...
+		k1 := getUint64FromInts(key, offsetInts+(i<<2), 2)   //offsetInts + 0, 4, 8, ...
+		k2 := getUint64FromInts(key, offsetInts+(i<<2)+2, 2) //offsetInts + 2, 6, 10, ...
 		hashState.blockMix128(k1, k2)
 	}
 
@@ -84,11 +84,11 @@ func HashInt32SliceMurmur3(key []int32, offsetInts int, lengthInts int, seed uin
 	k1 := uint64(0)
 	k2 := uint64(0)
 	if rem > 2 {
-		k1 = uint64(key[offsetInts+tail]) //k2 -> whole; k1 -> partial
-		k2 = uint64(key[offsetInts+tail+2])
+		k1 = getUint64FromInts(key, offsetInts+tail, 2)
+		k2 = getUint64FromInts(key, offsetInts+tail+2, rem-2)
 	} else {
 		if rem != 0 {
-			k1 = uint64(key[offsetInts+tail]) //k1 -> whole(2), partial(1) or 0; k2 == 0
+			k1 = getUint64FromInts(key, offsetInts+tail, rem) //k1 -> whole(2), partial(1) or 0; k2 == 0
 		}
 	}
 
@@ -157,6 +157,14 @@ func HashByteArrMurmur3(key []byte, offsetBytes int, lengthBytes int, seed uint6
 	return hashState.finalMix128(k1, k2, uint64(lengthBytes))
 }
 
+func getUint64FromInts(intArr []int32, index int, rem int) uint64 {
+	var out uint64
+	for i := rem - 1; i >= 0; i-- { //i= 1,0
+		out ^= uint64(uint32(intArr[index+i])) << uint(i*32) //equivalent to |=
+	}
+	return out
+}
+
 func getUint64(bArr []byte, index int, rem int) uint64 {
 	var out uint64
 	for i := rem - 1; i >= 0; i-- { //i= 7,6,5,4,3,2,1,0
-- 
2.43.0


From c7eaa31fb3a2bcc43df81e9d7b2b29f12fac3216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:08 +0000
Subject: [PATCH 03/65] fix: bloom filter operations terminate with 65535
 hashes

The uint16 loop counter wrapped around before exceeding the hash count.
---
 filters/bloom_filter.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/filters/bloom_filter.go b/filters/bloom_filter.go
index 78a21cd..6816a3c 100644
--- a/filters/bloom_filter.go
+++ b/filters/bloom_filter.go
@@ -202,8 +202,8 @@ func (bf *bloomFilterImpl) getHashIndex(h0, h1 uint64, i uint16) uint64 {
 
 // internalUpdate updates the filter with pre-computed hash values.
 func (bf *bloomFilterImpl) internalUpdate(h0, h1 uint64) {
-	for i := uint16(1); i <= bf.numHashes; i++ {
-		idx := bf.getHashIndex(h0, h1, i)
+	for i := 1; i <= int(bf.numHashes); i++ {
+		idx := bf.getHashIndex(h0, h1, uint16(i))
 		if !getBit(bf.bitArray, idx) {
 			setBit(bf.bitArray, idx)
 			bf.numBitsSet++
@@ -217,8 +217,8 @@ func (bf *bloomFilterImpl) internalQuery(h0, h1 uint64) bool {
 	if bf.IsEmpty() {
 		return false
 	}
-	for i := uint16(1); i <= bf.numHashes; i++ {
-		idx := bf.getHashIndex(h0, h1, i)
+	for i := 1; i <= int(bf.numHashes); i++ {
+		idx := bf.getHashIndex(h0, h1, uint16(i))
 		if !getBit(bf.bitArray, idx) {
 			return false
 		}
@@ -231,8 +231,8 @@ func (bf *bloomFilterImpl) internalQuery(h0, h1 uint64) bool {
 func (bf *bloomFilterImpl) internalQueryAndUpdate(h0, h1 uint64) bool {
 	valueExists := true
 	newBitsSet := uint64(0)
-	for i := uint16(1); i <= bf.numHashes; i++ {
-		idx := bf.getHashIndex(h0, h1, i)
+	for i := 1; i <= int(bf.numHashes); i++ {
+		idx := bf.getHashIndex(h0, h1, uint16(i))
 		wasSet := getAndSetBit(bf.bitArray, idx)
 		valueExists = valueExists && wasSet
 		if !wasSet {
-- 
2.43.0


From 25b17a678b2a687c5171d8a30595435410348cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:16 +0000
Subject: [PATCH 04/65] fix: tuple set operations copy the summaries of their
 operands

A union or intersection kept the operand's summary objects, so merging a
later operand (or resetting) modified sketches that were already merged and
results already returned.
---
 tuple/arrayofnumbers_intersection.go | 2 +-
 tuple/arrayofnumbers_union.go        | 6 +++---
 tuple/intersection.go                | 2 +-
 tuple/union.go                       | 6 +++---
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/tuple/arrayofnumbers_intersection.go b/tuple/arrayofnumbers_intersection.go
index 45f1668..f84df63 100644
--- a/tuple/arrayofnumbers_intersection.go
+++ b/tuple/arrayofnumbers_intersection.go
@@ -120,7 +120,7 @@ func (i *ArrayOfNumbersSketchIntersection[V]) Update(sketch ArrayOfNumbersSketch
 
 			i.hashtable.Insert(idx, entry[*ArrayOfNumbersSummary[V]]{
 				Hash:    hash,
-				Summary: summary,
+				Summary: summary.Clone().(*ArrayOfNumbersSummary[V]),
 			})
 		}
 
diff --git a/tuple/arrayofnumbers_union.go b/tuple/arrayofnumbers_union.go
index 8d5cc36..57d73c7 100644
--- a/tuple/arrayofnumbers_union.go
+++ b/tuple/arrayofnumbers_union.go
@@ -115,7 +115,7 @@ func (u *ArrayOfNumbersSketchUnion[V]) Update(sketch ArrayOfNumbersSketch[V]) er
 				if err == ErrKeyNotFound {
 					u.hashtable.Insert(index, entry[*ArrayOfNumbersSummary[V]]{
 						Hash:    hash,
-						Summary: summary,
+						Summary: summary.Clone().(*ArrayOfNumbersSummary[V]),
 					})
 					continue
 				}
@@ -153,13 +153,13 @@ func (u *ArrayOfNumbersSketchUnion[V]) Result(ordered bool) (*ArrayOfNumbersComp
 	if u.theta >= u.hashtable.theta {
 		for _, e := range u.hashtable.entries {
 			if e.Hash != 0 {
-				entries = append(entries, e)
+				entries = append(entries, entry[*ArrayOfNumbersSummary[V]]{Hash: e.Hash, Summary: e.Summary.Clone().(*ArrayOfNumbersSummary[V])})
 			}
 		}
 	} else {
 		for _, e := range u.hashtable.entries {
 			if e.Hash != 0 && e.Hash < thetaVal {
-				entries = append(entries, e)
+				entries = append(entries, entry[*ArrayOfNumbersSummary[V]]{Hash: e.Hash, Summary: e.Summary.Clone().(*ArrayOfNumbersSummary[V])})
 			}
 		}
 	}
diff --git a/tuple/intersection.go b/tuple/intersection.go
index d11360b..41d567d 100644
--- a/tuple/intersection.go
+++ b/tuple/intersection.go
@@ -157,7 +157,7 @@ func (i *Intersection[S]) Update(sketch Sketch[S]) error {
 
 			i.hashtable.Insert(idx, entry[S]{
 				Hash:    hash,
-				Summary: summary,
+				Summary: summary.Clone().(S),
 			})
 		}
 
diff --git a/tuple/union.go b/tuple/union.go
index b2468d4..70965f7 100644
--- a/tuple/union.go
+++ b/tuple/union.go
@@ -203,7 +203,7 @@ func (u *Union[S]) Update(sketch Sketch[S]) error {
 				if err == ErrKeyNotFound {
 					u.hashtable.Insert(index, entry[S]{
 						Hash:    hash,
-						Summary: summary,
+						Summary: summary.Clone().(S),
 					})
 					continue
 				}
@@ -245,13 +245,13 @@ func (u *Union[S]) Result(ordered bool) (*CompactSketch[S], error) {
 	if u.theta >= u.hashtable.theta {
 		for _, e := range u.hashtable.entries {
 			if e.Hash != 0 {
-				entries = append(entries, e)
+				entries = append(entries, entry[S]{Hash: e.Hash, Summary: e.Summary.Clone().(S)})
 			}
 		}
 	} else {
 		for _, e := range u.hashtable.entries {
 			if e.Hash != 0 && e.Hash < thetaVal {
-				entries = append(entries, e)
+				entries = append(entries, entry[S]{Hash: e.Hash, Summary: e.Summary.Clone().(S)})
 			}
 		}
 	}
-- 
2.43.0


From e0d3bde486e3747663a19dd8221eba94cd29bce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:30 +0000
Subject: [PATCH 05/65] fix: HLL_4 exception table of a small sketch holds
 every slot

---
 hll/aux_hash_map.go   | 7 ++++---
 hll/preamble_utils.go | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/hll/aux_hash_map.go b/hll/aux_hash_map.go
index 75e0480..fb8deb7 100644
--- a/hll/aux_hash_map.go
+++ b/hll/aux_hash_map.go
@@ -163,8 +163,9 @@ func (a *auxHashMap) getAuxCount() int {
 }
 
 // checkGrow checks to see if the aux array should be grown and does so if needed.
+// An array of configK entries has room for every slot and never grows further.
 func (a *auxHashMap) checkGrow() error {
-	if (resizeDenom * a.auxCount) <= (resizeNumber * len(a.auxIntArr)) {
+	if a.lgAuxArrInts >= a.lgConfigK || (resizeDenom*a.auxCount) <= (resizeNumber*len(a.auxIntArr)) {
 		return nil
 	}
 	return a.growAuxSpace()
@@ -195,8 +196,8 @@ func (a *auxHashMap) growAuxSpace() error {
 // Continues searching.
 // If the probe comes back to original index, return an error.
 func findAuxHashMap(auxArr []int, lgAuxArrInts int, lgConfigK int, slotNo int) (int, error) {
-	if lgAuxArrInts >= lgConfigK {
-		return 0, fmt.Errorf("lgAuxArrInts >= lgConfigK")
+	if lgAuxArrInts > lgConfigK {
+		return 0, fmt.Errorf("lgAuxArrInts > lgConfigK")
 	}
 	auxArrMask := (1 << lgAuxArrInts) - 1
 	configKMask := (1 << lgConfigK) - 1
diff --git a/hll/preamble_utils.go b/hll/preamble_utils.go
index d8bfe01..cfa5d36 100644
--- a/hll/preamble_utils.go
+++ b/hll/preamble_utils.go
@@ -179,7 +179,7 @@ func computeLgArr(byteArr []byte, couponCount int, lgConfigK int) (int, error) {
 	}
 	//only used for HLL4
 	v, err := internal.ExactLog2(ceilPwr2)
-	return max(lgAuxArrInts[lgConfigK], v), err
+	return min(max(lgAuxArrInts[lgConfigK], v), lgConfigK), err
 
 }
 
-- 
2.43.0


From 1d6ded9658ec82469194b99db621f3e4025c7e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:40 +0000
Subject: [PATCH 06/65] fix: estimates of an HLL union account for merged
 registers

---
 hll/union.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/hll/union.go b/hll/union.go
index 24491c2..affa31d 100644
--- a/hll/union.go
+++ b/hll/union.go
@@ -68,10 +68,16 @@ func (u *unionImpl) iterator() pairIterator {
 //}
 
 func (u *unionImpl) GetUpperBound(numStdDev int) (float64, error) {
+	if err := checkRebuildCurMinNumKxQ(u.gadget); err != nil {
+		return 0, err
+	}
 	return u.gadget.GetUpperBound(numStdDev)
 }
 
 func (u *unionImpl) GetLowerBound(numStdDev int) (float64, error) {
+	if err := checkRebuildCurMinNumKxQ(u.gadget); err != nil {
+		return 0, err
+	}
 	return u.gadget.GetLowerBound(numStdDev)
 }
 
@@ -125,10 +131,16 @@ func NewUnionFromSlice(byteArray []byte) (Union, error) {
 }
 
 func (u *unionImpl) GetCompositeEstimate() (float64, error) {
+	if err := checkRebuildCurMinNumKxQ(u.gadget); err != nil {
+		return 0, err
+	}
 	return u.gadget.GetCompositeEstimate()
 }
 
 func (u *unionImpl) GetEstimate() (float64, error) {
+	if err := checkRebuildCurMinNumKxQ(u.gadget); err != nil {
+		return 0, err
+	}
 	return u.gadget.GetEstimate()
 }
 
-- 
2.43.0


From 7f895d904b831ad7e3a800eca70cdb55a9f9e7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:11 +0000
Subject: [PATCH 07/65] fix: HLL union folds its contents when merging a
 smaller sketch

---
 hll/union.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/hll/union.go b/hll/union.go
index affa31d..800d69f 100644
--- a/hll/union.go
+++ b/hll/union.go
@@ -254,7 +254,7 @@ func (u *unionImpl) unionImpl(source HllSketch) (hllSketchStateI, error) {
 	}
 
 	if srcLgK < gdgtLgK {
-		bit3 = 0
+		bit3 = 8
 	}
 
 	if srcLgK > u.lgMaxK {
@@ -298,7 +298,16 @@ func (u *unionImpl) unionImpl(source HllSketch) (hllSketchStateI, error) {
 		}
 	case 12: //src <= max, src <  gdt, gdtHLL, gdtHeap
 		{ //Action: downsample gdt to srcLgK, forward HLL merge w/autofold, ooof=True
-			return nil, fmt.Errorf("not implemented case 12")
+			folded, err := downsampleHll8(gadgetC, srcLgK)
+			if err != nil {
+				return nil, err
+			}
+			err = mergeHlltoHLLmode(source, newHllSketchState(folded), srcLgK, srcLgK)
+			if err != nil {
+				return nil, err
+			}
+			folded.putOutOfOrder(true)
+			return folded, nil
 		}
 	case 6, 14:
 		// case 6: src <= max, src >= gdt, gdtEmpty, gdtHeap
@@ -374,6 +383,22 @@ func checkRebuildCurMinNumKxQ(sketch HllSketch) error {
 	return nil
 }
 
+// downsampleHll8 folds a sketch in HLL mode into a new HLL_8 array of the smaller size lgK.
+func downsampleHll8(src *hllSketchState, lgK int) (hllArray, error) {
+	tgt := newHll8Array(lgK)
+	itr := src.iterator()
+	for itr.nextAll() {
+		p, err := itr.getPair()
+		if err != nil {
+			return nil, err
+		}
+		if _, err = tgt.couponUpdate(p); err != nil {
+			return nil, err
+		}
+	}
+	return tgt, nil
+}
+
 func mergeHlltoHLLmode(src HllSketch, tgt HllSketch, srcLgK int, tgtLgK int) error {
 	sw := 0
 	if srcLgK > tgtLgK {
-- 
2.43.0


From 08ce207b231097e22d758ca538f333b6d5d4ec9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:35 +0000
Subject: [PATCH 08/65] fix: HLL sketch read from a slice does not retain the
 slice

---
 hll/hll_array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hll/hll_array.go b/hll/hll_array.go
index 521eb16..f01b7a2 100644
--- a/hll/hll_array.go
+++ b/hll/hll_array.go
@@ -317,5 +317,5 @@ func (a *hllArrayImpl) extractCommonHll(byteArr []byte) {
 	a.putNumAtCurMin(extractNumAtCurMin(byteArr))
 	a.putRebuildCurMinNumKxQFlag(extractRebuildCurMinNumKxQFlag(byteArr))
 
-	a.hllByteArr = byteArr[hllByteArrStart : hllByteArrStart+len(a.hllByteArr)]
+	copy(a.hllByteArr, byteArr[hllByteArrStart:])
 }
-- 
2.43.0


From 48deb97894bf29b06c2955936b832094b582bba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:48 +0000
Subject: [PATCH 09/65] fix: HLL decoder rejects truncated and inconsistent
 images

---
 hll/coupon_hash_set.go | 13 ++++++-
 hll/coupon_list.go     |  6 +++-
 hll/hll_4array.go      | 47 ++++++++++++++++++++++++--
 hll/hll_8array.go      |  9 +++--
 hll/hll_sketch.go      |  9 ++++-
 hll/preamble_utils.go  | 77 ++++++++++++++++++++++++++++++++++++++++++
 hll/union.go           |  6 +---
 7 files changed, 155 insertions(+), 12 deletions(-)

diff --git a/hll/coupon_hash_set.go b/hll/coupon_hash_set.go
index 6608ded..ef82403 100644
--- a/hll/coupon_hash_set.go
+++ b/hll/coupon_hash_set.go
@@ -230,7 +230,11 @@ func deserializeCouponHashSet(byteArray []byte) (hllCoupon, error) {
 	}
 	if memIsCompact {
 		for it := 0; it < couponCount && err == nil; it++ {
-			_, err = set.couponUpdate(int(binary.LittleEndian.Uint32(byteArray[memArrStart+(it<<2) : memArrStart+(it<<2)+4])))
+			coupon := int(binary.LittleEndian.Uint32(byteArray[memArrStart+(it<<2) : memArrStart+(it<<2)+4]))
+			if coupon == empty {
+				return nil, fmt.Errorf("possible Corruption: empty coupon")
+			}
+			_, err = set.couponUpdate(coupon)
 		}
 		if err != nil {
 			return nil, err
@@ -240,8 +244,15 @@ func deserializeCouponHashSet(byteArray []byte) (hllCoupon, error) {
 		set.lgCouponArrInts = lgCouponArrInts
 		couponArrInts := 1 << lgCouponArrInts
 		set.couponIntArr = make([]int, couponArrInts)
+		numCoupons := 0
 		for it := 0; it < couponArrInts; it++ {
 			set.couponIntArr[it] = int(binary.LittleEndian.Uint32(byteArray[hashSetIntArrStart+(it<<2) : hashSetIntArrStart+(it<<2)+4]))
+			if set.couponIntArr[it] != empty {
+				numCoupons++
+			}
+		}
+		if numCoupons != couponCount {
+			return nil, fmt.Errorf("possible Corruption: %d coupons, not %d", numCoupons, couponCount)
 		}
 	}
 	return &set, nil
diff --git a/hll/coupon_list.go b/hll/coupon_list.go
index 95bea9f..d11aed1 100644
--- a/hll/coupon_list.go
+++ b/hll/coupon_list.go
@@ -193,7 +193,11 @@ func deserializeCouponList(byteArray []byte) (hllCoupon, error) {
 	// TODO there must be a more efficient to reinterpret the byte array as an int array
 	base := listIntArrStart
 	for it := 0; it < couponCount; it++ {
-		list.couponIntArr[it] = int(binary.LittleEndian.Uint32(byteArray[base:]))
+		coupon := int(binary.LittleEndian.Uint32(byteArray[base:]))
+		if coupon == empty {
+			return nil, fmt.Errorf("possible Corruption: empty coupon")
+		}
+		list.couponIntArr[it] = coupon
 		base += 4
 	}
 	list.couponCount = couponCount
diff --git a/hll/hll_4array.go b/hll/hll_4array.go
index d8ab28d..73f2e90 100644
--- a/hll/hll_4array.go
+++ b/hll/hll_4array.go
@@ -103,7 +103,7 @@ func newHll4Array(lgConfigK int) hllArray {
 // deserializeHll4 returns a new Hll4Array from the given byte array.
 func deserializeHll4(byteArray []byte) (hllArray, error) {
 	lgConfigK := extractLgK(byteArray)
-	hll4 := newHll4Array(lgConfigK)
+	hll4 := newHll4Array(lgConfigK).(*hll4ArrayImpl)
 	hll4.extractCommonHll(byteArray)
 
 	auxStart := hll4.getAuxStart()
@@ -115,12 +115,55 @@ func deserializeHll4(byteArray []byte) (hllArray, error) {
 		if err != nil {
 			return nil, err
 		}
+		if auxHashMap.getAuxCount() != auxCount {
+			return nil, fmt.Errorf("possible Corruption: %d exceptions, not %d", auxHashMap.getAuxCount(), auxCount)
+		}
 		hll4.putAuxHashMap(auxHashMap, false)
 	}
-
+	if err := hll4.checkSlots(); err != nil {
+		return nil, err
+	}
 	return hll4, nil
 }
 
+// checkSlots checks the slots of a deserialized array against curMin, numAtCurMin and the
+// exception table.
+func (h *hll4ArrayImpl) checkSlots() error {
+	numAtCurMin := 0
+	numAuxTokens := 0
+	for slotNo := 0; slotNo < 1<<h.lgConfigK; slotNo++ {
+		nib := h.getNibble(slotNo)
+		value := nib + h.curMin
+		switch nib {
+		case 0:
+			numAtCurMin++
+		case auxToken:
+			numAuxTokens++
+			if h.auxHashMap == nil {
+				return fmt.Errorf("possible Corruption: no exception for slot %d", slotNo)
+			}
+			v, err := h.auxHashMap.mustFindValueFor(slotNo)
+			if err != nil {
+				return err
+			}
+			if v < value {
+				return fmt.Errorf("possible Corruption: Invalid exception value: %d", v)
+			}
+			value = v
+		}
+		if value > valMask6 {
+			return fmt.Errorf("possible Corruption: Invalid value: %d", value)
+		}
+	}
+	if numAtCurMin == 0 || numAtCurMin != h.numAtCurMin {
+		return fmt.Errorf("possible Corruption: %d slots at the minimum, not %d", numAtCurMin, h.numAtCurMin)
+	}
+	if h.auxHashMap != nil && h.auxHashMap.getAuxCount() != numAuxTokens {
+		return fmt.Errorf("possible Corruption: %d exceptions, not %d", h.auxHashMap.getAuxCount(), numAuxTokens)
+	}
+	return nil
+}
+
 func convertToHll4(srcAbsHllArr hllArray) (hllSketchStateI, error) {
 	lgConfigK := srcAbsHllArr.GetLgConfigK()
 	hll4Array := newHll4Array(lgConfigK)
diff --git a/hll/hll_8array.go b/hll/hll_8array.go
index a7a94eb..cbd80d1 100644
--- a/hll/hll_8array.go
+++ b/hll/hll_8array.go
@@ -80,11 +80,16 @@ func newHll8Array(lgConfigK int) hllArray {
 }
 
 // deserializeHll8 returns a new Hll8Array from the given byte array.
-func deserializeHll8(byteArray []byte) hllArray {
+func deserializeHll8(byteArray []byte) (hllArray, error) {
 	lgConfigK := extractLgK(byteArray)
 	hll8 := newHll8Array(lgConfigK)
 	hll8.extractCommonHll(byteArray)
-	return hll8
+	for _, v := range hll8.getHllByteArr() {
+		if v > valMask6 {
+			return nil, fmt.Errorf("possible Corruption: Invalid value: %d", v)
+		}
+	}
+	return hll8, nil
 }
 
 func convertToHll8(srcAbsHllArr hllArray) (hllSketchStateI, error) {
diff --git a/hll/hll_sketch.go b/hll/hll_sketch.go
index 278272a..0d7c606 100644
--- a/hll/hll_sketch.go
+++ b/hll/hll_sketch.go
@@ -186,6 +186,9 @@ func NewHllSketchFromSlice(bytes []byte, checkRebuild bool) (HllSketch, error) {
 	if err != nil {
 		return nil, err
 	}
+	if err = checkImage(bytes, curMode); err != nil {
+		return nil, err
+	}
 	if curMode == curModeHll {
 		tgtHllType := extractTgtHllType(bytes)
 		if tgtHllType == TgtHllTypeHll4 {
@@ -197,7 +200,11 @@ func NewHllSketchFromSlice(bytes []byte, checkRebuild bool) (HllSketch, error) {
 		} else if tgtHllType == TgtHllTypeHll6 {
 			return newHllSketchState(deserializeHll6(bytes)), nil
 		} else {
-			a := newHllSketchState(deserializeHll8(bytes))
+			sk, err := deserializeHll8(bytes)
+			if err != nil {
+				return nil, err
+			}
+			a := newHllSketchState(sk)
 			if checkRebuild {
 				err := checkRebuildCurMinNumKxQ(a)
 				if err != nil {
diff --git a/hll/preamble_utils.go b/hll/preamble_utils.go
index cfa5d36..4700c8a 100644
--- a/hll/preamble_utils.go
+++ b/hll/preamble_utils.go
@@ -19,6 +19,7 @@ package hll
 
 import (
 	"encoding/binary"
+	"fmt"
 	"math"
 
 	"github.com/apache/datasketches-go/internal"
@@ -288,3 +289,79 @@ func insertRebuildCurMinNumKxQFlag(byteArr []byte, rebuild bool) {
 	}
 	byteArr[flagsByte] = flags
 }
+
+// checkImage checks that the fields of a serialized sketch are in range and that the image is
+// long enough for the data they announce.
+func checkImage(byteArr []byte, mode curMode) error {
+	lgConfigK, err := checkLgK(extractLgK(byteArr))
+	if err != nil {
+		return err
+	}
+	tgtHllType := extractTgtHllType(byteArr)
+	if tgtHllType > TgtHllTypeHll8 {
+		return fmt.Errorf("possible Corruption: Invalid target type: %d", tgtHllType)
+	}
+	needed := 0
+	switch mode {
+	case curModeList:
+		count := extractListCount(byteArr)
+		if count >= 1<<lgInitListSize {
+			return fmt.Errorf("possible Corruption: Invalid coupon count: %d", count)
+		}
+		needed = listIntArrStart + count<<2
+	case curModeSet:
+		if lgConfigK <= 7 {
+			return fmt.Errorf("possible Corruption: Invalid lgConfigK for SET mode: %d", lgConfigK)
+		}
+		count := extractHashSetCount(byteArr)
+		if resizeDenom*count > resizeNumber<<(lgConfigK-3) {
+			return fmt.Errorf("possible Corruption: Invalid coupon count: %d", count)
+		}
+		if extractCompactFlag(byteArr) {
+			needed = hashSetIntArrStart + count<<2
+			break
+		}
+		lgArr := extractLgArr(byteArr)
+		if lgArr < lgInitSetSize {
+			if lgArr, err = computeLgArr(byteArr, count, lgConfigK); err != nil {
+				return err
+			}
+		}
+		if lgArr > lgConfigK-3 || resizeDenom*count > resizeNumber<<lgArr {
+			return fmt.Errorf("possible Corruption: Invalid coupon array size: %d", lgArr)
+		}
+		needed = hashSetIntArrStart + 4<<lgArr
+	case curModeHll:
+		configK := 1 << lgConfigK
+		if num := extractNumAtCurMin(byteArr); num > configK {
+			return fmt.Errorf("possible Corruption: Invalid number of slots at the minimum: %d", num)
+		}
+		switch tgtHllType {
+		case TgtHllTypeHll4:
+			needed = hllByteArrStart + configK>>1
+			count := extractAuxCount(byteArr)
+			if count > configK {
+				return fmt.Errorf("possible Corruption: Invalid exception count: %d", count)
+			}
+			if extractCompactFlag(byteArr) {
+				needed += count << 2
+			} else if count > 0 {
+				lgArr := extractLgArr(byteArr)
+				if lgArr > lgConfigK {
+					return fmt.Errorf("possible Corruption: Invalid exception array size: %d", lgArr)
+				}
+				needed += 4 << lgArr
+			}
+		case TgtHllTypeHll6:
+			needed = hllByteArrStart + (configK*3)>>2 + 1
+		default:
+			needed = hllByteArrStart + configK
+		}
+	default:
+		return fmt.Errorf("possible Corruption: Invalid mode: %d", mode)
+	}
+	if len(byteArr) < needed {
+		return fmt.Errorf("input array too small: %d < %d", len(byteArr), needed)
+	}
+	return nil
+}
diff --git a/hll/union.go b/hll/union.go
index 800d69f..7dbcb38 100644
--- a/hll/union.go
+++ b/hll/union.go
@@ -114,15 +114,11 @@ func NewUnion(lgMaxK int) (Union, error) {
 }
 
 func NewUnionFromSlice(byteArray []byte) (Union, error) {
-	lgK, err := checkLgK(extractLgK(byteArray))
-	if err != nil {
-		return nil, err
-	}
 	sk, e := NewHllSketchFromSlice(byteArray, false)
 	if e != nil {
 		return nil, e
 	}
-	union, err := NewUnion(lgK)
+	union, err := NewUnion(sk.GetLgConfigK())
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From dfa963dde68821c8097df0ec9f34772871b70ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:13 +0000
Subject: [PATCH 10/65] fix: KLL partition boundaries leave the sorted view as
 it was

---
 kll/items_sketch_sorted_view.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/kll/items_sketch_sorted_view.go b/kll/items_sketch_sorted_view.go
index 95fee90..43995c3 100644
--- a/kll/items_sketch_sorted_view.go
+++ b/kll/items_sketch_sorted_view.go
@@ -19,6 +19,7 @@ package kll
 
 import (
 	"errors"
+	"slices"
 	"sort"
 
 	"github.com/apache/datasketches-go/common"
@@ -181,10 +182,14 @@ func (s *ItemsSketchSortedView[C]) GetPartitionBoundaries(numEquallySized int, i
 	if s.totalN == 0 {
 		return nil, errors.New("empty sketch")
 	}
-	s.cumWeights[0] = 1
-	s.cumWeights[len(s.cumWeights)-1] = int64(s.totalN)
-	s.quantiles[0] = s.minItem
-	s.quantiles[len(s.quantiles)-1] = s.maxItem
+	// The adjusted arrays are copies: this view keeps answering other queries.
+	view := *s
+	view.cumWeights = slices.Clone(s.cumWeights)
+	view.quantiles = slices.Clone(s.quantiles)
+	view.cumWeights[0] = 1
+	view.cumWeights[len(view.cumWeights)-1] = int64(view.totalN)
+	view.quantiles[0] = view.minItem
+	view.quantiles[len(view.quantiles)-1] = view.maxItem
 
 	evSpNormRanks, err := evenlySpacedDoubles(0, 1.0, numEquallySized+1)
 	if err != nil {
@@ -193,13 +198,13 @@ func (s *ItemsSketchSortedView[C]) GetPartitionBoundaries(numEquallySized int, i
 	evSpQuantiles := make([]C, len(evSpNormRanks))
 	evSpNatRanks := make([]int64, len(evSpNormRanks))
 	for i := 0; i < len(evSpNormRanks); i++ {
-		index, err := s.getQuantileIndex(evSpNormRanks[i], inclusive)
+		index, err := view.getQuantileIndex(evSpNormRanks[i], inclusive)
 		if err != nil {
 			return nil, err
 		}
 
-		evSpQuantiles[i] = s.quantiles[index]
-		evSpNatRanks[i] = s.cumWeights[index]
+		evSpQuantiles[i] = view.quantiles[index]
+		evSpNatRanks[i] = view.cumWeights[index]
 	}
 	return newItemsSketchPartitionBoundaries[C](s.totalN, evSpQuantiles, evSpNatRanks, evSpNormRanks, s.maxItem, s.minItem, inclusive)
 }
-- 
2.43.0


From 3a2e63d734bd09229ac48fbf84651d7e7304fc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:13 +0000
Subject: [PATCH 11/65] fix: KLL reset restores the rank error of an empty
 sketch

---
 kll/items_sketch.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index af96371..382c6ac 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -476,6 +476,7 @@ func (s *ItemsSketch[C]) Merge(other *ItemsSketch[C]) {
 // Reset this sketch to the empty state.
 func (s *ItemsSketch[C]) Reset() {
 	s.n = 0
+	s.minK = s.k
 	s.isLevelZeroSorted = false
 	s.numLevels = 1
 	s.levels = []uint32{uint32(s.k), uint32(s.k)}
-- 
2.43.0


From 7aad6890ecdfdab531079772f9770b55c53ee335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:13 +0000
Subject: [PATCH 12/65] fix: KLL level capacities do not overflow for k above
 32767

---
 kll/items_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index 382c6ac..5bf3aaf 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -1022,7 +1022,7 @@ func intCapAux(k uint16, depth uint8) uint32 {
 }
 
 func intCapAuxAux(k uint16, depth uint8) uint32 {
-	twok := uint64(k << 1)                        // for rounding at the end, pre-multiply by 2 here, divide by 2 during rounding.
+	twok := uint64(k) << 1                        // for rounding at the end, pre-multiply by 2 here, divide by 2 during rounding.
 	tmp := (twok << depth) / powersOfThree[depth] //2k* (2/3)^depth. 2k also keeps the fraction larger.
 	result := (tmp + 1) >> 1                      // (tmp + 1)/2. If odd, round up. This guarantees an integer.
 	if result <= uint64(k) {
-- 
2.43.0


From a840d582bce4973c393a26d83a4ee13e54b10c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:00 +0000
Subject: [PATCH 13/65] fix: KLL stores an empty minimum or maximum string

---
 kll/items_sketch.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index 5bf3aaf..21efaec 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -642,12 +642,7 @@ func (s *ItemsSketch[C]) getMinMaxSizeBytes() int {
 }
 
 func (s *ItemsSketch[C]) getMinMaxByteArr() []byte {
-	minBytes := s.serde.SerializeOneToSlice(s.minItem)
-	maxBytes := s.serde.SerializeOneToSlice(s.maxItem)
-	minMaxBytes := make([]byte, len(minBytes)+len(maxBytes))
-	copy(minMaxBytes, minBytes)
-	copy(minMaxBytes[len(minBytes):], maxBytes)
-	return minMaxBytes
+	return s.serde.SerializeManyToSlice([]C{s.minItem, s.maxItem})
 }
 
 func (s *ItemsSketch[C]) getSingleItemSizeBytes() (int, error) {
-- 
2.43.0


From b9fcef284c406745e0d72b7f926515eab80087fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:17 +0000
Subject: [PATCH 14/65] fix: KLL decoder and item readers reject truncated and
 inconsistent images

---
 common/item_sketch_double.go |  6 +++-
 common/item_sketch_float.go  |  6 +++-
 common/item_sketch_long.go   |  6 +++-
 common/item_sketch_string.go |  9 +++---
 kll/items_sketch.go          | 10 ++++---
 kll/items_sketch_validate.go | 57 +++++++++++++++++++++++++++++++-----
 kll/sketch_structure.go      | 14 +++++----
 7 files changed, 83 insertions(+), 25 deletions(-)

diff --git a/common/item_sketch_double.go b/common/item_sketch_double.go
index 8462fb6..adb82b9 100644
--- a/common/item_sketch_double.go
+++ b/common/item_sketch_double.go
@@ -19,6 +19,7 @@ package common
 
 import (
 	"encoding/binary"
+	"errors"
 	"math"
 
 	"github.com/twmb/murmur3"
@@ -71,9 +72,12 @@ func (f ItemSketchDoubleSerDe) SerializeManyToSlice(item []float64) []byte {
 }
 
 func (f ItemSketchDoubleSerDe) DeserializeManyFromSlice(mem []byte, offsetBytes int, numItems int) ([]float64, error) {
-	if numItems == 0 {
+	if numItems <= 0 {
 		return []float64{}, nil
 	}
+	if !checkBounds(offsetBytes, numItems*8, len(mem)) {
+		return nil, errors.New("offset out of bounds")
+	}
 	array := make([]float64, 0, numItems)
 	for i := 0; i < numItems; i++ {
 		array = append(array, math.Float64frombits(binary.LittleEndian.Uint64(mem[offsetBytes:])))
diff --git a/common/item_sketch_float.go b/common/item_sketch_float.go
index eae77a9..a7ed67f 100644
--- a/common/item_sketch_float.go
+++ b/common/item_sketch_float.go
@@ -19,6 +19,7 @@ package common
 
 import (
 	"encoding/binary"
+	"errors"
 	"math"
 )
 
@@ -63,9 +64,12 @@ func (s ItemSketchFloatSerDe) SerializeManyToSlice(items []float32) []byte {
 }
 
 func (s ItemSketchFloatSerDe) DeserializeManyFromSlice(mem []byte, offsetBytes int, numItems int) ([]float32, error) {
-	if numItems == 0 {
+	if numItems <= 0 {
 		return []float32{}, nil
 	}
+	if !checkBounds(offsetBytes, numItems*4, len(mem)) {
+		return nil, errors.New("offset out of bounds")
+	}
 
 	array := make([]float32, 0, numItems)
 	for i := 0; i < numItems; i++ {
diff --git a/common/item_sketch_long.go b/common/item_sketch_long.go
index c4c5d11..0ca15b7 100644
--- a/common/item_sketch_long.go
+++ b/common/item_sketch_long.go
@@ -19,6 +19,7 @@ package common
 
 import (
 	"encoding/binary"
+	"errors"
 
 	"github.com/twmb/murmur3"
 )
@@ -70,9 +71,12 @@ func (f ItemSketchLongSerDe) SerializeManyToSlice(item []int64) []byte {
 }
 
 func (f ItemSketchLongSerDe) DeserializeManyFromSlice(mem []byte, offsetBytes int, numItems int) ([]int64, error) {
-	if numItems == 0 {
+	if numItems <= 0 {
 		return []int64{}, nil
 	}
+	if !checkBounds(offsetBytes, numItems*8, len(mem)) {
+		return nil, errors.New("offset out of bounds")
+	}
 	array := make([]int64, 0, numItems)
 	for i := 0; i < numItems; i++ {
 		array = append(array, int64(binary.LittleEndian.Uint64(mem[offsetBytes:])))
diff --git a/common/item_sketch_string.go b/common/item_sketch_string.go
index 19a5539..ec116bc 100644
--- a/common/item_sketch_string.go
+++ b/common/item_sketch_string.go
@@ -117,23 +117,24 @@ func (f ItemSketchStringSerDe) DeserializeManyFromSlice(mem []byte, offsetBytes
 	if numItems <= 0 {
 		return []string{}, nil
 	}
-	array := make([]string, numItems)
 	offset := offsetBytes
 	intSize := 4
 	memCap := len(mem)
+	if offset < 0 || numItems > memCap/intSize {
+		return nil, errors.New("offset out of bounds")
+	}
+	array := make([]string, numItems)
 	for i := 0; i < numItems; i++ {
 		if !checkBounds(offset, intSize, memCap) {
 			return nil, errors.New("offset out of bounds")
 		}
 		strLength := int(binary.LittleEndian.Uint32(mem[offset:]))
 		offset += intSize
-		utf8Bytes := make([]byte, strLength)
 		if !checkBounds(offset, strLength, memCap) {
 			return nil, errors.New("offset out of bounds")
 		}
-		copy(utf8Bytes, mem[offset:offset+strLength])
+		array[i] = string(mem[offset : offset+strLength])
 		offset += strLength
-		array[i] = string(utf8Bytes)
 	}
 	return array, nil
 }
diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index 21efaec..207e93e 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -66,6 +66,8 @@ const (
 	_MAX_K     = (1 << 16) - 1
 	_MIN_M     = 2 //The minimum M
 	_MAX_M     = 8 //The maximum M
+
+	_MAX_NUM_LEVELS = 61 // the level capacities are defined up to here
 )
 
 var (
@@ -155,7 +157,7 @@ func NewKllItemsSketchFromSlice[C comparable](sl []byte, compareFn common.Compar
 		items = make([]C, k)
 		items[k-1] = deserItems[0]
 	case _COMPACT_FULL:
-		offset := int(_DATA_START_ADR + memVal.numLevels*4)
+		offset := _DATA_START_ADR + int(memVal.numLevels)*4
 		deserMinItems, err := serde.DeserializeManyFromSlice(sl, offset, 1)
 		if err != nil {
 			return nil, err
@@ -562,11 +564,11 @@ func (s *ItemsSketch[C]) ToSlice() ([]byte, error) {
 	binary.LittleEndian.PutUint64(bytesOut[8:16], n)
 	binary.LittleEndian.PutUint16(bytesOut[16:18], minK)
 	bytesOut[18] = numLevels
-	for i := uint8(0); i < numLevels; i++ {
+	for i := 0; i < int(numLevels); i++ {
 		binary.LittleEndian.PutUint32(bytesOut[_DATA_START_ADR+i*4:], lvlsArr[i])
 	}
-	copy(bytesOut[_DATA_START_ADR+(numLevels*4):], minMaxByteArr)
-	copy(bytesOut[_DATA_START_ADR+int(numLevels*4)+len(minMaxByteArr):], itemsByteArr)
+	copy(bytesOut[_DATA_START_ADR+int(numLevels)*4:], minMaxByteArr)
+	copy(bytesOut[_DATA_START_ADR+int(numLevels)*4+len(minMaxByteArr):], itemsByteArr)
 	return bytesOut, nil
 }
 
diff --git a/kll/items_sketch_validate.go b/kll/items_sketch_validate.go
index e78ff77..e658696 100644
--- a/kll/items_sketch_validate.go
+++ b/kll/items_sketch_validate.go
@@ -57,13 +57,15 @@ type itemsSketchMemoryValidate[C comparable] struct {
 }
 
 func newItemsSketchMemoryValidate[C comparable](srcMem []byte, serde common.ItemSketchSerde[C]) (*itemsSketchMemoryValidate[C], error) {
-	capa := cap(srcMem)
-	if capa < 8 {
-		return nil, fmt.Errorf("Memory too small: %d", capa)
+	if len(srcMem) < _DATA_START_ADR_SINGLE_ITEM {
+		return nil, fmt.Errorf("Memory too small: %d", len(srcMem))
 	}
 	preInts := getPreInts(srcMem)
 	serVer := getSerVer(srcMem)
-	sketchStructure := getSketchStructure(preInts, serVer)
+	sketchStructure, err := getSketchStructure(preInts, serVer)
+	if err != nil {
+		return nil, err
+	}
 	familyID := getFamilyID(srcMem)
 	if familyID != internal.FamilyEnum.Kll.Id {
 		return nil, fmt.Errorf("Source not KLL: %d", familyID)
@@ -71,7 +73,7 @@ func newItemsSketchMemoryValidate[C comparable](srcMem []byte, serde common.Item
 	flags := getFlags(srcMem)
 	k := getK(srcMem)
 	m := getM(srcMem)
-	err := checkM(m)
+	err = checkM(m)
 	if err != nil {
 		return nil, err
 	}
@@ -97,8 +99,10 @@ func newItemsSketchMemoryValidate[C comparable](srcMem []byte, serde common.Item
 		level0SortedFlag: level0SortedFlag,
 		typeBytes:        typeBytes,
 	}
-	err = vlid.validate()
-	return vlid, err
+	if err := vlid.validate(); err != nil {
+		return nil, err
+	}
+	return vlid, nil
 }
 
 func (vlid *itemsSketchMemoryValidate[C]) validate() error {
@@ -107,16 +111,31 @@ func (vlid *itemsSketchMemoryValidate[C]) validate() error {
 		if vlid.emptyFlag {
 			return fmt.Errorf("Empty flag and compact full")
 		}
+		if len(vlid.srcMem) < _DATA_START_ADR {
+			return fmt.Errorf("Memory too small: %d", len(vlid.srcMem))
+		}
 		vlid.n = getN(vlid.srcMem)
 		vlid.minK = getMinK(vlid.srcMem)
 		vlid.numLevels = getNumLevels(vlid.srcMem)
+		if vlid.minK < uint16(vlid.m) || vlid.minK > vlid.k {
+			return fmt.Errorf("Invalid minK: %d", vlid.minK)
+		}
+		if vlid.numLevels < 1 || vlid.numLevels > _MAX_NUM_LEVELS {
+			return fmt.Errorf("Invalid number of levels: %d", vlid.numLevels)
+		}
+		if len(vlid.srcMem) < _DATA_START_ADR+int(vlid.numLevels)*4 {
+			return fmt.Errorf("Memory too small: %d", len(vlid.srcMem))
+		}
 		// Get Levels Arr and add the last element
 		vlid.levelsArr = make([]uint32, vlid.numLevels+1)
-		for i := uint8(0); i < vlid.numLevels; i++ {
+		for i := 0; i < int(vlid.numLevels); i++ {
 			vlid.levelsArr[i] = binary.LittleEndian.Uint32(vlid.srcMem[_DATA_START_ADR+i*4 : _DATA_START_ADR+i*4+4])
 		}
 		capacityItems := computeTotalItemCapacity(uint16(vlid.k), uint8(vlid.m), uint8(vlid.numLevels))
 		vlid.levelsArr[vlid.numLevels] = capacityItems //load the last one
+		if err := checkLevels(vlid.levelsArr, vlid.n); err != nil {
+			return err
+		}
 		sb, err := computeSketchBytes(vlid.srcMem, vlid.levelsArr, vlid.typeBytes, vlid.serde)
 		if err != nil {
 			return err
@@ -148,6 +167,28 @@ func (vlid *itemsSketchMemoryValidate[C]) validate() error {
 	default:
 		return fmt.Errorf("Invalid preamble ints and serial version combo")
 	}
+	if len(vlid.srcMem) < vlid.sketchBytes {
+		return fmt.Errorf("Memory too small: %d", len(vlid.srcMem))
+	}
+	return nil
+}
+
+// checkLevels checks that the levels are in order and hold n items in total.
+func checkLevels(levelsArr []uint32, n uint64) error {
+	remaining := n
+	for lvl := 0; lvl < len(levelsArr)-1; lvl++ {
+		if levelsArr[lvl] > levelsArr[lvl+1] {
+			return fmt.Errorf("Invalid levels array")
+		}
+		pop := uint64(levelsArr[lvl+1] - levelsArr[lvl])
+		if pop > remaining>>lvl {
+			return fmt.Errorf("Levels hold more than n items: %d", n)
+		}
+		remaining -= pop << lvl
+	}
+	if n == 0 || remaining != 0 {
+		return fmt.Errorf("Levels do not hold n items: %d", n)
+	}
 	return nil
 }
 
diff --git a/kll/sketch_structure.go b/kll/sketch_structure.go
index 78a39c0..a875e08 100644
--- a/kll/sketch_structure.go
+++ b/kll/sketch_structure.go
@@ -17,6 +17,8 @@
 
 package kll
 
+import "errors"
+
 type sketchStructure struct {
 	preInts int
 	serVer  int
@@ -33,19 +35,19 @@ func (s sketchStructure) getPreInts() int { return s.preInts }
 
 func (s sketchStructure) getSerVer() int { return s.serVer }
 
-func getSketchStructure(preInts, serVer int) sketchStructure {
+func getSketchStructure(preInts, serVer int) (sketchStructure, error) {
 	if preInts == _PREAMBLE_INTS_EMPTY_SINGLE {
 		if serVer == _SERIAL_VERSION_EMPTY_FULL {
-			return _COMPACT_EMPTY
+			return _COMPACT_EMPTY, nil
 		} else if serVer == _SERIAL_VERSION_SINGLE {
-			return _COMPACT_SINGLE
+			return _COMPACT_SINGLE, nil
 		}
 	} else if preInts == _PREAMBLE_INTS_FULL {
 		if serVer == _SERIAL_VERSION_EMPTY_FULL {
-			return _COMPACT_FULL
+			return _COMPACT_FULL, nil
 		} else if serVer == _SERIAL_VERSION_UPDATABLE {
-			return _UPDATABLE
+			return _UPDATABLE, nil
 		}
 	}
-	panic("Invalid preamble ints and serial version combo")
+	return sketchStructure{}, errors.New("Invalid preamble ints and serial version combo")
 }
-- 
2.43.0


From ea7ea01f6b260b5828038a7a12e9bb2ec66d0994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:19 +0000
Subject: [PATCH 15/65] fix: KLL constructor refuses values of m that cannot be
 read back

---
 kll/items_sketch.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index 207e93e..4573e11 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -88,6 +88,9 @@ func NewKllItemsSketch[C comparable](k uint16, m uint8, compareFn common.Compare
 	if k < _MIN_K || k > _MAX_K {
 		return nil, fmt.Errorf("k must be >= %d and <= %d: %d", _MIN_K, _MAX_K, k)
 	}
+	if err := checkM(m); err != nil {
+		return nil, err
+	}
 	if compareFn == nil {
 		return nil, fmt.Errorf("no compare function provided")
 	}
-- 
2.43.0


From 31edd92b219df8d4d8c2d3020597ebeb007dbcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:04 +0000
Subject: [PATCH 16/65] fix: a REQ sketch that merges into an empty one takes
 over its minimum and maximum

---
 req/sketch.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/req/sketch.go b/req/sketch.go
index 8d5c866..6371007 100644
--- a/req/sketch.go
+++ b/req/sketch.go
@@ -550,15 +550,15 @@ func (s *Sketch) Merge(other *Sketch) error {
 		return errors.New("both sketches must have the same HighRankAccuracy setting")
 	}
 
-	s.n += other.n
-
-	if math.IsNaN(float64(s.minItem)) || other.minItem < s.minItem {
+	if s.IsEmpty() || other.minItem < s.minItem {
 		s.minItem = other.minItem
 	}
-	if math.IsNaN(float64(s.maxItem)) || other.maxItem > s.maxItem {
+	if s.IsEmpty() || other.maxItem > s.maxItem {
 		s.maxItem = other.maxItem
 	}
 
+	s.n += other.n
+
 	// grow until self has at least as many compactors as others.
 	for i := s.numLevels(); i < other.numLevels(); i++ {
 		s.grow()
-- 
2.43.0


From 3ea4cfaa6e34c1d3617db2198ee8ac0584c6385b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:15 +0000
Subject: [PATCH 17/65] fix: a REQ compactor that merges in a compacted one
 takes over its coin

---
 req/compactor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/req/compactor.go b/req/compactor.go
index df789dd..a604e3b 100644
--- a/req/compactor.go
+++ b/req/compactor.go
@@ -192,6 +192,10 @@ func (c *compactor) Merge(other *compactor) error {
 		return fmt.Errorf("compaction weights do not match. current: %d, other: %d", c.lgWeight, other.lgWeight)
 	}
 
+	if c.state&1 == 0 && other.state&1 == 1 {
+		// The merged state is odd, so that the next compaction takes the opposite of the coin.
+		c.coin = other.coin
+	}
 	c.state |= other.state
 	for c.ensureEnoughSections() {
 	}
-- 
2.43.0


From 324b47f8ca5f39e0b1120c2a16e5b01c26c2f610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:39 +0000
Subject: [PATCH 18/65] fix: REQ rank bounds stay within 0 and 1, so that
 quantile bounds exist for every rank

---
 req/sketch.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/req/sketch.go b/req/sketch.go
index 6371007..0d0cc01 100644
--- a/req/sketch.go
+++ b/req/sketch.go
@@ -744,7 +744,7 @@ func computeRankLowerBound(
 	fixed := fixRSEFactor / float64(k)
 	lbRel := rank - (float64(numStdDev) * relative)
 	lbFix := rank - (float64(numStdDev) * fixed)
-	return max(lbRel, lbFix)
+	return max(lbRel, lbFix, 0)
 }
 
 func isExactRank(
@@ -780,7 +780,7 @@ func computeRankUpperBound(
 	fixed := fixRSEFactor / float64(k)
 	lbRel := rank + (float64(numStdDev) * relative)
 	lbFix := rank + (float64(numStdDev) * fixed)
-	return min(lbRel, lbFix)
+	return min(lbRel, lbFix, 1)
 }
 
 // Item represents a quantile value and its associated weight retained by the sketch.
-- 
2.43.0


From b1864db0b1edb21e8a158d3075e226b78c641401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:17 +0000
Subject: [PATCH 19/65] fix: frequency items sketches of maximum size below 8
 sample as those of size 8 do

---
 frequencies/items_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frequencies/items_sketch.go b/frequencies/items_sketch.go
index ee2c9c0..3a27b82 100644
--- a/frequencies/items_sketch.go
+++ b/frequencies/items_sketch.go
@@ -70,7 +70,7 @@ func NewFrequencyItemsSketch[C comparable](lgMaxMapSize int, lgCurMapSize int, h
 		return nil, err
 	}
 	curMapCap := hashMap.getCapacity()
-	maxMapCap := int(float64(uint64(1)<<lgMaxMapSize) * reversePurgeItemHashMapLoadFactor)
+	maxMapCap := int(float64(uint64(1)<<lgMaxMapSz) * reversePurgeItemHashMapLoadFactor)
 	offset := int64(0)
 	sampleSize := min(_SAMPLE_SIZE, maxMapCap)
 
-- 
2.43.0


From 262c37ed627cf29368c037234e7b8acc64fd3bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:30 +0000
Subject: [PATCH 20/65] fix: a frequency sketch whose items were all purged is
 not empty

---
 frequencies/items_sketch.go | 3 ++-
 frequencies/longs_sketch.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/frequencies/items_sketch.go b/frequencies/items_sketch.go
index 3a27b82..57f325d 100644
--- a/frequencies/items_sketch.go
+++ b/frequencies/items_sketch.go
@@ -325,7 +325,8 @@ func (i *ItemsSketch[C]) GetStreamLength() int64 {
 
 // IsEmpty returns true if this sketch is empty.
 func (i *ItemsSketch[C]) IsEmpty() bool {
-	return i.GetNumActiveItems() == 0
+	// All items may have been purged from a sketch that is not empty.
+	return i.streamWeight == 0
 }
 
 // Update this sketch with an item and a frequency count of one.
diff --git a/frequencies/longs_sketch.go b/frequencies/longs_sketch.go
index 7c0c924..11b91d0 100644
--- a/frequencies/longs_sketch.go
+++ b/frequencies/longs_sketch.go
@@ -393,7 +393,8 @@ func (s *LongsSketch) GetStreamLength() int64 {
 
 // IsEmpty returns true if this sketch is empty
 func (s *LongsSketch) IsEmpty() bool {
-	return s.GetNumActiveItems() == 0
+	// All items may have been purged from a sketch that is not empty.
+	return s.streamWeight == 0
 }
 
 // Update this sketch with an item and a frequency count of one.
-- 
2.43.0


From fe0ae4d4ee053a40af32b422ef618c285fdb6430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:52 +0000
Subject: [PATCH 21/65] fix: an empty frequency items sketch lost its maximum
 map size in serialization

---
 frequencies/items_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frequencies/items_sketch.go b/frequencies/items_sketch.go
index 57f325d..e7240a6 100644
--- a/frequencies/items_sketch.go
+++ b/frequencies/items_sketch.go
@@ -141,7 +141,7 @@ func NewFrequencyItemsSketchFromSlice[C comparable](slc []byte, hasher common.It
 		return nil, fmt.Errorf("(preLongs == 1) ^ empty == true")
 	}
 	if empty {
-		return NewFrequencyItemsSketchWithMaxMapSize[C](1<<_LG_MIN_MAP_SIZE, hasher, serde)
+		return NewFrequencyItemsSketch[C](lgMaxMapSize, _LG_MIN_MAP_SIZE, hasher, serde)
 	}
 	// Get full preamble
 	preArr := make([]int64, preLongs)
-- 
2.43.0


From 78ca6cd82bdd0260a396f57985eaa9191e2e8e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:23 +0000
Subject: [PATCH 22/65] fix: the text of a frequency longs sketch with negative
 items could not be read

---
 frequencies/reverse_purge_long_hash_map.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frequencies/reverse_purge_long_hash_map.go b/frequencies/reverse_purge_long_hash_map.go
index dbf18f8..6c4c7f9 100644
--- a/frequencies/reverse_purge_long_hash_map.go
+++ b/frequencies/reverse_purge_long_hash_map.go
@@ -288,11 +288,11 @@ func deserializeFromStringArray(tokens []string) (*reversePurgeLongHashMap, erro
 	}
 	j := 2 + ignore
 	for i := 0; i < int(numActive); i++ {
-		key, err := strconv.ParseUint(tokens[j], 10, 64)
+		key, err := strconv.ParseInt(tokens[j], 10, 64)
 		if err != nil {
 			return nil, err
 		}
-		value, err := strconv.ParseUint(tokens[j+1], 10, 64)
+		value, err := strconv.ParseInt(tokens[j+1], 10, 64)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From e8673b75f78f3335792b8f95262de318605f58e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:42 +0000
Subject: [PATCH 23/65] fix: reading corrupt frequency sketches could panic or
 allocate without limit; a starting map larger than the maximum is refused

---
 frequencies/items_sketch.go                | 28 ++++++++----
 frequencies/longs_sketch.go                | 51 ++++++++++++++++------
 frequencies/reverse_purge_long_hash_map.go | 27 ------------
 frequencies/utils.go                       | 24 ++++++++++
 4 files changed, 81 insertions(+), 49 deletions(-)

diff --git a/frequencies/items_sketch.go b/frequencies/items_sketch.go
index e7240a6..9314999 100644
--- a/frequencies/items_sketch.go
+++ b/frequencies/items_sketch.go
@@ -65,6 +65,9 @@ type ItemsSketch[C comparable] struct {
 func NewFrequencyItemsSketch[C comparable](lgMaxMapSize int, lgCurMapSize int, hasher common.ItemSketchHasher[C], serde common.ItemSketchSerde[C]) (*ItemsSketch[C], error) {
 	lgMaxMapSz := max(lgMaxMapSize, _LG_MIN_MAP_SIZE)
 	lgCurMapSz := max(lgCurMapSize, _LG_MIN_MAP_SIZE)
+	if err := checkMapSizes(lgMaxMapSz, lgCurMapSz); err != nil {
+		return nil, err
+	}
 	hashMap, err := newReversePurgeItemHashMap[C](1<<lgCurMapSz, hasher, serde)
 	if err != nil {
 		return nil, err
@@ -115,6 +118,9 @@ func NewFrequencyItemsSketchFromSlice[C comparable](slc []byte, hasher common.It
 	}
 
 	pre0, err := checkPreambleSize(slc) //make sure preamble will fit
+	if err != nil {
+		return nil, err
+	}
 	maxPreLongs := internal.FamilyEnum.Frequency.MaxPreLongs
 
 	preLongs := extractPreLongs(pre0)                     //Byte 0
@@ -143,28 +149,34 @@ func NewFrequencyItemsSketchFromSlice[C comparable](slc []byte, hasher common.It
 	if empty {
 		return NewFrequencyItemsSketch[C](lgMaxMapSize, _LG_MIN_MAP_SIZE, hasher, serde)
 	}
+	if preLongsEq1 {
+		return nil, fmt.Errorf("possible corruption: preLongs must be %d unless empty: %d", maxPreLongs, preLongs)
+	}
 	// Get full preamble
 	preArr := make([]int64, preLongs)
 	for j := 0; j < preLongs; j++ {
 		preArr[j] = int64(binary.LittleEndian.Uint64(slc[j<<3:]))
 	}
 
-	fis, err := NewFrequencyItemsSketch[C](lgMaxMapSize, lgCurMapSize, hasher, serde)
-	if err != nil {
-		return nil, err
-	}
-	fis.streamWeight = 0 // update after
-	fis.offset = preArr[3]
-
 	preBytes := preLongs << 3
 	activeItems := extractActiveItems(preArr[1])
 
 	// Get countArray
-	countArray := make([]int64, activeItems)
 	reqBytes := preBytes + activeItems*8 // count Arr only
 	if len(slc) < reqBytes {
 		return nil, fmt.Errorf("possible Corruption: Insufficient bytes in array: %d, %d", len(slc), reqBytes)
 	}
+	if err := checkMapSizes(max(lgMaxMapSize, _LG_MIN_MAP_SIZE), lgCurMapSize); err != nil {
+		return nil, err
+	}
+	fis, err := NewFrequencyItemsSketch[C](lgMaxMapSize, trustedLgMapSize(lgCurMapSize, activeItems), hasher, serde)
+	if err != nil {
+		return nil, err
+	}
+	fis.streamWeight = 0 // update after
+	fis.offset = preArr[3]
+
+	countArray := make([]int64, activeItems)
 	for j := 0; j < activeItems; j++ {
 		countArray[j] = int64(binary.LittleEndian.Uint64(slc[preBytes+j<<3:]))
 	}
diff --git a/frequencies/longs_sketch.go b/frequencies/longs_sketch.go
index 11b91d0..871621e 100644
--- a/frequencies/longs_sketch.go
+++ b/frequencies/longs_sketch.go
@@ -21,7 +21,6 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
-	"math/bits"
 	"slices"
 	"strconv"
 	"strings"
@@ -62,6 +61,9 @@ func NewLongsSketch(lgMaxMapSize int, lgCurMapSize int) (*LongsSketch, error) {
 	//set initial size of hash map
 	lgMaxMapSize = max(lgMaxMapSize, _LG_MIN_MAP_SIZE)
 	lgCurMapSize = max(lgCurMapSize, _LG_MIN_MAP_SIZE)
+	if err := checkMapSizes(lgMaxMapSize, lgCurMapSize); err != nil {
+		return nil, err
+	}
 	hashMap, err := newReversePurgeLongHashMap(1 << lgCurMapSize)
 	if err != nil {
 		return nil, err
@@ -130,27 +132,33 @@ func NewLongsSketchFromSlice(slc []byte) (*LongsSketch, error) {
 	if empty {
 		return NewLongsSketch(lgMaxMapSize, _LG_MIN_MAP_SIZE)
 	}
+	if preLongsEq1 {
+		return nil, fmt.Errorf("possible Corruption: PreLongs must be %d unless empty: %d", maxPreLongs, preLongs)
+	}
 	// get full preamble
 	preArr := make([]int64, preLongs)
 	for i := 0; i < preLongs; i++ {
 		preArr[i] = int64(binary.LittleEndian.Uint64(slc[i<<3:]))
 	}
-	fls, err := NewLongsSketch(lgMaxMapSize, lgCurMapSize)
-	if err != nil {
-		return nil, err
-	}
-	fls.streamWeight = 0 //update after
-	fls.offset = preArr[3]
-
 	preBytes := preLongs << 3
 	activeItems := extractActiveItems(preArr[1])
 
 	// Get countArray
-	countArray := make([]int64, activeItems)
 	reqBytes := preBytes + 2*activeItems*8 //count Arr + Items Arr
 	if len(slc) < reqBytes {
 		return nil, fmt.Errorf("possible Corruption: Insufficient bytes in array: %d, %d", len(slc), reqBytes)
 	}
+	if err := checkMapSizes(max(lgMaxMapSize, _LG_MIN_MAP_SIZE), lgCurMapSize); err != nil {
+		return nil, err
+	}
+	fls, err := NewLongsSketch(lgMaxMapSize, trustedLgMapSize(lgCurMapSize, activeItems))
+	if err != nil {
+		return nil, err
+	}
+	fls.streamWeight = 0 //update after
+	fls.offset = preArr[3]
+
+	countArray := make([]int64, activeItems)
 	for i := 0; i < activeItems; i++ {
 		countArray[i] = int64(binary.LittleEndian.Uint64(slc[preBytes+(i<<3):]))
 	}
@@ -223,7 +231,10 @@ func NewLongsSketchFromString(str string) (*LongsSketch, error) {
 	if err != nil {
 		return nil, err
 	}
-	lgCur := bits.TrailingZeros64(lgCurOrigin)
+	lgCur, err := internal.ExactLog2(int(lgCurOrigin))
+	if err != nil {
+		return nil, err
+	}
 
 	//checks
 	if serVe != _SER_VER {
@@ -241,15 +252,27 @@ func NewLongsSketchFromString(str string) (*LongsSketch, error) {
 		return nil, fmt.Errorf("possible Corruption: Incorrect # of tokens: %d, numActive: %d", numTokens, numActive)
 	}
 	//    if ((2 * numActive) != (numTokens - STR_PREAMBLE_TOKENS - 2)) {
-	sk, err := NewLongsSketch(int(lgMax), int(lgCur))
+	if err := checkMapSizes(int(max(lgMax, _LG_MIN_MAP_SIZE)), lgCur); err != nil {
+		return nil, err
+	}
+	sk, err := NewLongsSketch(int(lgMax), trustedLgMapSize(lgCur, int(numActive)))
 	if err != nil {
 		return nil, err
 	}
 	sk.streamWeight = streamWt
 	sk.offset = offset
-	sk.hashMap, err = deserializeFromStringArray(tokens)
-	if err != nil {
-		return nil, err
+	for j := strPreambleTokens + 2; j < len(tokens); j += 2 {
+		key, err := strconv.ParseInt(tokens[j], 10, 64)
+		if err != nil {
+			return nil, err
+		}
+		value, err := strconv.ParseInt(tokens[j+1], 10, 64)
+		if err != nil {
+			return nil, err
+		}
+		if err := sk.hashMap.adjustOrPutValue(key, value); err != nil {
+			return nil, err
+		}
 	}
 	return sk, nil
 }
diff --git a/frequencies/reverse_purge_long_hash_map.go b/frequencies/reverse_purge_long_hash_map.go
index 6c4c7f9..44550d1 100644
--- a/frequencies/reverse_purge_long_hash_map.go
+++ b/frequencies/reverse_purge_long_hash_map.go
@@ -278,33 +278,6 @@ func deserializeReversePurgeLongHashMapFromString(string string) (*reversePurgeL
 	return table, nil
 }
 
-func deserializeFromStringArray(tokens []string) (*reversePurgeLongHashMap, error) {
-	ignore := strPreambleTokens
-	numActive, _ := strconv.ParseUint(tokens[ignore], 10, 32)
-	length, _ := strconv.ParseUint(tokens[ignore+1], 10, 32)
-	hashMap, err := newReversePurgeLongHashMap(int(length))
-	if err != nil {
-		return nil, err
-	}
-	j := 2 + ignore
-	for i := 0; i < int(numActive); i++ {
-		key, err := strconv.ParseInt(tokens[j], 10, 64)
-		if err != nil {
-			return nil, err
-		}
-		value, err := strconv.ParseInt(tokens[j+1], 10, 64)
-		if err != nil {
-			return nil, err
-		}
-		err = hashMap.adjustOrPutValue(int64(key), int64(value))
-		if err != nil {
-			return nil, err
-		}
-		j += 2
-	}
-	return hashMap, nil
-}
-
 func (r *reversePurgeLongHashMap) getActiveValues() []int64 {
 	if r.numActive == 0 {
 		return nil
diff --git a/frequencies/utils.go b/frequencies/utils.go
index b7d648d..8689b5f 100644
--- a/frequencies/utils.go
+++ b/frequencies/utils.go
@@ -18,7 +18,9 @@
 package frequencies
 
 import (
+	"fmt"
 	"math"
+	"math/bits"
 	"math/rand"
 )
 
@@ -26,6 +28,10 @@ const (
 	// _LG_MIN_MAP_SIZE constant controle the size of the initial data structure for the
 	// frequencies sketches and its value is somewhat arbitrary.
 	_LG_MIN_MAP_SIZE = 3
+	// _LG_MAX_MAP_SIZE keeps sizes within the range of an int.
+	_LG_MAX_MAP_SIZE = 62
+	// _LG_TRUSTED_MAP_SIZE is the map size that serialized data may declare however few its items.
+	_LG_TRUSTED_MAP_SIZE = 12
 	// _SAMPLE_SIZE constant is large enough so that computing the median of SAMPLE_SIZE
 	// randomly selected entries from a list of numbers and outputting
 	// the empirical median will give a constant-factor approximation to the
@@ -54,6 +60,24 @@ var ErrorTypeEnum = &errorTypes{
 	},
 }
 
+// checkMapSizes checks the log2 of the maximum and of the starting size of the hash map.
+func checkMapSizes(lgMaxMapSize, lgCurMapSize int) error {
+	if lgMaxMapSize > _LG_MAX_MAP_SIZE {
+		return fmt.Errorf("log2 of the maximum map size must be at most %d: %d", _LG_MAX_MAP_SIZE, lgMaxMapSize)
+	}
+	if lgCurMapSize > lgMaxMapSize {
+		return fmt.Errorf("starting map size must not be greater than the maximum map size: 2^%d, 2^%d", lgCurMapSize, lgMaxMapSize)
+	}
+	return nil
+}
+
+// trustedLgMapSize limits the log2 of the map size that serialized data declares to what its
+// items justify, so that a few bytes cannot demand an arbitrary amount of memory. The map grows
+// again with the items to come.
+func trustedLgMapSize(lgCurMapSize, activeItems int) int {
+	return min(lgCurMapSize, max(_LG_TRUSTED_MAP_SIZE, bits.Len(uint(activeItems))+3))
+}
+
 // hashFn returns an index into the hashFn table.
 // This hashFn function is taken from the internals of Austin Appleby's MurmurHash3 algorithm.
 // It is also used by the Trove for Java libraries.
-- 
2.43.0


From 58b6ef9715ab566f3e67618ace08908c173e89cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:31 +0000
Subject: [PATCH 24/65] fix: a reservoir union refuses a maximum k below 2
 instead of panicking on its first update

---
 sampling/reservoir_items_union.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sampling/reservoir_items_union.go b/sampling/reservoir_items_union.go
index eb85ade..d712d27 100644
--- a/sampling/reservoir_items_union.go
+++ b/sampling/reservoir_items_union.go
@@ -50,6 +50,10 @@ type ReservoirItemsUnion[T any] struct {
 
 // NewReservoirItemsUnion creates a new union with the specified maximum k.
 func NewReservoirItemsUnion[T any](maxK int) (*ReservoirItemsUnion[T], error) {
+	if maxK < minK {
+		return nil, errors.New("maximum k must be at least 2")
+	}
+
 	return &ReservoirItemsUnion[T]{
 		maxK:   maxK,
 		gadget: nil, // Start with nil gadget, will be initialized on first update
-- 
2.43.0


From 288df30c36b4c91d4ab411c529b765d28fdc7482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:44 +0000
Subject: [PATCH 25/65] fix: resetting a reservoir union restores its maximum k
 and does not panic on a new union

---
 sampling/reservoir_items_union.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sampling/reservoir_items_union.go b/sampling/reservoir_items_union.go
index d712d27..51ce974 100644
--- a/sampling/reservoir_items_union.go
+++ b/sampling/reservoir_items_union.go
@@ -269,7 +269,11 @@ func (u *ReservoirItemsUnion[T]) MaxK() int {
 
 // Reset clears the union.
 func (u *ReservoirItemsUnion[T]) Reset() {
-	u.gadget.Reset()
+	if u.gadget == nil {
+		return
+	}
+	// the k of the gadget may have fallen below the maximum
+	u.gadget, _ = NewReservoirItemsSketch[T](u.maxK)
 }
 
 // String returns a human-readable summary of the union.
-- 
2.43.0


From db9fecd198951f3ba4d580576f7a033b4b33b456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:25 +0000
Subject: [PATCH 26/65] fix: reading a reservoir sketch checks its length,
 preamble, k and n, and allocates no more than its items

---
 sampling/reservoir_items_sketch.go | 46 +++++++++++++++---------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/sampling/reservoir_items_sketch.go b/sampling/reservoir_items_sketch.go
index e9b3711..965b6e3 100644
--- a/sampling/reservoir_items_sketch.go
+++ b/sampling/reservoir_items_sketch.go
@@ -437,7 +437,17 @@ func NewReservoirItemsSketchFromSlice[T any](data []byte, serde common.ItemSketc
 	isEmpty := (flags & flagEmpty) != 0
 	n := 0
 	if !isEmpty {
-		n = int(binary.LittleEndian.Uint64(data[8:]))
+		if preambleLong != internal.FamilyEnum.ReservoirItems.MaxPreLongs {
+			return nil, fmt.Errorf("possible corruption: Non-empty sketch with only %d preamble longs", preambleLong)
+		}
+		if len(data) < internal.FamilyEnum.ReservoirItems.MaxPreLongs*8 {
+			return nil, errors.New("data too short")
+		}
+		itemsSeen := binary.LittleEndian.Uint64(data[8:])
+		if itemsSeen == 0 || itemsSeen > maxItemsSeen {
+			return nil, fmt.Errorf("possible corruption: invalid number of items seen: %d", itemsSeen)
+		}
+		n = int(itemsSeen)
 	}
 
 	k := int(binary.LittleEndian.Uint32(data[4:]))
@@ -455,38 +465,28 @@ func NewReservoirItemsSketchFromSlice[T any](data []byte, serde common.ItemSketc
 		}
 	}
 
-	if isEmpty {
-		return NewReservoirItemsSketch[T](k, WithReservoirItemsSketchResizeFactor(rf))
+	if k < minK {
+		return nil, errors.New("k must be at least 2")
 	}
 
-	preambleLongBytes := internal.FamilyEnum.ReservoirItems.MaxPreLongs * 8
-	capacity := k
-	if n < k {
-		ceilingLgK, _ := internal.ExactLog2(common.CeilingPowerOf2(k))
-		minLgSize, _ := internal.ExactLog2(common.CeilingPowerOf2(n))
-		initialLgSize := startingSubMultiple(ceilingLgK, int(rf), max(minLgSize, minLgArrItems))
-		capacity = adjustedSamplingAllocationSize(k, 1<<initialLgSize)
+	if isEmpty {
+		// k is not yet backed by any data, so the reservoir starts small
+		return &ReservoirItemsSketch[T]{
+			k:    k,
+			n:    0,
+			rf:   rf,
+			data: make([]T, 0, min(k, 1<<minLgArrItems)),
+		}, nil
 	}
 
+	preambleLongBytes := internal.FamilyEnum.ReservoirItems.MaxPreLongs * 8
 	numSamples := min(n, k)
 	items, err := serde.DeserializeManyFromSlice(data, preambleLongBytes, numSamples)
 	if err != nil {
 		return nil, err
 	}
 
-	sketch, err := newReservoirItemsSketchFromStates(items, int64(n), rf, k)
-	if err != nil {
-		return nil, err
-	}
-
-	sketch.data = slices.Grow(sketch.data, capacity)
-
-	return &ReservoirItemsSketch[T]{
-		k:    k,
-		n:    int64(n),
-		rf:   rf,
-		data: items,
-	}, nil
+	return newReservoirItemsSketchFromStates(items, int64(n), rf, k)
 }
 
 func newReservoirItemsSketchFromStates[T any](
-- 
2.43.0


From d1820b459db8a8a89f643e54cb51052cb82cb137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:15 +0000
Subject: [PATCH 27/65] fix: VarOpt updates do not fail when rounding leaves a
 heavy item just below tau

---
 sampling/varopt_items_sketch.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sampling/varopt_items_sketch.go b/sampling/varopt_items_sketch.go
index c6a2860..3030aec 100644
--- a/sampling/varopt_items_sketch.go
+++ b/sampling/varopt_items_sketch.go
@@ -74,6 +74,9 @@ const (
 	// VarOpt specific constants
 	varOptDefaultResizeFactor = ResizeX8
 	varOptMaxK                = (1 << 31) - 2 // maximum k value
+
+	// relative rounding error allowed for when comparing weights with tau
+	tauTolerance = 1e-9
 )
 
 type VarOptOption func(*varOptConfig)
@@ -271,7 +274,8 @@ func (s *VarOptItemsSketch[T]) update(item T, weight float64, mark bool) error {
 			return err
 		}
 
-		if minWeight < s.tau() {
+		// an item as heavy as tau may end up on either side of it by rounding
+		if minWeight < s.tau()*(1-tauTolerance) {
 			return errors.New("sketch not in valid estimation mode")
 		}
 	}
-- 
2.43.0


From 873650c331ead22e9884763ad272da9058373716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:08 +0000
Subject: [PATCH 28/65] fix: a decoded VarOpt sketch in estimation mode accepts
 further updates

---
 sampling/varopt_items_sketch_decoder.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/sampling/varopt_items_sketch_decoder.go b/sampling/varopt_items_sketch_decoder.go
index 242ff7a..1a71ac4 100644
--- a/sampling/varopt_items_sketch_decoder.go
+++ b/sampling/varopt_items_sketch_decoder.go
@@ -194,16 +194,12 @@ func DecodeVarOptItemsSketch[T any](buffer []byte, serde common.ItemSketchSerde[
 		copy(data[h+1:h+1+r], rData)
 	}
 
-	m := 0
-	if r > 0 {
-		m = 1
-	}
 	return &VarOptItemsSketch[T]{
 		data:         data,
 		weights:      weights,
 		k:            int(k),
 		h:            int(h),
-		m:            m,
+		m:            0,
 		r:            int(r),
 		n:            int64(n),
 		totalWeightR: totalWeightR,
-- 
2.43.0


From 79749d7cca418e12135147acc3a988bc4b28264c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:56 +0000
Subject: [PATCH 29/65] fix: a VarOpt subset sum in exact mode reports the
 weight of the whole sketch as its total

---
 sampling/varopt_items_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampling/varopt_items_sketch.go b/sampling/varopt_items_sketch.go
index 3030aec..44383da 100644
--- a/sampling/varopt_items_sketch.go
+++ b/sampling/varopt_items_sketch.go
@@ -748,7 +748,7 @@ func (s *VarOptItemsSketch[T]) EstimateSubsetSum(predicate func(T) bool) (Sample
 			LowerBound:        trueWeightInH,
 			Estimate:          trueWeightInH,
 			UpperBound:        trueWeightInH,
-			TotalSketchWeight: trueWeightInH,
+			TotalSketchWeight: weightSumInH,
 		}, nil
 	}
 
-- 
2.43.0


From 86ff490c66edb511a0974650e638d1f4a23ba297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:23 +0000
Subject: [PATCH 30/65] fix: the result of a VarOpt union that had to decrease
 k can be serialized

---
 sampling/varopt_items_sketch.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/sampling/varopt_items_sketch.go b/sampling/varopt_items_sketch.go
index 44383da..98e234a 100644
--- a/sampling/varopt_items_sketch.go
+++ b/sampling/varopt_items_sketch.go
@@ -905,8 +905,9 @@ func (s *VarOptItemsSketch[T]) decreaseKBy1() error {
 		s.h--
 		s.k--
 		s.n-- // will be re-incremented with the update
+		s.trimToK()
 
-		s.update(pulledItem, pulledWeight, pulledMark)
+		return s.update(pulledItem, pulledWeight, pulledMark)
 	case s.h == 0 && s.r > 0:
 		// pure reservoir mode, so can simply eject a randomly chosen sample from the reservoir
 		if s.r < 2 {
@@ -920,8 +921,19 @@ func (s *VarOptItemsSketch[T]) decreaseKBy1() error {
 
 		s.k--
 		s.r--
+		s.trimToK()
 	default:
 	}
 
 	return nil
 }
+
+// trimToK drops the slots beyond those of an estimation mode sketch of the current k.
+func (s *VarOptItemsSketch[T]) trimToK() {
+	clear(s.data[s.k+1:])
+	s.data = s.data[:s.k+1]
+	s.weights = s.weights[:s.k+1]
+	if s.marks != nil {
+		s.marks = s.marks[:s.k+1]
+	}
+}
-- 
2.43.0


From c7ddc75cd4fce18509f32350062c74a446eaf2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:59 +0000
Subject: [PATCH 31/65] fix: a VarOpt union does not return items lighter than
 tau as heavy items

---
 sampling/varopt_items_union.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sampling/varopt_items_union.go b/sampling/varopt_items_union.go
index ab362f1..fe33b47 100644
--- a/sampling/varopt_items_union.go
+++ b/sampling/varopt_items_union.go
@@ -222,9 +222,11 @@ func (u *VarOptItemsUnion[T]) Result() (*VarOptItemsSketch[T], error) {
 		return u.migrateMarkedItemsByDecreasingK()
 	}
 
-	// explicitly enforce rule that items in H should not be lighter than the sketch's tau
+	// explicitly enforce rule that items in H should not be lighter than the tau of the result,
+	// which is the outer tau (the gadget itself is in exact mode)
+	outerTau := u.outerTau()
 	for i := 0; i < u.gadget.h; i++ {
-		if u.gadget.weights[i] < u.gadget.tau() && !u.gadget.marks[i] {
+		if u.gadget.weights[i] < outerTau && !u.gadget.marks[i] {
 			return u.migrateMarkedItemsByDecreasingK()
 		}
 	}
-- 
2.43.0


From a218d9c5be92d34cf9addd18b69b4632b666d060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:54 +0000
Subject: [PATCH 32/65] fix: decoding a VarOpt sketch checks weights and counts
 and allocates no more than the image holds

---
 sampling/varopt_items_sketch_decoder.go | 113 +++++++++++++-----------
 1 file changed, 61 insertions(+), 52 deletions(-)

diff --git a/sampling/varopt_items_sketch_decoder.go b/sampling/varopt_items_sketch_decoder.go
index 1a71ac4..c56fb53 100644
--- a/sampling/varopt_items_sketch_decoder.go
+++ b/sampling/varopt_items_sketch_decoder.go
@@ -70,7 +70,13 @@ func DecodeVarOptItemsSketch[T any](buffer []byte, serde common.ItemSketchSerde[
 	isGadget := (flags & gadgetFlagMask) != 0
 
 	if isEmpty {
-		return newVarOptItemsSketchFromState[T](int(k), ResizeFactor(rf), isGadget)
+		// k is not yet backed by any data, so the arrays start small whatever the resize factor
+		sketch, err := newVarOptItemsSketchFromState[T](int(k), defaultResizeFactor, isGadget)
+		if err != nil {
+			return nil, err
+		}
+		sketch.rf = ResizeFactor(rf)
+		return sketch, nil
 	}
 
 	if err := validateBuffer(buffer, index+8); err != nil {
@@ -91,10 +97,7 @@ func DecodeVarOptItemsSketch[T any](buffer []byte, serde common.ItemSketchSerde[
 	r := binary.LittleEndian.Uint32(buffer[index:])
 	index += 4
 
-	allocSize, err := computeVarOptItemsSketchDataSize(
-		preambleLongs, k, n, h, r, ResizeFactor(rf),
-	)
-	if err != nil {
+	if err := validateVarOptItemsSketchCounts(preambleLongs, k, n, h, r); err != nil {
 		return nil, err
 	}
 
@@ -108,21 +111,21 @@ func DecodeVarOptItemsSketch[T any](buffer []byte, serde common.ItemSketchSerde[
 		totalWeightR = math.Float64frombits(binary.LittleEndian.Uint64(buffer[index:]))
 		index += 8
 
-		if math.IsNaN(totalWeightR) || r == 0 || totalWeightR <= 0 {
+		if math.IsNaN(totalWeightR) || math.IsInf(totalWeightR, 0) || r == 0 || totalWeightR <= 0 {
 			return nil, fmt.Errorf("data is corrupt in full mode: invalid R region weight: %f", totalWeightR)
 		}
 	}
 
-	sliceLen := int(allocSize)
-	if r == 0 {
-		sliceLen = int(h)
+	sliceLen := int(h)
+	if r > 0 {
+		sliceLen = int(k) + 1
 	}
 
-	// read h weights, fill in rest of slice with -1.0
-	weights := make([]float64, sliceLen, allocSize)
+	// read h weights
 	if err := validateBuffer(buffer, index+int(h)*8); err != nil {
 		return nil, err
 	}
+	hRegionWeights := make([]float64, h)
 	for i := 0; i < int(h); i++ {
 		w := math.Float64frombits(binary.LittleEndian.Uint64(buffer[index:]))
 		index += 8
@@ -130,19 +133,19 @@ func DecodeVarOptItemsSketch[T any](buffer []byte, serde common.ItemSketchSerde[
 		if w <= 0 {
 			return nil, fmt.Errorf("non-positive weight: %f", w)
 		}
+		if math.IsNaN(w) || math.IsInf(w, 0) {
+			return nil, fmt.Errorf("weight is not finite: %f", w)
+		}
 
-		weights[i] = w
-	}
-	for i := h; i < uint32(len(weights)); i++ {
-		weights[i] = -1
+		hRegionWeights[i] = w
 	}
 
 	var (
-		marks       []bool
-		numMarksInH uint32
+		hRegionMarks []bool
+		numMarksInH  uint32
 	)
 	if isGadget {
-		marks = make([]bool, sliceLen, allocSize)
+		hRegionMarks = make([]bool, h)
 		val := uint8(0)
 		for i := 0; i < int(h); i++ {
 			if (i & 0x7) == 0 {
@@ -154,15 +157,13 @@ func DecodeVarOptItemsSketch[T any](buffer []byte, serde common.ItemSketchSerde[
 				index++
 			}
 
-			marks[i] = (val>>(i&0x7))&0x1 == 1
-			if marks[i] {
+			hRegionMarks[i] = (val>>(i&0x7))&0x1 == 1
+			if hRegionMarks[i] {
 				numMarksInH++
 			}
 		}
 	}
 
-	data := make([]T, sliceLen, allocSize)
-
 	hBytes, err := serde.SizeOfMany(buffer, index, int(h))
 	if err != nil {
 		return nil, err
@@ -175,8 +176,8 @@ func DecodeVarOptItemsSketch[T any](buffer []byte, serde common.ItemSketchSerde[
 		return nil, err
 	}
 	index += hBytes
-	copy(data[:h], hRegionData)
 
+	var rRegionData []T
 	if r > 0 {
 		rBytes, err := serde.SizeOfMany(buffer, index, int(r))
 		if err != nil {
@@ -185,13 +186,29 @@ func DecodeVarOptItemsSketch[T any](buffer []byte, serde common.ItemSketchSerde[
 		if err := validateBuffer(buffer, index+rBytes); err != nil {
 			return nil, err
 		}
-		rData, err := serde.DeserializeManyFromSlice(buffer, index, int(r))
+		rRegionData, err = serde.DeserializeManyFromSlice(buffer, index, int(r))
 		if err != nil {
 			return nil, err
 		}
-		index += rBytes
+	}
+	if len(hRegionData) != int(h) || len(rRegionData) != int(r) {
+		return nil, fmt.Errorf("expected %d and %d items, got %d and %d", h, r, len(hRegionData), len(rRegionData))
+	}
 
-		copy(data[h+1:h+1+r], rData)
+	data := make([]T, sliceLen)
+	copy(data, hRegionData)
+	weights := make([]float64, sliceLen)
+	copy(weights, hRegionWeights)
+	for i := int(h); i < sliceLen; i++ {
+		weights[i] = -1 // the gap and the R region
+	}
+	if r > 0 {
+		copy(data[h+1:], rRegionData)
+	}
+	var marks []bool
+	if isGadget {
+		marks = make([]bool, sliceLen)
+		copy(marks, hRegionMarks)
 	}
 
 	return &VarOptItemsSketch[T]{
@@ -231,47 +248,39 @@ func validateVarOptItemsSketchFamilyAndSerVer(familyID, serVer uint8) error {
 	return fmt.Errorf("invalid family ID: expected %d, got %d", internal.FamilyEnum.VarOptItems.Id, familyID)
 }
 
-func computeVarOptItemsSketchDataSize(
-	preambleLongs uint8, k uint32, n uint64, h uint32, r uint32, rf ResizeFactor,
-) (uint32, error) {
+func validateVarOptItemsSketchCounts(
+	preambleLongs uint8, k uint32, n uint64, h uint32, r uint32,
+) error {
 	if k == 0 || k > varOptMaxK {
-		return 0, errors.New("k must be at least 1 and less than 2^31 - 1")
+		return errors.New("k must be at least 1 and less than 2^31 - 1")
+	}
+	if n > math.MaxInt64 {
+		return fmt.Errorf("invalid number of items: %d", n)
 	}
 
-	allocSize := 0
 	if n <= uint64(k) {
 		if preambleLongs != preambleLongsWarmup {
-			return 0, fmt.Errorf("invalid preamble longs: expected warmup because n<=k, got %d", preambleLongs)
+			return fmt.Errorf("invalid preamble longs: expected warmup because n<=k, got %d", preambleLongs)
 		}
 
 		if n != uint64(h) {
-			return 0, fmt.Errorf("invalid state in warmup mode: expected n==h, got n=%d, h=%d", n, h)
+			return fmt.Errorf("invalid state in warmup mode: expected n==h, got n=%d, h=%d", n, h)
 		}
 
 		if r > 0 {
-			return 0, fmt.Errorf("invalid state in warmup mode: expected r==0, got r=%d", r)
-		}
-
-		ceilingLgK := math.Log2(float64(common.CeilingPowerOf2(int(k))))
-		minLgSize := math.Log2(float64(common.CeilingPowerOf2(int(h))))
-		initialLgSize := startingSubMultiple(int(ceilingLgK), int(rf), int(minLgSize))
-		allocSize = adjustedSamplingAllocationSize(int(k), 1<<initialLgSize)
-		if allocSize == int(k) {
-			allocSize++
-		}
-	} else {
-		if preambleLongs != preambleLongsFull {
-			return 0, fmt.Errorf("invalid preamble longs: expected full because n>k, got %d", preambleLongs)
-		}
-
-		if h+r != k {
-			return 0, fmt.Errorf("invalid state in full mode: expected h+r==k, got h=%d, r=%d, k=%d", h, r, k)
+			return fmt.Errorf("invalid state in warmup mode: expected r==0, got r=%d", r)
 		}
+		return nil
+	}
 
-		allocSize = int(k) + 1
+	if preambleLongs != preambleLongsFull {
+		return fmt.Errorf("invalid preamble longs: expected full because n>k, got %d", preambleLongs)
 	}
 
-	return uint32(allocSize), nil
+	if uint64(h)+uint64(r) != uint64(k) {
+		return fmt.Errorf("invalid state in full mode: expected h+r==k, got h=%d, r=%d, k=%d", h, r, k)
+	}
+	return nil
 }
 
 func validateBuffer(buf []byte, endIndex int) error {
-- 
2.43.0


From 0513039c07f36a7841e9f3f26c7c77bf106470a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:34 +0000
Subject: [PATCH 33/65] fix: decoding a VarOpt union refuses a gadget without
 marks and inconsistent counts

---
 sampling/varopt_items_union_decoder.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sampling/varopt_items_union_decoder.go b/sampling/varopt_items_union_decoder.go
index 363081d..390e89f 100644
--- a/sampling/varopt_items_union_decoder.go
+++ b/sampling/varopt_items_union_decoder.go
@@ -19,6 +19,7 @@ package sampling
 
 import (
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"math"
 
@@ -111,6 +112,19 @@ func DecodeVarOptItemsUnion[T any](buffer []byte, serde common.ItemSketchSerde[T
 		return nil, err
 	}
 
+	if gadget.marks == nil {
+		return nil, errors.New("possible corruption: the gadget of a union has no marks")
+	}
+	if n < gadget.N() {
+		return nil, fmt.Errorf("possible corruption: %d items seen by the union, %d by its gadget", n, gadget.N())
+	}
+	if maxK == 0 || maxK > varOptMaxK || gadget.K() > maxK {
+		return nil, fmt.Errorf("possible corruption: maximum k %d, k of the gadget %d", maxK, gadget.K())
+	}
+	if math.IsNaN(outerTauNumer) || math.IsInf(outerTauNumer, 0) || outerTauNumer < 0 || outerTauDenom > math.MaxInt64 {
+		return nil, fmt.Errorf("possible corruption: invalid outer tau %f / %d", outerTauNumer, outerTauDenom)
+	}
+
 	return &VarOptItemsUnion[T]{
 		gadget:        gadget,
 		k:             maxK,
-- 
2.43.0


From 9ebcf34545491928c1be5117ec7883e4a3b11f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:53 +0000
Subject: [PATCH 34/65] fix: t-digest Quantile refuses a NaN rank

---
 tdigest/double.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tdigest/double.go b/tdigest/double.go
index 30eaf7a..a129b84 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -350,7 +350,7 @@ func (d *Double) Quantile(rank float64) (float64, error) {
 	if d.IsEmpty() {
 		return 0, ErrEmpty
 	}
-	if rank < 0.0 || rank > 1.0 {
+	if math.IsNaN(rank) || rank < 0.0 || rank > 1.0 {
 		return 0, ErrInvalidRank
 	}
 
-- 
2.43.0


From 77ce723d8f7b51e99c27cf2d7a01c32c02ec3072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:53 +0000
Subject: [PATCH 35/65] fix: t-digest quantiles in the right tail do not exceed
 the maximum

---
 tdigest/double.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tdigest/double.go b/tdigest/double.go
index a129b84..1cd3ae9 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -376,7 +376,7 @@ func (d *Double) Quantile(rank float64) (float64, error) {
 
 	lastWeight := float64(d.centroids[len(d.centroids)-1].weight)
 	if lastWeight > 1 && float64(d.centroidsWeight)-weight <= lastWeight/2.0 {
-		return d.max + (float64(d.centroidsWeight)-weight-1.0)/(lastWeight/2.0-1.0)*(d.max-d.centroids[len(d.centroids)-1].mean), nil
+		return d.max - (float64(d.centroidsWeight)-weight-1.0)/(lastWeight/2.0-1.0)*(d.max-d.centroids[len(d.centroids)-1].mean), nil
 	}
 
 	// interpolate between extremes
-- 
2.43.0


From 166f1905b228fb193f4faa68c5cb04b75e3d4303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:53 +0000
Subject: [PATCH 36/65] fix: t-digest quantile interpolation gives the closer
 centroid the larger weight

---
 tdigest/double.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tdigest/double.go b/tdigest/double.go
index 1cd3ae9..ce17161 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -401,7 +401,8 @@ func (d *Double) Quantile(rank float64) (float64, error) {
 			}
 			w1 := weight - weightSoFar - leftWeight
 			w2 := weightSoFar + dw - weight - rightWeight
-			return weightedAverage(d.centroids[i].mean, w1, d.centroids[i+1].mean, w2), nil
+			// the closer centroid has the larger weight
+			return weightedAverage(d.centroids[i].mean, w2, d.centroids[i+1].mean, w1), nil
 		}
 		weightSoFar += dw
 	}
-- 
2.43.0


From eaa7189f013260d5a01ea63cae6a93c04120ff60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:53 +0000
Subject: [PATCH 37/65] fix: t-digest quantiles do not leave the range by
 rounding

---
 tdigest/double.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tdigest/double.go b/tdigest/double.go
index ce17161..76e9db4 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -562,5 +562,6 @@ func (d *Double) isSingleValue() bool {
 }
 
 func weightedAverage(x1, w1, x2, w2 float64) float64 {
-	return (x1*w1 + x2*w2) / (w1 + w2)
+	// rounding must not take the average out of the range
+	return max(min(x1, x2), min((x1*w1+x2*w2)/(w1+w2), max(x1, x2)))
 }
-- 
2.43.0


From 60d2b9ca4c098873271d19b42243547db02910fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:53 +0000
Subject: [PATCH 38/65] fix: merging t-digests keeps the minimum and maximum of
 the other one

---
 tdigest/double.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tdigest/double.go b/tdigest/double.go
index 76e9db4..ac1f6f2 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -213,6 +213,10 @@ func (d *Double) Merge(other *Double) error {
 	}
 	tmp = append(tmp, other.centroids...)
 
+	// the extreme centroids of a deserialized t-Digest can be less extreme than its min and max
+	d.min = min(d.min, other.min)
+	d.max = max(d.max, other.max)
+
 	d.merge(tmp, uint64(len(d.buffer))+other.TotalWeight())
 
 	return nil
-- 
2.43.0


From 1bb9bfe20e0f19272ab8fa487265e8114794aa16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:14 +0000
Subject: [PATCH 39/65] fix: the t-digest stream decoder refuses a NaN maximum

---
 tdigest/double_decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tdigest/double_decoder.go b/tdigest/double_decoder.go
index 4ab952a..a23dfe5 100644
--- a/tdigest/double_decoder.go
+++ b/tdigest/double_decoder.go
@@ -140,7 +140,7 @@ func (d *DoubleDecoder) Decode(r io.Reader) (*Double, error) {
 		return nil, err
 	}
 	maxVal := math.Float64frombits(maxValBytes)
-	if err := validateNaN(minVal, "max"); err != nil {
+	if err := validateNaN(maxVal, "max"); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 7f8b2bec9fe4f04ea527179f6ec58a577156983b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:14 +0000
Subject: [PATCH 40/65] fix: the t-digest stream decoder does not allocate by
 an untrusted count

---
 tdigest/double_decoder.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/tdigest/double_decoder.go b/tdigest/double_decoder.go
index a23dfe5..128f2e7 100644
--- a/tdigest/double_decoder.go
+++ b/tdigest/double_decoder.go
@@ -34,6 +34,9 @@ var (
 	errUnexpectedPreamble    = errors.New("unexpected sketch preamble")
 )
 
+// maxPreallocated is the number of elements to make room for before any is read.
+const maxPreallocated = 4096
+
 // DoubleDecoder decodes a Double from the given reader.
 type DoubleDecoder struct{}
 
@@ -144,9 +147,10 @@ func (d *DoubleDecoder) Decode(r io.Reader) (*Double, error) {
 		return nil, err
 	}
 
-	centroids := make([]doublePrecisionCentroid, numCentroids)
+	// the counts are not trusted: memory grows with the data that is there
+	centroids := make([]doublePrecisionCentroid, 0, min(numCentroids, maxPreallocated))
 	var totalWeight uint64
-	for i := range centroids {
+	for i := uint32(0); i < numCentroids; i++ {
 		var meanBytes uint64
 		if err := binary.Read(r, binary.LittleEndian, &meanBytes); err != nil {
 			return nil, err
@@ -158,7 +162,6 @@ func (d *DoubleDecoder) Decode(r io.Reader) (*Double, error) {
 		if err := validateInf(mean, "centroid mean"); err != nil {
 			return nil, err
 		}
-		centroids[i].mean = mean
 
 		var weightBytes uint64
 		if err := binary.Read(r, binary.LittleEndian, &weightBytes); err != nil {
@@ -169,12 +172,12 @@ func (d *DoubleDecoder) Decode(r io.Reader) (*Double, error) {
 			return nil, err
 		}
 
-		centroids[i].weight = weight
+		centroids = append(centroids, doublePrecisionCentroid{mean: mean, weight: weight})
 		totalWeight += weight
 	}
 
-	buffer := make([]float64, numBuffered)
-	for i := range buffer {
+	buffer := make([]float64, 0, min(numBuffered, maxPreallocated))
+	for i := uint32(0); i < numBuffered; i++ {
 		var dataBytes uint64
 		if err := binary.Read(r, binary.LittleEndian, &dataBytes); err != nil {
 			return nil, err
@@ -188,7 +191,7 @@ func (d *DoubleDecoder) Decode(r io.Reader) (*Double, error) {
 			return nil, err
 		}
 
-		buffer[i] = bufferedValue
+		buffer = append(buffer, bufferedValue)
 	}
 
 	return newDoubleFromInternalStates(reverseMerge, k, minVal, maxVal, centroids, totalWeight, buffer)
@@ -230,9 +233,9 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 			return nil, err
 		}
 
-		centroids := make([]doublePrecisionCentroid, numCentroids)
+		centroids := make([]doublePrecisionCentroid, 0, min(numCentroids, maxPreallocated))
 		var totalWeight uint64
-		for i := range centroids {
+		for i := uint32(0); i < numCentroids; i++ {
 			var weightBytes uint64
 			if err := binary.Read(r, binary.BigEndian, &weightBytes); err != nil {
 				return nil, err
@@ -254,7 +257,7 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 				return nil, err
 			}
 
-			centroids[i] = doublePrecisionCentroid{mean: mean, weight: uint64(weight)}
+			centroids = append(centroids, doublePrecisionCentroid{mean: mean, weight: uint64(weight)})
 			totalWeight += uint64(weight)
 		}
 
-- 
2.43.0


From 793ae98230b747290a88defd31f4c8cab14d1bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:14 +0000
Subject: [PATCH 41/65] fix: the t-digest stream decoder refuses an unknown
 compatibility type

---
 tdigest/double_decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tdigest/double_decoder.go b/tdigest/double_decoder.go
index 128f2e7..a263376 100644
--- a/tdigest/double_decoder.go
+++ b/tdigest/double_decoder.go
@@ -203,6 +203,10 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 		return nil, err
 	}
 
+	if typeFlag != compatTypeDouble && typeFlag != compatTypeFloat {
+		return nil, errUnexpectedPreamble
+	}
+
 	if typeFlag == compatTypeDouble { // compatibility with asBytes()
 		var minValBytes uint64
 		if err := binary.Read(r, binary.BigEndian, &minValBytes); err != nil {
-- 
2.43.0


From ac374c9e24fce631844e2ae8c40df1543adf1515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:14 +0000
Subject: [PATCH 42/65] fix: the t-digest stream decoder refuses a NaN mean in
 the compact compatibility format

---
 tdigest/double_decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tdigest/double_decoder.go b/tdigest/double_decoder.go
index a263376..d3ee5a9 100644
--- a/tdigest/double_decoder.go
+++ b/tdigest/double_decoder.go
@@ -322,7 +322,7 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 		if err := validateInf(float64(mean), "centroid mean"); err != nil {
 			return nil, err
 		}
-		if err := validateNaN(float64(weight), "centroid mean"); err != nil {
+		if err := validateNaN(float64(mean), "centroid mean"); err != nil {
 			return nil, err
 		}
 
-- 
2.43.0


From a610dac7f471643c4ba7b4e59743d9defd6a4f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:07 +0000
Subject: [PATCH 43/65] fix: the t-digest decoders refuse states that no
 t-digest has

---
 tdigest/double.go         |  3 +++
 tdigest/double_decoder.go | 34 ++++++++++++++++++++++++++++++++++
 2 files changed, 37 insertions(+)

diff --git a/tdigest/double.go b/tdigest/double.go
index ac1f6f2..61d0e56 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -146,6 +146,9 @@ func newDoubleFromInternalStates(
 	if k < 10 {
 		return nil, ErrInvalidK
 	}
+	if err := validateInternalStates(min, max, centroids, buffer); err != nil {
+		return nil, err
+	}
 
 	fudge := 10
 	if k < 30 {
diff --git a/tdigest/double_decoder.go b/tdigest/double_decoder.go
index d3ee5a9..ed2d415 100644
--- a/tdigest/double_decoder.go
+++ b/tdigest/double_decoder.go
@@ -606,3 +606,37 @@ func validateZero(v float64, name string) error {
 	}
 	return nil
 }
+
+// validateInternalStates refuses centroids and values that no t-Digest holds.
+func validateInternalStates(min, max float64, centroids []doublePrecisionCentroid, buffer []float64) error {
+	if len(centroids) == 0 && len(buffer) == 0 {
+		return errors.New("no values in a non-empty sketch")
+	}
+	if err := validateInf(min, "min"); err != nil {
+		return err
+	}
+	if err := validateInf(max, "max"); err != nil {
+		return err
+	}
+	if min > max {
+		return errors.New("min is greater than max")
+	}
+	previous := min
+	available := uint64(math.MaxInt64)
+	for _, c := range centroids {
+		if c.mean < previous || c.mean > max {
+			return errors.New("centroid mean: out of order")
+		}
+		previous = c.mean
+		if c.weight > available {
+			return errors.New("centroid weight: overflow")
+		}
+		available -= c.weight
+	}
+	for _, v := range buffer {
+		if v < min || v > max {
+			return errors.New("buffered value: out of range")
+		}
+	}
+	return nil
+}
-- 
2.43.0


From ddba82aff523ff8fdc75cf9c58d61f477f08a3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:07 +0000
Subject: [PATCH 44/65] fix: the t-digest decoders refuse parameters and
 weights that are no positive numbers

---
 tdigest/double_decoder.go | 47 ++++++++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/tdigest/double_decoder.go b/tdigest/double_decoder.go
index ed2d415..6d99c3b 100644
--- a/tdigest/double_decoder.go
+++ b/tdigest/double_decoder.go
@@ -230,7 +230,10 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 		if err := binary.Read(r, binary.BigEndian, &kBytes); err != nil {
 			return nil, err
 		}
-		k := uint16(math.Float64frombits(kBytes))
+		k, err := compatK(math.Float64frombits(kBytes))
+		if err != nil {
+			return nil, err
+		}
 
 		var numCentroids uint32
 		if err := binary.Read(r, binary.BigEndian, &numCentroids); err != nil {
@@ -245,7 +248,7 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 				return nil, err
 			}
 			weight := math.Float64frombits(weightBytes)
-			if err := validateZero(weight, "centroid weight"); err != nil {
+			if err := validateCompatWeight(weight, "centroid weight"); err != nil {
 				return nil, err
 			}
 
@@ -290,7 +293,10 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 	if err := binary.Read(r, binary.BigEndian, &kBytes); err != nil {
 		return nil, err
 	}
-	k := uint16(math.Float32frombits(kBytes))
+	k, err := compatK(float64(math.Float32frombits(kBytes)))
+	if err != nil {
+		return nil, err
+	}
 
 	var unused uint32
 	if err := binary.Read(r, binary.BigEndian, &unused); err != nil {
@@ -310,7 +316,7 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 			return nil, err
 		}
 		weight := math.Float32frombits(weightBytes)
-		if err := validateZero(float64(weight), "centroid weight"); err != nil {
+		if err := validateCompatWeight(float64(weight), "centroid weight"); err != nil {
 			return nil, err
 		}
 
@@ -496,7 +502,10 @@ func decodeDoubleCompat(data []byte) (*Double, error) {
 		}
 
 		kDouble := math.Float64frombits(binary.BigEndian.Uint64(data[offset:]))
-		k := uint16(kDouble)
+		k, err := compatK(kDouble)
+		if err != nil {
+			return nil, err
+		}
 		offset += 8
 
 		numCentroids := binary.BigEndian.Uint32(data[offset:])
@@ -511,7 +520,7 @@ func decodeDoubleCompat(data []byte) (*Double, error) {
 		for i := range centroids {
 			weight := math.Float64frombits(binary.BigEndian.Uint64(data[offset:]))
 			offset += 8
-			if err := validateZero(float64(weight), "centroid weight"); err != nil {
+			if err := validateCompatWeight(float64(weight), "centroid weight"); err != nil {
 				return nil, err
 			}
 
@@ -549,7 +558,10 @@ func decodeDoubleCompat(data []byte) (*Double, error) {
 	}
 
 	kFloat := math.Float32frombits(binary.BigEndian.Uint32(data[offset:]))
-	k := uint16(kFloat)
+	k, err := compatK(float64(kFloat))
+	if err != nil {
+		return nil, err
+	}
 	offset += 4
 
 	offset += 4 // unused
@@ -566,7 +578,7 @@ func decodeDoubleCompat(data []byte) (*Double, error) {
 	for i := range centroids {
 		weight := math.Float32frombits(binary.BigEndian.Uint32(data[offset:]))
 		offset += 4
-		if err := validateZero(float64(weight), "centroid weight"); err != nil {
+		if err := validateCompatWeight(float64(weight), "centroid weight"); err != nil {
 			return nil, err
 		}
 
@@ -600,6 +612,25 @@ func validateInf(v float64, name string) error {
 	return nil
 }
 
+// compatK converts k of a compatible format, which has a floating-point number there.
+func compatK(k float64) (uint16, error) {
+	if !(k >= 10 && k <= math.MaxUint16) {
+		return 0, ErrInvalidK
+	}
+	return uint16(k), nil
+}
+
+// validateCompatWeight refuses floating-point numbers that are no weight of a centroid.
+func validateCompatWeight(v float64, name string) error {
+	if err := validateZero(v, name); err != nil {
+		return err
+	}
+	if !(v >= 1 && v < math.MaxInt64) {
+		return errors.New(name + ": not a positive number")
+	}
+	return nil
+}
+
 func validateZero(v float64, name string) error {
 	if v == 0.0 {
 		return errors.New(name + ": Zero")
-- 
2.43.0


From 2c0df0a599befc4a48dfabb735a964c960e2495d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:07 +0000
Subject: [PATCH 45/65] fix: a t-digest with a large deserialized buffer is
 compressed

---
 tdigest/double.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tdigest/double.go b/tdigest/double.go
index 61d0e56..832b1b9 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -191,7 +191,7 @@ func (d *Double) Update(value float64) error {
 		return ErrInfinity
 	}
 
-	if len(d.buffer) == d.centroidsCapacity*bufferMultiplier {
+	if len(d.buffer) >= d.centroidsCapacity*bufferMultiplier { // a deserialized buffer can be larger
 		d.compress()
 	}
 	d.buffer = append(d.buffer, value)
-- 
2.43.0


From d65164ee34d687dc627a2773e2d6e30f9d40640c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:07 +0000
Subject: [PATCH 46/65] fix: t-digest quantiles at the middle of the last
 centroid are not NaN

---
 tdigest/double.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tdigest/double.go b/tdigest/double.go
index 832b1b9..e88349c 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -382,7 +382,7 @@ func (d *Double) Quantile(rank float64) (float64, error) {
 	}
 
 	lastWeight := float64(d.centroids[len(d.centroids)-1].weight)
-	if lastWeight > 1 && float64(d.centroidsWeight)-weight <= lastWeight/2.0 {
+	if lastWeight > 1 && float64(d.centroidsWeight)-weight < lastWeight/2.0 {
 		return d.max - (float64(d.centroidsWeight)-weight-1.0)/(lastWeight/2.0-1.0)*(d.max-d.centroids[len(d.centroids)-1].mean), nil
 	}
 
@@ -414,9 +414,9 @@ func (d *Double) Quantile(rank float64) (float64, error) {
 		weightSoFar += dw
 	}
 
-	w1 := weight - float64(d.centroidsWeight) - float64(d.centroids[len(d.centroids)-1].weight)/2.0
-	w2 := float64(d.centroids[len(d.centroids)-1].weight)/2.0 - w1
-	return weightedAverage(d.centroids[len(d.centroids)-1].mean, w1, d.max, w2), nil
+	w1 := weight - (float64(d.centroidsWeight) - lastWeight/2.0)
+	w2 := lastWeight/2.0 - w1
+	return weightedAverage(d.centroids[len(d.centroids)-1].mean, w2, d.max, w1), nil
 }
 
 // PMF returns an approximation to the Probability Mass Function (PMF)
-- 
2.43.0


From e49e5c2bf9cfb28b21f18a1be47e83a6998c6742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:22 +0000
Subject: [PATCH 47/65] fix: decoding a truncated t-digest in the compact
 compatibility format does not panic

---
 tdigest/double_decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tdigest/double_decoder.go b/tdigest/double_decoder.go
index 6d99c3b..593c10d 100644
--- a/tdigest/double_decoder.go
+++ b/tdigest/double_decoder.go
@@ -541,7 +541,7 @@ func decodeDoubleCompat(data []byte) (*Double, error) {
 	}
 
 	// compatFloat: compatibility with asSmallBytes()
-	if len(data) < offset+24 { // 2 doubles + 1 float + 2 uint16 + 1 uint16
+	if len(data) < offset+26 { // 2 doubles + 1 float + 2 uint16 + 1 uint16
 		return nil, errInsufficientData
 	}
 
-- 
2.43.0


From 8b76fe05e7b4218bcdc3244ab62ced1ef72c7633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:22 +0000
Subject: [PATCH 48/65] fix: t-digest ranks do not decrease beyond a first or
 last centroid of weight one

---
 tdigest/double.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tdigest/double.go b/tdigest/double.go
index e88349c..fb58040 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -295,7 +295,7 @@ func (d *Double) Rank(value float64) (float64, error) {
 			if value == d.min {
 				return 0.5 / float64(d.centroidsWeight), nil
 			}
-			return (1.0 + (value-d.min)/(firstMean-d.min)*(float64(d.centroids[0].weight)/2.0-1.0)) / float64(d.centroidsWeight), nil
+			return tailWeight(d.centroids[0].weight, (value-d.min)/(firstMean-d.min)) / float64(d.centroidsWeight), nil
 		}
 		return 0, nil // should never happen
 	}
@@ -307,7 +307,7 @@ func (d *Double) Rank(value float64) (float64, error) {
 			if value == d.max {
 				return 1.0 - 0.5/float64(d.centroidsWeight), nil
 			}
-			return 1.0 - ((1.0 + (d.max-value)/(d.max-lastMean)*(float64(d.centroids[len(d.centroids)-1].weight)/2.0-1.0)) / float64(d.centroidsWeight)), nil
+			return 1.0 - tailWeight(d.centroids[len(d.centroids)-1].weight, (d.max-value)/(d.max-lastMean))/float64(d.centroidsWeight), nil
 		}
 		return 1, nil // should never happen
 	}
@@ -572,3 +572,13 @@ func weightedAverage(x1, w1, x2, w2 float64) float64 {
 	// rounding must not take the average out of the range
 	return max(min(x1, x2), min((x1*w1+x2*w2)/(w1+w2), max(x1, x2)))
 }
+
+// tailWeight is the weight beyond a value at the given fraction of the way from the min or max
+// to the first or last centroid, which holds the given weight
+func tailWeight(weight uint64, fraction float64) float64 {
+	half := float64(weight) / 2.0
+	if half <= 1.0 {
+		return half
+	}
+	return 1.0 + fraction*(half-1.0)
+}
-- 
2.43.0


From d586bbe2150af5faec7983b94beb6890d3166c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:03 +0000
Subject: [PATCH 49/65] fix: sort the whole range in the CPC pair sort fallback

---
 cpc/pair_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpc/pair_table.go b/cpc/pair_table.go
index d4ae1c8..f163e50 100644
--- a/cpc/pair_table.go
+++ b/cpc/pair_table.go
@@ -213,7 +213,7 @@ func introspectiveInsertionSort(a []int, l, r int) {
 			for m := 0; m < len(a); m++ {
 				b[m] = a[m] & 0xFFFF_FFFF
 			}
-			slices.Sort(b[j : r+1])
+			slices.Sort(b[l : r+1])
 			for m := 0; m < len(a); m++ {
 				a[m] = b[m]
 			}
-- 
2.43.0


From aac682416fc6f08e76b3bdc63a6cb5c293edbc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:03 +0000
Subject: [PATCH 50/65] fix: answer zero for a wrapped empty CPC sketch

---
 cpc/cpc_wrapper.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cpc/cpc_wrapper.go b/cpc/cpc_wrapper.go
index ec2d268..38f6c52 100644
--- a/cpc/cpc_wrapper.go
+++ b/cpc/cpc_wrapper.go
@@ -45,6 +45,9 @@ func NewCpcWrapperFromBytes(byteArray []byte) (*CpcWrapper, error) {
 // If the sketch is in HIP mode, we return the HIP accumulator; otherwise we
 // return the ICON estimate.
 func (cw *CpcWrapper) GetEstimate() float64 {
+	if cw.isEmpty() {
+		return 0
+	}
 	if !hasHip(cw.mem) {
 		return iconEstimate(getLgK(cw.mem), getNumCoupons(cw.mem))
 	}
@@ -59,6 +62,9 @@ func (cw *CpcWrapper) GetLgK() int {
 // GetLowerBound returns the lower bound of the confidence interval given kappa
 // (the number of standard deviations from the mean).
 func (cw *CpcWrapper) GetLowerBound(kappa int) float64 {
+	if cw.isEmpty() {
+		return 0
+	}
 	if !hasHip(cw.mem) {
 		return iconConfidenceLB(getLgK(cw.mem), getNumCoupons(cw.mem), kappa)
 	}
@@ -68,12 +74,22 @@ func (cw *CpcWrapper) GetLowerBound(kappa int) float64 {
 // GetUpperBound returns the upper bound of the confidence interval given kappa
 // (the number of standard deviations from the mean).
 func (cw *CpcWrapper) GetUpperBound(kappa int) float64 {
+	if cw.isEmpty() {
+		return 0
+	}
 	if !hasHip(cw.mem) {
 		return iconConfidenceUB(getLgK(cw.mem), getNumCoupons(cw.mem), kappa)
 	}
 	return hipConfidenceUB(getLgK(cw.mem), getNumCoupons(cw.mem), getHipAccum(cw.mem), kappa)
 }
 
+// isEmpty returns true if the wrapped sketch holds no coupons, in which case
+// its image has neither a coupon count nor a HIP accumulator.
+func (cw *CpcWrapper) isEmpty() bool {
+	format := getFormat(cw.mem)
+	return format == CpcFormatEmptyMerged || format == CpcFormatEmptyHip
+}
+
 // GetFamily returns the family ID for CPC sketches.
 func (cw *CpcWrapper) GetFamily() int {
 	return internal.FamilyEnum.CPC.Id
-- 
2.43.0


From dc706eb49f22defc788f2ca3e092079f64259ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:33 +0000
Subject: [PATCH 51/65] fix: do not grow a CPC pair table beyond its number of
 possible items

---
 cpc/pair_table.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpc/pair_table.go b/cpc/pair_table.go
index f163e50..941ab52 100644
--- a/cpc/pair_table.go
+++ b/cpc/pair_table.go
@@ -78,7 +78,8 @@ func (p *pairTable) maybeInsert(item int) (bool, error) {
 	//assert (fetched == -1)
 	p.slotsArr[probe] = item
 	p.numPairs++
-	for (upsizeDenom * p.numPairs) > (upsizeNumer * (1 << p.lgSizeInts)) {
+	// A table with a slot for each of the possible items does not grow.
+	for (upsizeDenom*p.numPairs) > (upsizeNumer*(1<<p.lgSizeInts)) && p.lgSizeInts < p.validBits {
 		if err := p.rebuild(p.lgSizeInts + 1); err != nil {
 			return false, err
 		}
@@ -317,7 +318,7 @@ func (p *pairTable) unwrap(numPairs int) ([]int, error) {
 func newInstanceFromPairsArray(pairs []int, numPairs, lgK int) (*pairTable, error) {
 	lgNumSlots := 2
 	// Increase lgNumSlots until the table is large enough.
-	for (upsizeDenom * numPairs) > (upsizeNumer * (1 << lgNumSlots)) {
+	for (upsizeDenom*numPairs) > (upsizeNumer*(1<<lgNumSlots)) && lgNumSlots < 6+lgK {
 		lgNumSlots++
 	}
 	// Create a new pairTable with validBits = 6 + lgK.
-- 
2.43.0


From 397a9a12f9da22e45d99cb4f7508913a5802e9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:12 +0000
Subject: [PATCH 52/65] fix: refuse a CPC image shorter than its preamble

---
 cpc/utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpc/utils.go b/cpc/utils.go
index b39ebd3..b4941e0 100644
--- a/cpc/utils.go
+++ b/cpc/utils.go
@@ -284,6 +284,9 @@ func checkLoPreamble(bytes []byte) error {
 	if bytes[loFieldPreInts] != preIntsDef {
 		return fmt.Errorf("preIntsDef: %d, bytes[loFieldPreInts]: %d", preIntsDef, bytes[loFieldPreInts])
 	}
+	if err := checkBounds(0, 4*int(preIntsDef), len(bytes)); err != nil {
+		return err
+	}
 	fam := getFamilyId(bytes)
 	if fam != internal.FamilyEnum.CPC.Id {
 		return fmt.Errorf("family: %d, bytes[loFieldFamily]: %d", internal.FamilyEnum.CPC.Id, fam)
-- 
2.43.0


From 9559088a25104e522b46856d645aad504f46d9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:12 +0000
Subject: [PATCH 53/65] fix: refuse a CPC image whose fields contradict each
 other

---
 cpc/cpc_compressed_state.go | 55 +++++++++++++++++++++++++++++++++----
 1 file changed, 49 insertions(+), 6 deletions(-)

diff --git a/cpc/cpc_compressed_state.go b/cpc/cpc_compressed_state.go
index b77a646..f70434f 100644
--- a/cpc/cpc_compressed_state.go
+++ b/cpc/cpc_compressed_state.go
@@ -20,6 +20,7 @@ package cpc
 import (
 	"errors"
 	"fmt"
+	"math"
 	"math/bits"
 
 	"github.com/apache/datasketches-go/internal"
@@ -561,7 +562,7 @@ func importFromMemory(bytes []byte) (*CpcCompressedState, error) {
 		state.NumCoupons = getNumCoupons(bytes)
 		state.NumCsv = state.NumCoupons
 		state.CsvLengthInts = getSvLengthInts(bytes)
-		if err := checkCapacity(len(bytes), state.getRequiredSerializedBytes()); err != nil {
+		if err := state.checkImported(bytes); err != nil {
 			return nil, err
 		}
 		state.CsvStream = getSvStream(bytes)
@@ -571,7 +572,7 @@ func importFromMemory(bytes []byte) (*CpcCompressedState, error) {
 		state.CsvLengthInts = getSvLengthInts(bytes)
 		state.Kxp = getKxP(bytes)
 		state.HipEstAccum = getHipAccum(bytes)
-		if err := checkCapacity(len(bytes), state.getRequiredSerializedBytes()); err != nil {
+		if err := state.checkImported(bytes); err != nil {
 			return nil, err
 		}
 		state.CsvStream = getSvStream(bytes)
@@ -579,7 +580,7 @@ func importFromMemory(bytes []byte) (*CpcCompressedState, error) {
 		state.FiCol = getFiCol(bytes)
 		state.NumCoupons = getNumCoupons(bytes)
 		state.CwLengthInts = getWLengthInts(bytes)
-		if err := checkCapacity(len(bytes), state.getRequiredSerializedBytes()); err != nil {
+		if err := state.checkImported(bytes); err != nil {
 			return nil, err
 		}
 		state.CwStream = getWStream(bytes)
@@ -589,7 +590,7 @@ func importFromMemory(bytes []byte) (*CpcCompressedState, error) {
 		state.CwLengthInts = getWLengthInts(bytes)
 		state.Kxp = getKxP(bytes)
 		state.HipEstAccum = getHipAccum(bytes)
-		if err := checkCapacity(len(bytes), state.getRequiredSerializedBytes()); err != nil {
+		if err := state.checkImported(bytes); err != nil {
 			return nil, err
 		}
 		state.CwStream = getWStream(bytes)
@@ -599,7 +600,7 @@ func importFromMemory(bytes []byte) (*CpcCompressedState, error) {
 		state.NumCsv = getNumSV(bytes)
 		state.CsvLengthInts = getSvLengthInts(bytes)
 		state.CwLengthInts = getWLengthInts(bytes)
-		if err := checkCapacity(len(bytes), state.getRequiredSerializedBytes()); err != nil {
+		if err := state.checkImported(bytes); err != nil {
 			return nil, err
 		}
 		state.CwStream = getWStream(bytes)
@@ -612,7 +613,7 @@ func importFromMemory(bytes []byte) (*CpcCompressedState, error) {
 		state.CwLengthInts = getWLengthInts(bytes)
 		state.Kxp = getKxP(bytes)
 		state.HipEstAccum = getHipAccum(bytes)
-		if err := checkCapacity(len(bytes), state.getRequiredSerializedBytes()); err != nil {
+		if err := state.checkImported(bytes); err != nil {
 			return nil, err
 		}
 		state.CwStream = getWStream(bytes)
@@ -623,6 +624,48 @@ func importFromMemory(bytes []byte) (*CpcCompressedState, error) {
 	return state, nil
 }
 
+// checkImported checks that the fields read from an image of len(bytes) bytes are those of a
+// sketch and that the streams they describe are in the image.
+func (c *CpcCompressedState) checkImported(bytes []byte) error {
+	switch determineFlavor(c.LgK, c.NumCoupons) {
+	case CpcFlavorEmpty:
+		if c.CsvIsValid || c.WindowIsValid {
+			return fmt.Errorf("no coupons in a non-empty format")
+		}
+		return nil
+	case CpcFlavorSparse, CpcFlavorHybrid:
+		if c.WindowIsValid || !c.CsvIsValid {
+			return fmt.Errorf("format does not match %d coupons at lgK %d", c.NumCoupons, c.LgK)
+		}
+	default:
+		if !c.WindowIsValid {
+			return fmt.Errorf("format does not match %d coupons at lgK %d", c.NumCoupons, c.LgK)
+		}
+	}
+	if c.getWindowOffset() > 56 {
+		return fmt.Errorf("too many coupons at lgK %d: %d", c.LgK, c.NumCoupons)
+	}
+	if c.FiCol > c.getWindowOffset() {
+		return fmt.Errorf("first interesting column is beyond the window offset: %d", c.FiCol)
+	}
+	// A pair takes two bits of its stream and a byte of the window one, at least.
+	if c.CsvIsValid && (c.NumCsv == 0 || c.NumCsv > 16*uint64(c.CsvLengthInts)) {
+		return fmt.Errorf("%d surprising values in %d ints", c.NumCsv, c.CsvLengthInts)
+	}
+	if c.WindowIsValid && 1<<c.LgK > 32*c.CwLengthInts {
+		return fmt.Errorf("window of %d rows in %d ints", 1<<c.LgK, c.CwLengthInts)
+	}
+	if !c.MergeFlag {
+		if !(c.Kxp > 0 && c.Kxp <= float64(int(1)<<c.LgK)) {
+			return fmt.Errorf("illegal kxp: %v", c.Kxp)
+		}
+		if !(c.HipEstAccum >= float64(c.NumCoupons)) || math.IsInf(c.HipEstAccum, 1) {
+			return fmt.Errorf("illegal HIP estimate for %d coupons: %v", c.NumCoupons, c.HipEstAccum)
+		}
+	}
+	return checkCapacity(len(bytes), 4*(getPreInts(bytes)+c.CsvLengthInts+c.CwLengthInts))
+}
+
 func (c *CpcCompressedState) exportToMemory() ([]byte, error) {
 	// Determine the total number of bytes required.
 	totalBytes := c.getRequiredSerializedBytes()
-- 
2.43.0


From 36bfd77d73e86cbdba5d1ce3e19c263dcf010de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:12 +0000
Subject: [PATCH 54/65] fix: refuse a CPC image with pairs out of range

---
 cpc/cpc_compressed_state.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cpc/cpc_compressed_state.go b/cpc/cpc_compressed_state.go
index f70434f..3a631e4 100644
--- a/cpc/cpc_compressed_state.go
+++ b/cpc/cpc_compressed_state.go
@@ -520,6 +520,9 @@ func (c *CpcCompressedState) uncompressSlidingFlavor(src *CpcSketch) error {
 			rowCol := pairs[i]
 			row := rowCol >> 6
 			col := rowCol & 63
+			if col >= 56 {
+				return fmt.Errorf("uncompressSlidingFlavor: invalid pair value %d at index %d", rowCol, i)
+			}
 			// First, undo the permutation.
 			col = int(permutation[col])
 			// Then, undo the rotation: old = (new + (offset+8)) mod 64.
@@ -766,6 +769,10 @@ func uncompressTheSurprisingValues(source *CpcCompressedState) ([]int, error) {
 	if err := lowLevelUncompressPairs(pairs, numPairs, numBaseBits, source.CsvStream, source.CsvLengthInts); err != nil {
 		return nil, err
 	}
+	// The pairs are in ascending order.
+	if row := pairs[numPairs-1] >> 6; row >= srcK {
+		return nil, fmt.Errorf("uncompressTheSurprisingValues: row out of range: %d", row)
+	}
 	return pairs, nil
 }
 
@@ -984,6 +991,9 @@ func lowLevelUncompressPairs(pairArray []int, numPairsToDecode, numBaseBits int,
 		}
 		rowIndex := predictedRowIndex + int(yDelta)
 		colIndex := predictedColIndex + xDelta
+		if colIndex > 63 {
+			return fmt.Errorf("lowLevelUncompressPairs: column out of range: %d", colIndex)
+		}
 		rowCol := (rowIndex << 6) | colIndex
 		pairArray[pairIndex] = rowCol
 		pairIndex++
-- 
2.43.0


From 146364c9933f050147ed6106e47d15de43705e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:12 +0000
Subject: [PATCH 55/65] fix: refuse a CPC image of another seed

---
 cpc/cpc_sketch.go | 17 +----------------
 1 file changed, 1 insertion(+), 16 deletions(-)

diff --git a/cpc/cpc_sketch.go b/cpc/cpc_sketch.go
index eeaec0c..e16b3b4 100644
--- a/cpc/cpc_sketch.go
+++ b/cpc/cpc_sketch.go
@@ -96,22 +96,7 @@ func NewCpcSketchFromSlice(bytes []byte, seed uint64) (*CpcSketch, error) {
 	if err != nil {
 		return nil, err
 	}
-
-	sketch, err := NewCpcSketch(c.LgK, seed)
-	if err != nil {
-		return nil, err
-	}
-	sketch.numCoupons = c.NumCoupons
-	sketch.windowOffset = c.getWindowOffset()
-	sketch.fiCol = c.FiCol
-	sketch.mergeFlag = c.MergeFlag
-	sketch.kxp = c.Kxp
-	sketch.hipEstAccum = c.HipEstAccum
-	sketch.slidingWindow = nil
-	sketch.pairTable = nil
-
-	err = c.uncompress(sketch)
-	return sketch, err
+	return uncompressSketch(c, seed)
 }
 
 func NewCpcSketchFromSliceWithDefault(bytes []byte) (*CpcSketch, error) {
-- 
2.43.0


From 89278869b3bd5c152e72e253b6cfa68ed83d848a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:12 +0000
Subject: [PATCH 56/65] fix: refuse a CPC image that does not hold the coupons
 it counts

---
 cpc/cpc_compressed_state.go |  3 +++
 cpc/cpc_sketch.go           | 30 ++++++++++++++++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/cpc/cpc_compressed_state.go b/cpc/cpc_compressed_state.go
index 3a631e4..f4739d9 100644
--- a/cpc/cpc_compressed_state.go
+++ b/cpc/cpc_compressed_state.go
@@ -200,6 +200,9 @@ func uncompressSketch(source *CpcCompressedState, seed uint64) (*CpcSketch, erro
 	if err := source.uncompress(sketch); err != nil {
 		return nil, err
 	}
+	if err := sketch.checkCoupons(); err != nil {
+		return nil, err
+	}
 
 	return sketch, nil
 }
diff --git a/cpc/cpc_sketch.go b/cpc/cpc_sketch.go
index e16b3b4..e5e1787 100644
--- a/cpc/cpc_sketch.go
+++ b/cpc/cpc_sketch.go
@@ -561,6 +561,36 @@ func (c *CpcSketch) validate() (bool, error) {
 	return matrixCoupons == c.numCoupons, nil
 }
 
+// checkCoupons checks that the window and the pairs hold numCoupons coupons, and that no column
+// before the first interesting one lacks any.
+func (c *CpcSketch) checkCoupons() error {
+	if c.pairTable == nil {
+		return nil
+	}
+	n := int64(c.windowOffset) << c.lgK
+	for _, b := range c.slidingWindow {
+		n += int64(bits.OnesCount8(b))
+	}
+	for _, rowCol := range c.pairTable.slotsArr {
+		if rowCol == -1 {
+			continue
+		}
+		col := rowCol & 63
+		if col < c.fiCol {
+			return fmt.Errorf("surprising value in column %d before the first interesting column %d", col, c.fiCol)
+		}
+		if col < c.windowOffset {
+			n--
+		} else {
+			n++
+		}
+	}
+	if n != int64(c.numCoupons) {
+		return fmt.Errorf("image of %d coupons holds %d", c.numCoupons, n)
+	}
+	return nil
+}
+
 // Copy creates and returns a deep copy of the CpcSketch.
 func (c *CpcSketch) Copy() (*CpcSketch, error) {
 	// Create a new sketch with the same lgK and seed.
-- 
2.43.0


From c7e5979d8adeee7a9e2bf602fcd770024313daa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:30 +0000
Subject: [PATCH 57/65] fix: check the length of a Bloom filter image before
 allocating its bit array

---
 filters/bloom_filter_builder.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/filters/bloom_filter_builder.go b/filters/bloom_filter_builder.go
index 9eb0374..02bc32b 100644
--- a/filters/bloom_filter_builder.go
+++ b/filters/bloom_filter_builder.go
@@ -218,8 +218,26 @@ func NewBloomFilterFromSlice(bytes []byte) (BloomFilter, error) {
 		return nil, fmt.Errorf("numHashes must be positive")
 	}
 
+	// Validate the length of the bit array before allocating it
+	if bitArrayLength == 0 {
+		return nil, fmt.Errorf("bit array length must be positive")
+	}
+	if isEmpty {
+		if len(bytes) != preambleEmptyBytes {
+			return nil, fmt.Errorf("empty filter size mismatch: got %d bytes, expected %d", len(bytes), preambleEmptyBytes)
+		}
+	} else {
+		expectedSize := preambleBytes + int(bitArrayLength)*8
+		if len(bytes) != expectedSize {
+			return nil, fmt.Errorf("non-empty filter size mismatch: got %d bytes, expected %d", len(bytes), expectedSize)
+		}
+	}
+
 	// Calculate capacity
 	capacityBits := uint64(bitArrayLength) * 64
+	if capacityBits > maxBits {
+		return nil, fmt.Errorf("bit array length exceeds maximum allowed size")
+	}
 
 	// Create filter structure
 	bf := &bloomFilterImpl{
@@ -233,18 +251,9 @@ func NewBloomFilterFromSlice(bytes []byte) (BloomFilter, error) {
 
 	// Handle empty filter
 	if isEmpty {
-		if len(bytes) != preambleEmptyBytes {
-			return nil, fmt.Errorf("empty filter size mismatch: got %d bytes, expected %d", len(bytes), preambleEmptyBytes)
-		}
 		return bf, nil
 	}
 
-	// Handle non-empty filter
-	expectedSize := preambleBytes + int(bitArrayLength)*8
-	if len(bytes) != expectedSize {
-		return nil, fmt.Errorf("non-empty filter size mismatch: got %d bytes, expected %d", len(bytes), expectedSize)
-	}
-
 	// Extract num bits set
 	numBitsSet := extractNumBitsSet(bytes)
 	if numBitsSet == dirtyBitsValue {
-- 
2.43.0


From cef2bb4f133c9859dd6eca7590f1dcc8e75e7105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:30 +0000
Subject: [PATCH 58/65] fix: refuse a Bloom filter image with a wrong number of
 bits set

---
 filters/bloom_filter_builder.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/filters/bloom_filter_builder.go b/filters/bloom_filter_builder.go
index 02bc32b..4b29dfd 100644
--- a/filters/bloom_filter_builder.go
+++ b/filters/bloom_filter_builder.go
@@ -270,10 +270,14 @@ func NewBloomFilterFromSlice(bytes []byte) (BloomFilter, error) {
 	}
 
 	// Recount if dirty
+	counted := countBitsSet(bf.bitArray)
 	if bf.isDirty {
-		bf.numBitsSet = countBitsSet(bf.bitArray)
+		bf.numBitsSet = counted
 		bf.isDirty = false
 	}
+	if bf.numBitsSet != counted {
+		return nil, fmt.Errorf("number of bits set mismatch: got %d, expected %d", bf.numBitsSet, counted)
+	}
 
 	return bf, nil
 }
-- 
2.43.0


From e3e29adb3e17b7c2a286bd69539ee0d202cd719a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:30 +0000
Subject: [PATCH 59/65] fix: tuple decoders do not allocate by an untrusted
 count of entries

---
 tuple/arrayofnumbers_sketch_decoder.go | 4 ++--
 tuple/decoder.go                       | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/tuple/arrayofnumbers_sketch_decoder.go b/tuple/arrayofnumbers_sketch_decoder.go
index 56fb292..2c050b3 100644
--- a/tuple/arrayofnumbers_sketch_decoder.go
+++ b/tuple/arrayofnumbers_sketch_decoder.go
@@ -129,7 +129,7 @@ func (dec *ArrayOfNumbersSketchDecoder[V]) Decode(r io.Reader) (*ArrayOfNumbersC
 			return nil, err
 		}
 
-		hashes := make([]uint64, 0, numEntries)
+		hashes := make([]uint64, 0, min(numEntries, maxInitialDecodedEntries))
 		for i := uint32(0); i < numEntries; i++ {
 			var hash uint64
 			if err := binary.Read(r, binary.LittleEndian, &hash); err != nil {
@@ -139,7 +139,7 @@ func (dec *ArrayOfNumbersSketchDecoder[V]) Decode(r io.Reader) (*ArrayOfNumbersC
 			hashes = append(hashes, hash)
 		}
 
-		entries = make([]entry[*ArrayOfNumbersSummary[V]], 0, numEntries)
+		entries = make([]entry[*ArrayOfNumbersSummary[V]], 0, len(hashes))
 		for i := uint32(0); i < numEntries; i++ {
 			summary, err := dec.read(r, numberOfValuesInSummary)
 			if err != nil {
diff --git a/tuple/decoder.go b/tuple/decoder.go
index 3ed4c9a..1c76a9e 100644
--- a/tuple/decoder.go
+++ b/tuple/decoder.go
@@ -27,6 +27,9 @@ import (
 	"github.com/apache/datasketches-go/theta"
 )
 
+// maxInitialDecodedEntries limits what is allocated for a count of entries before reading them.
+const maxInitialDecodedEntries = 4096
+
 // SummaryReader reads and returns a summary from the reader.
 // Implementations should read the format written by a corresponding SummaryWriter.
 //
@@ -132,7 +135,8 @@ func (dec *Decoder[S]) Decode(r io.Reader) (*CompactSketch[S], error) {
 		}
 	}
 
-	entries := make([]entry[S], numEntries)
+	// The count is not trusted before as many entries are read.
+	entries := make([]entry[S], 0, min(numEntries, maxInitialDecodedEntries))
 	for i := uint32(0); i < numEntries; i++ {
 		var hash uint64
 		if err := binary.Read(r, binary.LittleEndian, &hash); err != nil {
@@ -144,7 +148,7 @@ func (dec *Decoder[S]) Decode(r io.Reader) (*CompactSketch[S], error) {
 			return nil, err
 		}
 
-		entries[i] = entry[S]{Hash: hash, Summary: summary}
+		entries = append(entries, entry[S]{Hash: hash, Summary: summary})
 	}
 
 	isOrdered := (flags & (1 << flagIsOrdered)) != 0
-- 
2.43.0


From e4508c31ecaac23295df87c1eca3ba50f76a083e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:30 +0000
Subject: [PATCH 60/65] fix: reading array-of-strings summaries does not
 allocate by an untrusted length

---
 tuple/arrayofstrings_sketch.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/tuple/arrayofstrings_sketch.go b/tuple/arrayofstrings_sketch.go
index f9134d4..ff8de7e 100644
--- a/tuple/arrayofstrings_sketch.go
+++ b/tuple/arrayofstrings_sketch.go
@@ -159,17 +159,34 @@ func readStrings(r io.Reader) ([]string, error) {
 			return nil, err
 		}
 
-		bytes := make([]byte, length)
-		if _, err := io.ReadFull(r, bytes); err != nil {
+		value, err := readString(r, length)
+		if err != nil {
 			return nil, err
 		}
 
-		values = append(values, string(bytes))
+		values = append(values, value)
 	}
 
 	return values, nil
 }
 
+// readString reads a string of the given length. The length is not trusted: no more than a
+// chunk is allocated before its bytes are read.
+func readString(r io.Reader, length uint32) (string, error) {
+	const chunk = 1 << 16
+	bytes := make([]byte, 0, min(length, chunk))
+	for remaining := length; remaining > 0; {
+		n := min(remaining, chunk)
+		start := len(bytes)
+		bytes = append(bytes, make([]byte, n)...)
+		if _, err := io.ReadFull(r, bytes[start:]); err != nil {
+			return "", err
+		}
+		remaining -= n
+	}
+	return string(bytes), nil
+}
+
 // ArrayOfStringsInlineSummary stores a string-slice summary inline in the sketch entry
 // instead of behind a pointer to reduce per-entry allocations.
 type ArrayOfStringsInlineSummary struct {
-- 
2.43.0


From b24136e7d142a78b58e70ae455299787584f1d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:30 +0000
Subject: [PATCH 61/65] fix: refuse count-min sketches without hash functions
 or of too many counters

---
 count/count_min_sketch.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/count/count_min_sketch.go b/count/count_min_sketch.go
index 30dd99d..106af8d 100644
--- a/count/count_min_sketch.go
+++ b/count/count_min_sketch.go
@@ -47,7 +47,11 @@ func NewCountMinSketch(numHashes int8, numBuckets int32, seed int64) (*CountMinS
 		return nil, errors.New("using fewer than 3 buckets incurs relative error greater than 1.0")
 	}
 
-	if numBuckets*int32(numHashes) >= 1<<30 {
+	if numHashes < 1 {
+		return nil, errors.New("at least one hash function is needed")
+	}
+
+	if int64(numBuckets)*int64(numHashes) >= 1<<30 {
 		return nil, errors.New("these parameters generate a sketch that exceeds 2^30 elements")
 	}
 
-- 
2.43.0


From cbde09cc43579a50434a68bb11a4bea2026ccadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:30 +0000
Subject: [PATCH 62/65] fix: deserializing a count-min sketch checks the number
 of counters in the image

---
 count/count_min_sketch.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/count/count_min_sketch.go b/count/count_min_sketch.go
index 106af8d..9669144 100644
--- a/count/count_min_sketch.go
+++ b/count/count_min_sketch.go
@@ -336,12 +336,19 @@ func (c *CountMinSketch) Deserialize(b []byte, seed int64) (*CountMinSketch, err
 		return nil, err
 	}
 
+	isEmpty := (flag & (1 << IsEmpty)) > 0
+	if !isEmpty {
+		// the total weight and the counters follow
+		if int64(r.Len()) < 8*(1+int64(numBuckets)*int64(numHashes)) {
+			return nil, errors.New("the image is too short for its number of counters")
+		}
+	}
+
 	cms, err := NewCountMinSketch(numHashes, numBuckets, seed)
 	if err != nil {
 		return nil, err
 	}
 
-	isEmpty := (flag & (1 << IsEmpty)) > 0
 	if isEmpty {
 		return cms, nil
 	}
@@ -353,15 +360,11 @@ func (c *CountMinSketch) Deserialize(b []byte, seed int64) (*CountMinSketch, err
 	}
 	cms.totalWeight = totalWeight
 
-	var w int64
-	var i int
-	for r.Len() > 0 {
-		err = binary.Read(r, binary.LittleEndian, &w)
+	for i := range cms.sketchSlice {
+		err = binary.Read(r, binary.LittleEndian, &cms.sketchSlice[i])
 		if err != nil {
 			return nil, err
 		}
-		cms.sketchSlice[i] = w
-		i++
 	}
 
 	return cms, nil
-- 
2.43.0


From be13523af67624aeba44c2a6713090a191c70d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:30 +0000
Subject: [PATCH 63/65] fix: refuse a count-min image of another seed

---
 count/count_min_sketch.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/count/count_min_sketch.go b/count/count_min_sketch.go
index 9669144..b4be16f 100644
--- a/count/count_min_sketch.go
+++ b/count/count_min_sketch.go
@@ -344,6 +344,14 @@ func (c *CountMinSketch) Deserialize(b []byte, seed int64) (*CountMinSketch, err
 		}
 	}
 
+	expectedSeedHash, err := internal.ComputeSeedHash(seed)
+	if err != nil {
+		return nil, err
+	}
+	if seedHash != expectedSeedHash {
+		return nil, errors.New("the image is of a sketch with another seed")
+	}
+
 	cms, err := NewCountMinSketch(numHashes, numBuckets, seed)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From b62093a8064b8cf4a97400a2f05163facf5dd4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:30 +0000
Subject: [PATCH 64/65] fix: refuse an image that is not of a count-min sketch

---
 count/utils.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/count/utils.go b/count/utils.go
index da7c25c..02722c7 100644
--- a/count/utils.go
+++ b/count/utils.go
@@ -20,6 +20,8 @@ package count
 import (
 	"errors"
 	"math"
+
+	"github.com/apache/datasketches-go/internal"
 )
 
 func SuggestNumBuckets(relativeError float64) (int32, error) {
@@ -37,6 +39,15 @@ func SuggestNumHashes(confidence float64) (int8, error) {
 }
 
 func checkHeaderValidity(preamble, serVer, familyID, flagsByte byte) error {
+	if preamble != PreambleLongsShort {
+		return errors.New("unexpected number of preamble longs")
+	}
+	if serVer != SerialVersion1 {
+		return errors.New("unexpected serial version")
+	}
+	if int(familyID) != internal.FamilyEnum.CountMinSketch.Id {
+		return errors.New("unexpected family")
+	}
 	return nil
 }
 
-- 
2.43.0


From cae3fc525c520024953e945328c4bd6b9fbbe822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:30 +0000
Subject: [PATCH 65/65] fix: suggest the most hashes for full confidence

---
 count/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/count/utils.go b/count/utils.go
index 02722c7..a2045a2 100644
--- a/count/utils.go
+++ b/count/utils.go
@@ -35,7 +35,7 @@ func SuggestNumHashes(confidence float64) (int8, error) {
 	if confidence < 0 || confidence > 1.0 {
 		return 0, errors.New("confidence must be between 0 and 1.0 (inclusive)")
 	}
-	return min(int8(math.Ceil(math.Log(1.0/(1.0-confidence)))), int8(math.MaxInt8)), nil
+	return int8(min(math.Ceil(math.Log(1.0/(1.0-confidence))), float64(math.MaxInt8))), nil
 }
 
 func checkHeaderValidity(preamble, serVer, familyID, flagsByte byte) error {
-- 
2.43.0

