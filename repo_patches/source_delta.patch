From 331afe005fce7b2e5f17f0cc6c5e428f6ebb9d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 01/18] fix: accept readers that return EOF together with the
 last bytes

---
 dec/decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dec/decoder.go b/dec/decoder.go
index 6c500f4..868df0d 100644
--- a/dec/decoder.go
+++ b/dec/decoder.go
@@ -86,6 +86,10 @@ func (dr *DecodingReader) Read(p []byte) (int, error) {
 		v, err := dr.input.Read(p[n:])
 		n += v
 		if err != nil {
+			// readers are allowed to return an error (e.g. EOF) together with the last bytes.
+			if n == len(p) {
+				break
+			}
 			return n, err
 		}
 	}
-- 
2.43.0


From e979f3fb24dcc9885cc4df9324578c33898d02ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 02/18] fix: DryCheck of bytes lists enforces the limit, like
 Decode

---
 types/ssz_bytes.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/types/ssz_bytes.go b/types/ssz_bytes.go
index 644ea36..ba5bac2 100644
--- a/types/ssz_bytes.go
+++ b/types/ssz_bytes.go
@@ -92,7 +92,11 @@ func (v *SSZBytes) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 }
 
 func (v *SSZBytes) DryCheck(dr *DecodingReader) error {
-	_, err := dr.Skip(dr.GetBytesSpan())
+	length := dr.GetBytesSpan()
+	if length > v.limit {
+		return fmt.Errorf("got %d bytes, expected no more than %d bytes", length, v.limit)
+	}
+	_, err := dr.Skip(length)
 	return err
 }
 
-- 
2.43.0


From 1d61be9c5e2a1c920e4a8696ec498e17fff9ad5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 03/18] fix: MaxLen of lists with variable-size elements
 includes the offsets

---
 types/ssz_list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/ssz_list.go b/types/ssz_list.go
index 40ba4f5..2846ac0 100644
--- a/types/ssz_list.go
+++ b/types/ssz_list.go
@@ -43,7 +43,7 @@ func NewSSZList(factory SSZFactoryFn, typ reflect.Type) (*SSZList, error) {
 		byteLimit = limit * elemSSZ.FixedLen()
 	} else {
 		fixedElemSize = BYTES_PER_LENGTH_OFFSET
-		byteLimit = limit * elemSSZ.MaxLen()
+		byteLimit = limit * (BYTES_PER_LENGTH_OFFSET + elemSSZ.MaxLen())
 	}
 	res := &SSZList{
 		alloc:         ptrutil.MakeSliceAllocFn(typ),
-- 
2.43.0


From 9c28717ba9ac2146fb270e72eb3a83b92b9c62c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 04/18] fix: hash-tree-root of bitlists masks the delimiter
 when the last chunk is full

---
 types/ssz_bitlist.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/types/ssz_bitlist.go b/types/ssz_bitlist.go
index f39422c..30418de 100644
--- a/types/ssz_bitlist.go
+++ b/types/ssz_bitlist.go
@@ -147,8 +147,8 @@ func (v *SSZBitlist) HashTreeRoot(h MerkleFn, p unsafe.Pointer) [32]byte {
 	leaf := func(i uint64) []byte {
 		s := i << 5
 		e := (i + 1) << 5
-		// pad the data
-		if e > byteLen {
+		// pad the data, and/or cut off the delimiting bit if the last byte is shared with it.
+		if e > byteLen || (e == byteLen && bitLen&7 != 0) {
 			x := [32]byte{}
 			copy(x[:], data[s:byteLen])
 			if bitLen&7 != 0 && byteLen != 0 { // if we not already cut off the delimiting bit with a bytes boundary
@@ -160,7 +160,7 @@ func (v *SSZBitlist) HashTreeRoot(h MerkleFn, p unsafe.Pointer) [32]byte {
 			}
 			return x[:]
 		}
-		// if the last leaf does not have to be padded,
+		// if the last leaf does not have to be padded or masked,
 		// then the length-determining bitlist bit is already cut off,
 		// i.e. as sole bit in next (ignored) chunk of data.
 		return data[s:e]
-- 
2.43.0


From f221bf422133664d30054d11282220576b71c064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 05/18] fix: merkle proofs contain the actual sibling for
 padded subtrees

---
 merkle/merkleize.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/merkle/merkleize.go b/merkle/merkleize.go
index 2a411a5..fc590c1 100644
--- a/merkle/merkleize.go
+++ b/merkle/merkleize.go
@@ -150,10 +150,9 @@ func ConstructProof(hasher MerkleFn, count uint64, limit uint64, leaf func(i uin
 		// merge back up from bottom to top, as far as we can
 		for j = 0; ; j++ {
 			// TODO: better than full tree allocation, but style/efficiency can be improved.
-			// if i is a sibling of index at the given depth,
-			// and i is the last index of the subtree to that depth,
-			// then put h into the branch
-			if (i>>j)^1 == (index>>j) && (((1<<j)-1)&i) == ((1<<j)-1) {
+			// h is the root of the (possibly zero-padded) subtree of depth j that contains i.
+			// If that subtree is the sibling of index at the given depth, then put h into the branch
+			if (i>>j)^1 == (index >> j) {
 				// insert sibling into the proof
 				branch[j] = hArr
 			}
@@ -188,5 +187,14 @@ func ConstructProof(hasher MerkleFn, count uint64, limit uint64, leaf func(i uin
 		merge(count)
 	}
 
+	// complement with zero-hashes at each depth,
+	// the tree of contents so far may be a sibling of index in the ultimate virtual tree.
+	for j := depth; j < limitDepth; j++ {
+		if index>>j == 1 {
+			branch[j] = tmp[j]
+		}
+		tmp[j+1] = hasher.Combi(tmp[j], ZeroHashes[j])
+	}
+
 	return
 }
-- 
2.43.0


From 24dd0b25f09adaa9c94839306502a3a39321543f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 06/18] fix: fuzz-mode decoding of bitvectors masks the padding
 bits

---
 types/ssz_bitvector.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types/ssz_bitvector.go b/types/ssz_bitvector.go
index b3ad2a9..db060c0 100644
--- a/types/ssz_bitvector.go
+++ b/types/ssz_bitvector.go
@@ -86,6 +86,10 @@ func (v *SSZBitvector) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 	if _, err := dr.Read(data); err != nil {
 		return err
 	}
+	if dr.IsFuzzMode() && v.bitLen&7 != 0 {
+		// mask last byte to stay within bit-length
+		data[len(data)-1] &= (1 << (v.bitLen & 7)) - 1
+	}
 	// check if the data is a valid bitvector value (0 bits for unused bits)
 	return bitfields.BitvectorCheck(data, v.bitLen)
 }
-- 
2.43.0


From 1e0401b025625dd5defe6b2ffa83884ef5a33ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 07/18] fix: fuzz-mode decoding of bitlists stays within the
 bit limit

---
 types/ssz_bitlist.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/types/ssz_bitlist.go b/types/ssz_bitlist.go
index 30418de..5765d1f 100644
--- a/types/ssz_bitlist.go
+++ b/types/ssz_bitlist.go
@@ -49,8 +49,8 @@ func (v *SSZBitlist) FuzzMinLen() uint64 {
 
 // in bytes (rounded up), not bits
 func (v *SSZBitlist) FuzzMaxLen() uint64 {
-	// 8 for a random byte count, limit for maximum fill
-	return 8 + v.byteLimit
+	// 8 for a random byte count, limit for maximum fill (incl. the delimiting 1 bit)
+	return 8 + v.MaxLen()
 }
 
 // in bytes (rounded up), not bits. Includes the delimiting 1 bit.
@@ -111,8 +111,10 @@ func (v *SSZBitlist) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 		return err
 	}
 	if dr.IsFuzzMode() {
-		// mask last byte to stay within bit-limit
-		data[len(data)-1] &= (1 << (v.bitLimit + 1)) - 1
+		if byteLen == v.MaxLen() {
+			// mask last byte to stay within bit-limit
+			data[len(data)-1] &= (1 << ((v.bitLimit & 7) + 1)) - 1
+		}
 		if data[len(data)-1] == 0 {
 			// last byte must not be 0 for bitlist to be valid
 			data[len(data)-1] = 1
-- 
2.43.0


From 00ddef59a75a9846d69573a667f3883f14c50469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 08/18] fix: fuzz-mode decoding of basic lists stays within the
 available input and limit

---
 types/ssz_list_basic.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/types/ssz_list_basic.go b/types/ssz_list_basic.go
index 5477be1..34453f0 100644
--- a/types/ssz_list_basic.go
+++ b/types/ssz_list_basic.go
@@ -97,13 +97,13 @@ func (v *SSZBasicList) decodeFuzzmode(dr *DecodingReader, p unsafe.Pointer) erro
 		return err
 	}
 	span := dr.GetBytesSpan()
-	if v.byteLimit > span {
+	if span > v.byteLimit {
 		span = v.byteLimit
 	}
-	if span == 0 {
-		return nil
+	bytesLen := uint64(0)
+	if span != 0 {
+		bytesLen = x % span
 	}
-	bytesLen := x % span
 	bytesLen -= bytesLen % v.elemSSZ.FixedLen()
 
 	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
-- 
2.43.0


From 6ec77f012bf2f898f02e565dca372f6a3ccfbab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 09/18] fix: fuzz-mode decoding of lists stays within the limit

---
 types/ssz_list.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types/ssz_list.go b/types/ssz_list.go
index 2846ac0..e66d18a 100644
--- a/types/ssz_list.go
+++ b/types/ssz_list.go
@@ -119,6 +119,10 @@ func (v *SSZList) decodeFuzzmode(dr *DecodingReader, p unsafe.Pointer) error {
 	if span != 0 {
 		length = (x % span) / v.elemSSZ.FuzzMinLen()
 	}
+	// respect type limit, elements may be much smaller than their maximum
+	if length > v.limit {
+		length = v.limit
+	}
 	contentsPtr := v.alloc.MutateLenOrAllocNew(p, length)
 	if v.elemSSZ.IsFixed() {
 		return DecodeFixedSeries(v.elemSSZ.Decode, length, v.elemMemSize, dr, contentsPtr)
-- 
2.43.0


From 2ce573e17d0406b66f366c3c3ca60f6a09f135ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 10/18] fix: decoding checks list and bitlist limits before
 allocating

---
 types/ssz_bitlist.go    | 4 ++++
 types/ssz_list_basic.go | 8 ++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/types/ssz_bitlist.go b/types/ssz_bitlist.go
index 5765d1f..2ceef3d 100644
--- a/types/ssz_bitlist.go
+++ b/types/ssz_bitlist.go
@@ -104,6 +104,10 @@ func (v *SSZBitlist) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 		byteLen += 1
 	} else {
 		byteLen = dr.GetBytesSpan()
+		// check the limit before allocating space for the contents
+		if err := bitfields.BitlistCheckByteLen(byteLen, v.bitLimit); err != nil {
+			return err
+		}
 	}
 	ptrutil.BytesAllocFn(p, byteLen)
 	data := *(*[]byte)(p)
diff --git a/types/ssz_list_basic.go b/types/ssz_list_basic.go
index 34453f0..103520f 100644
--- a/types/ssz_list_basic.go
+++ b/types/ssz_list_basic.go
@@ -121,10 +121,14 @@ func (v *SSZBasicList) decode(dr *DecodingReader, p unsafe.Pointer) error {
 		return fmt.Errorf("cannot decode basic type array, input has length %d, not compatible with element length %d", bytesLen, v.elemSSZ.FixedLen())
 	}
 
+	// check the limit before allocating space for the contents
+	if bytesLen > v.byteLimit {
+		return fmt.Errorf("got %d bytes, expected no more than %d bytes", bytesLen, v.byteLimit)
+	}
+
 	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
 		contentsPtr := v.alloc.MutateLenOrAllocNew(p, bytesLen/v.elemSSZ.FixedLen())
-		bytesLimit := v.limit * v.elemSSZ.FixedLen()
-		return LittleEndianBasicSeriesDecode(dr, contentsPtr, bytesLen, bytesLimit, v.elemKind == reflect.Bool)
+		return LittleEndianBasicSeriesDecode(dr, contentsPtr, bytesLen, v.byteLimit, v.elemKind == reflect.Bool)
 	} else {
 		return DecodeFixedSlice(v.elemSSZ.Decode, v.elemSSZ.FixedLen(), bytesLen, v.limit, v.alloc, uintptr(v.elemSSZ.FixedLen()), dr, p)
 	}
-- 
2.43.0


From 01b82069bf20527a5f6d3556a24a8f36459fcefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 11/18] fix: big-endian decoding of basic vectors reads the
 element count, not the byte count

---
 types/ssz_vector_basic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/ssz_vector_basic.go b/types/ssz_vector_basic.go
index 92faf44..a3f31d2 100644
--- a/types/ssz_vector_basic.go
+++ b/types/ssz_vector_basic.go
@@ -85,7 +85,7 @@ func (v *SSZBasicVector) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
 		return LittleEndianBasicSeriesDecode(dr, p, v.byteLen, v.byteLen, v.elemKind == reflect.Bool)
 	} else {
-		return DecodeFixedSeries(v.elemSSZ.Decode, v.byteLen, uintptr(v.elemSSZ.FixedLen()), dr, p)
+		return DecodeFixedSeries(v.elemSSZ.Decode, v.length, uintptr(v.elemSSZ.FixedLen()), dr, p)
 	}
 }
 
-- 
2.43.0


From 7a8576e0c0486f2f3013827ae993e8abf6bdfddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 12/18] fix: scope check of reads and skips cannot overflow

---
 dec/decoder.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dec/decoder.go b/dec/decoder.go
index 868df0d..98c233c 100644
--- a/dec/decoder.go
+++ b/dec/decoder.go
@@ -52,11 +52,11 @@ func (dr *DecodingReader) Max() uint64 {
 }
 
 func (dr *DecodingReader) checkedIndexUpdate(x uint64) (n int, err error) {
-	v := dr.i + x
-	if v > dr.max {
-		return int(dr.i), fmt.Errorf("cannot read %d bytes, %d beyond scope", x, v-dr.max)
+	// compare to the remaining span, the sum of index and count may overflow.
+	if span := dr.GetBytesSpan(); x > span {
+		return int(dr.i), fmt.Errorf("cannot read %d bytes, %d beyond scope", x, x-span)
 	}
-	dr.i = v
+	dr.i += x
 	return int(x), nil
 }
 
-- 
2.43.0


From f2572cc3d56ea41ffb9fc48a923d5de3497ee65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 13/18] fix: limits close to 2^64 do not overflow the byte and
 leaf limits

---
 types/basic_series.go     | 16 ++++++++++++----
 types/ssz_bitlist.go      |  5 ++++-
 types/ssz_bytes.go        |  2 +-
 types/ssz_list_basic.go   | 19 +++++++++++--------
 types/ssz_vector_basic.go |  4 ++--
 5 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/types/basic_series.go b/types/basic_series.go
index 8de9e60..2ab1304 100644
--- a/types/basic_series.go
+++ b/types/basic_series.go
@@ -64,8 +64,18 @@ func LittleEndianBasicSeriesDecode(dr *DecodingReader, p unsafe.Pointer, bytesLe
 	return nil
 }
 
+// The amount of leafs necessary for a limit of basic elements. The limit in bytes may not fit in a uint64.
+func basicSeriesLeafLimit(limit uint64, elemLen uint64) uint64 {
+	elemsPerLeaf := 32 / elemLen
+	out := limit / elemsPerLeaf
+	if limit%elemsPerLeaf != 0 {
+		out++
+	}
+	return out
+}
+
 // WARNING: for little-endian architectures only, or the elem-length has to be 1 byte
-func LittleEndianBasicSeriesHTR(h MerkleFn, p unsafe.Pointer, bytesLen uint64, bytesLimit uint64) [32]byte {
+func LittleEndianBasicSeriesHTR(h MerkleFn, p unsafe.Pointer, bytesLen uint64, leafLimit uint64) [32]byte {
 	bytesSh := ptrutil.GetSliceHeader(p, bytesLen)
 	data := *(*[]byte)(unsafe.Pointer(bytesSh))
 
@@ -81,7 +91,6 @@ func LittleEndianBasicSeriesHTR(h MerkleFn, p unsafe.Pointer, bytesLen uint64, b
 		return data[s:e]
 	}
 	leafCount := (bytesLen + 31) >> 5
-	leafLimit := (bytesLimit + 31) >> 5
 	return merkle.Merkleize(h, leafCount, leafLimit, leaf)
 }
 
@@ -101,7 +110,7 @@ func BigToLittleEndianChunk(data [32]byte, elemSize uint8) (out [32]byte) {
 }
 
 // counter-part of LittleEndianBasicSeriesHTR
-func BigEndianBasicSeriesHTR(h MerkleFn, p unsafe.Pointer, bytesLen uint64, bytesLimit uint64, elemSize uint8) [32]byte {
+func BigEndianBasicSeriesHTR(h MerkleFn, p unsafe.Pointer, bytesLen uint64, leafLimit uint64, elemSize uint8) [32]byte {
 	bytesSh := ptrutil.GetSliceHeader(p, bytesLen)
 	data := *(*[]byte)(unsafe.Pointer(bytesSh))
 
@@ -118,7 +127,6 @@ func BigEndianBasicSeriesHTR(h MerkleFn, p unsafe.Pointer, bytesLen uint64, byte
 		return d[:]
 	}
 	leafCount := (bytesLen + 31) >> 5
-	leafLimit := (bytesLimit + 31) >> 5
 	return merkle.Merkleize(h, leafCount, leafLimit, leaf)
 }
 
diff --git a/types/ssz_bitlist.go b/types/ssz_bitlist.go
index 2ceef3d..5b1d220 100644
--- a/types/ssz_bitlist.go
+++ b/types/ssz_bitlist.go
@@ -32,7 +32,10 @@ func NewSSZBitlist(typ reflect.Type) (*SSZBitlist, error) {
 	if err != nil {
 		return nil, err
 	}
-	byteLimit := (bitLimit + 7) >> 3
+	byteLimit := bitLimit >> 3
+	if bitLimit&7 != 0 {
+		byteLimit++
+	}
 	res := &SSZBitlist{
 		bitLimit:  bitLimit,
 		byteLimit: byteLimit,
diff --git a/types/ssz_bytes.go b/types/ssz_bytes.go
index ba5bac2..7c56229 100644
--- a/types/ssz_bytes.go
+++ b/types/ssz_bytes.go
@@ -105,7 +105,7 @@ func (v *SSZBytes) HashTreeRoot(h MerkleFn, p unsafe.Pointer) [32]byte {
 	data := *(*[]byte)(unsafe.Pointer(sh))
 	dataLen := uint64(len(data))
 	leafCount := (dataLen + 31) >> 5
-	leafLimit := (v.limit + 31) >> 5
+	leafLimit := basicSeriesLeafLimit(v.limit, 1)
 	leaf := func(i uint64) []byte {
 		s := i << 5
 		e := (i + 1) << 5
diff --git a/types/ssz_list_basic.go b/types/ssz_list_basic.go
index 103520f..f1c4b3b 100644
--- a/types/ssz_list_basic.go
+++ b/types/ssz_list_basic.go
@@ -39,12 +39,17 @@ func NewSSZBasicList(typ reflect.Type) (*SSZBasicList, error) {
 		return nil, fmt.Errorf("basic element type has different size than SSZ type unexpectedly, ssz: %d, go: %d", elemSSZ.FixedLen(), elemTyp.Size())
 	}
 
+	byteLimit := limit * elemSSZ.FixedLen()
+	if limit > ^uint64(0)/elemSSZ.FixedLen() {
+		// more bytes than can be counted, there is effectively no limit
+		byteLimit = ^uint64(0)
+	}
 	res := &SSZBasicList{
 		alloc:     ptrutil.MakeSliceAllocFn(typ),
 		elemKind:  elemKind,
 		elemSSZ:   elemSSZ,
 		limit:     limit,
-		byteLimit: limit * elemSSZ.FixedLen(),
+		byteLimit: byteLimit,
 	}
 	return res, nil
 }
@@ -108,8 +113,7 @@ func (v *SSZBasicList) decodeFuzzmode(dr *DecodingReader, p unsafe.Pointer) erro
 
 	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
 		contentsPtr := v.alloc.MutateLenOrAllocNew(p, bytesLen/v.elemSSZ.FixedLen())
-		bytesLimit := v.limit * v.elemSSZ.FixedLen()
-		return LittleEndianBasicSeriesDecode(dr, contentsPtr, bytesLen, bytesLimit, v.elemKind == reflect.Bool)
+		return LittleEndianBasicSeriesDecode(dr, contentsPtr, bytesLen, v.byteLimit, v.elemKind == reflect.Bool)
 	} else {
 		return DecodeFixedSlice(v.elemSSZ.Decode, v.elemSSZ.FixedLen(), bytesLen, v.limit, v.alloc, uintptr(v.elemSSZ.FixedLen()), dr, p)
 	}
@@ -147,19 +151,18 @@ func (v *SSZBasicList) DryCheck(dr *DecodingReader) error {
 	if bytesLen%v.elemSSZ.FixedLen() != 0 {
 		return fmt.Errorf("invalid basic type array, input has length %d, not compatible with element length %d", bytesLen, v.elemSSZ.FixedLen())
 	}
-	bytesLimit := v.limit * v.elemSSZ.FixedLen()
-	return BasicSeriesDryCheck(dr, bytesLen, bytesLimit, v.elemKind == reflect.Bool)
+	return BasicSeriesDryCheck(dr, bytesLen, v.byteLimit, v.elemKind == reflect.Bool)
 }
 
 func (v *SSZBasicList) HashTreeRoot(h MerkleFn, p unsafe.Pointer) [32]byte {
 	sh := ptrutil.ReadSliceHeader(p)
 
 	bytesLen := uint64(sh.Len) * v.elemSSZ.FixedLen()
-	bytesLimit := v.limit * v.elemSSZ.FixedLen()
+	leafLimit := basicSeriesLeafLimit(v.limit, v.elemSSZ.FixedLen())
 	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
-		return h.MixIn(LittleEndianBasicSeriesHTR(h, sh.Data, bytesLen, bytesLimit), uint64(sh.Len))
+		return h.MixIn(LittleEndianBasicSeriesHTR(h, sh.Data, bytesLen, leafLimit), uint64(sh.Len))
 	} else {
-		return h.MixIn(BigEndianBasicSeriesHTR(h, sh.Data, bytesLen, bytesLimit, uint8(v.elemSSZ.FixedLen())), uint64(sh.Len))
+		return h.MixIn(BigEndianBasicSeriesHTR(h, sh.Data, bytesLen, leafLimit, uint8(v.elemSSZ.FixedLen())), uint64(sh.Len))
 	}
 }
 
diff --git a/types/ssz_vector_basic.go b/types/ssz_vector_basic.go
index a3f31d2..10ffefa 100644
--- a/types/ssz_vector_basic.go
+++ b/types/ssz_vector_basic.go
@@ -95,9 +95,9 @@ func (v *SSZBasicVector) DryCheck(dr *DecodingReader) error {
 
 func (v *SSZBasicVector) HashTreeRoot(h MerkleFn, p unsafe.Pointer) [32]byte {
 	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
-		return LittleEndianBasicSeriesHTR(h, p, v.byteLen, v.byteLen)
+		return LittleEndianBasicSeriesHTR(h, p, v.byteLen, (v.byteLen+31)>>5)
 	} else {
-		return BigEndianBasicSeriesHTR(h, p, v.byteLen, v.byteLen, uint8(v.elemSSZ.FixedLen()))
+		return BigEndianBasicSeriesHTR(h, p, v.byteLen, (v.byteLen+31)>>5, uint8(v.elemSSZ.FixedLen()))
 	}
 }
 
-- 
2.43.0


From 8dd65bf4e093f95a8f6f7572e6e68da74a49da8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 14/18] fix: byte length of bitvectors does not overflow for
 bit lengths close to 2^64

---
 bitfields/bitvector.go | 7 ++++++-
 types/ssz_bitvector.go | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/bitfields/bitvector.go b/bitfields/bitvector.go
index 8cde0a6..a296323 100644
--- a/bitfields/bitvector.go
+++ b/bitfields/bitvector.go
@@ -29,8 +29,13 @@ func BitvectorCheck(b []byte, n uint64) error {
 	return BitvectorCheckLastByte(last, n)
 }
 
+// The amount of bytes necessary for the given amount of bits. (rounds up, without overflow)
+func BitvectorByteLen(bitLength uint64) uint64 {
+	return (bitLength >> 3) + ((bitLength&7)+7)>>3
+}
+
 func BitvectorCheckByteLen(byteLen uint64, bitLength uint64) error {
-	if expected := (bitLength + 7) >> 3; byteLen != expected {
+	if expected := BitvectorByteLen(bitLength); byteLen != expected {
 		return fmt.Errorf("bitvector of %d bytes has not expected length in bytes %d", byteLen, expected)
 	}
 	return nil
diff --git a/types/ssz_bitvector.go b/types/ssz_bitvector.go
index db060c0..af0f306 100644
--- a/types/ssz_bitvector.go
+++ b/types/ssz_bitvector.go
@@ -34,7 +34,7 @@ func NewSSZBitvector(typ reflect.Type) (*SSZBitvector, error) {
 	typedNil := reflect.New(ptrTyp).Elem().Interface().(bitfields.BitvectorMeta)
 	bitLen := typedNil.BitLen()
 	byteLen := uint64(typ.Len())
-	if (bitLen+7)>>3 != byteLen {
+	if bitfields.BitvectorByteLen(bitLen) != byteLen {
 		return nil, fmt.Errorf("bitvector type has not the expected %d bytes to cover %d bits", byteLen, bitLen)
 	}
 	res := &SSZBitvector{bitLen: bitLen, byteLen: byteLen}
-- 
2.43.0


From 9e1cee931a672abfe2ef1296b714e6931294fdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:13 +0000
Subject: [PATCH 15/18] fix: hash-tree-root of vectors and lists of pointers to
 basic values packs the values

---
 types/basic_series.go | 28 ++++++++++++++++++++++++++++
 types/ssz_list.go     |  3 +++
 types/ssz_vector.go   |  3 +++
 3 files changed, 34 insertions(+)

diff --git a/types/basic_series.go b/types/basic_series.go
index 2ab1304..1534eae 100644
--- a/types/basic_series.go
+++ b/types/basic_series.go
@@ -130,6 +130,34 @@ func BigEndianBasicSeriesHTR(h MerkleFn, p unsafe.Pointer, bytesLen uint64, leaf
 	return merkle.Merkleize(h, leafCount, leafLimit, leaf)
 }
 
+// The byte length of an element if it is a basic type (possibly behind pointers),
+// and its values are thus packed into chunks in a series. 0 otherwise.
+func packedElemLen(elemSSZ SSZ) uint64 {
+	switch e := elemSSZ.(type) {
+	case *SSZPtr:
+		return packedElemLen(e.elemSSZ)
+	case SSZBool, SSZUint8, SSZUint16, SSZUint32, SSZUint64:
+		return e.FixedLen()
+	default:
+		return 0
+	}
+}
+
+// Like the basic series HTR functions, but for basic elements that are not contiguous in memory (behind pointers).
+func packedElemsHTR(h MerkleFn, elemSSZ SSZ, elemLen uint64, elemMemSize uintptr, length uint64, limit uint64, p unsafe.Pointer) [32]byte {
+	elemsPerLeaf := 32 / elemLen
+	leaf := func(i uint64) []byte {
+		d := [32]byte{}
+		for j := uint64(0); j < elemsPerLeaf && i*elemsPerLeaf+j < length; j++ {
+			// the root of a basic element is its padded serialization
+			r := elemSSZ.HashTreeRoot(h, unsafe.Pointer(uintptr(p)+elemMemSize*uintptr(i*elemsPerLeaf+j)))
+			copy(d[j*elemLen:], r[:elemLen])
+		}
+		return d[:]
+	}
+	return merkle.Merkleize(h, basicSeriesLeafLimit(length, elemLen), basicSeriesLeafLimit(limit, elemLen), leaf)
+}
+
 func CallSeries(fn func(i uint64, p unsafe.Pointer), length uint64, elemMemSize uintptr, p unsafe.Pointer) {
 	memOffset := uintptr(0)
 	for i := uint64(0); i < length; i++ {
diff --git a/types/ssz_list.go b/types/ssz_list.go
index e66d18a..b69597d 100644
--- a/types/ssz_list.go
+++ b/types/ssz_list.go
@@ -160,6 +160,9 @@ func (v *SSZList) HashTreeRoot(h MerkleFn, p unsafe.Pointer) [32]byte {
 	elemHtr := v.elemSSZ.HashTreeRoot
 	elemSize := v.elemMemSize
 	sh := ptrutil.ReadSliceHeader(p)
+	if packedLen := packedElemLen(v.elemSSZ); packedLen != 0 {
+		return h.MixIn(packedElemsHTR(h, v.elemSSZ, packedLen, v.elemMemSize, uint64(sh.Len), v.limit, sh.Data), uint64(sh.Len))
+	}
 	leaf := func(i uint64) []byte {
 		r := elemHtr(h, unsafe.Pointer(uintptr(sh.Data)+(elemSize*uintptr(i))))
 		return r[:]
diff --git a/types/ssz_vector.go b/types/ssz_vector.go
index 6925624..338c5b0 100644
--- a/types/ssz_vector.go
+++ b/types/ssz_vector.go
@@ -130,6 +130,9 @@ func (v *SSZVector) DryCheck(dr *DecodingReader) error {
 }
 
 func (v *SSZVector) HashTreeRoot(h MerkleFn, p unsafe.Pointer) [32]byte {
+	if packedLen := packedElemLen(v.elemSSZ); packedLen != 0 {
+		return packedElemsHTR(h, v.elemSSZ, packedLen, v.elemMemSize, v.length, v.length, p)
+	}
 	elemHtr := v.elemSSZ.HashTreeRoot
 	elemSize := v.elemMemSize
 	leaf := func(i uint64) []byte {
-- 
2.43.0


From afd28c78862cd15d1af9e5a6b6fb0480946c01ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:42 +0000
Subject: [PATCH 16/18] fix: scopes and skips of 2^63 bytes or more are not
 taken as negative

---
 dec/decoder.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dec/decoder.go b/dec/decoder.go
index 98c233c..aafbdf2 100644
--- a/dec/decoder.go
+++ b/dec/decoder.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"io/ioutil"
+	"math"
 	"unsafe"
 )
 
@@ -28,7 +29,12 @@ func (dr *DecodingReader) Scope(count uint64) (*DecodingReader, error) {
 	if span := dr.GetBytesSpan(); span < count {
 		return nil, fmt.Errorf("cannot create scoped decoding reader, scope of %d bytes is bigger than parent scope has available space %d", count, span)
 	}
-	return &DecodingReader{input: io.LimitReader(dr.input, int64(count)), i: 0, max: count}, nil
+	// no input holds more than the maximum int64, larger scopes are not limited further.
+	limit := int64(math.MaxInt64)
+	if count < math.MaxInt64 {
+		limit = int64(count)
+	}
+	return &DecodingReader{input: io.LimitReader(dr.input, limit), i: 0, max: count}, nil
 }
 
 func (dr *DecodingReader) EnableFuzzMode() {
@@ -64,6 +70,9 @@ func (dr *DecodingReader) Skip(count uint64) (int, error) {
 	if n, err := dr.checkedIndexUpdate(count); err != nil {
 		return n, err
 	}
+	if count > math.MaxInt64 {
+		return 0, fmt.Errorf("cannot skip %d bytes, more than any input holds", count)
+	}
 	switch r := dr.input.(type) {
 	case io.Seeker:
 		n, err := r.Seek(int64(count), io.SeekCurrent)
-- 
2.43.0


From 04f3ccb6b5fc8750b8e96a2978b0abc527f4bd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:11 +0000
Subject: [PATCH 17/18] fix: decoding lists does not reuse stale elements in
 the spare capacity

---
 util/ptrutil/allocation.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/util/ptrutil/allocation.go b/util/ptrutil/allocation.go
index fb47171..782b302 100644
--- a/util/ptrutil/allocation.go
+++ b/util/ptrutil/allocation.go
@@ -8,12 +8,13 @@ import (
 
 type SliceAllocationFn func(p unsafe.Pointer, length uint64) unsafe.Pointer
 
-// Checks the capacity of the slice first. If sufficient, it mutates the length and returns the pointer to the contents.
+// Checks the length of the slice first. If sufficient, it mutates the length and returns the pointer to the contents.
 // If not sufficient, it allocates a new slice using the underlying allocation function,
 // and returns the pointer to the new contents.
+// Any spare capacity is not used: it may hold stale elements, with pointers to the same memory as other elements.
 func (f SliceAllocationFn) MutateLenOrAllocNew(p unsafe.Pointer, length uint64) unsafe.Pointer {
 	header := ReadSliceHeader(p)
-	if uint64(header.Cap) < length {
+	if uint64(header.Len) < length {
 		// We don't want elements to be put in the slice header memory,
 		// instead, we allocate the slice data with the allocation function,
 		// and change the contents-pointer in the header.
-- 
2.43.0


From 3d50b5aefb68a2bfc51532f3715fb2f1f6b34d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:41 +0000
Subject: [PATCH 18/18] fix: fields squashed more than once keep their own name
 in Pretty

---
 types/ssz_container.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/ssz_container.go b/types/ssz_container.go
index 1abafdc..b0a7208 100644
--- a/types/ssz_container.go
+++ b/types/ssz_container.go
@@ -36,7 +36,7 @@ func (c *ContainerField) Wrap(name string, memOffset uintptr) ContainerField {
 	return ContainerField{
 		ssz:      c.ssz,
 		name:     name + ">" + c.name,
-		pureName: c.name,
+		pureName: c.pureName,
 		ptrFn:    c.ptrFn.WrapOffset(memOffset),
 		isFixed:  c.ssz.IsFixed(),
 	}
-- 
2.43.0

