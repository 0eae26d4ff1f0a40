From b67d4b1f4d6f59e63163c5b6ad5579d0f39496f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 01/33] fix: SHA-512 length field loses bits 64..66 of the
 message bit length

The word at offset 116 of the padding took only totalLen_hh << 3; the top
three bits of totalLen_h, which belong to it, were dropped, so the digest
of a message of 2^61 bytes or more was wrong.
---
 src/digest/sha2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/digest/sha2.c b/src/digest/sha2.c
index fac0c6b..30f97e3 100644
--- a/src/digest/sha2.c
+++ b/src/digest/sha2.c
@@ -552,7 +552,7 @@ static void _RaSha512Final(struct RaSha2Ctx* ctx, /*out*/uint8_t *output)
 	val = (uint32_t)(ctx->totalLen_hh >> 29);
 	PUT_UINT32_BE(ctx->buffer + 128 - 16, val);
 
-	val = (uint32_t)(ctx->totalLen_hh << 3);
+	val = (uint32_t)(ctx->totalLen_hh << 3) | (ctx->totalLen_h >> 29);
 	PUT_UINT32_BE(ctx->buffer + 128 - 12, val);
 
 	val = (ctx->totalLen_h << 3) | (ctx->totalLen_l >> 29);
-- 
2.43.0


From 2e8de95d314133a6b8a268b1019dafb2fef82c4d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:43:09 +0000
Subject: [PATCH 02/33] fix: negating a big number keeps its sign flag 0 or 1

A subtraction of a machine word across zero, and multiplying or dividing by a
negative one, set the flag to -1, which BnAdd, BnSub and BnMul take for a
different sign than 1.
---
 src/com/bignumber.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 48fffad..18b5749 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -974,7 +974,7 @@ int BnMulInt(struct RaBigNumber *bn, bn_int_t multiplier)
 	uint64_t cw;
 
 	if (multiplier < 0) {
-		bn->sign = -bn->sign;
+		bn->sign = !bn->sign;
 		multiplier = -multiplier;
 	}
 	val.high = 0;
@@ -1001,7 +1001,7 @@ int BnMulInt(struct RaBigNumber *bn, bn_int_t multiplier)
 	int i;
 
 	if (multiplier < 0) {
-		bn->sign = -bn->sign;
+		bn->sign = !bn->sign;
 		multiplier = -multiplier;
 	}
 	val = 0;
@@ -1081,7 +1081,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 		return RA_ERR_DIVIDED_BY_ZERO;
 	}
 	if (divisor < 0) {
-		bn->sign = -bn->sign;
+		bn->sign = !bn->sign;
 		divisor = -divisor;
 	}
 
@@ -1121,7 +1121,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 		return RA_ERR_DIVIDED_BY_ZERO;
 	}
 	if (divisor < 0) {
-		bn->sign = -bn->sign;
+		bn->sign = !bn->sign;
 		divisor = -divisor;
 	}
 	val = 0;
@@ -1961,7 +1961,7 @@ static int _BnSubUInt(struct RaBigNumber *a, bn_uint_t val)
 
 	if (al == 1 && (*ad) < val) {
 		*ad = val - (*ad);
-		a->sign = -a->sign;
+		a->sign = !a->sign;
 		return RA_ERR_SUCCESS;
 	}
 
-- 
2.43.0


From f0b5c1d0e527754a2f46e678c7336c9369b00b6a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:43:09 +0000
Subject: [PATCH 03/33] fix: word division when a partial dividend equals the
 divisor

BnDivInt, BnDivUInt and BnModUInt skipped the quotient digit, leaving a
remainder equal to the divisor (6 / 6 gave 0 remainder 6).
---
 src/com/bignumber.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 18b5749..f940900 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1092,7 +1092,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 		val.high = val.low;
 		val.low = bn->data[i];
 
-		if (val.high != 0 || val.low > (bn_uint_t)divisor) {
+		if (val.high != 0 || val.low >= (bn_uint_t)divisor) {
 			if (length == 0)
 				length = i + 1;
 			bn->data[i] = _BnDiv128(val, (bn_uint_t)divisor, &val.low);
@@ -1127,7 +1127,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 	val = 0;
 	for (i = bn->length - 1; i >= 0; i--) {
 		val = (val << 32) + bn->data[i];
-		if (val > (uint32_t)divisor) {
+		if (val >= (uint32_t)divisor) {
 			if (length == 0)
 				length = i + 1;
 			bn->data[i] = (uint32_t)(val / (uint32_t)divisor);
@@ -1170,7 +1170,7 @@ int BnDivUInt(struct RaBigNumber *bn, bn_uint_t divisor, /*out*/bn_uint_t *remai
 		val.high = val.low;
 		val.low = bn->data[i];
 
-		if (val.high != 0 || val.low > (bn_uint_t)divisor) {
+		if (val.high != 0 || val.low >= (bn_uint_t)divisor) {
 			if (length == 0)
 				length = i + 1;
 			bn->data[i] = _BnDiv128(val, (bn_uint_t)divisor, &val.low);
@@ -1201,7 +1201,7 @@ int BnDivUInt(struct RaBigNumber *bn, bn_uint_t divisor, /*out*/bn_uint_t *remai
 	val = 0;
 	for (i = bn->length - 1; i >= 0; i--) {
 		val = (val << 32) + bn->data[i];
-		if (val > (uint32_t)divisor) {
+		if (val >= (uint32_t)divisor) {
 			if (length == 0)
 				length = i + 1;
 			bn->data[i] = (uint32_t)(val / (uint32_t)divisor);
@@ -1243,7 +1243,7 @@ int BnModUInt(struct RaBigNumber *bn, bn_uint_t divisor, /*out*/bn_uint_t *remai
 		val.high = val.low;
 		val.low = bn->data[i];
 
-		if (val.high > 0 || val.low > divisor) {
+		if (val.high > 0 || val.low >= divisor) {
 			if (length == 0)
 				length = i + 1;
 			_BnDiv128(val, divisor, &val.low);
@@ -1263,7 +1263,7 @@ int BnModUInt(struct RaBigNumber *bn, bn_uint_t divisor, /*out*/bn_uint_t *remai
 	val = 0;
 	for (i = bn->length - 1; i >= 0; i--) {
 		val = (val << 32) + bn->data[i];
-		if (val > divisor) {
+		if (val >= divisor) {
 			if (length == 0)
 				length = i + 1;
 			val %= (uint32_t)divisor;
-- 
2.43.0


From 3e122a485be7bf4b3f001daf00ea38baa1d8e303 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:43:10 +0000
Subject: [PATCH 04/33] fix: comparison of negative zero and of negative
 numbers with a word

BnCmp told -0 and 0 apart, and BnCmpUInt returned 0 for every negative number
whose lowest word is 0 (-2^64 compared equal to 5) and for -0 against 5.
---
 src/com/bignumber.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index f940900..4ad1372 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -260,6 +260,8 @@ int BnSetUByteArray(struct RaBigNumber *bn, const uint8_t *data, int len)
 // a < b : -1, a > b : 1, a = b : 0
 int BnCmp(struct RaBigNumber *a, struct RaBigNumber *b)
 {
+	if (BN_ISZERO(a) && BN_ISZERO(b))
+		return 0;		// zero has no sign
 	if (a->sign == 0) {
 		if (b->sign == 0)
 			return _BnCmp(a, b);
@@ -309,7 +311,7 @@ int BnCmpUInt(struct RaBigNumber *a, bn_uint_t val)
 		return 0;
 	}
 	else {
-		if (a->data[0] == 0)
+		if (BN_ISZERO(a) && val == 0)
 			return 0;
 		return -1;
 	}
-- 
2.43.0


From 7d07de32cc76d535fb66be37e27d55ee9b8f01af Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:43:10 +0000
Subject: [PATCH 05/33] fix: multiplying a big number by the word zero gives a
 normal zero

BnMulInt and BnMulUInt left the length unchanged, so the product of a number of
several words with 0 was not recognised as zero by comparison and division.
---
 src/com/bignumber.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 4ad1372..9a7f4be 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -998,6 +998,8 @@ int BnMulInt(struct RaBigNumber *bn, bn_int_t multiplier)
 		bn->data[bn->length] = val.high;
 		bn->length++;
 	}
+	while (bn->length > 1 && bn->data[bn->length - 1] == 0)
+		bn->length--;
 #else
 	uint64_t val;
 	int i;
@@ -1020,6 +1022,8 @@ int BnMulInt(struct RaBigNumber *bn, bn_int_t multiplier)
 		bn->data[bn->length] = (uint32_t)val;
 		bn->length++;
 	}
+	while (bn->length > 1 && bn->data[bn->length - 1] == 0)
+		bn->length--;
 #endif
 	return RA_ERR_SUCCESS;
 }
@@ -1049,6 +1053,8 @@ int BnMulUInt(struct RaBigNumber *bn, bn_uint_t multiplier)
 		bn->data[bn->length] = val.high;
 		bn->length++;
 	}
+	while (bn->length > 1 && bn->data[bn->length - 1] == 0)
+		bn->length--;
 #else
 	uint64_t val;
 	int i;
@@ -1067,6 +1073,8 @@ int BnMulUInt(struct RaBigNumber *bn, bn_uint_t multiplier)
 		bn->data[bn->length] = (uint32_t)val;
 		bn->length++;
 	}
+	while (bn->length > 1 && bn->data[bn->length - 1] == 0)
+		bn->length--;
 #endif
 	return RA_ERR_SUCCESS;
 }
-- 
2.43.0


From 7541e40d4f92327f873cf819ad7c84bfb13184af Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:43:10 +0000
Subject: [PATCH 06/33] fix: left shift of zero, and by nearly 2^32 bits

Shifting zero left by 128 bits or more left leading zero words, so the number
no longer compared equal to zero; for a shift of nearly 2^32 bits the rounding
overflowed and the number was shifted by too little instead of refused.
---
 src/com/bignumber.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 9a7f4be..42bdc1e 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1296,15 +1296,15 @@ int BnShiftL(struct RaBigNumber *bn, uint32_t bit)
 	bn_uint_t val;
 	bn_uint_t val_prev;
 
-	if (bit == 0) {
+	if (bit == 0 || BN_ISZERO(bn)) {
 		return RA_ERR_SUCCESS;
 	}
 
-	word = (bit + BN_WORD_BIT - 1) / BN_WORD_BIT;
+	word = bit / BN_WORD_BIT + (bit % BN_WORD_BIT != 0);
 
 	if (bn->max_length < bn->length + word) {
 		// calculate the accurate required word length
-		word = (BnGetBitLength(bn) + bit + BN_WORD_BIT - 1) / BN_WORD_BIT;
+		word = (int)(((uint64_t)BnGetBitLength(bn) + bit + BN_WORD_BIT - 1) / BN_WORD_BIT);
 		if (bn->max_length < word) {
 			assert(0);
 			return RA_ERR_NUMBER_SIZE;
-- 
2.43.0


From c39a4afdce7af1104ddd79204db369c920a946c0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:43:10 +0000
Subject: [PATCH 07/33] fix: right shift by the whole length gives zero

A shift by a multiple of the word size that removes every word left the length
0, and further operations read the word before the first one.
---
 src/com/bignumber.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 42bdc1e..0ab86d1 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1365,6 +1365,11 @@ int BnShiftR(struct RaBigNumber *bn, uint32_t bit)
 	word = bit / BN_WORD_BIT;
 	bit %= BN_WORD_BIT;
 
+	if (word >= bn->length) {
+		BnSetUInt(bn, 0);
+		return RA_ERR_SUCCESS;
+	}
+
 	dest = &bn->data[0];
 	src = &bn->data[word];
 	bn_end = bn->data + bn->length;
-- 
2.43.0


From 73455b1bbd081fa2b6450142084876f973409185 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:43:10 +0000
Subject: [PATCH 08/33] fix: random numbers of n bits are non-negative and
 below 2^n

The mask of the highest word was computed in int, so for 32 and more bits in
that word it was wrong, an earlier sign was kept, and a failure to create the
default generator was ignored.
---
 src/com/bignumber.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 0ab86d1..71d301f 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1422,6 +1422,7 @@ int BnGetBitLength(struct RaBigNumber *bn)
 
 int BnGenRandom(struct RaBigNumber *bn, int bit, struct RaRandom *rnd)
 {
+	int result;
 	int word;
 
 	if (bit <= 0) {
@@ -1435,13 +1436,16 @@ int BnGenRandom(struct RaBigNumber *bn, int bit, struct RaRandom *rnd)
 		return RA_ERR_NUMBER_SIZE;
 	}
 
-	BnGenRandomByteArray((uint8_t*)bn->data, word * BN_WORD_BYTE, rnd);
+	result = BnGenRandomByteArray((uint8_t*)bn->data, word * BN_WORD_BYTE, rnd);
+	if (result != RA_ERR_SUCCESS)
+		return result;
 
 	bit %= BN_WORD_BIT;
 
 	if (bit > 0) {
-		bn->data[word - 1] &= (1 << bit) - 1;
+		bn->data[word - 1] &= ((bn_uint_t)1 << bit) - 1;
 	}
+	bn->sign = 0;
 	bn->length = word;
 	while (bn->length > 1 && bn->data[bn->length - 1] == 0)
 		bn->length--;
-- 
2.43.0


From 902086cefc2f01c0b35e7356c71767a210a78806 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:43:10 +0000
Subject: [PATCH 09/33] fix: report a negative number that does not fit when
 read from bytes

For -2^(64n) and a capacity of n words the error of the last step was ignored
and the value was wrong.
---
 src/com/bignumber.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 71d301f..fd34a90 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -242,7 +242,7 @@ static int _BnSetByteArray(struct RaBigNumber *bn, const uint8_t *data, int len,
 		bn->length--;
 	}
 	if (bn->sign)
-		BnSubInt(bn, 1);
+		return BnSubInt(bn, 1);
 
 	return RA_ERR_SUCCESS;
 }
-- 
2.43.0


From d7282cf101380bd18e44088f96b85e9cd8473a9b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:43:10 +0000
Subject: [PATCH 10/33] fix: addition checks the capacity for both operands

With the second operand longer than the destination the sum was written past
its end.
---
 src/com/bignumber.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index fd34a90..6eaf916 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1631,7 +1631,7 @@ static int _BnAdd(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumb
 	int al;
 	int bl;
 
-	if (r->max_length < a->length) {
+	if (r->max_length < a->length || r->max_length < b->length) {
 		assert(0);
 		return RA_ERR_NUMBER_SIZE;
 	}
@@ -1782,6 +1782,10 @@ int _BnAddR(struct RaBigNumber *a, struct RaBigNumber *b)
 	al = a->length;
 	bl = b->length;
 
+	if (a->max_length < b->length) {
+		assert(0);
+		return RA_ERR_NUMBER_SIZE;
+	}
 	if (a->length < b->length) {
 		memset(a->data + a->length, 0, sizeof(bn_uint_t) * ((size_t)b->length - a->length));
 		a->length = b->length;
-- 
2.43.0


From cf1b297e0690faf9b064e81fca28c3c6a94e52bb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:43:10 +0000
Subject: [PATCH 11/33] fix: no signed overflow on the smallest machine integer

The word operations negated INT_MIN in the signed type, which is undefined.
---
 src/com/bignumber.c | 59 +++++++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 32 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 6eaf916..da5ca34 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -75,12 +75,12 @@ void BnSetInt(struct RaBigNumber *bn, bn_int_t value)
 {
 	if (value < 0) {
 		bn->sign = 1;
-		value = -value;
+		bn->data[0] = 0 - (bn_uint_t)value;
 	}
 	else {
 		bn->sign = 0;
+		bn->data[0] = (bn_uint_t)value;
 	}
-	bn->data[0] = (bn_uint_t)value;
 	bn->length = 1;
 }
 
@@ -88,32 +88,24 @@ void BnSetInt32(struct RaBigNumber *bn, int32_t value)
 {
 	if (value < 0) {
 		bn->sign = 1;
-		value = -value;
+		bn->data[0] = (uint32_t)0 - (uint32_t)value;
 	}
 	else {
 		bn->sign = 0;
+		bn->data[0] = (uint32_t)value;
 	}
-	bn->data[0] = (uint32_t)value;
 	bn->length = 1;
 }
 
 void BnSetInt64(struct RaBigNumber *bn, int64_t value)
 {
 	if (value < 0) {
+		BnSetUInt64(bn, 0 - (uint64_t)value);
 		bn->sign = 1;
-		value = -value;
 	}
 	else {
-		bn->sign = 0;
+		BnSetUInt64(bn, (uint64_t)value);
 	}
-#if BN_WORD_BYTE == 8
-	bn->data[0] = (uint64_t)value;
-	bn->length = 1;
-#else
-	bn->data[0] = (uint32_t)value;
-	bn->data[1] = (uint32_t)(value >> 32);
-	bn->length = 1 + (bn->data[1] != 0);
-#endif
 }
 
 void BnSetUInt(struct RaBigNumber *bn, bn_uint_t value)
@@ -290,10 +282,9 @@ int BnCmpInt(struct RaBigNumber *a, bn_int_t val)
 	else {
 		if (a->length > 1 || val > 0)
 			return -1;
-		val = -val;
-		if (a->data[0] > (bn_uint_t)val)
+		if (a->data[0] > 0 - (bn_uint_t)val)
 			return -1;
-		else if (a->data[0] < (bn_uint_t)val)
+		else if (a->data[0] < 0 - (bn_uint_t)val)
 			return 1;
 		return 0;
 	}
@@ -923,9 +914,9 @@ int BnAddInt(struct RaBigNumber *bn, bn_int_t val)
 	}
 	else {
 		if (bn->sign == 0)
-			ret = _BnSubUInt(bn, (bn_uint_t)-val);
+			ret = _BnSubUInt(bn, 0 - (bn_uint_t)val);
 		else
-			ret = _BnAddUInt(bn, (bn_uint_t)-val);
+			ret = _BnAddUInt(bn, 0 - (bn_uint_t)val);
 	}
 	return ret;
 }
@@ -951,9 +942,9 @@ int BnSubInt(struct RaBigNumber *bn, bn_int_t val)
 	}
 	else {
 		if (bn->sign == 0)
-			ret = _BnAddUInt(bn, (bn_uint_t)-val);
+			ret = _BnAddUInt(bn, 0 - (bn_uint_t)val);
 		else
-			ret = _BnSubUInt(bn, (bn_uint_t)-val);
+			ret = _BnSubUInt(bn, 0 - (bn_uint_t)val);
 	}
 	return ret;
 }
@@ -974,16 +965,17 @@ int BnMulInt(struct RaBigNumber *bn, bn_int_t multiplier)
 	bn_uint128_t val;
 	int i;
 	uint64_t cw;
+	bn_uint_t mul = (bn_uint_t)multiplier;
 
 	if (multiplier < 0) {
 		bn->sign = !bn->sign;
-		multiplier = -multiplier;
+		mul = 0 - mul;
 	}
 	val.high = 0;
 	val.low = 0;
 	for (i = 0; i < bn->length; i++) {
 		cw = val.high;
-		_BnMul128(&val, bn->data[i], multiplier);
+		_BnMul128(&val, bn->data[i], mul);
 		val.low += cw;
 		if (val.low < cw)
 			val.high++;
@@ -1003,14 +995,15 @@ int BnMulInt(struct RaBigNumber *bn, bn_int_t multiplier)
 #else
 	uint64_t val;
 	int i;
+	bn_uint_t mul = (bn_uint_t)multiplier;
 
 	if (multiplier < 0) {
 		bn->sign = !bn->sign;
-		multiplier = -multiplier;
+		mul = 0 - mul;
 	}
 	val = 0;
 	for (i = 0; i < bn->length; i++) {
-		val = (uint64_t)bn->data[i] * (uint32_t)multiplier + (val >> 32);
+		val = (uint64_t)bn->data[i] * mul + (val >> 32);
 		bn->data[i] = (uint32_t)val;
 	}
 	val >>= 32;
@@ -1085,6 +1078,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 	bn_uint128_t val;
 	int i;
 	int length = 0;
+	bn_uint_t div = (bn_uint_t)divisor;
 
 	if (divisor == 0) {
 		assert(0);
@@ -1092,7 +1086,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 	}
 	if (divisor < 0) {
 		bn->sign = !bn->sign;
-		divisor = -divisor;
+		div = 0 - div;
 	}
 
 	val.high = 0;
@@ -1102,10 +1096,10 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 		val.high = val.low;
 		val.low = bn->data[i];
 
-		if (val.high != 0 || val.low >= (bn_uint_t)divisor) {
+		if (val.high != 0 || val.low >= div) {
 			if (length == 0)
 				length = i + 1;
-			bn->data[i] = _BnDiv128(val, (bn_uint_t)divisor, &val.low);
+			bn->data[i] = _BnDiv128(val, div, &val.low);
 		}
 		else {
 			bn->data[i] = 0;
@@ -1125,6 +1119,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 	uint64_t val;
 	int i;
 	int length = 0;
+	bn_uint_t div = (bn_uint_t)divisor;
 
 	if (divisor == 0) {
 		assert(0);
@@ -1132,16 +1127,16 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 	}
 	if (divisor < 0) {
 		bn->sign = !bn->sign;
-		divisor = -divisor;
+		div = 0 - div;
 	}
 	val = 0;
 	for (i = bn->length - 1; i >= 0; i--) {
 		val = (val << 32) + bn->data[i];
-		if (val >= (uint32_t)divisor) {
+		if (val >= div) {
 			if (length == 0)
 				length = i + 1;
-			bn->data[i] = (uint32_t)(val / (uint32_t)divisor);
-			val %= (uint32_t)divisor;
+			bn->data[i] = (uint32_t)(val / div);
+			val %= div;
 		}
 		else {
 			bn->data[i] = 0;
-- 
2.43.0


From 28a71b8fe61bf46fd79a0d28f7876092ef3dcb4b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:43:10 +0000
Subject: [PATCH 12/33] fix: BnMod works in its own storage of one word more
 than the divisor

The remainder was reduced in the destination, one word past its end when its
capacity is the length of the divisor (with a wrong result, since the shift
was refused), and wrongly when the destination is the divisor.
---
 src/com/bignumber.c | 55 ++++++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 25 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index da5ca34..82a6a01 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -568,6 +568,7 @@ int BnSqr(struct RaBigNumber *r, struct RaBigNumber *a)
 // r = a % b
 int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 {
+	struct RaBigNumber *rr;
 	struct RaBigNumber *aa;		// a << n
 	struct RaBigNumber *bb;		// b << n
 	struct RaBigNumber *bq;		// b * q
@@ -581,6 +582,7 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 	bn_uint_t bu;
 	bn_uint_t* ad;
 	bn_uint_t* rd;
+	int result;
 
 	if (r->max_length < b->length) {
 		assert(0);
@@ -592,18 +594,19 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 		return RA_ERR_DIVIDED_BY_ZERO;
 	}
 	if (a->length < b->length) {
-		BnSet(r, a);
-		return RA_ERR_SUCCESS;
+		return BnSet(r, a);
 	}
 
 	aa = BnNewW(a->length + 1);		// a << n
 	bb = BnNewW(b->length + 1);		// b << n
 	bq = BnNewW(b->length + 1);		// b * qu(32bit)
+	rr = BnNewW(b->length + 1);
 
-	if (aa == NULL || bb == NULL || bq == NULL) {
+	if (aa == NULL || bb == NULL || bq == NULL || rr == NULL) {
 		BN_SAFEFREE(aa);
 		BN_SAFEFREE(bb);
 		BN_SAFEFREE(bq);
+		BN_SAFEFREE(rr);
 		return RA_ERR_OUT_OF_MEMORY;
 	}
 
@@ -615,33 +618,33 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 	BnShiftL(aa, (uint32_t)bit);
 	BnShiftL(bb, (uint32_t)bit);
 
-	// copy first bb->length-1 of aa->data to r
-	// this reduce loop count until r gets greater than bb
-	BnSetInt(r, 0);
+	// copy first bb->length-1 of aa->data to rr
+	// this reduce loop count until rr gets greater than bb
+	BnSetInt(rr, 0);
 	if (b->length > 1) {
-		memcpy(r->data, aa->data + aa->length - bb->length + 1, sizeof(bn_uint_t) * ((size_t)bb->length - 1));
-		r->data[bb->length] = 0;
-		r->length = bb->length - 1;
+		memcpy(rr->data, aa->data + aa->length - bb->length + 1, sizeof(bn_uint_t) * ((size_t)bb->length - 1));
+		rr->data[bb->length] = 0;
+		rr->length = bb->length - 1;
 	}
 
 	bu = bb->data[bb->length - 1];		// highst word of bb
 	ad = &aa->data[aa->length - bb->length];
-	rd = &r->data[bb->length - 1];
+	rd = &rr->data[bb->length - 1];
 
 #if BN_WORD_BYTE == 8
 	ru.high = 0;
 	ru.low = 0;
 
 	while (ad >= aa->data) {
-		BnShiftL(r, 64);
-		r->data[0] = (*ad);
+		BnShiftL(rr, 64);
+		rr->data[0] = (*ad);
 
 		// check the length
-		if (r->length > b->length) {
+		if (rr->length > b->length) {
 			ru.low = *rd;
 			ru.high = *(rd + 1);
 		}
-		else if (r->length == b->length) {
+		else if (rr->length == b->length) {
 			ru.low = *rd;
 			ru.high = 0;
 		}
@@ -655,11 +658,11 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 
 			BnSet(bq, bb);
 			BnMulUInt(bq, qu);		// bq = bb * qu
-			while (_BnCmp(r, bq) < 0) {
+			while (_BnCmp(rr, bq) < 0) {
 				_BnSubR(bq, bb);
 				qu--;
 			}
-			_BnSubR(r, bq);		// rr -= bb * qu
+			_BnSubR(rr, bq);		// rr -= bb * qu
 		}
 
 		ad--;
@@ -668,13 +671,13 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 	ru = 0;
 
 	while (ad >= aa->data) {
-		BnShiftL(r, 32);
-		r->data[0] = (*ad);
+		BnShiftL(rr, 32);
+		rr->data[0] = (*ad);
 
 		// check the length
-		if (r->length > b->length)
+		if (rr->length > b->length)
 			ru = ((uint64_t)(*(rd + 1)) << 32) | (*rd);
-		else if (r->length == b->length)
+		else if (rr->length == b->length)
 			ru = *rd;
 		else
 			ru = 0;
@@ -687,25 +690,27 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 
 			BnSet(bq, bb);
 			BnMulUInt(bq, qu);		// bq = bb * qu
-			while (_BnCmp(r, bq) < 0) {
+			while (_BnCmp(rr, bq) < 0) {
 				_BnSubR(bq, bb);
 				qu--;
 			}
-			_BnSubR(r, bq);		// rr -= bb * qu
+			_BnSubR(rr, bq);		// rr -= bb * qu
 		}
 
 		ad--;
 	}
 #endif
 
-	BnShiftR(r, (uint32_t)bit);
-	r->sign = a->sign;
+	BnShiftR(rr, (uint32_t)bit);
+	rr->sign = a->sign;
+	result = BnSet(r, rr);
 
 	BnFree(aa);
 	BnFree(bb);
 	BnFree(bq);
+	BnFree(rr);
 
-	return RA_ERR_SUCCESS;
+	return result;
 }
 
 int BnDiv(struct RaBigNumber *q, struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
-- 
2.43.0


From 7722c412eaf58efcd3749360b0378dd0c11f7172 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:43:10 +0000
Subject: [PATCH 13/33] fix: BnDiv rounds down when the dividend is shorter
 than the divisor

With operands of different sign the quotient was 0 and the remainder negative
(-1 / 2^64), where for operands of equal length the quotient is rounded down;
and a rounded quotient that does not fit is reported.
---
 src/com/bignumber.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 82a6a01..94b8927 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -721,6 +721,7 @@ int BnDiv(struct RaBigNumber *q, struct RaBigNumber *r, struct RaBigNumber *a, s
 	struct RaBigNumber *bq;		// b * q
 	int bit;
 	int length;
+	int result;
 #if BN_WORD_BYTE == 8
 	bn_uint128_t ru;
 #else
@@ -749,6 +750,12 @@ int BnDiv(struct RaBigNumber *q, struct RaBigNumber *r, struct RaBigNumber *a, s
 	}
 
 	if (a->length < b->length) {
+		if ((a->sign ^ b->sign) && !BN_ISZERO(a)) {
+			// round down, as below
+			result = BnAdd(r, a, b);
+			BnSetInt(q, -1);
+			return result;
+		}
 		BnSet(r, a);
 		BnSetInt(q, 0);
 		return RA_ERR_SUCCESS;
@@ -892,11 +899,12 @@ int BnDiv(struct RaBigNumber *q, struct RaBigNumber *r, struct RaBigNumber *a, s
 
 	rr->sign = a->sign;
 	if (q->sign && !BN_ISZERO(rr)) {
-		BnSubInt(q, 1);
-		BnAdd(r, rr, b);
+		result = BnSubInt(q, 1);
+		if (result == RA_ERR_SUCCESS)
+			result = BnAdd(r, rr, b);
 	}
 	else {
-		BnSet(r, rr);
+		result = BnSet(r, rr);
 	}
 
 	BnFree(aa);
@@ -904,7 +912,7 @@ int BnDiv(struct RaBigNumber *q, struct RaBigNumber *r, struct RaBigNumber *a, s
 	BnFree(bq);
 	BnFree(rr);
 
-	return RA_ERR_SUCCESS;
+	return result;
 }
 
 
-- 
2.43.0


From f95eb78717b0570dd3e6b0004c3baf013e90c781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:50 +0000
Subject: [PATCH 14/33] fix: doubling in place keeps the carries between words

---
 src/com/bignumber.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 94b8927..97f0af9 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -354,6 +354,7 @@ int BnDouble(struct RaBigNumber *r, struct RaBigNumber *a)
 {
 	int i;
 	int c;
+	bn_uint_t val;
 	bn_uint_t *rd;
 	bn_uint_t *ad;
 
@@ -367,8 +368,9 @@ int BnDouble(struct RaBigNumber *r, struct RaBigNumber *a)
 	ad = &a->data[0];
 	r->length = a->length;
 	for (i = 0; i < a->length; i++) {
-		*rd = ((*ad) << 1) + c;
-		c = (int)(((*ad) >> (BN_WORD_BIT - 1)) & 1);
+		val = *ad;
+		*rd = (val << 1) + c;
+		c = (int)((val >> (BN_WORD_BIT - 1)) & 1);
 		ad++;
 		rd++;
 	}
-- 
2.43.0


From 73ef722ad88ed9fa9575fc2ff0c8f4dd5a3c735a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 15/33] fix: no byte is written to a buffer that is too small

---
 src/com/bignumber.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 97f0af9..2f086cd 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1529,9 +1529,6 @@ int BnToByteArray(struct RaBigNumber *bn, uint8_t *buffer, int bufferlen)
 		word = neg->data[neg->length - 1];
 		bit = _BnGetMSBPos(word);
 		if ((bit % 8) == 7) {			// if most significant bit is set.
-			if (buffer != NULL) {
-				buffer[0] = 0xff;		// negative
-			}
 			offset++;
 		}
 		len = offset + (bit / 8 + 1) + (neg->length - 1) * BN_WORD_BYTE;
@@ -1543,6 +1540,9 @@ int BnToByteArray(struct RaBigNumber *bn, uint8_t *buffer, int bufferlen)
 			BnFree(neg);
 			return 0;
 		}
+		if (offset > 0) {
+			buffer[0] = 0xff;		// negative
+		}
 		bit = (bit / 8) * 8;
 		for (i = neg->length - 1; i >= 0; i--) {
 			word = ~neg->data[i];
@@ -1561,9 +1561,6 @@ int BnToByteArray(struct RaBigNumber *bn, uint8_t *buffer, int bufferlen)
 		word = bn->data[bn->length - 1];
 		bit = _BnGetMSBPos(word);
 		if ((bit % 8) == 7) {			// if most significant bit is set.
-			if (buffer != NULL) {
-				buffer[0] = 0x00;		// positive
-			}
 			offset++;
 		}
 		len = offset + (bit / 8 + 1) + (bn->length - 1) * BN_WORD_BYTE;
@@ -1573,6 +1570,9 @@ int BnToByteArray(struct RaBigNumber *bn, uint8_t *buffer, int bufferlen)
 		if (bufferlen < len) {
 			return 0;
 		}
+		if (offset > 0) {
+			buffer[0] = 0x00;		// positive
+		}
 		bit = (bit / 8) * 8;
 		for (i = bn->length - 1; i >= 0; i--) {
 			word = bn->data[i];
-- 
2.43.0


From e4b941e632400a4101c16f47764a529e6a59348f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:52 +0000
Subject: [PATCH 16/33] fix: gcd reports a result that does not fit its
 destination

---
 src/com/gcd.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/com/gcd.c b/src/com/gcd.c
index 684f4eb..6c3274c 100644
--- a/src/com/gcd.c
+++ b/src/com/gcd.c
@@ -45,7 +45,8 @@ int GetGCD(/*out*/struct RaBigNumber *r, struct RaBigNumber *m, struct RaBigNumb
 		if (BnCmpUInt(r2, 0) == 0)
 			break;
 	}
-	BnSet(r, m);
+	result = BnSet(r, m);
+	if (result != RA_ERR_SUCCESS) goto _EXIT;
 
 	result = RA_ERR_SUCCESS;
 _EXIT:
@@ -172,24 +173,27 @@ int GetGCDEx(/*out,nullable*/struct RaBigNumber *r, /*out*/struct RaBigNumber *a
 		t_0 = swap;
 	}
 	if (r != NULL) {
-		BnSet(r, m1);
+		result = BnSet(r, m1);
+		if (result != RA_ERR_SUCCESS) goto _EXIT;
 	}
 	if (a != NULL) {
 		// if ( r == 1 ) --> a is inverse of m (m*a mod n = 1)
 		if (isUnsigned && BN_ISNEG(s_1)) {
-			BnAdd(a, s_1, n);
+			result = BnAdd(a, s_1, n);
 		}
 		else {
-			BnSet(a, s_1);		// if ( r == 1 ) --> a is inverse of m (m*a mod n = 1)
+			result = BnSet(a, s_1);		// if ( r == 1 ) --> a is inverse of m (m*a mod n = 1)
 		}
+		if (result != RA_ERR_SUCCESS) goto _EXIT;
 	}
 	if (b != NULL) {
 		if (isUnsigned && BN_ISNEG(t_1)) {
-			BnAdd(b, t_1, m);
+			result = BnAdd(b, t_1, m);
 		}
 		else {
-			BnSet(b, t_1);
+			result = BnSet(b, t_1);
 		}
+		if (result != RA_ERR_SUCCESS) goto _EXIT;
 	}
 
 	result = RA_ERR_SUCCESS;
-- 
2.43.0


From f7e86dcf47c7de3bfc0fc4be21b78397ea9b1cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:52 +0000
Subject: [PATCH 17/33] fix: a failed allocation in RaMontCreate no longer
 frees garbage

---
 src/com/bignumber.c  | 2 ++
 src/com/montexpmod.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 2f086cd..7688578 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -67,6 +67,8 @@ void BnFree(struct RaBigNumber * bn)
 
 void BnClearFree(struct RaBigNumber* bn)
 {
+	if (bn == NULL)
+		return;
 	memset(bn, 0, sizeof(struct RaBigNumber) + sizeof(bn_uint_t) * bn->max_length);
 	free(bn);
 }
diff --git a/src/com/montexpmod.c b/src/com/montexpmod.c
index 7d6ad32..9d5027d 100644
--- a/src/com/montexpmod.c
+++ b/src/com/montexpmod.c
@@ -76,6 +76,8 @@ int RaMontCreate(struct RaBigNumber *N, /*out*/struct RaMontCtx **montCtx)
 		goto _EXIT;
 	}
 
+	memset(ctx, 0, sizeof(struct RaMontCtx));
+
 	B = BnNewW(2);
 	if (B == NULL) {
 		result = RA_ERR_OUT_OF_MEMORY;
-- 
2.43.0


From d32bfae6a2e42c8d159cc4e697a1ccbc688b3f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:52 +0000
Subject: [PATCH 18/33] fix: failed allocations in BnToByteArray and the
 primality test are reported

---
 src/com/bignumber.c | 3 +++
 src/com/prime.c     | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 7688578..9148673 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1527,6 +1527,9 @@ int BnToByteArray(struct RaBigNumber *bn, uint8_t *buffer, int bufferlen)
 	if (bn->sign && !BN_ISZERO(bn)) {
 		struct RaBigNumber *neg;
 		neg = BnClone(bn);
+		if (neg == NULL) {
+			return 0;
+		}
 		BnAddInt(neg, 1);		// neg = ~bn + 1 = ~(bn + 1)
 		word = neg->data[neg->length - 1];
 		bit = _BnGetMSBPos(word);
diff --git a/src/com/prime.c b/src/com/prime.c
index 0f00fec..4d8f49f 100644
--- a/src/com/prime.c
+++ b/src/com/prime.c
@@ -292,6 +292,10 @@ static int CheckMillerRabin(struct RaBigNumber *bn, int count, struct RaRandom *
 	}
 
 	n1 = BnClone(bn);
+	if (n1 == NULL) {
+		result = RA_ERR_OUT_OF_MEMORY;
+		goto _EXIT;
+	}
 	BnSubInt(n1, 1);	// n1 = n - 1
 
 	s = 0;
-- 
2.43.0


From e414474adcd2826f748a2ba1cfda9b5418580f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:52 +0000
Subject: [PATCH 19/33] fix: prime generation releases its generator when it
 fails

---
 src/com/prime.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/com/prime.c b/src/com/prime.c
index 4d8f49f..5c61a50 100644
--- a/src/com/prime.c
+++ b/src/com/prime.c
@@ -456,22 +456,21 @@ int RaGenPrimeNumberEx(struct RaBigNumber *bn, int bit, int(*progress)(int count
 				break;
 		}
 		result = GenProbablePrimeNumber(bn, bit, rnd);
-		if (result != RA_ERR_SUCCESS) {
-			return result;
-		}
+		if (result != RA_ERR_SUCCESS) goto _EXIT;
 
 		result = CheckMillerRabin(bn, checkCount, rnd, &isPrime);
-		if (result != RA_ERR_SUCCESS) {
-			return result;
-		}
+		if (result != RA_ERR_SUCCESS) goto _EXIT;
 		if (isPrime) {
 			break;
 		}
 	}
+
+	result = RA_ERR_SUCCESS;
+_EXIT:
 	if (tmpRnd != NULL)
 		RaRandomDestroy(tmpRnd);
 
-	return RA_ERR_SUCCESS;
+	return result;
 }
 
 int RaIsPrimeNumber(struct RaBigNumber *bn)
-- 
2.43.0


From a56ff6e957fda348cbd267e80d64077535a00e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:52 +0000
Subject: [PATCH 20/33] fix: prime generation reports a number too small for
 the requested size

---
 src/com/prime.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/com/prime.c b/src/com/prime.c
index 5c61a50..2fd6f2a 100644
--- a/src/com/prime.c
+++ b/src/com/prime.c
@@ -380,6 +380,7 @@ _EXIT:
 
 static int GenProbablePrimeNumber(struct RaBigNumber *bn, int bit, struct RaRandom *rnd)
 {
+	int result;
 	uint32_t *mods = NULL;
 	int i;
 	uint32_t add;
@@ -392,7 +393,11 @@ static int GenProbablePrimeNumber(struct RaBigNumber *bn, int bit, struct RaRand
 	}
 
 	for (;;) {
-		BnGetRandomRSA(bn, bit, rnd);
+		result = BnGetRandomRSA(bn, bit, rnd);
+		if (result != RA_ERR_SUCCESS) {
+			free(mods);
+			return result;
+		}
 
 		for (i = 0; i < NUM_PRIME; i++) {
 			BnModUInt(bn, primes[i], &mod);
-- 
2.43.0


From d73bec9354ad1df55282f9ca93a0a1e5205d04c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:12 +0000
Subject: [PATCH 21/33] fix: the primality test returns for 3 and for negative
 numbers

---
 src/com/prime.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/com/prime.c b/src/com/prime.c
index 2fd6f2a..38266ad 100644
--- a/src/com/prime.c
+++ b/src/com/prime.c
@@ -286,8 +286,12 @@ static int CheckMillerRabin(struct RaBigNumber *bn, int count, struct RaRandom *
 	bn_uint_t data;
 	struct RaMontCtx *ctx = NULL;
 
-	if (BN_ISZERO(bn) || BN_ISONE(bn) || BN_ISEVEN(bn) ) {
-		*probable = BN_ISTWO(bn);
+	if (BN_ISNEG(bn) || BN_ISZERO(bn) || BN_ISONE(bn) || BN_ISEVEN(bn) ) {
+		*probable = !BN_ISNEG(bn) && BN_ISTWO(bn);
+		return RA_ERR_SUCCESS;
+	}
+	if (BnCmpUInt(bn, 3) == 0) {		// there is no base between 1 and n - 1
+		*probable = 1;
 		return RA_ERR_SUCCESS;
 	}
 
-- 
2.43.0


From cf6708ca39968fca3fd16cd91a3feb87cf314f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:12 +0000
Subject: [PATCH 22/33] fix: prime generation keeps the requested bit length
 for small sizes

---
 src/com/prime.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/com/prime.c b/src/com/prime.c
index 38266ad..6231709 100644
--- a/src/com/prime.c
+++ b/src/com/prime.c
@@ -396,6 +396,11 @@ static int GenProbablePrimeNumber(struct RaBigNumber *bn, int bit, struct RaRand
 		return RA_ERR_OUT_OF_MEMORY;
 	}
 
+	if (bit < 2) {			// there is no odd prime of this size
+		free(mods);
+		return RA_ERR_INVALID_PARAM;
+	}
+
 	for (;;) {
 		result = BnGetRandomRSA(bn, bit, rnd);
 		if (result != RA_ERR_SUCCESS) {
@@ -408,9 +413,10 @@ static int GenProbablePrimeNumber(struct RaBigNumber *bn, int bit, struct RaRand
 			mods[i] = (uint32_t)mod;
 		}
 		add = 0;
+		val = _BnGetUInt64(bn);
 		for (;;) {
 			for (i = 0; i < NUM_PRIME; i++) {
-				if ((mods[i] + add) % primes[i] == 0) {
+				if ((mods[i] + add) % primes[i] == 0 && (bit > 32 || val + add != primes[i])) {
 					add += 2;
 					break;
 				}
@@ -420,14 +426,14 @@ static int GenProbablePrimeNumber(struct RaBigNumber *bn, int bit, struct RaRand
 		}
 
 		// avoid overflow. if a random value is 0xffff....fff0 and an add value is 0x10, bit count will be unexpectedly increased. 
-		val = _BnGetUInt64(bn);
 		if (val + add < val)
 			continue;
 
-		break;
+		BnAddUInt(bn, add);
+		if (BnGetBitLength(bn) == bit)
+			break;
 	}
 
-	BnAddUInt(bn, add);
 	free(mods);
 
 	return RA_ERR_SUCCESS;
-- 
2.43.0


From 4c310cfd3df0e40fad6a0988002558e3eeae7afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:12 +0000
Subject: [PATCH 23/33] fix: RaRandom does not return 0

---
 src/com/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/com/random.c b/src/com/random.c
index c7618da..44dffc2 100644
--- a/src/com/random.c
+++ b/src/com/random.c
@@ -244,7 +244,7 @@ double RaRandom(struct RaRandom *ctx)
 	do {
 		RaRandomBytes(ctx, 4, rnd_buffer);
 		rnd_val = (rnd_buffer[0] << 24) | (rnd_buffer[1] << 16) | (rnd_buffer[2] << 8) | rnd_buffer[3];
-	} while (rnd_val == UINT32_MAX);
+	} while (rnd_val == UINT32_MAX || rnd_val == 0);
 
 	return (double)rnd_val / UINT32_MAX;
 }
-- 
2.43.0


From 6f06628eabdbafafbda26482e803878770d335cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:12 +0000
Subject: [PATCH 24/33] fix: an INTEGER without content is refused and not read

---
 src/pk/rsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index f90f6ce..9d4c52b 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -282,7 +282,7 @@ static int RaRsaNewASN1Integer(const uint8_t *asn1Data, struct RaAsn1Node *node,
 	struct RaBigNumber *bn = NULL;
 	int bit;
 
-	if (node->type != RA_ASN1_OBJ_INTEGER) {
+	if (node->type != RA_ASN1_OBJ_INTEGER || node->dataLength <= 0 || node->dataLength > INT_MAX / 8) {
 		result = RA_ERR_INVALID_DATA;
 		goto _EXIT;
 	}
-- 
2.43.0


From d226dec127424fabb19d5bf47745282a6c19405e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:12 +0000
Subject: [PATCH 25/33] fix: a shorter object identifier is not compared beyond
 its end

---
 src/pk/rsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index 9d4c52b..3759dab 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -439,7 +439,7 @@ _EXIT:
 }
 
 #define OID_RSA_Encryption		"\x2a\x86\x48\x86\xf7\x0d\x01\x01\x01"		// 1.2.840.113549.1.1.1
-#define IS_OID(data, node, oid)		((node)->type == RA_ASN1_OBJ_IDENTIFIER && memcmp((uint8_t*)data+(node)->dataOffset, oid, sizeof(oid)-1) == 0)
+#define IS_OID(data, node, oid)		((node)->type == RA_ASN1_OBJ_IDENTIFIER && (node)->dataLength == sizeof(oid)-1 && memcmp((uint8_t*)data+(node)->dataOffset, oid, sizeof(oid)-1) == 0)
 
 
 // pkcs#8, byte array = BER
-- 
2.43.0


From 581a30a51b20ec3b7f26c42cce91a10f14a107b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:12 +0000
Subject: [PATCH 26/33] fix: a key whose modulus is not positive is refused

---
 src/pk/rsa.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index 3759dab..6479164 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -341,6 +341,10 @@ int RaRsaCreateKeyPub(const uint8_t *asn1Data, int dataLen, /*out*/struct RaRsaK
 	result = RaRsaNewASN1Integer(asn1Data, cur, &key->pub);
 	if (result != RA_ERR_SUCCESS) goto _EXIT;
 
+	if (BN_ISNEG(key->mod) || BN_ISZERO(key->mod)) {
+		result = RA_ERR_INVALID_DATA;
+		goto _EXIT;
+	}
 	result = RaMontCreate(key->mod, &key->mont);
 	if (result != RA_ERR_SUCCESS) goto _EXIT;
 
@@ -418,6 +422,10 @@ int RaRsaCreateKeyPriv(const uint8_t *asn1Data, int dataLen, /*out*/struct RaRsa
 	result = RaRsaNewASN1Integer(asn1Data, cur, &key->coeff);
 	if (result != RA_ERR_SUCCESS) goto _EXIT;
 
+	if (BN_ISNEG(key->mod) || BN_ISZERO(key->mod)) {
+		result = RA_ERR_INVALID_DATA;
+		goto _EXIT;
+	}
 	result = RaMontCreate(key->mod, &key->mont);
 	if (result != RA_ERR_SUCCESS) goto _EXIT;
 
-- 
2.43.0


From 90cc9bbae1dad0e3d2df7423d80366ce41378afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:12 +0000
Subject: [PATCH 27/33] fix: ASN.1 lengths do not overflow

---
 src/pk/asn1.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pk/asn1.c b/src/pk/asn1.c
index d8e2d60..8851cc0 100644
--- a/src/pk/asn1.c
+++ b/src/pk/asn1.c
@@ -120,11 +120,12 @@ static int ASN1Read(struct RaAsn1Ctx *ctx)
 {
 	int result;
 	int length;
+	uint32_t dataLength;
 
 	result = RaAsn1CreateNode(ctx);
 	if (result != RA_ERR_SUCCESS) goto _EXIT;
 
-	if (ctx->dataIndex + 2 > ctx->dataEnd) {	// at least two bytes are needed
+	if (ctx->dataEnd - ctx->dataIndex < 2) {	// at least two bytes are needed
 		result = RA_ERR_OUT_OF_BUFFER;
 		goto _EXIT;
 	}
@@ -152,15 +153,16 @@ static int ASN1Read(struct RaAsn1Ctx *ctx)
 			result = RA_ERR_INVALID_DATA;
 			goto _EXIT;
 		}
-		if (ctx->dataIndex + length > ctx->dataEnd) {
+		if (ctx->dataEnd - ctx->dataIndex < length) {
 			result = RA_ERR_OUT_OF_BUFFER;
 			goto _EXIT;
 		}
-		ctx->cur->dataLength = 0;
+		dataLength = 0;
 		while (length-- > 0) {
-			ctx->cur->dataLength <<= 8;
-			ctx->cur->dataLength += ctx->data[ctx->dataIndex++];
+			dataLength <<= 8;
+			dataLength += ctx->data[ctx->dataIndex++];
 		}
+		ctx->cur->dataLength = (int)dataLength;
 	}
 
 	ctx->cur->dataOffset = ctx->dataIndex;
-- 
2.43.0


From 542519465d3e2c3dbba116742ffdb450d98c3b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:12 +0000
Subject: [PATCH 28/33] fix: RSA refuses messages and signatures that are not
 below the modulus

---
 src/pk/rsa.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index 6479164..cdba98b 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -151,9 +151,19 @@ void RaRsaDestroyKeyPair(struct RaRsaKeyPair *key)
 	free(key);
 }
 
+// a message has to be in 0..n-1
+static int RaRsaIsInRange(struct RaRsaKeyPair *key, struct RaBigNumber *bn)
+{
+	if (BN_ISNEG(bn) && !BN_ISZERO(bn))
+		return 0;
+	return BnCmp(bn, key->mod) < 0;
+}
+
 int RaRsaEncrypt(struct RaRsaKeyPair* key, struct RaBigNumber *message, /*out*/struct RaBigNumber *secure)
 {
 	int result;
+	if (!RaRsaIsInRange(key, message))
+		return RA_ERR_INVALID_PARAM;
 	result = RaMontExpMod(key->mont, secure, message, key->pub);
 	return result;
 }
@@ -163,6 +173,8 @@ int RaRsaDecrypt(struct RaRsaKeyPair* key, struct RaBigNumber *secure, /*out*/st
 	int result;
 	if (key->priv == NULL)
 		return RA_ERR_INVALID_DATA;
+	if (!RaRsaIsInRange(key, secure))
+		return RA_ERR_INVALID_PARAM;
 	result = RaMontExpMod(key->mont, message, secure, key->priv);
 	return result;
 }
@@ -172,6 +184,8 @@ int RaRsaSign( struct RaRsaKeyPair* key, struct RaBigNumber *message, /*out*/str
 	int result;
 	if ( key->priv == NULL )
 		return RA_ERR_INVALID_DATA;
+	if ( !RaRsaIsInRange( key, message ) )
+		return RA_ERR_INVALID_PARAM;
 	result = RaMontExpMod( key->mont, secure, message, key->priv );
 	return result;
 }
@@ -181,6 +195,9 @@ int RaRsaVerify(struct RaRsaKeyPair* key, struct RaBigNumber *secure, struct RaB
 	int result;
 	struct RaBigNumber *decrypted;
 
+	if (!RaRsaIsInRange(key, secure))
+		return RA_ERR_INVALID_PARAM;
+
 	decrypted = BnNewW(key->mod->length);
 	if (decrypted == NULL)
 		return RA_ERR_OUT_OF_MEMORY;
-- 
2.43.0


From 7af1ce3f2027824ffd2a6bac00b55a1728c1fbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:12 +0000
Subject: [PATCH 29/33] fix: failed allocations in RaRsaVerify and
 RaRsaVerifyKey are reported

---
 src/pk/rsa.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index cdba98b..ba4abf8 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -202,7 +202,11 @@ int RaRsaVerify(struct RaRsaKeyPair* key, struct RaBigNumber *secure, struct RaB
 	if (decrypted == NULL)
 		return RA_ERR_OUT_OF_MEMORY;
 
-	RaMontExpMod(key->mont, decrypted, secure, key->pub);
+	result = RaMontExpMod(key->mont, decrypted, secure, key->pub);
+	if (result != RA_ERR_SUCCESS) {
+		BnFree(decrypted);
+		return result;
+	}
 	result = BnCmp(message, decrypted);
 
 	BnFree(decrypted);
@@ -238,6 +242,10 @@ int RaRsaVerifyKey(struct RaRsaKeyPair *key)
 	bit = BnGetBitLength(key->mod);
 	temp = BnNew(bit);
 	phi = BnNew(bit);
+	if (temp == NULL || phi == NULL) {
+		result = RA_ERR_OUT_OF_MEMORY;
+		goto _EXIT;
+	}
 
 	CHECK_KEY_DATA(BnGetBitLength(key->prime1) + BnGetBitLength(key->prime2) == bit);
 
-- 
2.43.0


From a6435ea4e1a5d8cdc7af4dcbdd11f3efb69f7c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:12 +0000
Subject: [PATCH 30/33] fix: key generation only uses primes for which e is
 invertible

---
 src/pk/rsa.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index ba4abf8..6096c11 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -66,7 +66,7 @@ int RaRsaCreateKeyPair(int bit, /*out*/struct RaRsaKeyPair** keyPair) {
 
 	BnSetUInt(key->pub, 65537);
 
-	do {
+	for (;;) {
 		result = RaGenPrimeNumberEx(key->prime1, bit / 2, NULL, NULL, rnd);
 		if (result != RA_ERR_SUCCESS) goto _EXIT;
 
@@ -76,14 +76,18 @@ int RaRsaCreateKeyPair(int bit, /*out*/struct RaRsaKeyPair** keyPair) {
 		} while ( BnCmp( key->prime1, key->prime2 ) == 0 );
 
 		BnMul(key->mod, key->prime1, key->prime2);
-	} while(BnGetBitLength(key->mod) != bit);
+		if (BnGetBitLength(key->mod) != bit)
+			continue;
+
+		BnSubInt(key->prime1, 1);
+		BnSubInt(key->prime2, 1);
+		BnMul(phi, key->prime1, key->prime2);
+		result = GetGCDEx(key->coeff, key->priv, NULL, key->pub, phi, 1);
+		if (result != RA_ERR_SUCCESS) goto _EXIT;
+		if (BN_ISONE(key->coeff))		// gcd(e, phi) = 1
+			break;
+	}
 
-	BnSubInt(key->prime1, 1);
-	BnSubInt(key->prime2, 1);
-	BnMul(phi, key->prime1, key->prime2);
-	result = GetGCDEx(NULL, key->priv, NULL, key->pub, phi, 1);
-	if (result != RA_ERR_SUCCESS) goto _EXIT;
-	
 	//*
 	result = BnMod(key->exp1, key->priv, key->prime1);
 	if (result != RA_ERR_SUCCESS) goto _EXIT;
-- 
2.43.0


From e4bb5e82cdc4a527f99d84a70aa0c5cea3eacffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:12 +0000
Subject: [PATCH 31/33] fix: RaRsaVerifyKey refuses a public exponent that is
 not positive

---
 src/pk/rsa.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index 6096c11..397ed82 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -237,6 +237,7 @@ int RaRsaVerifyKey(struct RaRsaKeyPair *key)
 	int bit;
 
 	CHECK_KEY_DATA(BnCmp(key->pub, key->mod) < 0);
+	CHECK_KEY_DATA(!BN_ISNEG(key->pub) && !BN_ISZERO(key->pub));
 
 	if (key->priv == NULL) {
 		result = RA_ERR_SUCCESS;
-- 
2.43.0


From 3aa8c1fd56f44a9faceda29162b3da91a14378dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:12 +0000
Subject: [PATCH 32/33] fix: destroyed objects are wiped in optimized builds,
 too

---
 src/cipher/aes.c          |  2 +-
 src/cipher/aria.c         |  2 +-
 src/cipher/blowfish.c     |  2 +-
 src/cipher/des.c          |  2 +-
 src/cipher/rc4.c          |  2 +-
 src/cipher/seed.c         |  2 +-
 src/com/bignumber.c       |  2 +-
 src/com/montexpmod.c      |  2 +-
 src/com/random.c          |  4 ++--
 src/digest/has160.c       |  2 +-
 src/digest/md2.c          |  2 +-
 src/digest/md4.c          |  2 +-
 src/digest/md5.c          |  2 +-
 src/digest/sha1.c         |  2 +-
 src/digest/sha2.c         |  2 +-
 src/include/racrypt.h     |  2 ++
 src/include/racrypt_com.h | 11 +++++++++++
 src/pk/rsa.c              |  2 +-
 18 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/src/cipher/aes.c b/src/cipher/aes.c
index da5c555..5a67ed1 100644
--- a/src/cipher/aes.c
+++ b/src/cipher/aes.c
@@ -364,7 +364,7 @@ int RaAesCreate(const uint8_t *key, enum RaAesKeyType keyType, enum RaBlockCiphe
 void RaAesDestroy(struct RaAesCtx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaAesCtx));
+		RaClearMemory(ctx, sizeof(struct RaAesCtx));
 		free(ctx);
 	}
 }
diff --git a/src/cipher/aria.c b/src/cipher/aria.c
index 0a060d0..f1fc729 100644
--- a/src/cipher/aria.c
+++ b/src/cipher/aria.c
@@ -358,7 +358,7 @@ int RaAriaCreate(const uint8_t *key, enum RaAriaKeyType keyType, enum RaBlockCip
 void RaAriaDestroy(struct RaAriaCtx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaAriaCtx));
+		RaClearMemory(ctx, sizeof(struct RaAriaCtx));
 		free(ctx);
 	}
 }
diff --git a/src/cipher/blowfish.c b/src/cipher/blowfish.c
index 2c3707a..e95a90d 100644
--- a/src/cipher/blowfish.c
+++ b/src/cipher/blowfish.c
@@ -317,7 +317,7 @@ int RaBlowfishCreate(const uint8_t *key, int keyLen, enum RaBlockCipherMode opMo
 void RaBlowfishDestroy(struct RaBlowfishCtx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaBlowfishCtx));
+		RaClearMemory(ctx, sizeof(struct RaBlowfishCtx));
 		free(ctx);
 	}
 }
diff --git a/src/cipher/des.c b/src/cipher/des.c
index 3d5a7f4..20fccd8 100644
--- a/src/cipher/des.c
+++ b/src/cipher/des.c
@@ -569,7 +569,7 @@ int RaDesCreate(const uint8_t *key, enum RaDesKeyType keyType, enum RaBlockCiphe
 void RaDesDestroy(struct RaDesCtx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaDesCtx));
+		RaClearMemory(ctx, sizeof(struct RaDesCtx));
 		free(ctx);
 	}
 }
diff --git a/src/cipher/rc4.c b/src/cipher/rc4.c
index 5f08f42..a418f0c 100644
--- a/src/cipher/rc4.c
+++ b/src/cipher/rc4.c
@@ -22,7 +22,7 @@ int RaRc4Create(const uint8_t* key, int keyLen, struct RaRc4Ctx** ctxp)
 void RaRc4Destroy(struct RaRc4Ctx* ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaRc4Ctx));
+		RaClearMemory(ctx, sizeof(struct RaRc4Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/cipher/seed.c b/src/cipher/seed.c
index 7c8bd69..11612ab 100644
--- a/src/cipher/seed.c
+++ b/src/cipher/seed.c
@@ -322,7 +322,7 @@ int RaSeedCreate(const uint8_t *key, enum RaBlockCipherMode opMode, struct RaSee
 void RaSeedDestroy(struct RaSeedCtx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaSeedCtx));
+		RaClearMemory(ctx, sizeof(struct RaSeedCtx));
 		free(ctx);
 	}
 }
diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 9148673..de4bc40 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -69,7 +69,7 @@ void BnClearFree(struct RaBigNumber* bn)
 {
 	if (bn == NULL)
 		return;
-	memset(bn, 0, sizeof(struct RaBigNumber) + sizeof(bn_uint_t) * bn->max_length);
+	RaClearMemory(bn, sizeof(struct RaBigNumber) + sizeof(bn_uint_t) * bn->max_length);
 	free(bn);
 }
 
diff --git a/src/com/montexpmod.c b/src/com/montexpmod.c
index 9d5027d..d24a3b5 100644
--- a/src/com/montexpmod.c
+++ b/src/com/montexpmod.c
@@ -131,7 +131,7 @@ void RaMontDestroy(struct RaMontCtx* ctx)
 		BnClearFree(ctx->BB);
 		BnClearFree(ctx->tmp);
 		BnClearFree(ctx->mul);
-		memset(ctx, 0, sizeof(struct RaMontCtx));
+		RaClearMemory(ctx, sizeof(struct RaMontCtx));
 		free(ctx);
 	}
 }
diff --git a/src/com/random.c b/src/com/random.c
index 44dffc2..1016ad3 100644
--- a/src/com/random.c
+++ b/src/com/random.c
@@ -40,7 +40,7 @@ int RaRandomCreate(enum RaRandomAlgorithm algorithm, uint8_t *seed, int seed_len
 	}
 	result = RaRandomInit(ctx, algorithm, seed, seed_len);
 	if (result != RA_ERR_SUCCESS) {
-		memset(ctx, 0, sizeof(struct RaRandom));
+		RaClearMemory(ctx, sizeof(struct RaRandom));
 		free(ctx);
 		return result;
 	}
@@ -68,7 +68,7 @@ void RaRandomDestroy(struct RaRandom *ctx)
 				break;
 			}
 		}
-		memset(ctx, 0, sizeof(struct RaRandom));
+		RaClearMemory(ctx, sizeof(struct RaRandom));
 		free(ctx);
 	}
 }
diff --git a/src/digest/has160.c b/src/digest/has160.c
index 30a367a..16dee4c 100644
--- a/src/digest/has160.c
+++ b/src/digest/has160.c
@@ -34,7 +34,7 @@ int RaHas160Create(struct RaHas160Ctx **ctxp)
 void RaHas160Destroy(struct RaHas160Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaHas160Ctx));
+		RaClearMemory(ctx, sizeof(struct RaHas160Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/digest/md2.c b/src/digest/md2.c
index d25a2a0..e037a8b 100644
--- a/src/digest/md2.c
+++ b/src/digest/md2.c
@@ -48,7 +48,7 @@ int RaMd2Create(struct RaMd2Ctx **ctxp)
 void RaMd2Destroy(struct RaMd2Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaMd2Ctx));
+		RaClearMemory(ctx, sizeof(struct RaMd2Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/digest/md4.c b/src/digest/md4.c
index 3a8ef2e..85ddd49 100644
--- a/src/digest/md4.c
+++ b/src/digest/md4.c
@@ -39,7 +39,7 @@ int RaMd4Create(struct RaMd4Ctx **ctxp)
 void RaMd4Destroy(struct RaMd4Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaMd4Ctx));
+		RaClearMemory(ctx, sizeof(struct RaMd4Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/digest/md5.c b/src/digest/md5.c
index 67fca1d..8e770e7 100644
--- a/src/digest/md5.c
+++ b/src/digest/md5.c
@@ -41,7 +41,7 @@ int RaMd5Create(struct RaMd5Ctx **ctxp)
 void RaMd5Destroy(struct RaMd5Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaMd5Ctx));
+		RaClearMemory(ctx, sizeof(struct RaMd5Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/digest/sha1.c b/src/digest/sha1.c
index eabed91..ce0c850 100644
--- a/src/digest/sha1.c
+++ b/src/digest/sha1.c
@@ -30,7 +30,7 @@ int RaSha1Create(struct RaSha1Ctx **ctxp)
 void RaSha1Destroy(struct RaSha1Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaSha1Ctx));
+		RaClearMemory(ctx, sizeof(struct RaSha1Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/digest/sha2.c b/src/digest/sha2.c
index 30f97e3..849778e 100644
--- a/src/digest/sha2.c
+++ b/src/digest/sha2.c
@@ -35,7 +35,7 @@ int RaSha2Create(enum RaDigestAlgorithm algorithm, struct RaSha2Ctx **ctxp)
 void RaSha2Destroy(struct RaSha2Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaSha2Ctx));
+		RaClearMemory(ctx, sizeof(struct RaSha2Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/include/racrypt.h b/src/include/racrypt.h
index 2bab4df..cf66e12 100644
--- a/src/include/racrypt.h
+++ b/src/include/racrypt.h
@@ -25,6 +25,8 @@
 #include <limits.h>
 #endif
 
+#include <stddef.h>
+
 #ifdef HAVE_STDINT_H
 #include <stdint.h>
 #else
diff --git a/src/include/racrypt_com.h b/src/include/racrypt_com.h
index edb8046..12e5c85 100644
--- a/src/include/racrypt_com.h
+++ b/src/include/racrypt_com.h
@@ -15,6 +15,17 @@ extern "C" {
 #define RA_ERR_INVALID_PARAM				(-5)
 #define RA_ERR_INVALID_DATA					(-6)
 
+/*
+* Overwrite memory that is about to be released.
+* Stores by memset() just before free() are dead and removed by optimizing compilers.
+*/
+static inline void RaClearMemory(void *buffer, size_t len)
+{
+	volatile uint8_t *p = (volatile uint8_t *)buffer;
+	while (len-- > 0) {
+		*p++ = 0;
+	}
+}
 
 #ifdef __cplusplus
 }
diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index 397ed82..8fb6cf9 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -151,7 +151,7 @@ void RaRsaDestroyKeyPair(struct RaRsaKeyPair *key)
 	if (key->mont != NULL) {
 		RaMontDestroy(key->mont);
 	}
-	memset(key, 0, sizeof(struct RaRsaKeyPair));
+	RaClearMemory(key, sizeof(struct RaRsaKeyPair));
 	free(key);
 }
 
-- 
2.43.0


From 5a1c6725555d6cf0e70d28960c59465bbf8e7452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:13 +0000
Subject: [PATCH 33/33] fix: RaRandomInt draws from the full 32-bit range, too

---
 src/com/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/com/random.c b/src/com/random.c
index 1016ad3..daf1295 100644
--- a/src/com/random.c
+++ b/src/com/random.c
@@ -251,6 +251,6 @@ double RaRandom(struct RaRandom *ctx)
 
 uint32_t RaRandomInt(struct RaRandom *ctx, uint32_t min, uint32_t max)
 {
-	uint32_t range = max - min + 1;
+	double range = (double)max - min + 1;
 	return min + (uint32_t)(range * RaRandom(ctx));
 }
-- 
2.43.0

