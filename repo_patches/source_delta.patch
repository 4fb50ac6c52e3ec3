From 9e9d45e5111a44782c1ba8c0581ad0b96f67bf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:45 +0000
Subject: [PATCH 01/16] fix: RangeSet iterators: operator-(n) must move
 backwards

it - n returned it + n, so e.g. rs.end() - 1 pointed past the ranges.
---
 include/lsst/sphgeom/RangeSet.h | 2 +-
 src/RangeSet.cc                 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lsst/sphgeom/RangeSet.h b/include/lsst/sphgeom/RangeSet.h
index e0e7ac4..ea173bc 100644
--- a/include/lsst/sphgeom/RangeSet.h
+++ b/include/lsst/sphgeom/RangeSet.h
@@ -149,7 +149,7 @@ public:
         Iterator operator--(int) { Iterator i(*this); p -= 2; return i; }
 
         Iterator operator+(ptrdiff_t n) const { return Iterator(p + 2 * n); }
-        Iterator operator-(ptrdiff_t n) const { return Iterator(p + 2 * n); }
+        Iterator operator-(ptrdiff_t n) const { return Iterator(p - 2 * n); }
 
         Iterator & operator+=(ptrdiff_t n) { p += 2 * n; return *this; }
         Iterator & operator-=(ptrdiff_t n) { p -= 2 * n; return *this; }
diff --git a/src/RangeSet.cc b/src/RangeSet.cc
index 30b8f02..c64a13e 100644
--- a/src/RangeSet.cc
+++ b/src/RangeSet.cc
@@ -70,7 +70,7 @@ struct RangeIter {
     RangeIter operator--(int) { RangeIter i(*this); ptr -= 2; return i; }
 
     RangeIter operator+(ptrdiff_t n) const { return RangeIter(ptr + 2 * n); }
-    RangeIter operator-(ptrdiff_t n) const { return RangeIter(ptr + 2 * n); }
+    RangeIter operator-(ptrdiff_t n) const { return RangeIter(ptr - 2 * n); }
 
     RangeIter & operator+=(ptrdiff_t n) { ptr += 2 * n; return *this; }
     RangeIter & operator-=(ptrdiff_t n) { ptr -= 2 * n; return *this; }
-- 
2.43.0


From 9d2a34d5e216c7b911a3e1956a39de39c63a28c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:11 +0000
Subject: [PATCH 02/16] fix: BigInteger: strip leading zeros of the difference,
 not of the minuend

Subtracting a larger magnitude from a smaller one left leading zero digits in
the result, so later comparisons by digit count were wrong.
---
 src/BigInteger.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cc b/src/BigInteger.cc
index 99e345c..2c7fbfc 100644
--- a/src/BigInteger.cc
+++ b/src/BigInteger.cc
@@ -103,7 +103,7 @@ unsigned _sub(std::uint32_t * const m,
     // If we subtracted anything from the most significant digit in m1, strip
     // any leading zeroes that may have been introduced.
     if (i == size1) {
-        while (m1[i - 1] == 0) { --i; }
+        while (m[i - 1] == 0) { --i; }
         return i;
     }
     // Otherwise, copy the remaining digits from m1 to m.
-- 
2.43.0


From d739e8c238e99383a40e32c435e32ab5eb6dde96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:11 +0000
Subject: [PATCH 03/16] fix: BigInteger::multiplyPow2: zero the digits below
 the shifted value

For shifts of more than 32 bits (not a multiple of 32) digits 1..z were zeroed
instead of 0..z-1, which lost the lowest shifted digit.
---
 src/BigInteger.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cc b/src/BigInteger.cc
index 2c7fbfc..b533c25 100644
--- a/src/BigInteger.cc
+++ b/src/BigInteger.cc
@@ -246,7 +246,7 @@ BigInteger & BigInteger::multiplyPow2(unsigned n) {
         }
         _digits[z] = high << s;
         for (unsigned i = z; i != 0; --i) {
-            _digits[i] = 0;
+            _digits[i - 1] = 0;
         }
         _size = (_digits[size] == 0) ? size: size + 1;
     }
-- 
2.43.0


From bc5c28a601f3fa5856376bf8d1f06d2c45298565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:29 +0000
Subject: [PATCH 04/16] fix: BigInteger::multiply: wrong product when the
 operands overlap

Multiplying by an integer with more digits (or by itself) stored the product
over the factor that was still being read. Also check the capacity before
changing the sign.
---
 src/BigInteger.cc | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/BigInteger.cc b/src/BigInteger.cc
index b533c25..051c120 100644
--- a/src/BigInteger.cc
+++ b/src/BigInteger.cc
@@ -33,6 +33,7 @@
 #include "lsst/sphgeom/BigInteger.h"
 
 #include <algorithm>
+#include <vector>
 
 
 namespace lsst {
@@ -114,8 +115,8 @@ unsigned _sub(std::uint32_t * const m,
 }
 
 // `_mul` computes the product of m1 and m2 and stores the result in m,
-// which may equal either m1 or m2. It assumes that m1 has at least as many
-// digits as m2, and returns the the number of digits in the product.
+// which may equal m1, but must not overlap m2. It returns the number of digits
+// in the product.
 unsigned _mul(std::uint32_t * const m,
               std::uint32_t const * const m1,
               std::uint32_t const * const m2,
@@ -126,8 +127,8 @@ unsigned _mul(std::uint32_t * const m,
     // digit counts. A requirement for anything fancier involves enough
     // complexity that switching to GMP is definitely warranted.
     //
-    // The only small subtlety here is that because m is allowed to alias m1
-    // or m2, we compute products of m2 from most to least significant digit of
+    // The only small subtlety here is that because m is allowed to alias m1,
+    // we compute products of m2 from most to least significant digit of
     // m1. This way no as yet unprocessed input digits are overwritten.
     unsigned const size = size1 + size2;
     for (unsigned i = size1; i < size; ++i) {
@@ -254,16 +255,18 @@ BigInteger & BigInteger::multiplyPow2(unsigned n) {
 }
 
 BigInteger & BigInteger::multiply(BigInteger const & b) {
-    _sign *= b._sign;
-    if (_sign == 0) {
-        _size = 0;
+    if (_sign == 0 || b._sign == 0) {
+        setToZero();
         return *this;
     }
     _checkCapacity(_size + b._size);
-    if (_size >= b._size) {
-        _size = _mul(_digits, _digits, b._digits, _size, b._size);
+    _sign *= b._sign;
+    if (this == &b) {
+        // The digits of the second factor must not be overwritten.
+        std::vector<std::uint32_t> const copy(_digits, _digits + _size);
+        _size = _mul(_digits, _digits, copy.data(), _size, _size);
     } else {
-        _size = _mul(_digits, b._digits, _digits, b._size, _size);
+        _size = _mul(_digits, _digits, b._digits, _size, b._size);
     }
     return *this;
 }
-- 
2.43.0


From 02a9bf1f0548d4bb681644d8c144bad995b3b4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:29 +0000
Subject: [PATCH 05/16] fix: BigInteger::setTo: negating INT64_MIN is undefined
 behaviour

---
 include/lsst/sphgeom/BigInteger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lsst/sphgeom/BigInteger.h b/include/lsst/sphgeom/BigInteger.h
index b64ea99..108058e 100644
--- a/include/lsst/sphgeom/BigInteger.h
+++ b/include/lsst/sphgeom/BigInteger.h
@@ -89,7 +89,7 @@ public:
     /// `setTo` sets this integer to the given signed 64 bit integer value.
     void setTo(std::int64_t x) {
         if (x < 0) {
-            setTo(static_cast<std::uint64_t>(-x));
+            setTo(std::uint64_t(0) - static_cast<std::uint64_t>(x));
             _sign = -1;
         } else {
             setTo(static_cast<std::uint64_t>(x));
-- 
2.43.0


From 0c5c445cb5c614c6c59869897126dc7be50e2450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:51 +0000
Subject: [PATCH 06/16] fix: NormalizedAngleInterval::expandTo: union of
 intervals overlapping at both ends

When both end points of the argument lie in this interval, the union is
this interval if it contains the argument and the full circle otherwise.
Comparing wraps() instead returned the full circle for a contained,
non-wrapping argument of a wrapping interval, and lost the argument's
points when both wrap.
---
 src/NormalizedAngleInterval.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NormalizedAngleInterval.cc b/src/NormalizedAngleInterval.cc
index 7bd2433..2d3bc52 100644
--- a/src/NormalizedAngleInterval.cc
+++ b/src/NormalizedAngleInterval.cc
@@ -217,7 +217,7 @@ NormalizedAngleInterval & NormalizedAngleInterval::expandTo(
                 // Both endpoints of x are in this interval. This interval
                 // either contains x, in which case this interval is the
                 // desired union, or the union is the full interval.
-                if (wraps() != x.wraps()) {
+                if (!contains(x)) {
                     *this = full();
                 }
             } else {
-- 
2.43.0


From ab89f6d5011daf1e857302a07834f6a205c34654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:53 +0000
Subject: [PATCH 07/16] fix: codec: portable encodeU64 stored the bits of a
 double

Without the optimized little-endian path, encodeU64 assigned the integer
to the double member of a union, encoding the bits of the converted
double instead of the integer that decodeU64 expects.
---
 include/lsst/sphgeom/codec.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/lsst/sphgeom/codec.h b/include/lsst/sphgeom/codec.h
index dea0c62..3a7091c 100644
--- a/include/lsst/sphgeom/codec.h
+++ b/include/lsst/sphgeom/codec.h
@@ -98,8 +98,7 @@ inline void encodeU64(std::uint64_t item, std::vector<std::uint8_t> & buffer) {
     auto ptr = reinterpret_cast<std::uint8_t const *>(&item);
     buffer.insert(buffer.end(), ptr, ptr + 8);
 #else
-    union { std::uint64_t u; double d; };
-    d = item;
+    std::uint64_t u = item;
     buffer.push_back(static_cast<std::uint8_t>(u));
     buffer.push_back(static_cast<std::uint8_t>(u >> 8));
     buffer.push_back(static_cast<std::uint8_t>(u >> 16));
-- 
2.43.0


From 1566141f58b608f69ddfa8e53fed1aecf15ade32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:53 +0000
Subject: [PATCH 08/16] fix: CompoundRegion::decode: bounds check the sizes of
 operands

The encoded size of an operand was passed on without comparing it to the
number of bytes left, so decoding truncated or corrupt bytes read past
the end of the buffer.
---
 src/CompoundRegion.cc | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/CompoundRegion.cc b/src/CompoundRegion.cc
index cae1d51..011e314 100644
--- a/src/CompoundRegion.cc
+++ b/src/CompoundRegion.cc
@@ -50,7 +50,7 @@ namespace {
 // A version of decodeU64 from codec.h that checks for buffer overruns and
 // increments the buffer pointer it is given.
 std::uint64_t consumeDecodeU64(std::uint8_t const *&buffer, std::uint8_t const *end) {
-    if (buffer + 8 > end) {
+    if (end - buffer < 8) {
         throw std::runtime_error("Encoded CompoundRegion is truncated.");
     }
     std::uint64_t result = decodeU64(buffer);
@@ -58,6 +58,18 @@ std::uint64_t consumeDecodeU64(std::uint8_t const *&buffer, std::uint8_t const *
     return result;
 }
 
+// Decodes a region preceded by its encoded size, checking that it does not
+// extend past the end of the buffer, and increments the buffer pointer.
+std::unique_ptr<Region> consumeDecodeRegion(std::uint8_t const *&buffer, std::uint8_t const *end) {
+    std::uint64_t nBytes = consumeDecodeU64(buffer, end);
+    if (nBytes > static_cast<std::uint64_t>(end - buffer)) {
+        throw std::runtime_error("Encoded CompoundRegion is truncated.");
+    }
+    std::unique_ptr<Region> result = Region::decode(buffer, nBytes);
+    buffer += nBytes;
+    return result;
+}
+
 template <typename F>
 auto getUnionBounds(UnionRegion const &compound, F func) {
     auto bounds = func(compound.getOperand(0));
@@ -112,12 +124,8 @@ std::array<std::unique_ptr<Region>, 2> CompoundRegion::_decode(
     }
     ++buffer;
     std::array<std::unique_ptr<Region>, 2> result;
-    std::uint64_t nBytes1 = consumeDecodeU64(buffer, end);
-    result[0] = Region::decode(buffer, nBytes1);
-    buffer += nBytes1;
-    std::uint64_t nBytes2 = consumeDecodeU64(buffer, end);
-    result[1] = Region::decode(buffer, nBytes2);
-    buffer += nBytes2;
+    result[0] = consumeDecodeRegion(buffer, end);
+    result[1] = consumeDecodeRegion(buffer, end);
     if (buffer != end) {
         throw std::runtime_error("Encoded CompoundRegion is has unexpected additional bytes.");
     }
-- 
2.43.0


From a8df320dbce473d19a0268b7786e925c1442c9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:53 +0000
Subject: [PATCH 09/16] fix: ConvexPolygon::decode: check the size before
 reading the type code

---
 src/ConvexPolygon.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ConvexPolygon.cc b/src/ConvexPolygon.cc
index 598ee8a..133f39f 100644
--- a/src/ConvexPolygon.cc
+++ b/src/ConvexPolygon.cc
@@ -368,8 +368,8 @@ std::vector<std::uint8_t> ConvexPolygon::encode() const {
 std::unique_ptr<ConvexPolygon> ConvexPolygon::decode(std::uint8_t const * buffer,
                                                      size_t n)
 {
-    if (buffer == nullptr || *buffer != TYPE_CODE ||
-        n < 1 + 24*3 || (n - 1) % 24 != 0) {
+    if (buffer == nullptr || n < 1 + 24*3 || (n - 1) % 24 != 0 ||
+        *buffer != TYPE_CODE) {
         throw std::runtime_error("Byte-string is not an encoded ConvexPolygon");
     }
     std::unique_ptr<ConvexPolygon> poly(new ConvexPolygon);
-- 
2.43.0


From 299aa2fcbc39f7f8eedce12c9b6bdb8e121fb928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 10/16] fix: PixelFinder: do not skip root pixels when the
 number of ranges is limited

---
 src/PixelFinder.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/PixelFinder.h b/src/PixelFinder.h
index 718d184..bef2d9c 100644
--- a/src/PixelFinder.h
+++ b/src/PixelFinder.h
@@ -128,8 +128,11 @@ private:
         int shift = 2 * (_desiredLevel - level);
         _ranges->insert(index << shift, (index + 1) << shift);
         while (_ranges->size() > _maxRanges) {
-            // Reduce the subdivision level.
-            --_level;
+            // Reduce the subdivision level. Root pixels are always visited:
+            // there is no coarser pixel that covers them.
+            if (_level > 0) {
+                --_level;
+            }
             shift += 2;
             // When looking for intersecting pixels, ranges are simplified
             // by expanding them outwards, causing nearly adjacent small ranges
-- 
2.43.0


From 2648467ceb6e0256ca3603b44a8685df24bb46b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 11/16] fix: findPixels: honour maxRanges for compound regions

---
 src/PixelFinder.h | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/PixelFinder.h b/src/PixelFinder.h
index bef2d9c..d9dd547 100644
--- a/src/PixelFinder.h
+++ b/src/PixelFinder.h
@@ -152,6 +152,27 @@ private:
 };
 
 
+// `limitRanges` reduces the number of ranges in `s` to at most `maxRanges`
+// (0 means no limit), by adding pixels, or by removing pixels if
+// `InteriorOnly` is true. As in `PixelFinder`, this is done by lowering the
+// subdivision level.
+template <bool InteriorOnly>
+void limitRanges(RangeSet & s, size_t maxRanges) {
+    if (maxRanges == 0) {
+        return;
+    }
+    for (int shift = 2; s.size() > maxRanges; shift += 2) {
+        if (InteriorOnly) {
+            s.complement();
+        }
+        s.simplify(shift);
+        if (InteriorOnly) {
+            s.complement();
+        }
+    }
+}
+
+
 // `findPixels` implements pixel-finding for an arbitrary Region, given a
 // PixelFinder subclass for a specific pixelization.
 template <
@@ -180,12 +201,14 @@ RangeSet findPixels(Region const & r, size_t maxRanges, int level) {
         auto rs1 = findPixels<Finder, InteriorOnly>(region1, maxRanges, level);
         auto rs2 = findPixels<Finder, InteriorOnly>(region2, maxRanges, level);
         s = rs1.join(rs2);
+        limitRanges<InteriorOnly>(s, maxRanges);
     } else if (auto intersection_region = dynamic_cast<IntersectionRegion const *>(&r)) {
         Region const &region1 = intersection_region->getOperand(0);
         Region const &region2 = intersection_region->getOperand(1);
         auto rs1 = findPixels<Finder, InteriorOnly>(region1, maxRanges, level);
         auto rs2 = findPixels<Finder, InteriorOnly>(region2, maxRanges, level);
         s = rs1.intersection(rs2);
+        limitRanges<InteriorOnly>(s, maxRanges);
     } else {
         throw std::runtime_error(std::string("PixelFinder: Unsupported type ") + typeid(r).name());
     }
-- 
2.43.0


From 5471ff93a2c7aa438c6a82dc68902df86095f534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 12/16] fix: findPixels: interior pixels of an ellipse must be
 inside it

---
 src/PixelFinder.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/PixelFinder.h b/src/PixelFinder.h
index d9dd547..fab8b0f 100644
--- a/src/PixelFinder.h
+++ b/src/PixelFinder.h
@@ -37,6 +37,7 @@
 #include "lsst/sphgeom/CompoundRegion.h"
 #include "ConvexPolygonImpl.h"
 
+#include <algorithm>
 #include <typeinfo>
 
 namespace lsst {
@@ -185,8 +186,15 @@ RangeSet findPixels(Region const & r, size_t maxRanges, int level) {
         Finder<Circle, InteriorOnly> find(s, *circle, level, maxRanges);
         find();
     } else if (auto ellipse = dynamic_cast<Ellipse const *>(&r)) {
-        Finder<Circle, InteriorOnly> find(
-            s, ellipse->getBoundingCircle(), level, maxRanges);
+        // Approximate the ellipse by a circle: one that contains it when
+        // looking for intersecting pixels, and one that it contains when
+        // looking for interior pixels.
+        Circle const c = InteriorOnly ?
+            Circle(ellipse->getCenter(),
+                   std::min(ellipse->getAlpha(), ellipse->getBeta()) -
+                       2.0 * Angle(MAX_ASIN_ERROR)) :
+            ellipse->getBoundingCircle();
+        Finder<Circle, InteriorOnly> find(s, c, level, maxRanges);
         find();
     } else if (auto box = dynamic_cast<Box const *>(&r)) {
         Finder<Box, InteriorOnly> find(s, *box, level, maxRanges);
-- 
2.43.0


From 3b47d8cdacd4381ebfc3be6ba93022f4f555ca57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:24 +0000
Subject: [PATCH 13/16] fix: Chunker::valid accepted negative chunk ids

Ids in (-2 * numStripes, 0) have stripe 0 because of truncating division, and
a negative chunk number, so that e.g. -1 was reported to be valid.
---
 src/Chunker.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Chunker.cc b/src/Chunker.cc
index 56a7b28..b9d20b4 100644
--- a/src/Chunker.cc
+++ b/src/Chunker.cc
@@ -291,7 +291,7 @@ std::vector<std::int32_t> Chunker::getAllSubChunks(std::int32_t chunkId) const {
 
 bool Chunker::valid(std::int32_t chunkId) const {
     std::int32_t const s = getStripe(chunkId);
-    return s >= 0 and s < _numStripes and
+    return chunkId >= 0 and s < _numStripes and
            getChunk(chunkId, s) < _stripes.at(s).numChunksPerStripe;
 }
 
-- 
2.43.0


From 13ee20c04472c029f2b4ca03e6c5b5ed0668913d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:24 +0000
Subject: [PATCH 14/16] fix: avoid signed overflow in the Chunker constructor

The product of the numbers of stripes and sub-stripes per stripe overflowed
before it was compared to the limit, so that e.g. 65536 and 65536 were accepted.
---
 src/Chunker.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Chunker.cc b/src/Chunker.cc
index b9d20b4..dc4f1ad 100644
--- a/src/Chunker.cc
+++ b/src/Chunker.cc
@@ -65,17 +65,19 @@ Chunker::Chunker(std::int32_t numStripes,
                  std::int32_t numSubStripesPerStripe) :
     _numStripes(numStripes),
     _numSubStripesPerStripe(numSubStripesPerStripe),
-    _numSubStripes(numStripes * numSubStripesPerStripe),
+    _numSubStripes(0),
     _maxSubChunksPerSubStripeChunk(0),
-    _subStripeHeight(Angle(PI) / _numSubStripes)
+    _subStripeHeight(0.0)
 {
     if (numStripes < 1 || numSubStripesPerStripe < 1) {
         throw std::runtime_error("The number of stripes and sub-stripes "
                                  "per stripe must be positive");
     }
-    if (numStripes * numSubStripesPerStripe > 180*3600) {
+    if (numSubStripesPerStripe > 180*3600 / numStripes) {
         throw std::runtime_error("Sub-stripes are too small");
     }
+    _numSubStripes = numStripes * numSubStripesPerStripe;
+    _subStripeHeight = Angle(PI) / _numSubStripes;
     Angle const stripeHeight = Angle(PI) / _numStripes;
     _stripes.reserve(_numStripes);
     _subStripes.reserve(_numSubStripes);
-- 
2.43.0


From 92c3fbeb0e51a46c3718bd9d662ad3e69cd7fa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:24 +0000
Subject: [PATCH 15/16] fix: hull of points all around a great circle must be
 rejected

A third point on the great circle of v0 and v1 that is on neither of the segments
behind v0 or v1, but opposite to (v0, v1), was taken to be between v0 and v1 and
dropped, so that the hull did not contain it.
---
 src/ConvexPolygon.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ConvexPolygon.cc b/src/ConvexPolygon.cc
index 133f39f..0fa2762 100644
--- a/src/ConvexPolygon.cc
+++ b/src/ConvexPolygon.cc
@@ -124,16 +124,16 @@ std::vector<UnitVector3d>::iterator findTriangle(
         // discard v and continue.
         int v0v = orientation(n, v0, *v);
         int vv1 = orientation(n, *v, v1);
-        if (v0v == vv1) {
+        int v0v1 = orientation(n, v0, v1);
+        if (v0v == v0v1 && vv1 == v0v1) {
             continue;
         }
-        int v0v1 = orientation(n, v0, v1);
         // If v1 is in the interior of (v0, v), replace v1 with v and continue.
-        if (v0v1 == -vv1) {
+        if (v0v == v0v1 && vv1 == -v0v1) {
             v1 = *v; continue;
         }
         // If v0 is in the interior of (v, v1), replace v0 with v and continue.
-        if (-v0v == v0v1) {
+        if (v0v == -v0v1 && vv1 == v0v1) {
             v0 = *v; continue;
         }
         // Otherwise, (v0, v1) ∪ (v1, v) and (v, v0) ∪ (v0, v1) both span
-- 
2.43.0


From 9226b49b2b9b19350aa556485654c80922a7d569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:24 +0000
Subject: [PATCH 16/16] fix: a point on an edge of the convex hull must not
 become a vertex

Points in the interior of an edge of the current hull were inserted, depending on
the order of points. Polygons must have no three consecutive vertices that are
coplanar, and must not depend on the order of points.
---
 src/ConvexPolygon.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ConvexPolygon.cc b/src/ConvexPolygon.cc
index 0fa2762..9158221 100644
--- a/src/ConvexPolygon.cc
+++ b/src/ConvexPolygon.cc
@@ -155,6 +155,11 @@ void computeHull(std::vector<UnitVector3d> & points) {
     VertexIterator const end = points.end();
     // Start with a triangular hull.
     for (VertexIterator v = findTriangle(points); v != end; ++v) {
+        // Ignore v if it is in the current hull. Without this, a point in the
+        // interior of an edge would become a (redundant) vertex.
+        if (detail::contains(points.begin(), hullEnd, *v)) {
+            continue;
+        }
         // Compute the hull of the current hull and v.
         //
         // Notice that if v is in the current hull, v can be ignored. If
-- 
2.43.0

