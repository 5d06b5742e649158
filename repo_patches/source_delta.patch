From e7d1d9c0f3cc084f9db4692055579da4863f53ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:05 +0000
Subject: [PATCH 01/68] fix: don't byte-swap the NaN fill when copying swapped
 coordinates to more dimensions

---
 src/geoarrow/geoarrow_type_inline.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/geoarrow_type_inline.h b/src/geoarrow/geoarrow_type_inline.h
index da11f69..5ea2439 100644
--- a/src/geoarrow/geoarrow_type_inline.h
+++ b/src/geoarrow/geoarrow_type_inline.h
@@ -543,7 +543,8 @@ static inline void GeoArrowGeometryViewCopyCoordsGeneric(
           src_stride_mapped = src_strides[map[i] + 1];
           out_stride = out_strides[i];
 
-          if (node->flags & GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN) {
+          // The fill value for a dimension not in the source is never swapped
+          if (map[i] >= 0 && (node->flags & GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN)) {
             uint64_t tmp;
             for (uint32_t j = 0; j < node->size; ++j) {
               memcpy(&tmp, src_mapped, sizeof(double));
-- 
2.43.0


From 116b896c37bafcce8707142428206b686c04f561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:56 +0000
Subject: [PATCH 02/68] fix: account for consumed coordinates in the WKB
 reader's remaining byte count

---
 src/geoarrow/wkb_reader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geoarrow/wkb_reader.c b/src/geoarrow/wkb_reader.c
index 3fb003a..69ac33a 100644
--- a/src/geoarrow/wkb_reader.c
+++ b/src/geoarrow/wkb_reader.c
@@ -71,6 +71,7 @@ static inline GeoArrowErrorCode WKBReaderReadNodeCoordinates(
   }
 
   s->data += bytes_needed;
+  s->size_bytes -= bytes_needed;
   return GEOARROW_OK;
 }
 
-- 
2.43.0


From cfd7b69899964fd60fc04cddc7ea204ebf687e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:26 +0000
Subject: [PATCH 03/68] fix: don't overflow when computing the size of a WKB
 coordinate sequence

---
 src/geoarrow/wkb_reader.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/wkb_reader.c b/src/geoarrow/wkb_reader.c
index 69ac33a..52d62cf 100644
--- a/src/geoarrow/wkb_reader.c
+++ b/src/geoarrow/wkb_reader.c
@@ -52,7 +52,8 @@ static inline int WKBReaderReadUInt32(struct WKBReaderPrivate* s, uint32_t* out,
 static inline GeoArrowErrorCode WKBReaderReadNodeCoordinates(
     struct WKBReaderPrivate* s, uint32_t n_coords, uint32_t coord_size_elements,
     struct GeoArrowGeometryNode* node, struct GeoArrowError* error) {
-  int64_t bytes_needed = n_coords * coord_size_elements * sizeof(double);
+  int64_t bytes_needed =
+      (int64_t)n_coords * coord_size_elements * (int64_t)sizeof(double);
   if (s->size_bytes < bytes_needed) {
     GeoArrowErrorSet(
         error,
-- 
2.43.0


From 377ab09fb480f38e373b489284908d34aad4c0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:26 +0000
Subject: [PATCH 04/68] fix: refuse WKB with an invalid byte order marker

---
 src/geoarrow/wkb_reader.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/geoarrow/wkb_reader.c b/src/geoarrow/wkb_reader.c
index 52d62cf..9f6f873 100644
--- a/src/geoarrow/wkb_reader.c
+++ b/src/geoarrow/wkb_reader.c
@@ -10,6 +10,9 @@
 #define EWKB_M_BIT 0x40000000
 #define EWKB_SRID_BIT 0x20000000
 
+#define WKB_BIG_ENDIAN 0x00
+#define WKB_LITTLE_ENDIAN 0x01
+
 struct WKBReaderPrivate {
   const uint8_t* data;
   int64_t size_bytes;
@@ -21,6 +24,12 @@ struct WKBReaderPrivate {
 static inline int WKBReaderReadEndian(struct WKBReaderPrivate* s,
                                       struct GeoArrowError* error) {
   if (s->size_bytes > 0) {
+    if (s->data[0] != WKB_BIG_ENDIAN && s->data[0] != WKB_LITTLE_ENDIAN) {
+      GeoArrowErrorSet(error, "Expected endian byte of 0 or 1 but found %d at byte %ld",
+                       (int)s->data[0], (long)(s->data - s->data0));
+      return EINVAL;
+    }
+
     s->need_swapping = s->data[0] != GEOARROW_NATIVE_ENDIAN;
     s->data++;
     s->size_bytes--;
-- 
2.43.0


From f4be778e06b6d0707b392abe0f24bf20acd5cc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:26 +0000
Subject: [PATCH 05/68] fix: decode WKB type codes in the C++ WKB parser like
 the C reader does

---
 src/geoarrow/hpp/wkb_util.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/hpp/wkb_util.hpp b/src/geoarrow/hpp/wkb_util.hpp
index b82c057..d1ed69c 100644
--- a/src/geoarrow/hpp/wkb_util.hpp
+++ b/src/geoarrow/hpp/wkb_util.hpp
@@ -341,7 +341,7 @@ class WKBParser {
   static constexpr uint32_t kEWKBZ = 0x80000000;
   static constexpr uint32_t kEWKBM = 0x40000000;
   static constexpr uint32_t kEWKBSrid = 0x20000000;
-  static constexpr uint32_t kEWKBMask = 0x00FFFFFF;
+  static constexpr uint32_t kEWKBMask = 0x0000FFFF;
 
   Status ParseGeometry(WKBGeometry* out) {
     out->Reset();
@@ -372,6 +372,8 @@ class WKBParser {
     geometry_type &= kEWKBMask;
 
     switch (geometry_type / 1000) {
+      case 0:
+        break;
       case 1:
         has_z = true;
         break;
@@ -382,6 +384,8 @@ class WKBParser {
         has_z = true;
         has_m = true;
         break;
+      default:
+        return INVALID_GEOMETRY_TYPE;
     }
 
     last_coord_stride_ = 2 + has_z + has_m;
-- 
2.43.0


From 532de2b94adc1c41f2802fad1fa11b01f08d464b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:26 +0000
Subject: [PATCH 06/68] fix: don't truncate the size of a large buffer view in
 the C++ WKB parser

---
 src/geoarrow/hpp/wkb_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/hpp/wkb_util.hpp b/src/geoarrow/hpp/wkb_util.hpp
index d1ed69c..4ec9684 100644
--- a/src/geoarrow/hpp/wkb_util.hpp
+++ b/src/geoarrow/hpp/wkb_util.hpp
@@ -286,7 +286,7 @@ class WKBParser {
   /// cursor
   Status Parse(struct GeoArrowBufferView data, WKBGeometry* out,
                const uint8_t** cursor = nullptr) {
-    return Parse(data.data, static_cast<uint32_t>(data.size_bytes), out, cursor);
+    return Parse(data.data, static_cast<size_t>(data.size_bytes), out, cursor);
   }
 
   /// \brief Parse the specified bytes into out, placing the end of the sequence in
-- 
2.43.0


From 10dd94e0bd777f1888c2f1eeadf1a5a87b5b8776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:10 +0000
Subject: [PATCH 07/68] fix: clear the swap endian flag of nodes whose
 coordinates were deep copied

---
 src/geoarrow/geometry.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index 650b2a5..faefc89 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -140,6 +140,9 @@ GeoArrowErrorCode GeoArrowGeometryDeepCopy(struct GeoArrowGeometryView src,
           node->coord_stride[i] = n_values * sizeof(double);
         }
 
+        // The copied coordinates are always native endian
+        node->flags &= ~GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN;
+
         coords_buf += bytes_written;
         coords_buf_size -= bytes_written;
         break;
-- 
2.43.0


From 1258729b27879d0da38dd45edbe23a25d6b5dbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:10 +0000
Subject: [PATCH 08/68] fix: return an error when a geometry view has too few
 nodes

---
 src/geoarrow/geometry.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index faefc89..eca5c71 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -455,6 +455,7 @@ static GeoArrowErrorCode GeoArrowGeometryVisitNode(
     struct GeoArrowVisitor* v) {
   if ((*n_nodes)-- <= 0) {
     GeoArrowErrorSet(v->error, "Too few nodes provided to GeoArrowGeometryVisit()");
+    return EINVAL;
   }
 
   GEOARROW_RETURN_NOT_OK(v->geom_start(v, (enum GeoArrowGeometryType)node->geometry_type,
-- 
2.43.0


From 37685e61b5af4e3603c31f7ee30352a41526498c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:10 +0000
Subject: [PATCH 09/68] fix: check the nesting limit before adding a node to a
 geometry

---
 src/geoarrow/geometry.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index eca5c71..d5220e9 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -240,6 +240,12 @@ static int geom_start_geometry(struct GeoArrowVisitor* v,
   struct GeoArrowGeometry* geom = (struct GeoArrowGeometry*)v->private_data;
   struct GeoArrowGeometryPrivate* private_data =
       (struct GeoArrowGeometryPrivate*)geom->private_data;
+
+  if (private_data->current_level == GEOARROW_GEOMETRY_VISITOR_MAX_NESTING) {
+    GeoArrowErrorSet(v->error, "Maximum recursion for GeoArrowGeometry visitor reached");
+    return EINVAL;
+  }
+
   struct GeoArrowGeometryNode* node;
   GEOARROW_RETURN_NOT_OK(GeoArrowGeometryAppendNodeInline(geom, &node));
   node->geometry_type = (uint8_t)geometry_type;
@@ -267,11 +273,6 @@ static int geom_start_geometry(struct GeoArrowVisitor* v,
       break;
   }
 
-  if (private_data->current_level == GEOARROW_GEOMETRY_VISITOR_MAX_NESTING) {
-    GeoArrowErrorSet(v->error, "Maximum recursion for GeoArrowGeometry visitor reached");
-    return EINVAL;
-  }
-
   private_data->current_level++;
   return GEOARROW_OK;
 }
-- 
2.43.0


From 5188bba5441e622f149b3f05a37b6144bffafd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:10 +0000
Subject: [PATCH 10/68] fix: set the sizes of containers whose parts have no
 coordinates

---
 src/geoarrow/geometry.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index d5220e9..600ecb2 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -356,11 +356,6 @@ static int feat_end_geometry(struct GeoArrowVisitor* v) {
     return EINVAL;
   }
 
-  if (private_data->coords.size_bytes == 0) {
-    // Can happen for empty collections where there was never a sequence
-    return GEOARROW_OK;
-  }
-
   // Set sequence lengths by rolling backwards through the sequences. We recorded
   // the start position for each sequence in geom_start, so we can calculate the
   // size based on the distance between the pointers.
-- 
2.43.0


From 8d7e6754ab4734c36994c381581178fd94070d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:10 +0000
Subject: [PATCH 11/68] fix: don't divide by zero when a sequence has unknown
 dimensions

---
 src/geoarrow/geometry.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index 600ecb2..7264e68 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -372,6 +372,12 @@ static int feat_end_geometry(struct GeoArrowVisitor* v) {
     switch (node->geometry_type) {
       case GEOARROW_GEOMETRY_TYPE_POINT:
       case GEOARROW_GEOMETRY_TYPE_LINESTRING:
+        if (node->coord_stride[0] == 0) {
+          // Unknown dimensions: can't contain any coordinates
+          node->size = 0;
+          break;
+        }
+
         sequence_bytes = end - node->coords[0];
         node->size = (uint32_t)(sequence_bytes / node->coord_stride[0]);
         end = node->coords[0];
-- 
2.43.0


From 987d0c289e38da0fcc9a37f67e43c944e83e4e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:01 +0000
Subject: [PATCH 12/68] fix: keep integer digits when printing without decimals
 using snprintf

---
 src/geoarrow/double_print.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/geoarrow/double_print.c b/src/geoarrow/double_print.c
index a4f8d3f..69205c4 100644
--- a/src/geoarrow/double_print.c
+++ b/src/geoarrow/double_print.c
@@ -32,6 +32,11 @@ int64_t GeoArrowPrintDouble(double f, uint32_t precision, char* result) {
     n_chars = 39;
   }
 
+  // There is no decimal when precision is zero, so there is nothing to strip
+  if (precision == 0) {
+    return n_chars;
+  }
+
   // Strip trailing zeroes + decimal
   for (int64_t i = n_chars - 1; i >= 0; i--) {
     if (result[i] == '0') {
-- 
2.43.0


From bc46821159d2afee297a2cbc819ff94c19be55c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 13/68] fix: read flat multipoints with EMPTY points or
 whitespace after the parenthesis

MULTIPOINT ( 1 2) was refused because the reader stepped back over the
whitespace instead of the parenthesis, and MULTIPOINT (1 2, EMPTY), which
the WKT writer produces, could not be read back.
---
 src/geoarrow/wkt_reader.c | 55 +++++++++++----------------------------
 1 file changed, 15 insertions(+), 40 deletions(-)

diff --git a/src/geoarrow/wkt_reader.c b/src/geoarrow/wkt_reader.c
index 18b2918..7556209 100644
--- a/src/geoarrow/wkt_reader.c
+++ b/src/geoarrow/wkt_reader.c
@@ -197,36 +197,6 @@ static inline int ReadEmptyOrCoordinates(struct WKTReaderPrivate* s,
   return GeoArrowWKTAssertWordEmpty(s, v->error);
 }
 
-static inline int ReadMultipointFlat(struct WKTReaderPrivate* s,
-                                     struct GeoArrowVisitor* v,
-                                     enum GeoArrowDimensions dimensions) {
-  NANOARROW_RETURN_NOT_OK(GeoArrowWKTAssertChar(s, '(', v->error));
-
-  // Read the first coordinate (there must always be one)
-  NANOARROW_RETURN_NOT_OK(v->geom_start(v, GEOARROW_GEOMETRY_TYPE_POINT, dimensions));
-  ResetCoordCache(s);
-  NANOARROW_RETURN_NOT_OK(ReadCoordinate(s, v));
-  NANOARROW_RETURN_NOT_OK(FlushCoordCache(s, v));
-  NANOARROW_RETURN_NOT_OK(v->geom_end(v));
-  GeoArrowWKTSkipWhitespace(s);
-
-  // Read the rest of the coordinates
-  while (PeekChar(s) != ')') {
-    GeoArrowWKTSkipWhitespace(s);
-    NANOARROW_RETURN_NOT_OK(GeoArrowWKTAssertChar(s, ',', v->error));
-    GeoArrowWKTSkipWhitespace(s);
-    NANOARROW_RETURN_NOT_OK(v->geom_start(v, GEOARROW_GEOMETRY_TYPE_POINT, dimensions));
-    ResetCoordCache(s);
-    NANOARROW_RETURN_NOT_OK(ReadCoordinate(s, v));
-    NANOARROW_RETURN_NOT_OK(FlushCoordCache(s, v));
-    NANOARROW_RETURN_NOT_OK(v->geom_end(v));
-    GeoArrowWKTSkipWhitespace(s);
-  }
-
-  GeoArrowWKTAdvanceUnsafe(s, 1);
-  return GEOARROW_OK;
-}
-
 static inline int ReadEmptyOrPointCoordinate(struct WKTReaderPrivate* s,
                                              struct GeoArrowVisitor* v) {
   GeoArrowWKTSkipWhitespace(s);
@@ -245,6 +215,19 @@ static inline int ReadEmptyOrPointCoordinate(struct WKTReaderPrivate* s,
   return GeoArrowWKTAssertWordEmpty(s, v->error);
 }
 
+// Both MULTIPOINT (1 2, 2 3) and MULTIPOINT ((1 2), (2 3)) have to parse, with EMPTY
+// as a possible child of either version
+static inline int ReadMultipointChild(struct WKTReaderPrivate* s,
+                                      struct GeoArrowVisitor* v) {
+  if (PeekChar(s) == '(' || PeekChar(s) == 'E') {
+    return ReadEmptyOrPointCoordinate(s, v);
+  }
+
+  ResetCoordCache(s);
+  NANOARROW_RETURN_NOT_OK(ReadCoordinate(s, v));
+  return FlushCoordCache(s, v);
+}
+
 static inline int ReadPolygon(struct WKTReaderPrivate* s, struct GeoArrowVisitor* v) {
   GeoArrowWKTSkipWhitespace(s);
   if (PeekChar(s) == '(') {
@@ -282,17 +265,9 @@ static inline int ReadMultipoint(struct WKTReaderPrivate* s, struct GeoArrowVisi
     GeoArrowWKTAdvanceUnsafe(s, 1);
     GeoArrowWKTSkipWhitespace(s);
 
-    // Both MULTIPOINT (1 2, 2 3) and MULTIPOINT ((1 2), (2 3)) have to parse here
-    // if it doesn't look like the verbose version, try the flat version
-    if (PeekChar(s) != '(' && PeekChar(s) != 'E') {
-      s->data--;
-      s->size_bytes++;
-      return ReadMultipointFlat(s, v, dimensions);
-    }
-
     // Read the first geometry (there must always be one)
     NANOARROW_RETURN_NOT_OK(v->geom_start(v, GEOARROW_GEOMETRY_TYPE_POINT, dimensions));
-    NANOARROW_RETURN_NOT_OK(ReadEmptyOrPointCoordinate(s, v));
+    NANOARROW_RETURN_NOT_OK(ReadMultipointChild(s, v));
     NANOARROW_RETURN_NOT_OK(v->geom_end(v));
     GeoArrowWKTSkipWhitespace(s);
 
@@ -302,7 +277,7 @@ static inline int ReadMultipoint(struct WKTReaderPrivate* s, struct GeoArrowVisi
       NANOARROW_RETURN_NOT_OK(GeoArrowWKTAssertChar(s, ',', v->error));
       GeoArrowWKTSkipWhitespace(s);
       NANOARROW_RETURN_NOT_OK(v->geom_start(v, GEOARROW_GEOMETRY_TYPE_POINT, dimensions));
-      NANOARROW_RETURN_NOT_OK(ReadEmptyOrPointCoordinate(s, v));
+      NANOARROW_RETURN_NOT_OK(ReadMultipointChild(s, v));
       NANOARROW_RETURN_NOT_OK(v->geom_end(v));
       GeoArrowWKTSkipWhitespace(s);
     }
-- 
2.43.0


From ea35d8da98bb57a9f66e66f8de28205bc30d4f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 14/68] fix: refuse text behind a NUL byte after a WKT geometry

---
 src/geoarrow/wkt_reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/wkt_reader.c b/src/geoarrow/wkt_reader.c
index 7556209..707cec7 100644
--- a/src/geoarrow/wkt_reader.c
+++ b/src/geoarrow/wkt_reader.c
@@ -500,7 +500,7 @@ GeoArrowErrorCode GeoArrowWKTReaderVisit(struct GeoArrowWKTReader* reader,
   NANOARROW_RETURN_NOT_OK(ReadTaggedGeometry(s, v));
   NANOARROW_RETURN_NOT_OK(v->feat_end(v));
   GeoArrowWKTSkipWhitespace(s);
-  if (PeekChar(s) != '\0') {
+  if (s->size_bytes > 0) {
     SetParseErrorAuto("end of input", s, v->error);
     return EINVAL;
   }
-- 
2.43.0


From f39291c0a53d711e05ecb5248efc22d1f43cdf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 15/68] fix: refuse numbers followed by other characters when
 parsing with fast_float

---
 src/geoarrow/double_parse_fast_float.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/double_parse_fast_float.cc b/src/geoarrow/double_parse_fast_float.cc
index db57722..dd1084b 100644
--- a/src/geoarrow/double_parse_fast_float.cc
+++ b/src/geoarrow/double_parse_fast_float.cc
@@ -13,7 +13,8 @@ extern "C" GeoArrowErrorCode GeoArrowFromChars(const char* first, const char* la
   auto answer = fast_float::from_chars(first, last, *out);
 #endif
 
-  if (answer.ec != std::errc()) {
+  // The whole input has to be a number (e.g., not "30abc")
+  if (answer.ec != std::errc() || answer.ptr != last) {
     return EINVAL;
   } else {
     return GEOARROW_OK;
-- 
2.43.0


From a70f24b499b843f704cd7763054db4d1cf50fe03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 16/68] fix: refuse numbers with leading whitespace when
 parsing with strtod

---
 src/geoarrow/double_parse_std.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/double_parse_std.c b/src/geoarrow/double_parse_std.c
index 51b37de..a89f692 100644
--- a/src/geoarrow/double_parse_std.c
+++ b/src/geoarrow/double_parse_std.c
@@ -1,4 +1,5 @@
 
+#include <ctype.h>
 #include <errno.h>
 #include <stdlib.h>
 #include <string.h>
@@ -8,7 +9,8 @@
 #if !defined(GEOARROW_USE_FAST_FLOAT) || !GEOARROW_USE_FAST_FLOAT
 
 GeoArrowErrorCode GeoArrowFromChars(const char* first, const char* last, double* out) {
-  if (first == last) {
+  // strtod() skips leading whitespace, which is not part of a number
+  if (first == last || isspace((unsigned char)*first)) {
     return EINVAL;
   }
 
-- 
2.43.0


From 556b7fad56fb2a27444d60532094cc628180836f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 17/68] fix: limit the nesting of geometry collections in the
 WKT reader

Deeply nested text overflowed the stack of the recursive parser.
---
 src/geoarrow/wkt_reader.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/geoarrow/wkt_reader.c b/src/geoarrow/wkt_reader.c
index 707cec7..7a5dbf1 100644
--- a/src/geoarrow/wkt_reader.c
+++ b/src/geoarrow/wkt_reader.c
@@ -8,10 +8,14 @@
 
 #define COORD_CACHE_SIZE_COORDS 64
 
+// The parser is recursive: like the WKB reader, limit the nesting of collections
+#define GEOARROW_WKT_READER_MAX_NESTING 255
+
 struct WKTReaderPrivate {
   const char* data;
   int64_t size_bytes;
   const char* data0;
+  int32_t level;
   double coords[4 * COORD_CACHE_SIZE_COORDS];
   struct GeoArrowCoordView coord_view;
 };
@@ -365,6 +369,12 @@ static inline int ReadGeometryCollection(struct WKTReaderPrivate* s,
     GeoArrowWKTAdvanceUnsafe(s, 1);
     GeoArrowWKTSkipWhitespace(s);
 
+    if (s->level == GEOARROW_WKT_READER_MAX_NESTING) {
+      GeoArrowErrorSet(v->error, "Maximum nesting of GEOMETRYCOLLECTION exceeded");
+      return EINVAL;
+    }
+    s->level++;
+
     // Read the first geometry (there must always be one)
     NANOARROW_RETURN_NOT_OK(ReadTaggedGeometry(s, v));
     GeoArrowWKTSkipWhitespace(s);
@@ -378,6 +388,7 @@ static inline int ReadGeometryCollection(struct WKTReaderPrivate* s,
       GeoArrowWKTSkipWhitespace(s);
     }
 
+    s->level--;
     GeoArrowWKTAdvanceUnsafe(s, 1);
     return GEOARROW_OK;
   }
@@ -473,6 +484,7 @@ GeoArrowErrorCode GeoArrowWKTReaderInit(struct GeoArrowWKTReader* reader) {
   s->data0 = NULL;
   s->data = NULL;
   s->size_bytes = 0;
+  s->level = 0;
 
   s->coord_view.coords_stride = 1;
   s->coord_view.values[0] = s->coords;
@@ -495,6 +507,7 @@ GeoArrowErrorCode GeoArrowWKTReaderVisit(struct GeoArrowWKTReader* reader,
   s->data0 = src.data;
   s->data = src.data;
   s->size_bytes = src.size_bytes;
+  s->level = 0;
 
   NANOARROW_RETURN_NOT_OK(v->feat_start(v));
   NANOARROW_RETURN_NOT_OK(ReadTaggedGeometry(s, v));
-- 
2.43.0


From 126703d68163ab9ae5efe594e51adc402400987f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 18/68] fix: refuse ring and geometry ends without a start in
 the WKB writer

They wrote a size to an unset or stale position of the values buffer
---
 src/geoarrow/wkb_writer.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/geoarrow/wkb_writer.c b/src/geoarrow/wkb_writer.c
index 7ebb701..b54c518 100644
--- a/src/geoarrow/wkb_writer.c
+++ b/src/geoarrow/wkb_writer.c
@@ -40,6 +40,16 @@ static inline int WKBWriterCheckLevel(struct WKBWriterPrivate* private) {
   }
 }
 
+// Calls that end a ring or geometry need one that has been started: otherwise, there is
+// no position to write the size to
+static inline int WKBWriterCheckLevelEnd(struct WKBWriterPrivate* private) {
+  if (private->level >= 1 && private->level <= 30 && private->values.data != NULL) {
+    return GEOARROW_OK;
+  } else {
+    return EINVAL;
+  }
+}
+
 static int feat_start_wkb(struct GeoArrowVisitor* v) {
   struct WKBWriterPrivate* private = (struct WKBWriterPrivate*)v->private_data;
   private->level = 0;
@@ -115,10 +125,7 @@ static int coords_wkb(struct GeoArrowVisitor* v, const struct GeoArrowCoordView*
 
 static int ring_end_wkb(struct GeoArrowVisitor* v) {
   struct WKBWriterPrivate* private = (struct WKBWriterPrivate*)v->private_data;
-  NANOARROW_RETURN_NOT_OK(WKBWriterCheckLevel(private));
-  if (private->values.data == NULL) {
-    return EINVAL;
-  }
+  NANOARROW_RETURN_NOT_OK(WKBWriterCheckLevelEnd(private));
   memcpy(private->values.data + private->size_pos[private->level],
          private->size + private->level, sizeof(uint32_t));
   private->level--;
@@ -127,10 +134,7 @@ static int ring_end_wkb(struct GeoArrowVisitor* v) {
 
 static int geom_end_wkb(struct GeoArrowVisitor* v) {
   struct WKBWriterPrivate* private = (struct WKBWriterPrivate*)v->private_data;
-  NANOARROW_RETURN_NOT_OK(WKBWriterCheckLevel(private));
-  if (private->values.data == NULL) {
-    return EINVAL;
-  }
+  NANOARROW_RETURN_NOT_OK(WKBWriterCheckLevelEnd(private));
 
   if (private->geometry_type[private->level] != GEOARROW_GEOMETRY_TYPE_POINT) {
     memcpy(private->values.data + private->size_pos[private->level],
@@ -234,6 +238,7 @@ GeoArrowErrorCode GeoArrowWKBWriterFinish(struct GeoArrowWKBWriter* writer,
   array->null_count = private->null_count;
   private->length = 0;
   private->null_count = 0;
+  private->level = 0;
   return ArrowArrayFinishBuildingDefault(array, (struct ArrowError*)error);
 }
 
-- 
2.43.0


From 4ce9d7377a5799742d19c7ff401f1431091d650d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:25 +0000
Subject: [PATCH 19/68] fix: leave features that were not completed out of the
 WKB writer's output

---
 src/geoarrow/wkb_writer.c | 40 ++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/geoarrow/wkb_writer.c b/src/geoarrow/wkb_writer.c
index b54c518..912bc46 100644
--- a/src/geoarrow/wkb_writer.c
+++ b/src/geoarrow/wkb_writer.c
@@ -50,17 +50,36 @@ static inline int WKBWriterCheckLevelEnd(struct WKBWriterPrivate* private) {
   }
 }
 
+// Discard a feature that was started but never ended (e.g., because writing it failed).
+// The level is -1 when there is no such feature.
+static void WKBWriterDiscardUnfinished(struct WKBWriterPrivate* private) {
+  if (private->level < 0) {
+    return;
+  }
+
+  int32_t feat_start;
+  private->offsets.size_bytes -= sizeof(int32_t);
+  memcpy(&feat_start, private->offsets.data + private->offsets.size_bytes,
+         sizeof(int32_t));
+  private->values.size_bytes = feat_start;
+  private->length--;
+  private->level = -1;
+}
+
 static int feat_start_wkb(struct GeoArrowVisitor* v) {
   struct WKBWriterPrivate* private = (struct WKBWriterPrivate*)v->private_data;
-  private->level = 0;
-  private->size[private->level] = 0;
-  private->length++;
-  private->feat_is_null = 0;
+  WKBWriterDiscardUnfinished(private);
 
   if (private->values.size_bytes > 2147483647) {
     return EOVERFLOW;
   }
-  return ArrowBufferAppendInt32(&private->offsets, (int32_t) private->values.size_bytes);
+  NANOARROW_RETURN_NOT_OK(
+      ArrowBufferAppendInt32(&private->offsets, (int32_t) private->values.size_bytes));
+  private->level = 0;
+  private->size[private->level] = 0;
+  private->length++;
+  private->feat_is_null = 0;
+  return GEOARROW_OK;
 }
 
 static int null_feat_wkb(struct GeoArrowVisitor* v) {
@@ -169,6 +188,12 @@ static int geom_end_wkb(struct GeoArrowVisitor* v) {
 static int feat_end_wkb(struct GeoArrowVisitor* v) {
   struct WKBWriterPrivate* private = (struct WKBWriterPrivate*)v->private_data;
 
+  // Only a feature that was started and whose geometries were ended is complete
+  if (private->level != 0) {
+    return EINVAL;
+  }
+
+  private->level = -1;
   if (private->feat_is_null) {
     if (private->validity.buffer.data == NULL) {
       NANOARROW_RETURN_NOT_OK(ArrowBitmapReserve(&private->validity, private->length));
@@ -193,8 +218,9 @@ GeoArrowErrorCode GeoArrowWKBWriterInit(struct GeoArrowWKBWriter* writer) {
 
   private->storage_type = NANOARROW_TYPE_BINARY;
   private->length = 0;
-  private->level = 0;
+  private->level = -1;
   private->null_count = 0;
+  private->feat_is_null = 0;
   ArrowBitmapInit(&private->validity);
   ArrowBufferInit(&private->offsets);
   ArrowBufferInit(&private->values);
@@ -224,6 +250,7 @@ GeoArrowErrorCode GeoArrowWKBWriterFinish(struct GeoArrowWKBWriter* writer,
   struct WKBWriterPrivate* private = (struct WKBWriterPrivate*)writer->private_data;
   array->release = NULL;
 
+  WKBWriterDiscardUnfinished(private);
   if (private->values.size_bytes > 2147483647) {
     return EOVERFLOW;
   }
@@ -238,7 +265,6 @@ GeoArrowErrorCode GeoArrowWKBWriterFinish(struct GeoArrowWKBWriter* writer,
   array->null_count = private->null_count;
   private->length = 0;
   private->null_count = 0;
-  private->level = 0;
   return ArrowArrayFinishBuildingDefault(array, (struct ArrowError*)error);
 }
 
-- 
2.43.0


From 9e9eb11ee3bf342e1e6a5273887880cd9f9c373e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:25 +0000
Subject: [PATCH 20/68] fix: append nothing when GeoArrowWKBWriterAppend()
 refuses a geometry

---
 src/geoarrow/wkb_writer.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/geoarrow/wkb_writer.c b/src/geoarrow/wkb_writer.c
index 912bc46..2236e57 100644
--- a/src/geoarrow/wkb_writer.c
+++ b/src/geoarrow/wkb_writer.c
@@ -301,6 +301,11 @@ static GeoArrowErrorCode GeoArrowWKBWriterAppendValidity(struct GeoArrowWKBWrite
 
 GeoArrowErrorCode GeoArrowWKBWriterAppendNull(struct GeoArrowWKBWriter* writer) {
   struct WKBWriterPrivate* private_data = (struct WKBWriterPrivate*)writer->private_data;
+  WKBWriterDiscardUnfinished(private_data);
+  if (private_data->values.size_bytes > 2147483647) {
+    return EOVERFLOW;
+  }
+
   GEOARROW_RETURN_NOT_OK(ArrowBufferAppendInt32(
       &private_data->offsets, (int32_t)private_data->values.size_bytes));
   GEOARROW_RETURN_NOT_OK(GeoArrowWKBWriterAppendValidity(writer, 0));
@@ -385,9 +390,20 @@ static GeoArrowErrorCode GeoArrowWKBWriterAppendBuffer(struct ArrowBuffer* value
 GeoArrowErrorCode GeoArrowWKBWriterAppend(struct GeoArrowWKBWriter* writer,
                                           struct GeoArrowGeometryView geom) {
   struct WKBWriterPrivate* private_data = (struct WKBWriterPrivate*)writer->private_data;
-  GEOARROW_RETURN_NOT_OK(ArrowBufferAppendInt32(
-      &private_data->offsets, (int32_t)private_data->values.size_bytes));
-  GEOARROW_RETURN_NOT_OK(GeoArrowWKBWriterAppendBuffer(&private_data->values, geom));
+  WKBWriterDiscardUnfinished(private_data);
+  if (private_data->values.size_bytes > 2147483647) {
+    return EOVERFLOW;
+  }
+
+  int64_t values_size_bytes = private_data->values.size_bytes;
+  GeoArrowErrorCode result = GeoArrowWKBWriterAppendBuffer(&private_data->values, geom);
+  if (result != GEOARROW_OK) {
+    private_data->values.size_bytes = values_size_bytes;
+    return result;
+  }
+
+  GEOARROW_RETURN_NOT_OK(
+      ArrowBufferAppendInt32(&private_data->offsets, (int32_t)values_size_bytes));
   GEOARROW_RETURN_NOT_OK(GeoArrowWKBWriterAppendValidity(writer, 1));
   return GEOARROW_OK;
 }
-- 
2.43.0


From 27a0af52b878aee35b9ab3d3742d1d5951a8f7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:25 +0000
Subject: [PATCH 21/68] fix: leave features that were not completed out of the
 WKT writer's output

---
 src/geoarrow/wkt_writer.c | 49 ++++++++++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/src/geoarrow/wkt_writer.c b/src/geoarrow/wkt_writer.c
index 40e206c..558bf6a 100644
--- a/src/geoarrow/wkt_writer.c
+++ b/src/geoarrow/wkt_writer.c
@@ -21,10 +21,11 @@ struct WKTWriterPrivate {
   int use_flat_multipoint;
   int64_t max_element_size_bytes;
   int feat_is_null;
+  int feat_is_open;
 };
 
 static inline int WKTWriterCheckLevel(struct WKTWriterPrivate* private) {
-  if (private->level >= 0 && private->level <= 31) {
+  if (private->feat_is_open && private->level >= 0 && private->level <= 31) {
     return GEOARROW_OK;
   } else {
     return EINVAL;
@@ -45,17 +46,33 @@ static inline void WKTWriterWriteDoubleUnsafe(struct WKTWriterPrivate* private,
                           ((char*)private->values.data) + private->values.size_bytes);
 }
 
+// Discard a feature that was started but never ended (e.g., because writing it failed)
+static void WKTWriterDiscardUnfinished(struct WKTWriterPrivate* private) {
+  if (!private->feat_is_open) {
+    return;
+  }
+
+  private->offsets.size_bytes -= sizeof(int32_t);
+  private->values.size_bytes = private->values_feat_start;
+  private->length--;
+  private->feat_is_open = 0;
+}
+
 static int feat_start_wkt(struct GeoArrowVisitor* v) {
   struct WKTWriterPrivate* private = (struct WKTWriterPrivate*)v->private_data;
-  private->level = -1;
-  private->length++;
-  private->feat_is_null = 0;
-  private->values_feat_start = private->values.size_bytes;
+  WKTWriterDiscardUnfinished(private);
 
   if (private->values.size_bytes > 2147483647) {
     return EOVERFLOW;
   }
-  return ArrowBufferAppendInt32(&private->offsets, (int32_t) private->values.size_bytes);
+  NANOARROW_RETURN_NOT_OK(
+      ArrowBufferAppendInt32(&private->offsets, (int32_t) private->values.size_bytes));
+  private->level = -1;
+  private->length++;
+  private->feat_is_null = 0;
+  private->feat_is_open = 1;
+  private->values_feat_start = private->values.size_bytes;
+  return GEOARROW_OK;
 }
 
 static int null_feat_wkt(struct GeoArrowVisitor* v) {
@@ -70,6 +87,8 @@ static int geom_start_wkt(struct GeoArrowVisitor* v,
   struct WKTWriterPrivate* private = (struct WKTWriterPrivate*)v->private_data;
   private->level++;
   NANOARROW_RETURN_NOT_OK(WKTWriterCheckLevel(private));
+  private->geometry_type[private->level] = geometry_type;
+  private->i[private->level] = 0;
 
   if (private->level > 0 && private->i[private->level - 1] > 0) {
     NANOARROW_RETURN_NOT_OK(WKTWriterWrite(private, ", "));
@@ -112,8 +131,6 @@ static int geom_start_wkt(struct GeoArrowVisitor* v,
     private->i[private->level - 1]++;
   }
 
-  private->geometry_type[private->level] = geometry_type;
-  private->i[private->level] = 0;
   return GEOARROW_OK;
 }
 
@@ -248,6 +265,17 @@ static int geom_end_wkt(struct GeoArrowVisitor* v) {
 static int feat_end_wkt(struct GeoArrowVisitor* v) {
   struct WKTWriterPrivate* private = (struct WKTWriterPrivate*)v->private_data;
 
+  // Only a feature that was started and whose geometries were ended is complete, unless
+  // it has reached the maximum size
+  int is_max_size =
+      private->max_element_size_bytes >= 0 &&
+      (private->values.size_bytes - private->values_feat_start) >=
+          private->max_element_size_bytes;
+  if (!private->feat_is_open || (private->level != -1 && !is_max_size)) {
+    return EINVAL;
+  }
+
+  private->feat_is_open = 0;
   if (private->feat_is_null) {
     if (private->validity.buffer.data == NULL) {
       NANOARROW_RETURN_NOT_OK(ArrowBitmapReserve(&private->validity, private->length));
@@ -279,8 +307,10 @@ GeoArrowErrorCode GeoArrowWKTWriterInit(struct GeoArrowWKTWriter* writer) {
 
   private->storage_type = NANOARROW_TYPE_STRING;
   private->length = 0;
-  private->level = 0;
+  private->level = -1;
   private->null_count = 0;
+  private->feat_is_null = 0;
+  private->feat_is_open = 0;
   ArrowBitmapInit(&private->validity);
   ArrowBufferInit(&private->offsets);
   ArrowBufferInit(&private->values);
@@ -328,6 +358,7 @@ GeoArrowErrorCode GeoArrowWKTWriterFinish(struct GeoArrowWKTWriter* writer,
   struct WKTWriterPrivate* private = (struct WKTWriterPrivate*)writer->private_data;
   array->release = NULL;
 
+  WKTWriterDiscardUnfinished(private);
   if (private->values.size_bytes > 2147483647) {
     return EOVERFLOW;
   }
-- 
2.43.0


From 57a08503245fc946369098021c1c2e990476df51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 22/68] fix: limit the size of WKT elements that follow a null

---
 src/geoarrow/wkt_writer.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/geoarrow/wkt_writer.c b/src/geoarrow/wkt_writer.c
index 558bf6a..b8d391f 100644
--- a/src/geoarrow/wkt_writer.c
+++ b/src/geoarrow/wkt_writer.c
@@ -276,6 +276,13 @@ static int feat_end_wkt(struct GeoArrowVisitor* v) {
   }
 
   private->feat_is_open = 0;
+  if (private->max_element_size_bytes >= 0 &&
+      (private->values.size_bytes - private->values_feat_start) >
+          private->max_element_size_bytes) {
+    private->values.size_bytes =
+        private->values_feat_start + private->max_element_size_bytes;
+  }
+
   if (private->feat_is_null) {
     if (private->validity.buffer.data == NULL) {
       NANOARROW_RETURN_NOT_OK(ArrowBitmapReserve(&private->validity, private->length));
@@ -288,13 +295,6 @@ static int feat_end_wkt(struct GeoArrowVisitor* v) {
     return ArrowBitmapAppend(&private->validity, 1, 1);
   }
 
-  if (private->max_element_size_bytes >= 0 &&
-      (private->values.size_bytes - private->values_feat_start) >
-          private->max_element_size_bytes) {
-    private->values.size_bytes =
-        private->values_feat_start + private->max_element_size_bytes;
-  }
-
   return GEOARROW_OK;
 }
 
-- 
2.43.0


From 735b72c9f9c1ba5cbf7f453c8755b62adcc751c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 23/68] fix: return EAGAIN when a WKT element with many parts
 reaches its maximum size

---
 src/geoarrow/wkt_writer.c | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/geoarrow/wkt_writer.c b/src/geoarrow/wkt_writer.c
index b8d391f..e912100 100644
--- a/src/geoarrow/wkt_writer.c
+++ b/src/geoarrow/wkt_writer.c
@@ -32,6 +32,12 @@ static inline int WKTWriterCheckLevel(struct WKTWriterPrivate* private) {
   }
 }
 
+static inline int WKTWriterIsMaxSize(struct WKTWriterPrivate* private) {
+  return private->max_element_size_bytes >= 0 &&
+         (private->values.size_bytes - private->values_feat_start) >=
+             private->max_element_size_bytes;
+}
+
 static inline int WKTWriterWrite(struct WKTWriterPrivate* private, const char* value) {
   return ArrowBufferAppend(&private->values, value, strlen(value));
 }
@@ -90,6 +96,11 @@ static int geom_start_wkt(struct GeoArrowVisitor* v,
   private->geometry_type[private->level] = geometry_type;
   private->i[private->level] = 0;
 
+  // Features with many parts may never have more than one coordinate per call
+  if (private->level > 0 && WKTWriterIsMaxSize(private)) {
+    return EAGAIN;
+  }
+
   if (private->level > 0 && private->i[private->level - 1] > 0) {
     NANOARROW_RETURN_NOT_OK(WKTWriterWrite(private, ", "));
   } else if (private->level > 0) {
@@ -139,6 +150,10 @@ static int ring_start_wkt(struct GeoArrowVisitor* v) {
   private->level++;
   NANOARROW_RETURN_NOT_OK(WKTWriterCheckLevel(private));
 
+  if (WKTWriterIsMaxSize(private)) {
+    return EAGAIN;
+  }
+
   if (private->level > 0 && private->i[private->level - 1] > 0) {
     NANOARROW_RETURN_NOT_OK(WKTWriterWrite(private, ", "));
   } else {
@@ -164,6 +179,10 @@ static int coords_wkt(struct GeoArrowVisitor* v, const struct GeoArrowCoordView*
   struct WKTWriterPrivate* private = (struct WKTWriterPrivate*)v->private_data;
   NANOARROW_RETURN_NOT_OK(WKTWriterCheckLevel(private));
 
+  if (WKTWriterIsMaxSize(private)) {
+    return EAGAIN;
+  }
+
   int64_t max_chars_per_coord_theoretical =
       // space + comma after coordinate
       (n_coords * 2) +
@@ -212,9 +231,7 @@ static int coords_wkt(struct GeoArrowVisitor* v, const struct GeoArrowCoordView*
   // Write the remaining coordinates (which all have leading commas)
   for (int64_t i = 1; i < n_coords; i++) {
     // Check if we've hit our max number of bytes for this feature
-    if (private->max_element_size_bytes >= 0 &&
-        (private->values.size_bytes - private->values_feat_start) >=
-            private->max_element_size_bytes) {
+    if (WKTWriterIsMaxSize(private)) {
       return EAGAIN;
     }
 
@@ -267,11 +284,7 @@ static int feat_end_wkt(struct GeoArrowVisitor* v) {
 
   // Only a feature that was started and whose geometries were ended is complete, unless
   // it has reached the maximum size
-  int is_max_size =
-      private->max_element_size_bytes >= 0 &&
-      (private->values.size_bytes - private->values_feat_start) >=
-          private->max_element_size_bytes;
-  if (!private->feat_is_open || (private->level != -1 && !is_max_size)) {
+  if (!private->feat_is_open || (private->level != -1 && !WKTWriterIsMaxSize(private))) {
     return EINVAL;
   }
 
-- 
2.43.0


From 12dda883f9f0f67ab3c056f72a8265c7133a5c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:23 +0000
Subject: [PATCH 24/68] fix: leave features that were not completed out of the
 native writer's output

---
 src/geoarrow/native_writer.c | 72 ++++++++++++++++++++++++++++++++----
 1 file changed, 64 insertions(+), 8 deletions(-)

diff --git a/src/geoarrow/native_writer.c b/src/geoarrow/native_writer.c
index 97e84c2..576968c 100644
--- a/src/geoarrow/native_writer.c
+++ b/src/geoarrow/native_writer.c
@@ -28,6 +28,11 @@ struct GeoArrowNativeWriterPrivate {
   enum GeoArrowDimensions last_dimensions;
   int64_t size[32];
   int32_t level;
+
+  // Sizes of the output after the last complete feature
+  int feat_is_open;
+  int64_t complete_size_coords;
+  int64_t complete_size_offsets[4];
 };
 
 static GeoArrowErrorCode GeoArrowNativeWriterEnsureOutputInitialized(
@@ -81,6 +86,38 @@ void GeoArrowNativeWriterReset(struct GeoArrowNativeWriter* writer) {
   ArrowFree(private_data);
 }
 
+static void GeoArrowNativeWriterCompleteFeature(
+    struct GeoArrowNativeWriterPrivate* private_data) {
+  struct GeoArrowWritableArrayView* view = &private_data->builder.view;
+  private_data->complete_size_coords = view->coords.size_coords;
+  for (int i = 0; i < view->n_offsets; i++) {
+    private_data->complete_size_offsets[i] = view->buffers[i + 1].size_bytes;
+  }
+
+  private_data->feat_is_open = 0;
+}
+
+// Discard anything written after the last complete feature (e.g., a feature that was
+// started but never ended because writing it failed)
+static void GeoArrowNativeWriterDiscardIncomplete(
+    struct GeoArrowNativeWriterPrivate* private_data) {
+  struct GeoArrowWritableArrayView* view = &private_data->builder.view;
+  view->coords.size_coords = private_data->complete_size_coords;
+  for (int i = 0; i < view->n_offsets; i++) {
+    view->buffers[i + 1].size_bytes = private_data->complete_size_offsets[i];
+  }
+
+  private_data->feat_is_open = 0;
+}
+
+static void GeoArrowNativeWriterStartFeature(
+    struct GeoArrowNativeWriterPrivate* private_data) {
+  GeoArrowNativeWriterDiscardIncomplete(private_data);
+  private_data->level = 0;
+  private_data->feat_is_null = 0;
+  private_data->feat_is_open = 1;
+}
+
 static GeoArrowErrorCode GeoArrowNativeWriterEnsureOutputInitialized(
     struct GeoArrowNativeWriter* writer) {
   struct GeoArrowNativeWriterPrivate* private_data =
@@ -104,6 +141,7 @@ static GeoArrowErrorCode GeoArrowNativeWriterEnsureOutputInitialized(
 
   private_data->builder.view.coords.size_coords = 0;
   private_data->builder.view.coords.capacity_coords = 0;
+  GeoArrowNativeWriterCompleteFeature(private_data);
 
   private_data->output_initialized = 1;
   return GEOARROW_OK;
@@ -115,6 +153,8 @@ GeoArrowErrorCode GeoArrowNativeWriterFinish(struct GeoArrowNativeWriter* writer
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
 
+  GeoArrowNativeWriterDiscardIncomplete(private_data);
+
   // We could in theory wrap this buffer instead of copy it
   struct GeoArrowBufferView validity_view;
   validity_view.data = private_data->validity.buffer.data;
@@ -437,9 +477,8 @@ static int feat_start_point(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
-  private_data->level = 0;
+  GeoArrowNativeWriterStartFeature(private_data);
   private_data->size[0] = 0;
-  private_data->feat_is_null = 0;
   return GEOARROW_OK;
 }
 
@@ -496,6 +535,10 @@ static int feat_end_point(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
 
+  if (!private_data->feat_is_open) {
+    return EINVAL;
+  }
+
   // If there weren't any coords (i.e., EMPTY), we need to write some NANs here
   // if there was >1 coords, we also need to error or we'll get misaligned output
   if (private_data->size[0] == 0) {
@@ -522,6 +565,7 @@ static int feat_end_point(struct GeoArrowVisitor* v) {
     NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private_data->validity, 1, 1));
   }
 
+  GeoArrowNativeWriterCompleteFeature(private_data);
   return GEOARROW_OK;
 }
 
@@ -544,10 +588,9 @@ static int feat_start_multipoint(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
-  private_data->level = 0;
+  GeoArrowNativeWriterStartFeature(private_data);
   private_data->size[0] = 0;
   private_data->size[1] = 0;
-  private_data->feat_is_null = 0;
   private_data->nesting_multipoint = 0;
   return GEOARROW_OK;
 }
@@ -652,6 +695,10 @@ static int feat_end_multipoint(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
 
+  if (!private_data->feat_is_open) {
+    return EINVAL;
+  }
+
   // If we didn't finish any sequences, finish at least one. This is usually an
   // EMPTY but could also be a single point.
   if (private_data->size[0] == 0) {
@@ -681,6 +728,7 @@ static int feat_end_multipoint(struct GeoArrowVisitor* v) {
     NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private_data->validity, 1, 1));
   }
 
+  GeoArrowNativeWriterCompleteFeature(private_data);
   return GEOARROW_OK;
 }
 
@@ -703,10 +751,9 @@ static int feat_start_multilinestring(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
-  private_data->level = 0;
+  GeoArrowNativeWriterStartFeature(private_data);
   private_data->size[0] = 0;
   private_data->size[1] = 0;
-  private_data->feat_is_null = 0;
   return GEOARROW_OK;
 }
 
@@ -803,6 +850,10 @@ static int feat_end_multilinestring(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
 
+  if (!private_data->feat_is_open) {
+    return EINVAL;
+  }
+
   // If we have an unfinished sequence left over, finish it now. This could have
   // occurred if the last geometry that was visited was a POINT.
   if (private_data->size[1] > 0) {
@@ -836,6 +887,7 @@ static int feat_end_multilinestring(struct GeoArrowVisitor* v) {
     NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private_data->validity, 1, 1));
   }
 
+  GeoArrowNativeWriterCompleteFeature(private_data);
   return GEOARROW_OK;
 }
 
@@ -858,11 +910,10 @@ static int feat_start_multipolygon(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
-  private_data->level = 0;
+  GeoArrowNativeWriterStartFeature(private_data);
   private_data->size[0] = 0;
   private_data->size[1] = 0;
   private_data->size[2] = 0;
-  private_data->feat_is_null = 0;
   return GEOARROW_OK;
 }
 
@@ -972,6 +1023,10 @@ static int feat_end_multipolygon(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
 
+  if (!private_data->feat_is_open) {
+    return EINVAL;
+  }
+
   // If we have an unfinished sequence left over, finish it now. This could have
   // occurred if the last geometry that was visited was a POINT.
   if (private_data->size[2] > 0) {
@@ -1015,6 +1070,7 @@ static int feat_end_multipolygon(struct GeoArrowVisitor* v) {
     NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private_data->validity, 1, 1));
   }
 
+  GeoArrowNativeWriterCompleteFeature(private_data);
   return GEOARROW_OK;
 }
 
-- 
2.43.0


From 2a99c9ddfa82bc3b2d306d8c9db216f441cf8b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:23 +0000
Subject: [PATCH 25/68] fix: append nothing when GeoArrowNativeWriterAppend()
 refuses a geometry

---
 src/geoarrow/native_writer.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/geoarrow/native_writer.c b/src/geoarrow/native_writer.c
index 576968c..d3f199b 100644
--- a/src/geoarrow/native_writer.c
+++ b/src/geoarrow/native_writer.c
@@ -118,6 +118,24 @@ static void GeoArrowNativeWriterStartFeature(
   private_data->feat_is_open = 1;
 }
 
+// Discard anything written after the last complete feature and continue from there
+static void GeoArrowNativeWriterStartAppend(
+    struct GeoArrowNativeWriterPrivate* private_data) {
+  GeoArrowNativeWriterDiscardIncomplete(private_data);
+
+  struct GeoArrowWritableArrayView* view = &private_data->builder.view;
+  for (int i = 0; i < view->n_offsets; i++) {
+    int64_t n_offsets = view->buffers[i + 1].size_bytes / sizeof(int32_t);
+    private_data->last_offset[i] = view->buffers[i + 1].data.as_int32[n_offsets - 1];
+  }
+
+  if (view->n_offsets > 0) {
+    private_data->current_length = view->buffers[1].size_bytes / sizeof(int32_t) - 1;
+  } else {
+    private_data->current_length = view->coords.size_coords;
+  }
+}
+
 static GeoArrowErrorCode GeoArrowNativeWriterEnsureOutputInitialized(
     struct GeoArrowNativeWriter* writer) {
   struct GeoArrowNativeWriterPrivate* private_data =
@@ -316,8 +334,13 @@ static GeoArrowErrorCode GeoArrowNativeWriterAppendValidity(
 }
 
 GeoArrowErrorCode GeoArrowNativeWriterAppendNull(struct GeoArrowNativeWriter* writer) {
+  struct GeoArrowNativeWriterPrivate* private_data =
+      (struct GeoArrowNativeWriterPrivate*)writer->private_data;
+
+  GeoArrowNativeWriterStartAppend(private_data);
   GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendEmpty(writer, NULL));
   GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendValidity(writer, 0));
+  GeoArrowNativeWriterCompleteFeature(private_data);
   return GEOARROW_OK;
 }
 
@@ -327,6 +350,8 @@ GeoArrowErrorCode GeoArrowNativeWriterAppend(struct GeoArrowNativeWriter* writer
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
 
+  GeoArrowNativeWriterStartAppend(private_data);
+
   uint32_t coord_count = GeoArrowGeometryViewNumCoords(geom);
 
   const struct GeoArrowGeometryNode* node = geom.root;
@@ -335,6 +360,7 @@ GeoArrowErrorCode GeoArrowNativeWriterAppend(struct GeoArrowNativeWriter* writer
   if (coord_count == 0) {
     GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendEmpty(writer, error));
     GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendValidity(writer, 1));
+    GeoArrowNativeWriterCompleteFeature(private_data);
     return GEOARROW_OK;
   }
 
@@ -470,6 +496,7 @@ GeoArrowErrorCode GeoArrowNativeWriterAppend(struct GeoArrowNativeWriter* writer
   // Append to validity buffer
   GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendValidity(writer, 1));
 
+  GeoArrowNativeWriterCompleteFeature(private_data);
   return GEOARROW_OK;
 }
 
-- 
2.43.0


From 4f0ca18924d7569bd37ed62be95fb2c80b9f688a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 26/68] fix: refuse coordinates that do not match the
 dimensions in the native writer

---
 src/geoarrow/native_writer.c | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/geoarrow/native_writer.c b/src/geoarrow/native_writer.c
index d3f199b..236edbd 100644
--- a/src/geoarrow/native_writer.c
+++ b/src/geoarrow/native_writer.c
@@ -114,6 +114,7 @@ static void GeoArrowNativeWriterStartFeature(
     struct GeoArrowNativeWriterPrivate* private_data) {
   GeoArrowNativeWriterDiscardIncomplete(private_data);
   private_data->level = 0;
+  private_data->last_dimensions = GEOARROW_DIMENSIONS_UNKNOWN;
   private_data->feat_is_null = 0;
   private_data->feat_is_open = 1;
 }
@@ -500,6 +501,25 @@ GeoArrowErrorCode GeoArrowNativeWriterAppend(struct GeoArrowNativeWriter* writer
   return GEOARROW_OK;
 }
 
+// Check that coords has the ordinates announced by the last geom_start()
+static GeoArrowErrorCode GeoArrowNativeWriterCheckCoords(
+    struct GeoArrowNativeWriterPrivate* private_data,
+    const struct GeoArrowCoordView* coords, struct GeoArrowError* error) {
+  int n_values = -1;
+  if (private_data->last_dimensions >= GEOARROW_DIMENSIONS_XY &&
+      private_data->last_dimensions <= GEOARROW_DIMENSIONS_XYZM) {
+    n_values = _GeoArrowkNumDimensions[private_data->last_dimensions];
+  }
+
+  if (coords->n_coords > 0 && coords->n_values != n_values) {
+    GeoArrowErrorSet(error, "Expected coordinates with %d values but got %d", n_values,
+                     (int)coords->n_values);
+    return EINVAL;
+  }
+
+  return GEOARROW_OK;
+}
+
 static int feat_start_point(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
@@ -534,6 +554,8 @@ static int coords_point(struct GeoArrowVisitor* v,
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
+  NANOARROW_RETURN_NOT_OK(
+      GeoArrowNativeWriterCheckCoords(private_data, coords, v->error));
   private_data->size[0] += coords->n_coords;
   return GeoArrowBuilderCoordsAppend(&private_data->builder, coords,
                                      private_data->last_dimensions, 0, coords->n_coords);
@@ -569,10 +591,9 @@ static int feat_end_point(struct GeoArrowVisitor* v) {
   // If there weren't any coords (i.e., EMPTY), we need to write some NANs here
   // if there was >1 coords, we also need to error or we'll get misaligned output
   if (private_data->size[0] == 0) {
-    int n_dim =
-        _GeoArrowkNumDimensions[private_data->builder.view.schema_view.dimensions];
-    private_data->empty_coord.n_values = n_dim;
-    NANOARROW_RETURN_NOT_OK(coords_point(v, &private_data->empty_coord));
+    NANOARROW_RETURN_NOT_OK(GeoArrowBuilderCoordsAppend(
+        &private_data->builder, &private_data->empty_coord,
+        private_data->builder.view.schema_view.dimensions, 0, 1));
   } else if (private_data->size[0] != 1) {
     GeoArrowErrorSet(v->error, "Can't convert feature with >1 coordinate to POINT");
     return EINVAL;
@@ -662,6 +683,8 @@ static int coords_multipoint(struct GeoArrowVisitor* v,
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
+  NANOARROW_RETURN_NOT_OK(
+      GeoArrowNativeWriterCheckCoords(private_data, coords, v->error));
   private_data->size[1] += coords->n_coords;
   return GeoArrowBuilderCoordsAppend(&private_data->builder, coords,
                                      private_data->last_dimensions, 0, coords->n_coords);
@@ -817,6 +840,8 @@ static int coords_multilinestring(struct GeoArrowVisitor* v,
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
+  NANOARROW_RETURN_NOT_OK(
+      GeoArrowNativeWriterCheckCoords(private_data, coords, v->error));
   private_data->size[1] += coords->n_coords;
   return GeoArrowBuilderCoordsAppend(&private_data->builder, coords,
                                      private_data->last_dimensions, 0, coords->n_coords);
@@ -979,6 +1004,8 @@ static int coords_multipolygon(struct GeoArrowVisitor* v,
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
+  NANOARROW_RETURN_NOT_OK(
+      GeoArrowNativeWriterCheckCoords(private_data, coords, v->error));
   private_data->size[2] += coords->n_coords;
   return GeoArrowBuilderCoordsAppend(&private_data->builder, coords,
                                      private_data->last_dimensions, 0, coords->n_coords);
-- 
2.43.0


From 00763559c87f69c1009380f522cf1dfc6d6094cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 27/68] fix: refuse points after a linestring when writing a
 linestring array

---
 src/geoarrow/native_writer.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/geoarrow/native_writer.c b/src/geoarrow/native_writer.c
index 236edbd..86a4414 100644
--- a/src/geoarrow/native_writer.c
+++ b/src/geoarrow/native_writer.c
@@ -761,6 +761,15 @@ static int feat_end_multipoint(struct GeoArrowVisitor* v) {
   } else if (private_data->size[0] != 1) {
     GeoArrowErrorSet(v->error, "Can't convert feature with >1 sequence to LINESTRING");
     return EINVAL;
+  } else {
+    // Coordinates after the end of the sequence are not part of any feature
+    struct GeoArrowWritableBufferView* offsets = &private_data->builder.view.buffers[1];
+    int64_t n_offsets = offsets->size_bytes / sizeof(int32_t);
+    if (offsets->data.as_int32[n_offsets - 1] !=
+        private_data->builder.view.coords.size_coords) {
+      GeoArrowErrorSet(v->error, "Can't convert feature with >1 sequence to LINESTRING");
+      return EINVAL;
+    }
   }
 
   if (private_data->feat_is_null) {
-- 
2.43.0


From 67fbbf67afdc31116dd446d8e2395f04d896fa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 28/68] fix: check for trailing characters before ending a
 feature in the WKT reader

---
 src/geoarrow/wkt_reader.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/wkt_reader.c b/src/geoarrow/wkt_reader.c
index 7a5dbf1..bb81181 100644
--- a/src/geoarrow/wkt_reader.c
+++ b/src/geoarrow/wkt_reader.c
@@ -511,12 +511,14 @@ GeoArrowErrorCode GeoArrowWKTReaderVisit(struct GeoArrowWKTReader* reader,
 
   NANOARROW_RETURN_NOT_OK(v->feat_start(v));
   NANOARROW_RETURN_NOT_OK(ReadTaggedGeometry(s, v));
-  NANOARROW_RETURN_NOT_OK(v->feat_end(v));
+
+  // Check for trailing characters before ending the feature: a visitor that has
+  // seen feat_end() has no way to know that the feature was not valid after all
   GeoArrowWKTSkipWhitespace(s);
   if (s->size_bytes > 0) {
     SetParseErrorAuto("end of input", s, v->error);
     return EINVAL;
   }
 
-  return GEOARROW_OK;
+  return v->feat_end(v);
 }
-- 
2.43.0


From 9ae80e8c12001ae4f3f05543b8d451fdf51fcf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:20 +0000
Subject: [PATCH 29/68] fix: discard the coordinates of incomplete features
 when buffers were resized

---
 src/geoarrow/native_writer.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/geoarrow/native_writer.c b/src/geoarrow/native_writer.c
index 86a4414..0f6b8ec 100644
--- a/src/geoarrow/native_writer.c
+++ b/src/geoarrow/native_writer.c
@@ -107,6 +107,15 @@ static void GeoArrowNativeWriterDiscardIncomplete(
     view->buffers[i + 1].size_bytes = private_data->complete_size_offsets[i];
   }
 
+  // Reserving space for coordinates may have updated the sizes of their buffers
+  int64_t size_bytes =
+      view->coords.size_coords * view->coords.coords_stride * sizeof(double);
+  for (int64_t i = view->n_offsets + 1; i < view->n_buffers; i++) {
+    if (view->buffers[i].size_bytes > size_bytes) {
+      view->buffers[i].size_bytes = size_bytes;
+    }
+  }
+
   private_data->feat_is_open = 0;
 }
 
-- 
2.43.0


From c8f8f69c126442758a6e5704fc4aeed7c54365e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:56 +0000
Subject: [PATCH 30/68] fix: refuse to end a ring in a point in the WKB writer

---
 src/geoarrow/wkb_writer.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/geoarrow/wkb_writer.c b/src/geoarrow/wkb_writer.c
index 2236e57..16a859a 100644
--- a/src/geoarrow/wkb_writer.c
+++ b/src/geoarrow/wkb_writer.c
@@ -145,6 +145,12 @@ static int coords_wkb(struct GeoArrowVisitor* v, const struct GeoArrowCoordView*
 static int ring_end_wkb(struct GeoArrowVisitor* v) {
   struct WKBWriterPrivate* private = (struct WKBWriterPrivate*)v->private_data;
   NANOARROW_RETURN_NOT_OK(WKBWriterCheckLevelEnd(private));
+
+  // Points have no position to write the size to
+  if (private->geometry_type[private->level] == GEOARROW_GEOMETRY_TYPE_POINT) {
+    return EINVAL;
+  }
+
   memcpy(private->values.data + private->size_pos[private->level],
          private->size + private->level, sizeof(uint32_t));
   private->level--;
-- 
2.43.0


From 3e435f89b1ce1cc28bb71f3c6588fe5ba0bd4d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:32 +0000
Subject: [PATCH 31/68] fix: don't visit the coordinates of nodes without
 dimensions

---
 src/geoarrow/geometry.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index 7264e68..9434a4a 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -418,6 +418,18 @@ static GeoArrowErrorCode GeoArrowGeometryVisitSequence(
     const struct GeoArrowGeometryNode* node, struct GeoArrowVisitor* v) {
   double coords[COORD_CACHE_SIZE_ELEMENTS];
   struct GeoArrowCoordView coord_view;
+
+  // Without dimensions there are no coordinates to visit
+  if (node->dimensions < GEOARROW_DIMENSIONS_XY ||
+      node->dimensions > GEOARROW_DIMENSIONS_XYZM) {
+    if (node->size == 0) {
+      return GEOARROW_OK;
+    }
+
+    GeoArrowErrorSet(v->error, "Invalid dimensions: %d", (int)node->dimensions);
+    return EINVAL;
+  }
+
   coord_view.n_values = _GeoArrowkNumDimensions[node->dimensions];
   for (int i = 0; i < coord_view.n_values; i++) {
     coord_view.values[i] = coords + i;
-- 
2.43.0


From d35d5d936326572503b64f1fc4eadb13af7d115c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:53 +0000
Subject: [PATCH 32/68] fix: discard the rows of a batch that a kernel could
 not complete

---
 src/geoarrow/kernel.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/geoarrow/kernel.c b/src/geoarrow/kernel.c
index ad8d96b..bb4f852 100644
--- a/src/geoarrow/kernel.c
+++ b/src/geoarrow/kernel.c
@@ -187,6 +187,17 @@ static void kernel_release_visitor(struct GeoArrowKernel* kernel) {
   kernel->release = NULL;
 }
 
+// Discard the rows of a batch that could not be completed such that they do not
+// become part of the output of the next batch
+static void kernel_discard_batch(struct GeoArrowVisitorKernelPrivate* private_data) {
+  struct ArrowArray tmp;
+  tmp.release = NULL;
+  if (private_data->finish_push_batch(private_data, &tmp, NULL) == GEOARROW_OK &&
+      tmp.release != NULL) {
+    tmp.release(&tmp);
+  }
+}
+
 static int kernel_push_batch(struct GeoArrowKernel* kernel, struct ArrowArray* array,
                              struct ArrowArray* out, struct GeoArrowError* error) {
   struct GeoArrowVisitorKernelPrivate* private_data =
@@ -196,8 +207,12 @@ static int kernel_push_batch(struct GeoArrowKernel* kernel, struct ArrowArray* a
       GeoArrowArrayReaderSetArray(&private_data->reader, array, error));
 
   private_data->v.error = error;
-  NANOARROW_RETURN_NOT_OK(GeoArrowArrayReaderVisit(&private_data->reader, 0,
-                                                   array->length, &private_data->v));
+  int result = GeoArrowArrayReaderVisit(&private_data->reader, 0, array->length,
+                                        &private_data->v);
+  if (result != GEOARROW_OK) {
+    kernel_discard_batch(private_data);
+    return result;
+  }
 
   return private_data->finish_push_batch(private_data, out, error);
 }
@@ -217,8 +232,11 @@ static int kernel_push_batch_by_feature(struct GeoArrowKernel* kernel,
     result = GeoArrowArrayReaderVisit(&private_data->reader, i, 1, &private_data->v);
 
     if (result == EAGAIN) {
-      NANOARROW_RETURN_NOT_OK(private_data->v.feat_end(&private_data->v));
-    } else if (result != NANOARROW_OK) {
+      result = private_data->v.feat_end(&private_data->v);
+    }
+
+    if (result != NANOARROW_OK) {
+      kernel_discard_batch(private_data);
       return result;
     }
   }
-- 
2.43.0


From 7550d25d1e7591d15a9ed8d58ab45bba23db52b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:35 +0000
Subject: [PATCH 33/68] fix: GeoArrowMakeType never makes a type of components
 it does not support

GeoArrowMakeType() only rejected the unknown values, so a GEOMETRYCOLLECTION
or an out-of-range component produced an identifier that was not a type, or
that of another type (e.g., POINT, XY and coord type 11 gave WKB).
---
 src/geoarrow/geoarrow_type_inline.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/geoarrow/geoarrow_type_inline.h b/src/geoarrow/geoarrow_type_inline.h
index 5ea2439..7e9ec62 100644
--- a/src/geoarrow/geoarrow_type_inline.h
+++ b/src/geoarrow/geoarrow_type_inline.h
@@ -234,11 +234,16 @@ static inline enum GeoArrowCoordType GeoArrowCoordTypeFromType(enum GeoArrowType
 static inline enum GeoArrowType GeoArrowMakeType(enum GeoArrowGeometryType geometry_type,
                                                  enum GeoArrowDimensions dimensions,
                                                  enum GeoArrowCoordType coord_type) {
-  if (geometry_type == GEOARROW_GEOMETRY_TYPE_GEOMETRY) {
+  // There is no GeoArrowType for a GEOMETRY or a GEOMETRYCOLLECTION
+  if (geometry_type != GEOARROW_GEOMETRY_TYPE_BOX &&
+      (geometry_type < GEOARROW_GEOMETRY_TYPE_POINT ||
+       geometry_type > GEOARROW_GEOMETRY_TYPE_MULTIPOLYGON)) {
     return GEOARROW_TYPE_UNINITIALIZED;
-  } else if (dimensions == GEOARROW_DIMENSIONS_UNKNOWN) {
+  } else if (dimensions < GEOARROW_DIMENSIONS_XY ||
+             dimensions > GEOARROW_DIMENSIONS_XYZM) {
     return GEOARROW_TYPE_UNINITIALIZED;
-  } else if (coord_type == GEOARROW_COORD_TYPE_UNKNOWN) {
+  } else if (coord_type < GEOARROW_COORD_TYPE_SEPARATE ||
+             coord_type > GEOARROW_COORD_TYPE_INTERLEAVED) {
     return GEOARROW_TYPE_UNINITIALIZED;
   } else if (geometry_type == GEOARROW_GEOMETRY_TYPE_BOX &&
              coord_type != GEOARROW_COORD_TYPE_SEPARATE) {
-- 
2.43.0


From d918beb072ca4914a1aca71aa5daa29e6e6e243b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 34/68] fix: leave the schema view alone when the schema is
 refused

GeoArrowSchemaViewInit(), GeoArrowSchemaViewInitFromStorage() and
GeoArrowSchemaViewInitFromType() wrote some of the members before finding out
that the schema or type was not supported. The schema member, documented as
the schema used to populate the view, is now also set.
---
 src/geoarrow/schema_view.c | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/geoarrow/schema_view.c b/src/geoarrow/schema_view.c
index 85c1a64..60a8263 100644
--- a/src/geoarrow/schema_view.c
+++ b/src/geoarrow/schema_view.c
@@ -361,7 +361,14 @@ GeoArrowErrorCode GeoArrowSchemaViewInit(struct GeoArrowSchemaView* schema_view,
     return EINVAL;
   }
 
-  return GeoArrowSchemaViewInitInternal(schema_view, schema, &na_schema_view, na_error);
+  // Only write to the output once the schema is known to be valid
+  struct GeoArrowSchemaView out;
+  memset(&out, 0, sizeof(out));
+  out.schema = (struct ArrowSchema*)schema;
+  NANOARROW_RETURN_NOT_OK(
+      GeoArrowSchemaViewInitInternal(&out, schema, &na_schema_view, na_error));
+  *schema_view = out;
+  return GEOARROW_OK;
 }
 
 GeoArrowErrorCode GeoArrowSchemaViewInitFromStorage(
@@ -372,11 +379,23 @@ GeoArrowErrorCode GeoArrowSchemaViewInitFromStorage(
   NANOARROW_RETURN_NOT_OK(ArrowSchemaViewInit(&na_schema_view, schema, na_error));
   na_schema_view.extension_name.data = extension_name.data;
   na_schema_view.extension_name.size_bytes = extension_name.size_bytes;
-  return GeoArrowSchemaViewInitInternal(schema_view, schema, &na_schema_view, na_error);
+
+  struct GeoArrowSchemaView out;
+  memset(&out, 0, sizeof(out));
+  out.schema = (struct ArrowSchema*)schema;
+  NANOARROW_RETURN_NOT_OK(
+      GeoArrowSchemaViewInitInternal(&out, schema, &na_schema_view, na_error));
+  *schema_view = out;
+  return GEOARROW_OK;
 }
 
 GeoArrowErrorCode GeoArrowSchemaViewInitFromType(struct GeoArrowSchemaView* schema_view,
                                                  enum GeoArrowType type) {
+  const char* extension_name = GeoArrowExtensionNameFromType(type);
+  if (type != GEOARROW_TYPE_UNINITIALIZED && extension_name == NULL) {
+    return EINVAL;
+  }
+
   schema_view->schema = NULL;
   schema_view->extension_name.data = NULL;
   schema_view->extension_name.size_bytes = 0;
@@ -391,11 +410,6 @@ GeoArrowErrorCode GeoArrowSchemaViewInitFromType(struct GeoArrowSchemaView* sche
     return GEOARROW_OK;
   }
 
-  const char* extension_name = GeoArrowExtensionNameFromType(type);
-  if (extension_name == NULL) {
-    return EINVAL;
-  }
-
   schema_view->extension_name.data = extension_name;
   schema_view->extension_name.size_bytes = strlen(extension_name);
 
-- 
2.43.0


From 9d2506e9ea1af1a17ebf325540724d64972647a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 35/68] fix: only recognise 'geoarrow.wkb' itself as the WKB
 extension name

Any longer name that started with geoarrow.wkb was read as WKB.
---
 src/geoarrow/schema_view.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/schema_view.c b/src/geoarrow/schema_view.c
index 60a8263..5987e44 100644
--- a/src/geoarrow/schema_view.c
+++ b/src/geoarrow/schema_view.c
@@ -312,7 +312,7 @@ static GeoArrowErrorCode GeoArrowSchemaViewInitInternal(
     schema_view->geometry_type = GeoArrowGeometryTypeFromType(schema_view->type);
     schema_view->dimensions = GeoArrowDimensionsFromType(schema_view->type);
     schema_view->coord_type = GeoArrowCoordTypeFromType(schema_view->type);
-  } else if (ext_len >= 12 && strncmp(ext_name, "geoarrow.wkb", 12) == 0) {
+  } else if (ext_len == 12 && strncmp(ext_name, "geoarrow.wkb", 12) == 0) {
     switch (na_schema_view->type) {
       case NANOARROW_TYPE_BINARY:
         schema_view->type = GEOARROW_TYPE_WKB;
-- 
2.43.0


From cfa5438d93d0509c5735653c16acb55ebef20fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:06 +0000
Subject: [PATCH 36/68] fix: read the crs_type from its value

The key was compared instead of the value (and the comparison was inverted),
such that any value of the right length was accepted as a crs_type.
---
 src/geoarrow/metadata.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index c6c3c47..faecb8f 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -255,13 +255,13 @@ static GeoArrowErrorCode ParseJSONMetadata(struct GeoArrowMetadataView* metadata
       }
     } else if (k.size_bytes == 10 && strncmp(k.data, "\"crs_type\"", 10) == 0) {
       if (v.data[0] == '\"') {
-        if (v.size_bytes == 10 && strncmp(k.data, "\"projjson\"", 10)) {
+        if (v.size_bytes == 10 && strncmp(v.data, "\"projjson\"", 10) == 0) {
           metadata_view->crs_type = GEOARROW_CRS_TYPE_PROJJSON;
-        } else if (v.size_bytes == 11 && strncmp(k.data, "\"wkt2:2019\"", 11)) {
+        } else if (v.size_bytes == 11 && strncmp(v.data, "\"wkt2:2019\"", 11) == 0) {
           metadata_view->crs_type = GEOARROW_CRS_TYPE_WKT2_2019;
-        } else if (v.size_bytes == 16 && strncmp(k.data, "\"authority_code\"", 16)) {
+        } else if (v.size_bytes == 16 && strncmp(v.data, "\"authority_code\"", 16) == 0) {
           metadata_view->crs_type = GEOARROW_CRS_TYPE_AUTHORITY_CODE;
-        } else if (v.size_bytes == 6 && strncmp(k.data, "\"srid\"", 6)) {
+        } else if (v.size_bytes == 6 && strncmp(v.data, "\"srid\"", 6) == 0) {
           metadata_view->crs_type = GEOARROW_CRS_TYPE_SRID;
         } else {
           // Accept unrecognized string values but ignore them
-- 
2.43.0


From 061d8026b59cb30c332545b93cbefc11530a0ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:06 +0000
Subject: [PATCH 37/68] fix: escape backslashes when serializing the CRS

The space for the escape was counted but the escape was not written, leaving
the end of the serialized metadata uninitialized and the CRS changed.
---
 src/geoarrow/metadata.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index faecb8f..ddab18a 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -449,7 +449,7 @@ static int64_t GeoArrowMetadataSerializeInternal(
       *out++ = '"';
       for (int64_t i = 0; i < metadata_view->crs.size_bytes; i++) {
         char val = metadata_view->crs.data[i];
-        if (val == '"') {
+        if (val == '"' || val == '\\') {
           *out++ = '\\';
         }
 
-- 
2.43.0


From b63de1a94a1c662740a8955a618c5080231aebde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:37 +0000
Subject: [PATCH 38/68] fix: refuse truncated or malformed extension metadata
 without reading past it

A NUL in a list or an object looped for ever, a text ending after a ':' or
before a value was read past its end, and anything was accepted between a value
and the next comma or brace.
---
 src/geoarrow/metadata.c | 106 ++++++++++++++++++++++------------------
 1 file changed, 59 insertions(+), 47 deletions(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index ddab18a..82d1f4d 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -74,7 +74,7 @@ static GeoArrowErrorCode FindNull(struct ArrowStringView* s,
 static GeoArrowErrorCode FindString(struct ArrowStringView* s,
                                     struct ArrowStringView* out) {
   out->data = s->data;
-  if (s->data[0] != '\"') {
+  if (s->size_bytes == 0 || s->data[0] != '\"') {
     return EINVAL;
   }
 
@@ -112,7 +112,7 @@ static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
 static GeoArrowErrorCode FindList(struct ArrowStringView* s,
                                   struct ArrowStringView* out) {
   out->data = s->data;
-  if (s->data[0] != '[') {
+  if (s->size_bytes == 0 || s->data[0] != '[') {
     return EINVAL;
   }
 
@@ -120,26 +120,28 @@ static GeoArrowErrorCode FindList(struct ArrowStringView* s,
   s->data++;
   struct ArrowStringView tmp_value;
   while (s->size_bytes > 0) {
-    if (SkipUntil(s, "[{\"]")) {
-      char c = *(s->data);
-      switch (c) {
-        case '\"':
-          NANOARROW_RETURN_NOT_OK(FindString(s, &tmp_value));
-          break;
-        case '[':
-          NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value));
-          break;
-        case '{':
-          NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value));
-          break;
-        case ']':
-          s->size_bytes--;
-          s->data++;
-          out->size_bytes = s->data - out->data;
-          return GEOARROW_OK;
-        default:
-          break;
-      }
+    if (!SkipUntil(s, "[{\"]")) {
+      return EINVAL;
+    }
+
+    char c = *(s->data);
+    switch (c) {
+      case '\"':
+        NANOARROW_RETURN_NOT_OK(FindString(s, &tmp_value));
+        break;
+      case '[':
+        NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value));
+        break;
+      case '{':
+        NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value));
+        break;
+      case ']':
+        s->size_bytes--;
+        s->data++;
+        out->size_bytes = s->data - out->data;
+        return GEOARROW_OK;
+      default:
+        break;
     }
   }
 
@@ -149,7 +151,7 @@ static GeoArrowErrorCode FindList(struct ArrowStringView* s,
 static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
                                     struct ArrowStringView* out) {
   out->data = s->data;
-  if (s->data[0] != '{') {
+  if (s->size_bytes == 0 || s->data[0] != '{') {
     return EINVAL;
   }
 
@@ -157,26 +159,28 @@ static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
   s->data++;
   struct ArrowStringView tmp_value;
   while (s->size_bytes > 0) {
-    if (SkipUntil(s, "{[\"}")) {
-      char c = *(s->data);
-      switch (c) {
-        case '\"':
-          NANOARROW_RETURN_NOT_OK(FindString(s, &tmp_value));
-          break;
-        case '[':
-          NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value));
-          break;
-        case '{':
-          NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value));
-          break;
-        case '}':
-          s->size_bytes--;
-          s->data++;
-          out->size_bytes = s->data - out->data;
-          return GEOARROW_OK;
-        default:
-          break;
-      }
+    if (!SkipUntil(s, "{[\"}")) {
+      return EINVAL;
+    }
+
+    char c = *(s->data);
+    switch (c) {
+      case '\"':
+        NANOARROW_RETURN_NOT_OK(FindString(s, &tmp_value));
+        break;
+      case '[':
+        NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value));
+        break;
+      case '{':
+        NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value));
+        break;
+      case '}':
+        s->size_bytes--;
+        s->data++;
+        out->size_bytes = s->data - out->data;
+        return GEOARROW_OK;
+      default:
+        break;
     }
   }
 
@@ -196,6 +200,9 @@ static GeoArrowErrorCode ParseJSONMetadata(struct GeoArrowMetadataView* metadata
     SkipWhitespace(s);
     NANOARROW_RETURN_NOT_OK(ParseChar(s, ':'));
     SkipWhitespace(s);
+    if (s->size_bytes == 0) {
+      return EINVAL;
+    }
 
     switch (s->data[0]) {
       case '[':
@@ -273,10 +280,15 @@ static GeoArrowErrorCode ParseJSONMetadata(struct GeoArrowMetadataView* metadata
       }
     }
 
-    SkipUntil(s, ",}");
-    if (s->data[0] == ',') {
-      s->size_bytes--;
-      s->data++;
+    // Another member must follow a comma; anything else must end the object
+    SkipWhitespace(s);
+    if (ParseChar(s, ',') != GEOARROW_OK) {
+      break;
+    }
+
+    SkipWhitespace(s);
+    if (s->size_bytes > 0 && s->data[0] == '}') {
+      return EINVAL;
     }
   }
 
-- 
2.43.0


From f364a5394b80c7cb284e3860ed4ef10e5289707e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:13 +0000
Subject: [PATCH 39/68] fix: leave the metadata view alone when the metadata is
 refused

---
 src/geoarrow/metadata.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index 82d1f4d..e58e43b 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -338,17 +338,21 @@ static GeoArrowErrorCode GeoArrowMetadataViewInitJSON(
 GeoArrowErrorCode GeoArrowMetadataViewInit(struct GeoArrowMetadataView* metadata_view,
                                            struct GeoArrowStringView metadata,
                                            struct GeoArrowError* error) {
-  metadata_view->metadata = metadata;
-  metadata_view->edge_type = GEOARROW_EDGE_TYPE_PLANAR;
-  metadata_view->crs_type = GEOARROW_CRS_TYPE_NONE;
-  metadata_view->crs.data = NULL;
-  metadata_view->crs.size_bytes = 0;
+  struct GeoArrowMetadataView out;
+  memset(&out, 0, sizeof(out));
+  out.metadata = metadata;
+  out.edge_type = GEOARROW_EDGE_TYPE_PLANAR;
+  out.crs_type = GEOARROW_CRS_TYPE_NONE;
+  out.crs.data = NULL;
+  out.crs.size_bytes = 0;
 
-  if (metadata.size_bytes == 0) {
-    return GEOARROW_OK;
+  if (metadata.size_bytes > 0) {
+    NANOARROW_RETURN_NOT_OK(GeoArrowMetadataViewInitJSON(&out, error));
   }
 
-  return GeoArrowMetadataViewInitJSON(metadata_view, error);
+  // Only write to the output once the metadata is known to be valid
+  *metadata_view = out;
+  return GEOARROW_OK;
 }
 
 static int GeoArrowMetadataCrsNeedsEscape(struct GeoArrowStringView crs) {
-- 
2.43.0


From 0e640b2572a2799dac4ef7eed6415512ecec7697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:43 +0000
Subject: [PATCH 40/68] fix: resolve all JSON escape sequences when unescaping
 a CRS

GeoArrowUnescapeCrs() is documented to give the JSON string value but dropped
the backslash of every escape sequence, such that a line feed in a WKT2 CRS
became the letter n.
---
 src/geoarrow/metadata.c | 122 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 111 insertions(+), 11 deletions(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index e58e43b..c6a8d30 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -560,6 +560,98 @@ GeoArrowErrorCode GeoArrowSchemaSetMetadataFrom(struct ArrowSchema* schema,
   return result;
 }
 
+// Parse the four hexadecimal digits of a \uXXXX escape or return -1
+static int32_t ParseHex4(const char* data) {
+  int32_t out = 0;
+  for (int i = 0; i < 4; i++) {
+    char c = data[i];
+    int32_t digit;
+    if (c >= '0' && c <= '9') {
+      digit = c - '0';
+    } else if (c >= 'a' && c <= 'f') {
+      digit = c - 'a' + 10;
+    } else if (c >= 'A' && c <= 'F') {
+      digit = c - 'A' + 10;
+    } else {
+      return -1;
+    }
+
+    out = out * 16 + digit;
+  }
+
+  return out;
+}
+
+static int EncodeUtf8(int32_t code_point, char* out) {
+  if (code_point < 0x80) {
+    out[0] = (char)code_point;
+    return 1;
+  } else if (code_point < 0x800) {
+    out[0] = (char)(0xc0 | (code_point >> 6));
+    out[1] = (char)(0x80 | (code_point & 0x3f));
+    return 2;
+  } else if (code_point < 0x10000) {
+    out[0] = (char)(0xe0 | (code_point >> 12));
+    out[1] = (char)(0x80 | ((code_point >> 6) & 0x3f));
+    out[2] = (char)(0x80 | (code_point & 0x3f));
+    return 3;
+  } else {
+    out[0] = (char)(0xf0 | (code_point >> 18));
+    out[1] = (char)(0x80 | ((code_point >> 12) & 0x3f));
+    out[2] = (char)(0x80 | ((code_point >> 6) & 0x3f));
+    out[3] = (char)(0x80 | (code_point & 0x3f));
+    return 4;
+  }
+}
+
+// Resolve the JSON escape sequence starting at the character after the backslash.
+// Returns the number of characters consumed.
+static int64_t UnescapeChar(const char* data, int64_t size_bytes, char* out,
+                            int* out_size) {
+  *out_size = 1;
+  switch (data[0]) {
+    case 'b':
+      out[0] = '\b';
+      return 1;
+    case 'f':
+      out[0] = '\f';
+      return 1;
+    case 'n':
+      out[0] = '\n';
+      return 1;
+    case 'r':
+      out[0] = '\r';
+      return 1;
+    case 't':
+      out[0] = '\t';
+      return 1;
+    case 'u':
+      if (size_bytes >= 5) {
+        int32_t code_point = ParseHex4(data + 1);
+        int64_t consumed = 5;
+        if (code_point >= 0xd800 && code_point < 0xdc00 && size_bytes >= 11 &&
+            data[5] == '\\' && data[6] == 'u') {
+          int32_t low = ParseHex4(data + 7);
+          if (low >= 0xdc00 && low < 0xe000) {
+            code_point = 0x10000 + ((code_point - 0xd800) << 10) + (low - 0xdc00);
+            consumed = 11;
+          }
+        }
+
+        if (code_point >= 0) {
+          *out_size = EncodeUtf8(code_point, out);
+          return consumed;
+        }
+      }
+      break;
+    default:
+      break;
+  }
+
+  out[0] = data[0];
+  return 1;
+}
+
 int64_t GeoArrowUnescapeCrs(struct GeoArrowStringView crs, char* out, int64_t n) {
   if (crs.size_bytes == 0) {
     if (n > 0) {
@@ -580,20 +672,28 @@ int64_t GeoArrowUnescapeCrs(struct GeoArrowStringView crs, char* out, int64_t n)
   }
 
   int64_t out_i = 0;
-  int is_escape = 0;
-  for (int64_t i = 1; i < (crs.size_bytes - 1); i++) {
-    if (!is_escape && crs.data[i] == '\\') {
-      is_escape = 1;
-      continue;
-    } else {
-      is_escape = 0;
-    }
+  int64_t end = crs.size_bytes - 1;
+  int64_t i = 1;
+  while (i < end) {
+    char value[4] = {crs.data[i], '\0', '\0', '\0'};
+    int value_size = 1;
+    i++;
+
+    if (value[0] == '\\') {
+      if (i == end) {
+        break;
+      }
 
-    if (out_i < n) {
-      out[out_i] = crs.data[i];
+      i += UnescapeChar(crs.data + i, end - i, value, &value_size);
     }
 
-    out_i++;
+    for (int j = 0; j < value_size; j++) {
+      if (out_i < n) {
+        out[out_i] = value[j];
+      }
+
+      out_i++;
+    }
   }
 
   if (out_i < n) {
-- 
2.43.0


From c2c5447c85c0cf563c8dbe7835de12e1a9573736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:51 +0000
Subject: [PATCH 41/68] fix: limit the depth of nested values in extension
 metadata

A long enough run of opening brackets overflowed the stack.
---
 src/geoarrow/metadata.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index c6a8d30..8911a6f 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -106,13 +106,16 @@ static GeoArrowErrorCode FindString(struct ArrowStringView* s,
   return EINVAL;
 }
 
+// Nested values are matched recursively up to this depth
+#define GEOARROW_METADATA_MAX_DEPTH 256
+
 static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
-                                    struct ArrowStringView* out);
+                                    struct ArrowStringView* out, int depth);
 
-static GeoArrowErrorCode FindList(struct ArrowStringView* s,
-                                  struct ArrowStringView* out) {
+static GeoArrowErrorCode FindList(struct ArrowStringView* s, struct ArrowStringView* out,
+                                  int depth) {
   out->data = s->data;
-  if (s->size_bytes == 0 || s->data[0] != '[') {
+  if (s->size_bytes == 0 || s->data[0] != '[' || depth >= GEOARROW_METADATA_MAX_DEPTH) {
     return EINVAL;
   }
 
@@ -130,10 +133,10 @@ static GeoArrowErrorCode FindList(struct ArrowStringView* s,
         NANOARROW_RETURN_NOT_OK(FindString(s, &tmp_value));
         break;
       case '[':
-        NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value));
+        NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value, depth + 1));
         break;
       case '{':
-        NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value));
+        NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value, depth + 1));
         break;
       case ']':
         s->size_bytes--;
@@ -149,9 +152,9 @@ static GeoArrowErrorCode FindList(struct ArrowStringView* s,
 }
 
 static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
-                                    struct ArrowStringView* out) {
+                                    struct ArrowStringView* out, int depth) {
   out->data = s->data;
-  if (s->size_bytes == 0 || s->data[0] != '{') {
+  if (s->size_bytes == 0 || s->data[0] != '{' || depth >= GEOARROW_METADATA_MAX_DEPTH) {
     return EINVAL;
   }
 
@@ -169,10 +172,10 @@ static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
         NANOARROW_RETURN_NOT_OK(FindString(s, &tmp_value));
         break;
       case '[':
-        NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value));
+        NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value, depth + 1));
         break;
       case '{':
-        NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value));
+        NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value, depth + 1));
         break;
       case '}':
         s->size_bytes--;
@@ -206,10 +209,10 @@ static GeoArrowErrorCode ParseJSONMetadata(struct GeoArrowMetadataView* metadata
 
     switch (s->data[0]) {
       case '[':
-        NANOARROW_RETURN_NOT_OK(FindList(s, &v));
+        NANOARROW_RETURN_NOT_OK(FindList(s, &v, 0));
         break;
       case '{':
-        NANOARROW_RETURN_NOT_OK(FindObject(s, &v));
+        NANOARROW_RETURN_NOT_OK(FindObject(s, &v, 0));
         break;
       case '\"':
         NANOARROW_RETURN_NOT_OK(FindString(s, &v));
-- 
2.43.0


From d611e5705509a2f7c272add59df4ed6d87a68e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:11 +0000
Subject: [PATCH 42/68] fix: refuse schema views of identifiers that are not
 types

---
 src/geoarrow/schema_view.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/geoarrow/schema_view.c b/src/geoarrow/schema_view.c
index 5987e44..eadc298 100644
--- a/src/geoarrow/schema_view.c
+++ b/src/geoarrow/schema_view.c
@@ -396,6 +396,14 @@ GeoArrowErrorCode GeoArrowSchemaViewInitFromType(struct GeoArrowSchemaView* sche
     return EINVAL;
   }
 
+  // An identifier whose components don't combine to a supported type isn't a type
+  enum GeoArrowGeometryType geometry_type = GeoArrowGeometryTypeFromType(type);
+  if (geometry_type != GEOARROW_GEOMETRY_TYPE_GEOMETRY &&
+      GeoArrowMakeType(geometry_type, GeoArrowDimensionsFromType(type),
+                       GeoArrowCoordTypeFromType(type)) != type) {
+    return EINVAL;
+  }
+
   schema_view->schema = NULL;
   schema_view->extension_name.data = NULL;
   schema_view->extension_name.size_bytes = 0;
-- 
2.43.0


From 17effee6fa6086aa4627940feca0e9e276d840dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:35 +0000
Subject: [PATCH 43/68] fix: convert coordinates when visiting the edges of C++
 array views

---
 src/geoarrow/hpp/array_util.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/geoarrow/hpp/array_util.hpp b/src/geoarrow/hpp/array_util.hpp
index c45c151..d306b2a 100644
--- a/src/geoarrow/hpp/array_util.hpp
+++ b/src/geoarrow/hpp/array_util.hpp
@@ -3,6 +3,7 @@
 #define GEOARROW_HPP_ARRAY_UTIL_INCLUDED
 
 #include <array>
+#include <cstring>
 #include <iterator>
 #include <limits>
 #include <type_traits>
@@ -638,7 +639,7 @@ struct CoordSequence {
     CoordDst start = CoordCast<Coord, CoordDst>(*it);
     ++it;
     while (it != end()) {
-      CoordDst end = *it;
+      CoordDst end = CoordCast<Coord, CoordDst>(*it);
       func(start, end);
       start = end;
       ++it;
@@ -1109,7 +1110,7 @@ struct PointArray : public Array<CoordSequence<Coord>> {
   /// For the purposes of this function, points are considered degenerate edges.
   template <typename CoordDst, typename Func>
   void VisitEdges(Func&& func) const {
-    this->template VisitVertices<CoordDst>([&](Coord coord) { func(coord, coord); });
+    this->template VisitVertices<CoordDst>([&](CoordDst coord) { func(coord, coord); });
   }
 };
 
@@ -1231,7 +1232,7 @@ struct MultipointArray : public Array<ListSequence<CoordSequence<Coord>>> {
   /// For the purposes of this function, points are considered degenerate edges.
   template <typename CoordDst, typename Func>
   void VisitEdges(Func&& func) const {
-    this->template VisitVertices<CoordDst>([&](Coord coord) { func(coord, coord); });
+    this->template VisitVertices<CoordDst>([&](CoordDst coord) { func(coord, coord); });
   }
 };
 
-- 
2.43.0


From 2605e6569e6235f06985f29c1ed2797e8abf9401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:33 +0000
Subject: [PATCH 44/68] fix: keep the byte order when slicing unaligned
 coordinate sequences in C++

---
 src/geoarrow/hpp/array_util.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/geoarrow/hpp/array_util.hpp b/src/geoarrow/hpp/array_util.hpp
index d306b2a..c620e3a 100644
--- a/src/geoarrow/hpp/array_util.hpp
+++ b/src/geoarrow/hpp/array_util.hpp
@@ -704,8 +704,9 @@ struct UnalignedCoordSequence {
   }
 
   /// \brief Initialize from a GeoArrowCoordView
-  GeoArrowErrorCode InitFrom(struct GeoArrowCoordView* view) {
-    if (view->n_values < coord_size || !std::is_same<ordinate_type, double>::value) {
+  GeoArrowErrorCode InitFrom(const struct GeoArrowCoordView* view) {
+    if (static_cast<uint32_t>(view->n_values) < coord_size ||
+        !std::is_same<ordinate_type, double>::value) {
       return EINVAL;
     }
 
@@ -781,8 +782,8 @@ struct UnalignedCoordSequence {
   ///
   /// Caller is responsible for ensuring that offset + length is within the bounds
   /// of this function.
-  UnalignedCoordSequence<Coord> Slice(int64_t offset, int64_t length) const {
-    UnalignedCoordSequence<Coord> out = *this;
+  UnalignedCoordSequence<Coord, Load> Slice(int64_t offset, int64_t length) const {
+    UnalignedCoordSequence<Coord, Load> out = *this;
     out.offset += offset;
     out.length = length;
     return out;
-- 
2.43.0


From 89d5aa2ac7f9fcc052d3670f5135af01ff226434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:33 +0000
Subject: [PATCH 45/68] fix: load the value in the postfix increment of
 unaligned C++ iterators

---
 src/geoarrow/hpp/array_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/hpp/array_util.hpp b/src/geoarrow/hpp/array_util.hpp
index c620e3a..6731b13 100644
--- a/src/geoarrow/hpp/array_util.hpp
+++ b/src/geoarrow/hpp/array_util.hpp
@@ -203,7 +203,7 @@ class UnalignedStridedIterator {
     return *this;
   }
   T operator++(int) {
-    T retval = *ptr_;
+    T retval = load_(ptr_);
     ptr_ += stride_;
     return retval;
   }
-- 
2.43.0


From d5c21ff0aa44dc306df42ba3812bfffaca20d655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:33 +0000
Subject: [PATCH 46/68] fix: use the stride when indexing C++ dimension
 iterators

---
 src/geoarrow/hpp/array_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/hpp/array_util.hpp b/src/geoarrow/hpp/array_util.hpp
index 6731b13..2995177 100644
--- a/src/geoarrow/hpp/array_util.hpp
+++ b/src/geoarrow/hpp/array_util.hpp
@@ -162,7 +162,7 @@ class StridedIterator {
   bool operator!=(const StridedIterator& other) const { return ptr_ != other.ptr_; }
 
   T operator*() const { return *ptr_; }
-  T operator[](ptrdiff_t i) const { return ptr_[i]; }
+  T operator[](ptrdiff_t i) const { return ptr_[i * stride_]; }
 
   using iterator_category = std::random_access_iterator_tag;
   using difference_type = int64_t;
-- 
2.43.0


From d240f40f8c3d6c4c99c0140c5c99f970bc476472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:45 +0000
Subject: [PATCH 47/68] fix: make empty C++ XYZ and XYM boxes empty in every
 dimension

---
 src/geoarrow/hpp/array_util.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/hpp/array_util.hpp b/src/geoarrow/hpp/array_util.hpp
index 2995177..2c1b695 100644
--- a/src/geoarrow/hpp/array_util.hpp
+++ b/src/geoarrow/hpp/array_util.hpp
@@ -434,7 +434,8 @@ struct BoxXYZ : public std::array<T, 6> {
   bound_type lower_bound() const { return {xmin(), ymin(), zmin()}; }
   bound_type upper_bound() const { return {xmax(), ymax(), zmax()}; }
   static BoxXYZ Empty() {
-    return {std::numeric_limits<T>::infinity(), std::numeric_limits<T>::infinity(),
+    return {std::numeric_limits<T>::infinity(),  std::numeric_limits<T>::infinity(),
+            std::numeric_limits<T>::infinity(),  -std::numeric_limits<T>::infinity(),
             -std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity()};
   }
 };
@@ -454,7 +455,8 @@ struct BoxXYM : public std::array<T, 6> {
   bound_type lower_bound() const { return {xmin(), ymin(), mmin()}; }
   bound_type upper_bound() const { return {xmax(), ymax(), mmax()}; }
   static BoxXYM Empty() {
-    return {std::numeric_limits<T>::infinity(), std::numeric_limits<T>::infinity(),
+    return {std::numeric_limits<T>::infinity(),  std::numeric_limits<T>::infinity(),
+            std::numeric_limits<T>::infinity(),  -std::numeric_limits<T>::infinity(),
             -std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity()};
   }
 };
-- 
2.43.0


From efc242bff8dd5e7e41fd756243c5baf2e6e57ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:11 +0000
Subject: [PATCH 48/68] fix: pass the builder by address when wrapping a buffer
 with an explicit view

---
 src/geoarrow/hpp/array_writer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/hpp/array_writer.hpp b/src/geoarrow/hpp/array_writer.hpp
index 12ef329..74e6b13 100644
--- a/src/geoarrow/hpp/array_writer.hpp
+++ b/src/geoarrow/hpp/array_writer.hpp
@@ -36,7 +36,7 @@ class ArrayBuilder {
   void SetBufferWrapped(int64_t i, T obj, GeoArrowBufferView value) {
     T* obj_moved = new T(std::move(obj));
     GeoArrowErrorCode result = GeoArrowBuilderSetOwnedBuffer(
-        builder_, i, value, &internal::FreeWrappedBuffer<T>, obj_moved);
+        &builder_, i, value, &internal::FreeWrappedBuffer<T>, obj_moved);
     if (result != GEOARROW_OK) {
       delete obj_moved;
       throw ::geoarrow::ErrnoException(result, "GeoArrowBuilderSetOwnedBuffer()",
-- 
2.43.0


From a72a2a468fbc5e34d70e49aab4d9e76fa661cd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:50 +0000
Subject: [PATCH 49/68] fix: return the error when the box kernel cannot
 allocate its output

---
 src/geoarrow/kernel.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/geoarrow/kernel.c b/src/geoarrow/kernel.c
index bb4f852..801640b 100644
--- a/src/geoarrow/kernel.c
+++ b/src/geoarrow/kernel.c
@@ -538,6 +538,8 @@ static ArrowErrorCode box_finish(struct GeoArrowVisitorKernelPrivate* private_da
     if (tmp.release != NULL) {
       tmp.release(&tmp);
     }
+
+    return result;
   }
 
   int64_t length = private_data->box2d_private.values[0].size_bytes / sizeof(double);
-- 
2.43.0


From 116f5542de160ab952a0d652f9f1c4d50d8aa4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:50 +0000
Subject: [PATCH 50/68] fix: mark released scalar functions and factories as
 released

---
 src/geoarrow/scalar_udf.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/scalar_udf.c b/src/geoarrow/scalar_udf.c
index b25952d..8f45363 100644
--- a/src/geoarrow/scalar_udf.c
+++ b/src/geoarrow/scalar_udf.c
@@ -7,7 +7,7 @@ static void GeoArrowScalarUdfVoidFactoryInit(struct GeoArrowScalarUdfFactory* se
                                              struct GeoArrowScalarUdf* out);
 
 static void GeoArrowScalarUdfVoidFactoryRelease(struct GeoArrowScalarUdfFactory* self) {
-  GEOARROW_UNUSED(self);
+  self->release = NULL;
 }
 
 GeoArrowErrorCode GeoArrowScalarUdfFactoryInit(struct GeoArrowScalarUdfFactory* out,
@@ -66,7 +66,7 @@ static const char* GeoArrowScalarUdfVoidGetLastError(struct GeoArrowScalarUdf* s
 }
 
 static void GeoArrowScalarUdfVoidRelease(struct GeoArrowScalarUdf* self) {
-  GEOARROW_UNUSED(self);
+  self->release = NULL;
 }
 
 static void GeoArrowScalarUdfVoidFactoryInit(struct GeoArrowScalarUdfFactory* self,
@@ -76,4 +76,5 @@ static void GeoArrowScalarUdfVoidFactoryInit(struct GeoArrowScalarUdfFactory* se
   out->execute = &GeoArrowScalarUdfVoidExecute;
   out->get_last_error = &GeoArrowScalarUdfVoidGetLastError;
   out->release = &GeoArrowScalarUdfVoidRelease;
+  out->private_data = NULL;
 }
-- 
2.43.0


From 4fcf6021b9175f60cb980a4898a4896394b1141c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:50 +0000
Subject: [PATCH 51/68] fix: don't leak when an array writer's type is not
 supported

---
 src/geoarrow/array_writer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/array_writer.c b/src/geoarrow/array_writer.c
index 864937d..b5bf59a 100644
--- a/src/geoarrow/array_writer.c
+++ b/src/geoarrow/array_writer.c
@@ -30,7 +30,8 @@ GeoArrowErrorCode GeoArrowArrayWriterInitFromType(struct GeoArrowArrayWriter* wr
     case GEOARROW_TYPE_LARGE_WKB:
     case GEOARROW_TYPE_WKT_VIEW:
     case GEOARROW_TYPE_WKB_VIEW:
-      return ENOTSUP;
+      result = ENOTSUP;
+      break;
     case GEOARROW_TYPE_WKT:
       result = GeoArrowWKTWriterInit(&private_data->wkt_writer);
       break;
-- 
2.43.0


From dc63048811a6270336cd897a7af590aed06bff67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:50 +0000
Subject: [PATCH 52/68] fix: don't leak the reader when a kernel is started
 again

---
 src/geoarrow/kernel.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/kernel.c b/src/geoarrow/kernel.c
index 801640b..68f9559 100644
--- a/src/geoarrow/kernel.c
+++ b/src/geoarrow/kernel.c
@@ -253,12 +253,20 @@ static int kernel_visitor_start(struct GeoArrowKernel* kernel, struct ArrowSchem
   struct GeoArrowSchemaView schema_view;
   NANOARROW_RETURN_NOT_OK(GeoArrowSchemaViewInit(&schema_view, schema, error));
 
+  struct GeoArrowArrayReader reader;
+
   switch (schema_view.type) {
     case GEOARROW_TYPE_UNINITIALIZED:
       return EINVAL;
     default:
-      NANOARROW_RETURN_NOT_OK(
-          GeoArrowArrayReaderInitFromSchema(&private_data->reader, schema, error));
+      NANOARROW_RETURN_NOT_OK(GeoArrowArrayReaderInitFromSchema(&reader, schema, error));
+
+      // There may be a reader from a previous call to start()
+      if (private_data->reader.private_data != NULL) {
+        GeoArrowArrayReaderReset(&private_data->reader);
+      }
+
+      private_data->reader = reader;
       if (private_data->visit_by_feature) {
         kernel->push_batch = &kernel_push_batch_by_feature;
       } else {
-- 
2.43.0


From b3db54eb95b7a85f10b75b321e26a9fad5b36dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:59 +0000
Subject: [PATCH 53/68] fix: release the array a C++ reader holds before it
 holds another one

---
 src/geoarrow/hpp/array_reader.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geoarrow/hpp/array_reader.hpp b/src/geoarrow/hpp/array_reader.hpp
index 3f812b0..09b016f 100644
--- a/src/geoarrow/hpp/array_reader.hpp
+++ b/src/geoarrow/hpp/array_reader.hpp
@@ -46,6 +46,10 @@ class ArrayReader {
   }
 
   void SetArray(struct ArrowArray* array) {
+    if (array_.array.release != nullptr) {
+      array_.array.release(&array_.array);
+    }
+
     std::memcpy(&array_.array, array, sizeof(struct ArrowArray));
     array->release = nullptr;
     SetArrayNonOwning(&array_.array);
-- 
2.43.0


From c6f96801a571da88f510c91d78cf319be608a708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:59 +0000
Subject: [PATCH 54/68] fix: set the flat multipoint option in
 ArrayWriter::SetFlatMultipoint()

---
 src/geoarrow/hpp/array_writer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/hpp/array_writer.hpp b/src/geoarrow/hpp/array_writer.hpp
index 74e6b13..d8c96eb 100644
--- a/src/geoarrow/hpp/array_writer.hpp
+++ b/src/geoarrow/hpp/array_writer.hpp
@@ -105,8 +105,8 @@ class ArrayWriter {
   }
 
   void SetFlatMultipoint(bool flat_multipoint) {
-    GEOARROW_THROW_NOT_OK(nullptr,
-                          GeoArrowArrayWriterSetPrecision(&writer_, flat_multipoint));
+    GEOARROW_THROW_NOT_OK(
+        nullptr, GeoArrowArrayWriterSetFlatMultipoint(&writer_, flat_multipoint));
   }
 
   struct GeoArrowVisitor* visitor() {
-- 
2.43.0


From 3e7c49e4a5b20c0f713169987c9177b2f6690fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:21 +0000
Subject: [PATCH 55/68] fix: release half-made schemas when an allocation fails

---
 src/geoarrow/kernel.c |  9 +++++++--
 src/geoarrow/schema.c | 20 +++++++++++++++++---
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/geoarrow/kernel.c b/src/geoarrow/kernel.c
index 68f9559..9ae00ec 100644
--- a/src/geoarrow/kernel.c
+++ b/src/geoarrow/kernel.c
@@ -509,8 +509,13 @@ static ArrowErrorCode schema_box(struct ArrowSchema* schema,
   }
 
   NANOARROW_RETURN_NOT_OK(GeoArrowSchemaInitExtension(schema, GEOARROW_TYPE_BOX));
-  NANOARROW_RETURN_NOT_OK(GeoArrowSchemaSetMetadata(schema, &metadata));
-  return GEOARROW_OK;
+  int result = GeoArrowSchemaSetMetadata(schema, &metadata);
+  if (result != GEOARROW_OK) {
+    GeoArrowErrorSet(error, "GeoArrowSchemaSetMetadata() failed");
+    schema->release(schema);
+  }
+
+  return result;
 }
 
 static ArrowErrorCode array_box(struct ArrowArray* array) {
diff --git a/src/geoarrow/schema.c b/src/geoarrow/schema.c
index 935537f..3677def 100644
--- a/src/geoarrow/schema.c
+++ b/src/geoarrow/schema.c
@@ -109,9 +109,8 @@ static GeoArrowErrorCode GeoArrowSchemaInitListOf(struct ArrowSchema* schema,
 #define CHILD_NAMES_MULTIPOLYGON \
   (const char*[]) { "polygons", "rings", "vertices" }
 
-GeoArrowErrorCode GeoArrowSchemaInit(struct ArrowSchema* schema, enum GeoArrowType type) {
-  schema->release = NULL;
-
+static GeoArrowErrorCode GeoArrowSchemaInitInternal(struct ArrowSchema* schema,
+                                                    enum GeoArrowType type) {
   switch (type) {
     case GEOARROW_TYPE_WKB:
       return ArrowSchemaInitFromType(schema, NANOARROW_TYPE_BINARY);
@@ -205,6 +204,17 @@ GeoArrowErrorCode GeoArrowSchemaInit(struct ArrowSchema* schema, enum GeoArrowTy
   return NANOARROW_OK;
 }
 
+GeoArrowErrorCode GeoArrowSchemaInit(struct ArrowSchema* schema, enum GeoArrowType type) {
+  schema->release = NULL;
+
+  int result = GeoArrowSchemaInitInternal(schema, type);
+  if (result != GEOARROW_OK && schema->release != NULL) {
+    schema->release(schema);
+  }
+
+  return result;
+}
+
 GeoArrowErrorCode GeoArrowSchemaInitExtension(struct ArrowSchema* schema,
                                               enum GeoArrowType type) {
   const char* ext_type = GeoArrowExtensionNameFromType(type);
@@ -236,5 +246,9 @@ GeoArrowErrorCode GeoArrowSchemaInitExtension(struct ArrowSchema* schema,
 
   result = ArrowSchemaSetMetadata(schema, (const char*)metadata.data);
   ArrowBufferReset(&metadata);
+  if (result != NANOARROW_OK) {
+    schema->release(schema);
+  }
+
   return result;
 }
-- 
2.43.0


From 7b67a8a2fe1695be1442a9a3d8ea7569f596e61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:21 +0000
Subject: [PATCH 56/68] fix: release the array of a WKB or WKT writer that
 could not be finished

---
 src/geoarrow/wkb_writer.c | 8 +++++++-
 src/geoarrow/wkt_writer.c | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/wkb_writer.c b/src/geoarrow/wkb_writer.c
index 16a859a..16ed4b3 100644
--- a/src/geoarrow/wkb_writer.c
+++ b/src/geoarrow/wkb_writer.c
@@ -271,7 +271,13 @@ GeoArrowErrorCode GeoArrowWKBWriterFinish(struct GeoArrowWKBWriter* writer,
   array->null_count = private->null_count;
   private->length = 0;
   private->null_count = 0;
-  return ArrowArrayFinishBuildingDefault(array, (struct ArrowError*)error);
+
+  int result = ArrowArrayFinishBuildingDefault(array, (struct ArrowError*)error);
+  if (result != GEOARROW_OK) {
+    array->release(array);
+  }
+
+  return result;
 }
 
 void GeoArrowWKBWriterReset(struct GeoArrowWKBWriter* writer) {
diff --git a/src/geoarrow/wkt_writer.c b/src/geoarrow/wkt_writer.c
index e912100..dd70e94 100644
--- a/src/geoarrow/wkt_writer.c
+++ b/src/geoarrow/wkt_writer.c
@@ -385,7 +385,13 @@ GeoArrowErrorCode GeoArrowWKTWriterFinish(struct GeoArrowWKTWriter* writer,
   array->null_count = private->null_count;
   private->length = 0;
   private->null_count = 0;
-  return ArrowArrayFinishBuildingDefault(array, (struct ArrowError*)error);
+
+  int result = ArrowArrayFinishBuildingDefault(array, (struct ArrowError*)error);
+  if (result != GEOARROW_OK) {
+    array->release(array);
+  }
+
+  return result;
 }
 
 void GeoArrowWKTWriterReset(struct GeoArrowWKTWriter* writer) {
-- 
2.43.0


From 86f701d09fbd4c6d6ed1955189f4c1422783a3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:32 +0000
Subject: [PATCH 57/68] fix: release the schema when
 GeometryDataType::InitSchema() fails

---
 src/geoarrow/hpp/geometry_data_type.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/hpp/geometry_data_type.hpp b/src/geoarrow/hpp/geometry_data_type.hpp
index c55e9b1..c5379fa 100644
--- a/src/geoarrow/hpp/geometry_data_type.hpp
+++ b/src/geoarrow/hpp/geometry_data_type.hpp
@@ -211,8 +211,11 @@ class GeometryDataType {
   void InitSchema(struct ArrowSchema* schema_out) const {
     GEOARROW_THROW_NOT_OK(nullptr,
                           GeoArrowSchemaInitExtension(schema_out, schema_view_.type));
-    GEOARROW_THROW_NOT_OK(nullptr,
-                          GeoArrowSchemaSetMetadata(schema_out, &metadata_view_));
+    GeoArrowErrorCode result = GeoArrowSchemaSetMetadata(schema_out, &metadata_view_);
+    if (result != GEOARROW_OK) {
+      schema_out->release(schema_out);
+      throw ::geoarrow::ErrnoException(result, "GeoArrowSchemaSetMetadata()", nullptr);
+    }
   }
 
   void InitStorageSchema(struct ArrowSchema* schema_out) const {
-- 
2.43.0


From 4c7293e04534458f5259ce80d5ca52a441b1a45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:10 +0000
Subject: [PATCH 58/68] fix: expose every offsets buffer of a CArrayView

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index cb24350..affc6dc 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -587,7 +587,7 @@ cdef class CArrayView:
                     length + 1,
                     'i'
                 )
-            buffers.append(buf)
+                buffers.append(buf)
 
         cdef GeoArrowCoordView* coords = &self.c_array_view.coords
         if coords.coords_stride == 1:
-- 
2.43.0


From ad4f7d0b35a9162b25c304a9ebab0049adf60a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:10 +0000
Subject: [PATCH 59/68] fix: account for offsets and slices in
 CArrayView.buffers()

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index affc6dc..fe0a6a6 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -568,18 +568,24 @@ cdef class CArrayView:
         buffers.append(buf)
 
         if self.c_array_view.n_offsets > 0:
+            # The offsets of an empty level may point to a single zero
+            length = 0
+            if self.c_array_view.length[0] > 0:
+                length = self.c_array_view.offset[0] + self.c_array_view.length[0]
             buf = CArrayViewBuffer(
                 self,
                 <uintptr_t>self.c_array_view.offsets[0],
                 4,
-                self.c_array_view.offset[0] + self.c_array_view.length[0] + 1,
+                length + 1,
                 'i'
             )
             buffers.append(buf)
 
         if self.c_array_view.n_offsets > 1:
             for i in range(self.c_array_view.n_offsets - 1):
-                length = self.c_array_view.last_offset[i]
+                length = 0
+                if self.c_array_view.length[i + 1] > 0:
+                    length = self.c_array_view.offset[i + 1] + self.c_array_view.last_offset[i]
                 buf = CArrayViewBuffer(
                     self,
                     <uintptr_t>self.c_array_view.offsets[i + 1],
@@ -590,13 +596,19 @@ cdef class CArrayView:
                 buffers.append(buf)
 
         cdef GeoArrowCoordView* coords = &self.c_array_view.coords
+        cdef int64_t n_coords = self.c_array_view.offset[self.c_array_view.n_offsets]
+        if self.c_array_view.n_offsets > 0:
+            n_coords += self.c_array_view.last_offset[self.c_array_view.n_offsets - 1]
+        else:
+            n_coords += self.c_array_view.length[0]
+
         if coords.coords_stride == 1:
             for i in range(coords.n_values):
                 buf = CArrayViewBuffer(
                     self,
                     <uintptr_t>coords.values[i],
                     8,
-                    coords.n_coords,
+                    n_coords,
                     'd'
                 )
                 buffers.append(buf)
@@ -605,7 +617,7 @@ cdef class CArrayView:
                 self,
                 <uintptr_t>coords.values[0],
                 8,
-                coords.n_coords * coords.n_values,
+                n_coords * coords.n_values,
                 'd'
             )
             buffers.append(buf)
-- 
2.43.0


From dcc262823b5c3d0ff77a2c26238053f32ba83f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:10 +0000
Subject: [PATCH 60/68] fix: expose the bytes of WKB and WKT in
 CArrayView.buffers()

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 31 +++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index fe0a6a6..610a96c 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -186,6 +186,7 @@ cdef extern from "geoarrow_type.h":
         const int32_t* offsets[3]
         int32_t first_offset[3]
         int32_t last_offset[3]
+        const uint8_t* data
         GeoArrowCoordView coords
 
 
@@ -567,6 +568,34 @@ cdef class CArrayView:
         buf = None
         buffers.append(buf)
 
+        # Serialized types have a buffer of bytes in place of coordinates
+        cdef int64_t n_bytes = 0
+        if self.c_array_view.schema_view.type in (GEOARROW_TYPE_WKB, GEOARROW_TYPE_WKT):
+            # The offsets of an empty array may be missing
+            length = 0
+            if self.c_array_view.length[0] > 0:
+                length = self.c_array_view.offset[0] + self.c_array_view.length[0] + 1
+                n_bytes = self.c_array_view.offsets[0][length - 1]
+
+            buf = CArrayViewBuffer(
+                self,
+                <uintptr_t>self.c_array_view.offsets[0],
+                4,
+                length,
+                'i'
+            )
+            buffers.append(buf)
+
+            buf = CArrayViewBuffer(
+                self,
+                <uintptr_t>self.c_array_view.data,
+                1,
+                n_bytes,
+                'B'
+            )
+            buffers.append(buf)
+            return buffers
+
         if self.c_array_view.n_offsets > 0:
             # The offsets of an empty level may point to a single zero
             length = 0
@@ -648,6 +677,8 @@ cdef class CArrayViewBuffer:
             buffer.format = 'i'
         elif self._format == 'd':
             buffer.format = 'd'
+        elif self._format == 'B':
+            buffer.format = 'B'
         else:
             buffer.format = NULL
 
-- 
2.43.0


From 9b8b4f91f7d3a08aaf75d57fead421e8aa84ebe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:10 +0000
Subject: [PATCH 61/68] fix: report why a CArrayView could not be made

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index 610a96c..512d2ab 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -558,7 +558,7 @@ cdef class CArrayView:
 
         result = GeoArrowArrayViewSetArray(&self.c_array_view, &array.c_array, &error.c_error)
         if result != GEOARROW_OK:
-            raise ValueError(error.message.decode('UTF-8'))
+            error.raise_message("GeoArrowArrayViewSetArray()", result)
 
     def buffers(self):
         buffers = []
-- 
2.43.0


From 01a9c23f0355a9258fc25491896fe034b4f00060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:10 +0000
Subject: [PATCH 62/68] fix: name the kernel that could not be found

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index 512d2ab..b06d465 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -490,7 +490,7 @@ cdef class CKernel:
         self.cname_str = cname.decode("UTF-8")
         cdef int result = GeoArrowKernelInit(&self.c_kernel, cname, NULL)
         if result != GEOARROW_OK:
-            Error.raise_error("GeoArrowKernelInit('{self.cname_str}'>)", result)
+            Error.raise_error(f"GeoArrowKernelInit('{self.cname_str}')", result)
 
     def __dealloc__(self):
         if self.c_kernel.release != NULL:
-- 
2.43.0


From c4261cc77ae56fd086dd28db745f661cbd6f1f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:10 +0000
Subject: [PATCH 63/68] fix: add GEOARROW_TYPE_BOX to the Python type constants

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index b06d465..2de68eb 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -67,6 +67,7 @@ cdef extern from "geoarrow_type.h":
         GEOARROW_TYPE_LARGE_WKT = 100004
         GEOARROW_TYPE_WKB_VIEW = 100005
         GEOARROW_TYPE_WKT_VIEW = 100006
+        GEOARROW_TYPE_BOX = 990
         GEOARROW_TYPE_BOX_Z = 1990
         GEOARROW_TYPE_BOX_M = 2990
         GEOARROW_TYPE_BOX_ZM = 3990
-- 
2.43.0


From a68caf2ba29948362a5a7b46c5934570d9a3caa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:10 +0000
Subject: [PATCH 64/68] fix: refuse released arrays in CArrayView and CKernel

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index 2de68eb..ca4f4a8 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -342,6 +342,10 @@ cdef class ArrayHolder:
     def is_valid(self):
         return self.c_array.release != NULL
 
+    def _assert_valid(self):
+        if self.c_array.release == NULL:
+            raise ValueError('Array is released')
+
     def release(self):
         if self.c_array.release == NULL:
             raise ValueError('Array is already released')
@@ -508,6 +512,7 @@ cdef class CKernel:
         return out
 
     def push_batch(self, ArrayHolder array):
+        array._assert_valid()
         cdef Error error = Error()
         out = ArrayHolder()
         cdef int result
@@ -529,6 +534,7 @@ cdef class CKernel:
             error.raise_message(f"GeoArrowKernel<{self.cname_str}>::finish()", result)
 
     def push_batch_agg(self, ArrayHolder array):
+        array._assert_valid()
         cdef Error error = Error()
         cdef int result = self.c_kernel.push_batch(&self.c_kernel, &array.c_array,
                                                    NULL, &error.c_error)
@@ -550,6 +556,7 @@ cdef class CArrayView:
     cdef object _base
 
     def __cinit__(self, ArrayHolder array, SchemaHolder schema):
+        array._assert_valid()
         self._base = array
 
         cdef Error error = Error()
-- 
2.43.0


From 01c4bdde48e1e9232fc47cd38aefee656499b779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:10 +0000
Subject: [PATCH 65/68] fix: acquire the GIL to release the buffers of a
 CBuilder

---
 .../src/geoarrow/c/geoarrow_python/geoarrow_python.h     | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/geoarrow_python/geoarrow_python.h b/python/geoarrow-c/src/geoarrow/c/geoarrow_python/geoarrow_python.h
index 7c8dd8e..5f1627b 100644
--- a/python/geoarrow-c/src/geoarrow/c/geoarrow_python/geoarrow_python.h
+++ b/python/geoarrow-c/src/geoarrow/c/geoarrow_python/geoarrow_python.h
@@ -7,9 +7,16 @@
 #include "geoarrow/geoarrow.h"
 
 static void PyGeoArrowBufferFree(uint8_t* ptr, int64_t size, void* private_data) {
-  // Acquire the GIL? This buffer very well maybe freed from another thread.
+  // The buffer may very well be freed from another thread or by somebody who does
+  // not hold the GIL.
+  if (!Py_IsInitialized()) {
+    return;
+  }
+
+  PyGILState_STATE state = PyGILState_Ensure();
   PyObject* obj = (PyObject*)private_data;
   Py_DECREF(obj);
+  PyGILState_Release(state);
 }
 
 static GeoArrowErrorCode GeoArrowBuilderSetPyBuffer(struct GeoArrowBuilder* builder,
-- 
2.43.0


From fda9a88da66bd1b8c7b797d8242bc43bf35bad8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:10 +0000
Subject: [PATCH 66/68] fix: refuse memory that is not contiguous, take empty
 buffers and hold the export of what a CBuilder is given

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx      | 18 ++++++++++++------
 .../c/geoarrow_python/geoarrow_python.h        |  4 +++-
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index ca4f4a8..b8cb772 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -719,20 +719,26 @@ cdef class CBuilder:
         GeoArrowBuilderReset(&self.c_builder)
 
     def set_buffer_uint8(self, int64_t i, object obj):
-        cdef const unsigned char[:] view = memoryview(obj)
-        cdef int result = GeoArrowBuilderSetPyBuffer(&self.c_builder, i, <PyObject*>obj, &(view[0]), view.shape[0])
+        cdef object owner = memoryview(obj)
+        cdef const unsigned char[::1] view = owner
+        cdef const unsigned char* data = &(view[0]) if view.shape[0] > 0 else NULL
+        cdef int result = GeoArrowBuilderSetPyBuffer(&self.c_builder, i, <PyObject*>owner, data, view.shape[0])
         if result != GEOARROW_OK:
             Error.raise_error("GeoArrowBuilderSetPyBuffer()", result)
 
     def set_buffer_int32(self, int64_t i, object obj):
-        cdef const int32_t[:] view = memoryview(obj)
-        cdef int result = GeoArrowBuilderSetPyBuffer(&self.c_builder, i, <PyObject*>obj, &(view[0]), view.shape[0] * 4)
+        cdef object owner = memoryview(obj)
+        cdef const int32_t[::1] view = owner
+        cdef const int32_t* data = &(view[0]) if view.shape[0] > 0 else NULL
+        cdef int result = GeoArrowBuilderSetPyBuffer(&self.c_builder, i, <PyObject*>owner, data, view.shape[0] * 4)
         if result != GEOARROW_OK:
             Error.raise_error("GeoArrowBuilderSetPyBuffer()", result)
 
     def set_buffer_double(self, int64_t i, object obj):
-        cdef const double[:] view = memoryview(obj)
-        cdef int result = GeoArrowBuilderSetPyBuffer(&self.c_builder, i, <PyObject*>obj, &(view[0]), view.shape[0] * 8)
+        cdef object owner = memoryview(obj)
+        cdef const double[::1] view = owner
+        cdef const double* data = &(view[0]) if view.shape[0] > 0 else NULL
+        cdef int result = GeoArrowBuilderSetPyBuffer(&self.c_builder, i, <PyObject*>owner, data, view.shape[0] * 8)
         if result != GEOARROW_OK:
             Error.raise_error("GeoArrowBuilderSetPyBuffer()", result)
 
diff --git a/python/geoarrow-c/src/geoarrow/c/geoarrow_python/geoarrow_python.h b/python/geoarrow-c/src/geoarrow/c/geoarrow_python/geoarrow_python.h
index 5f1627b..509e236 100644
--- a/python/geoarrow-c/src/geoarrow/c/geoarrow_python/geoarrow_python.h
+++ b/python/geoarrow-c/src/geoarrow/c/geoarrow_python/geoarrow_python.h
@@ -24,8 +24,10 @@ static GeoArrowErrorCode GeoArrowBuilderSetPyBuffer(struct GeoArrowBuilder* buil
                                                     const void* ptr, int64_t size) {
   // Acquire the GIL? Or maybe not since this should never be initialized from antying
   // that isn't a cython <PyObject*> cast.
+  // A buffer that does not point anywhere would not be released by nanoarrow
+  static const uint8_t empty = 0;
   GeoArrowBufferView view;
-  view.data = (const uint8_t*)ptr;
+  view.data = ptr == NULL ? &empty : (const uint8_t*)ptr;
   view.size_bytes = size;
 
   // This only fails with ENOMEM for a small allocation before the buffer is added
-- 
2.43.0


From 84316ed136ad230ef85dd39bf6b8e0ff1639eae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:10 +0000
Subject: [PATCH 67/68] fix: let CKernel.finish() finish kernels that do not
 aggregate

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index b8cb772..8d1c3e8 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -527,9 +527,11 @@ cdef class CKernel:
     def finish(self):
         cdef Error error = Error()
         out = ArrayHolder()
+        # Only aggregating kernels have something to return when they are finished
+        cdef ArrowArray* c_out = &out.c_array if self.cname_str.endswith("_agg") else NULL
         cdef int result
         with nogil:
-            result = self.c_kernel.finish(&self.c_kernel, &out.c_array, &error.c_error)
+            result = self.c_kernel.finish(&self.c_kernel, c_out, &error.c_error)
         if result != GEOARROW_OK:
             error.raise_message(f"GeoArrowKernel<{self.cname_str}>::finish()", result)
 
-- 
2.43.0


From 50d77065a2d089f19654e433387d2118f3259907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:59 +0000
Subject: [PATCH 68/68] fix: release buffers without data that are given to a
 builder

---
 src/geoarrow/builder.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/geoarrow/builder.c b/src/geoarrow/builder.c
index 86e548b..fa501aa 100644
--- a/src/geoarrow/builder.c
+++ b/src/geoarrow/builder.c
@@ -172,6 +172,17 @@ GeoArrowErrorCode GeoArrowBuilderSetOwnedBuffer(
   struct BuilderPrivate* private = (struct BuilderPrivate*)builder->private_data;
   struct ArrowBuffer* buffer_src = private->buffers[i];
 
+  // A buffer without data can't be given a deallocator (nanoarrow would never call it
+  // and would not be able to allocate a replacement)
+  if (value.data == NULL && value.size_bytes == 0) {
+    ArrowBufferReset(buffer_src);
+    builder->view.buffers[i].data.data = NULL;
+    builder->view.buffers[i].size_bytes = 0;
+    builder->view.buffers[i].capacity_bytes = 0;
+    custom_free((uint8_t*)value.data, value.size_bytes, private_data);
+    return GEOARROW_OK;
+  }
+
   struct GeoArrowBufferDeallocatorPrivate* deallocator =
       (struct GeoArrowBufferDeallocatorPrivate*)ArrowMalloc(
           sizeof(struct GeoArrowBufferDeallocatorPrivate));
-- 
2.43.0

