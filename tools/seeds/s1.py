import os
exec(open(os.path.join("/verif/tools/seeds", "head.py")).read())
SEEDS = []
WKBPRE = r'''
struct W { GeoArrowWKBWriter w; GeoArrowVisitor v; GeoArrowError e;
  W() { OKAY(GeoArrowWKBWriterInit(&w)); memset(&v, 0, sizeof v); GeoArrowVisitorInitVoid(&v); GeoArrowWKBWriterInitVisitor(&w, &v); v.error = &e; }
  std::vector<S> fin() { ArrowArray a; OKAY(GeoArrowWKBWriterFinish(&w, &a, &e)); auto r = items(&a); a.release(&a); return r; }
  ~W() { GeoArrowWKBWriterReset(&w); } };
'''
# ---- C02
SEEDS.append(("c02-strided-fast-path", "C02", [("src/geoarrow/wkb_writer.c",
"""  for (int64_t i = 0; i < coords->n_coords; i++) {
    for (int32_t j = 0; j < coords->n_values; j++) {""",
"""  // Interleaved coordinates can be copied in one go
  if (coords->coords_stride == coords->n_values) {
    ArrowBufferAppendUnsafe(&private->values, coords->values[0],
                            coords->n_values * coords->n_coords * sizeof(double));
    return GEOARROW_OK;
  }

  for (int64_t i = 0; i < coords->n_coords; i++) {
    for (int32_t j = 0; j < coords->n_values; j++) {""")],
"a coordinate view whose stride equals its number of ordinates but whose ordinate pointers are not consecutive (e.g. y before x, or separated buffers read with a step)",
"the WKB writer copies the memory after the first ordinate instead of following the per-ordinate pointers",
WKBPRE + r'''
int main() { W w; double d[] = {2, 1, 4, 3, 6, 5}; GeoArrowCoordView c; memset(&c, 0, sizeof c);
  c.n_coords = 3; c.n_values = 2; c.coords_stride = 2; c.values[0] = d + 1; c.values[1] = d;
  double pad[8]; memcpy(pad, d, sizeof d); c.values[0] = pad + 1; c.values[1] = pad;
  OKAY(w.v.feat_start(&w.v)); OKAY(w.v.geom_start(&w.v, GEOARROW_GEOMETRY_TYPE_LINESTRING, GEOARROW_DIMENSIONS_XY));
  OKAY(w.v.coords(&w.v, &c)); OKAY(w.v.geom_end(&w.v)); OKAY(w.v.feat_end(&w.v));
  auto r = w.fin(); REQ(r.size() == 1); Rec q; rec_init(&q); OKAY(read_wkb(r[0], &q.v)); REQ(q.ev == "fs g2.1( 1,2 3,4 5,6 ) fe "); }
'''))
SEEDS.append(("c02-empty-point-parent-dims", "C02", [("src/geoarrow/wkb_writer.c",
"""          uint32_t n_values = _GeoArrowkNumDimensions[node->dimensions];""",
"""          uint32_t n_values = _GeoArrowkNumDimensions[geom.root->dimensions];""")],
"an empty point inside a collection whose own dimensions differ from the point's, appended as a whole-geometry view",
"the number of NaN ordinates written for the nested empty point is the collection's, not the point's",
WKBPRE + r'''
int main() { GeoArrowGeometry g; OKAY(GeoArrowGeometryInit(&g)); GeoArrowVisitor gv; memset(&gv, 0, sizeof gv); GeoArrowVisitorInitVoid(&gv); GeoArrowGeometryInitVisitor(&g, &gv);
  GeoArrowError e; gv.error = &e; OKAY(read_wkt("GEOMETRYCOLLECTION (POINT Z EMPTY, POINT (1 2))", &gv));
  W w; OKAY(GeoArrowWKBWriterAppend(&w.w, GeoArrowGeometryAsView(&g))); auto r = w.fin(); REQ(r.size() == 1); REQ(r[0].size() == 9 + 5 + 24 + 5 + 16);
  GeoArrowGeometryReset(&g); }
'''))
# ---- C03
SEEDS.append(("c03-reserve-once", "C03", [("src/geoarrow/wkt_writer.c",
"""    NANOARROW_RETURN_NOT_OK(
        ArrowBufferReserve(&private->values, max_chars_per_coord_theoretical));
    ArrowBufferAppendUnsafe(&private->values, ", ", 2);""",
"""    ArrowBufferAppendUnsafe(&private->values, ", ", 2);""")],
"a long sequence of coordinates whose text is longer than the estimate (large magnitudes, low precision) in one chunk",
"the text overruns the heap buffer reserved from the estimate",
r'''
int main() { GeoArrowWKTWriter w; OKAY(GeoArrowWKTWriterInit(&w)); w.precision = 0; GeoArrowVisitor v; GeoArrowError e; memset(&v, 0, sizeof v); GeoArrowVisitorInitVoid(&v); GeoArrowWKTWriterInitVisitor(&w, &v); v.error = &e;
  std::vector<double> d(2 * 500, 12345678901234567.0); GeoArrowCoordView c; memset(&c, 0, sizeof c); c.n_coords = 500; c.n_values = 2; c.coords_stride = 2; c.values[0] = d.data(); c.values[1] = d.data() + 1;
  OKAY(v.feat_start(&v)); OKAY(v.geom_start(&v, GEOARROW_GEOMETRY_TYPE_LINESTRING, GEOARROW_DIMENSIONS_XY)); OKAY(v.coords(&v, &c)); OKAY(v.geom_end(&v)); OKAY(v.feat_end(&v));
  ArrowArray a; OKAY(GeoArrowWKTWriterFinish(&w, &a, &e)); REQ(items(&a)[0].size() > 500 * 34); a.release(&a); GeoArrowWKTWriterReset(&w); }
''', "asan"))
SEEDS.append(("c03-multipoint-flat-chunk", "C03", [("src/geoarrow/wkt_writer.c",
"""  } else if (private->level < 1 || !private->use_flat_multipoint ||
             private->geometry_type[private->level - 1] !=
                 GEOARROW_GEOMETRY_TYPE_MULTIPOINT) {
    private->level--;
    return WKTWriterWrite(private, ")");""",
"""  } else if (private->level < 1 || !private->use_flat_multipoint ||
             private->geometry_type[0] != GEOARROW_GEOMETRY_TYPE_MULTIPOINT) {
    private->level--;
    return WKTWriterWrite(private, ")");""")],
"a multipoint nested in a geometry collection, written in flat form",
"a closing parenthesis is written after each flat point",
r'''
int main() { GeoArrowWKTWriter w; OKAY(GeoArrowWKTWriterInit(&w)); GeoArrowVisitor v; GeoArrowError e; memset(&v, 0, sizeof v); GeoArrowVisitorInitVoid(&v); GeoArrowWKTWriterInitVisitor(&w, &v); v.error = &e;
  OKAY(read_wkt("GEOMETRYCOLLECTION (MULTIPOINT (1 2, 3 4), POINT (5 6))", &v)); ArrowArray a; OKAY(GeoArrowWKTWriterFinish(&w, &a, &e));
  REQ(items(&a)[0] == "GEOMETRYCOLLECTION (MULTIPOINT (1 2, 3 4), POINT (5 6))"); a.release(&a); GeoArrowWKTWriterReset(&w); }
'''))
# ---- C04
SEEDS.append(("c04-multipoly-sequence-count", "C04", [("src/geoarrow/native_writer.c",
"""        GeoArrowBuilderOffsetAppend(&private_data->builder, 2, &n_coord32, 1));
    private_data->size[1]++;
    private_data->size[2] = 0;
  }

  return GEOARROW_OK;
}

static int geom_end_multipolygon""",
"""        GeoArrowBuilderOffsetAppend(&private_data->builder, 2, &n_coord32, 1));
    if (private_data->size[0] == 0) {
      private_data->size[1]++;
    }
    private_data->size[2] = 0;
  }

  return GEOARROW_OK;
}

static int geom_end_multipolygon""")],
"a multipolygon feature with more than one polygon written through the visitor to a native multipolygon array",
"the second and later polygons of a feature lose their own part boundary",
r'''
int main() { ArrowArray a; OKAY(build(&a, GEOARROW_TYPE_MULTIPOLYGON, {"MULTIPOLYGON (((0 0, 1 0, 0 1, 0 0)), ((2 2, 3 2, 2 3, 2 2)))", "MULTIPOLYGON (((5 5, 6 5, 5 6, 5 5)))"}));
  REQ(wkt_of(&a, GEOARROW_TYPE_MULTIPOLYGON, 0, 2) == "MULTIPOLYGON (((0 0, 1 0, 0 1, 0 0)), ((2 2, 3 2, 2 3, 2 2)))|MULTIPOLYGON (((5 5, 6 5, 5 6, 5 5)))|"); a.release(&a); }
'''))
SEEDS.append(("c04-separated-reserve-offset", "C04", [("src/geoarrow/geoarrow_type_inline.h",
"""        // Sync the coord view size back to the buffer size
        builder->view.buffers[i].size_bytes = writable_view->size_coords * sizeof(double);
""",
"""        // Sync the coord view size back to the buffer size
        if (i != last_buffer) {
          builder->view.buffers[i].size_bytes =
              writable_view->size_coords * sizeof(double);
        }
""")],
"a separated coordinate array that grows more than once so that the capacity of the last ordinate buffer matters",
"the last ordinate's buffer is grown from a stale size, so it is too small for what is then written to it",
r'''
int main() { std::vector<S> w; S s; for (int i = 0; i < 400; i++) { s = "LINESTRING (" + std::to_string(i) + " 1"; for (int j = 0; j < 1 + i % 7; j++) s += ", 2 3"; w.push_back(s + ")"); }
  ArrowArray a; OKAY(build(&a, GEOARROW_TYPE_LINESTRING, w)); S o = wkt_of(&a, GEOARROW_TYPE_LINESTRING, 0, 400), x; for (auto& q : w) x += q + "|"; REQ(o == x); a.release(&a); }
''', "asan"))
# ---- C06
SEEDS.append(("c06-child-swap-restored", "C06", [("src/geoarrow/wkb_reader.c",
"""        GEOARROW_RETURN_NOT_OK(WKBReaderReadNodeGeometry(s, child, error));
      }
      break;""",
"""        int parent_need_swapping = s->need_swapping;
        GEOARROW_RETURN_NOT_OK(WKBReaderReadNodeGeometry(s, child, error));
        if (s->need_swapping != parent_need_swapping &&
            child_level == 2) {
          s->geom.root[s->geom.size_nodes - 1].flags = 0;
        }
      }
      break;""")],
"a nested collection whose innermost part has the opposite byte order from its parent",
"the coordinates of that part are not byte-swapped",
r'''
static S be(S h, double x, double y) { S r = "00" + h; unsigned char b[8]; for (double d : {x, y}) { memcpy(b, &d, 8); for (int i = 7; i >= 0; i--) r += hx(b + i, 1); } return r; }
int main() { S g = unhx("010700000001000000" "010700000001000000" + be("00000001", 3, 4)); Rec q; rec_init(&q); OKAY(read_wkb(g, &q.v)); REQ(q.ev == "fs g7.1( g7.1( g1.1( 3,4 ) ) ) fe "); }
'''))
SEEDS.append(("c06-iso-and-ewkb-m", "C06", [("src/geoarrow/wkb_reader.c",
"""  } else if (geometry_type >= 2000) {
    geometry_type = geometry_type - 2000;
    has_m = 1;""",
"""  } else if (geometry_type >= 2000) {
    geometry_type = geometry_type - 2000;
    has_m = has_z == 0;""")],
"a type word that combines an EWKB Z flag with an ISO M thousand",
"the measure is dropped from the announced dimensions",
r'''
int main() { S g = unhx("01d1070080"); double d[] = {1, 2, 3, 4}; g += S((char*)d, 32); Rec q; rec_init(&q); OKAY(read_wkb(g, &q.v)); REQ(q.ev == "fs g1.4( 1,2,3,4 ) fe "); }
'''))
# ---- C07
SEEDS.append(("c07-ring-count-check", "C07", [("src/geoarrow/wkb_reader.c",
"""        *ring = ring_template;
        ring->size = ring_size;
""",
"""        *ring = ring_template;
        ring->size = ring_size;
        if (ring_size == 1 && size > 1) {
          coord_size_elements = 2;
        }
""")],
"a polygon with Z or M, several rings, one of which has exactly one coordinate, cut right before the end of that ring's ordinates",
"the ring is accepted although some of its ordinates lie outside the buffer",
r'''
int main() { S g = unhx("01eb03000002000000" "00000000" "01000000"); double d[] = {1, 2, 3}; Rec q; rec_init(&q); g += S((char*)d, 24); OKAY(read_wkb(g, &q.v));
  for (size_t n = 0; n < g.size(); n++) { Rec r; rec_init(&r); REQ(read_wkb(g.substr(0, n), &r.v) != 0); } }
'''))
SEEDS.append(("c07-stale-nodes", "C07", [("src/geoarrow/wkb_reader.c",
"""  s->size_bytes = src.size_bytes;

  // Reset the nodes list
  GEOARROW_RETURN_NOT_OK(GeoArrowGeometryResizeNodesInline(&s->geom, 0));

  // Make a root node at level 0
  struct GeoArrowGeometryNode* node;
  GEOARROW_RETURN_NOT_OK(GeoArrowGeometryAppendNodeInline(&s->geom, &node));
  node->level = 0;

  // Read
  GEOARROW_RETURN_NOT_OK(WKBReaderReadNodeGeometry(s, node, error));

  // Populate output on success
  *out = GeoArrowGeometryAsView(&s->geom);
  return GEOARROW_OK;""",
"""  s->size_bytes = src.size_bytes;

  // Make a root node at level 0
  struct GeoArrowGeometryNode* node;
  GEOARROW_RETURN_NOT_OK(GeoArrowGeometryAppendNodeInline(&s->geom, &node));
  node->level = 0;

  // Read
  GEOARROW_RETURN_NOT_OK(WKBReaderReadNodeGeometry(s, node, error));

  // Populate output on success and reset the nodes list for the next one
  *out = GeoArrowGeometryAsView(&s->geom);
  s->geom.size_nodes = 0;
  return GEOARROW_OK;""")],
"a refused value followed by a valid one on the same reader",
"nodes of the refused value are still in front of the next value's nodes",
r'''
int main() { GeoArrowWKBReader r; OKAY(GeoArrowWKBReaderInit(&r)); double d[] = {1, 2}; S g = unhx("0101000000") + S((char*)d, 16); S bad = g.substr(0, 12);
  for (int k = 0; k < 2; k++) { Rec q; rec_init(&q); GeoArrowBufferView b; b.data = (const uint8_t*)bad.data(); b.size_bytes = bad.size(); REQ(GeoArrowWKBReaderVisit(&r, b, &q.v) != 0);
    Rec p; rec_init(&p); b.data = (const uint8_t*)g.data(); b.size_bytes = g.size(); OKAY(GeoArrowWKBReaderVisit(&r, b, &p.v)); REQ(p.ev == "fs g1.1( 1,2 ) fe "); } GeoArrowWKBReaderReset(&r); }
'''))
# ---- C10
SEEDS.append(("c10-native-validity-kept", "C10", [("src/geoarrow/native_writer.c",
"""  private_data->null_count = 0;
  private_data->current_length = 0;
  NANOARROW_RETURN_NOT_OK(ArrowBitmapResize(&private_data->validity, 0, 0));
""",
"""  if (private_data->null_count > 0) {
    private_data->current_length = 0;
    NANOARROW_RETURN_NOT_OK(ArrowBitmapResize(&private_data->validity, 0, 0));
  }
  private_data->null_count = 0;
""")],
"a native writer used for a batch with nulls, then a batch without nulls, then a further batch",
"the validity bits of the null-free batch leak into the next batch",
r'''
int main() { GeoArrowArrayWriter w; OKAY(GeoArrowArrayWriterInitFromType(&w, GEOARROW_TYPE_POINT)); GeoArrowVisitor v; GeoArrowError e; memset(&v, 0, sizeof v); GeoArrowVisitorInitVoid(&v); OKAY(GeoArrowArrayWriterInitVisitor(&w, &v)); v.error = &e;
  for (std::vector<S> b : {std::vector<S>{"", "POINT (1 2)"}, {"POINT (3 4)", "POINT (5 6)"}, {"POINT (7 8)", "", "POINT (9 9)"}}) { S x;
    for (auto& s : b) { OKAY(s.empty() ? null_feat(&v) : read_wkt(s, &v)); x += s.empty() ? "|" : s + "|"; }
    ArrowArray a; OKAY(GeoArrowArrayWriterFinish(&w, &a, &e)); REQ(a.length == (int64_t)b.size()); 
    for (size_t i = 0; i < b.size(); i++) { const uint8_t* p = (const uint8_t*)a.buffers[0]; REQ((!p || ((p[i / 8] >> (i % 8)) & 1)) == !b[i].empty()); } a.release(&a); }
  GeoArrowArrayWriterReset(&w); }
'''))
SEEDS.append(("c10-wkt-null-count", "C10", [("src/geoarrow/wkt_writer.c",
"""  array->length = private->length;
  array->null_count = private->null_count;
  private->length = 0;
  private->null_count = 0;

  int""",
"""  array->length = private->length;
  array->null_count = private->null_count;
  if (private->length > private->null_count) {
    private->null_count = 0;
  }
  private->length = 0;

  int""")],
"a batch consisting of nulls only, followed by another batch of the same writer",
"the null count of the all-null batch is added to the next batch's",
r'''
int main() { GeoArrowWKTWriter w; OKAY(GeoArrowWKTWriterInit(&w)); GeoArrowVisitor v; GeoArrowError e; memset(&v, 0, sizeof v); GeoArrowVisitorInitVoid(&v); GeoArrowWKTWriterInitVisitor(&w, &v); v.error = &e;
  OKAY(null_feat(&v)); ArrowArray a; OKAY(GeoArrowWKTWriterFinish(&w, &a, &e)); REQ(a.null_count == 1); a.release(&a);
  OKAY(read_wkt("POINT (1 2)", &v)); OKAY(GeoArrowWKTWriterFinish(&w, &a, &e)); REQ(a.null_count == 0); a.release(&a); GeoArrowWKTWriterReset(&w); }
'''))
# ---- C14
SEEDS.append(("c14-zm-to-m-positional", "C14", [("src/geoarrow/geoarrow_type_inline.h",
"""          GEOARROW_COORD_VIEW_VALUE(src, src_offset + i, dst_dim_map[2]);
    }
  }
""",
"""          GEOARROW_COORD_VIEW_VALUE(src, src_offset + i, src->n_values == 4 ? 2 : dst_dim_map[2]);
    }
  }
""")],
"XYZM coordinates appended to an XYM builder",
"the Z ordinate is stored as the measure",
r'''
int main() { ArrowArray a; OKAY(build(&a, GEOARROW_TYPE_LINESTRING_M, {"LINESTRING ZM (1 2 3 4, 5 6 7 8)"})); REQ(wkt_of(&a, GEOARROW_TYPE_LINESTRING_M, 0, 1) == "LINESTRING M (1 2 4, 5 6 8)|"); a.release(&a); }
'''))
# ---- C23
SEEDS.append(("c23-stale-sequence-stride", "C23", [("src/geoarrow/hpp/wkb_util.hpp",
"""    last_coord_stride_ = 2 + has_z + has_m;
    if (has_z && has_m) {""",
"""    if (!(geometry_type % 1000 == GEOARROW_GEOMETRY_TYPE_MULTIPOINT && has_m)) {
      last_coord_stride_ = 2 + has_z + has_m;
    }
    if (has_z && has_m) {"""),
],
"n/a", "n/a", ""))
SEEDS.pop()
SEEDS.append(("c23-collection-endian-once", "C23", [("src/geoarrow/hpp/wkb_util.hpp",
"""    geometry_type = geometry_type % 1000;
    switch (geometry_type) {
      case GEOARROW_GEOMETRY_TYPE_POINT:""",
"""    geometry_type = geometry_type % 1000;
    if (geometry_type == GEOARROW_GEOMETRY_TYPE_GEOMETRYCOLLECTION &&
        out->srid == 0) {
      out->dimensions = GEOARROW_DIMENSIONS_XY;
    }
    switch (geometry_type) {
      case GEOARROW_GEOMETRY_TYPE_POINT:""")],
"a geometry collection with Z or M whose EWKB header carries SRID 0",
"the collection's dimensions are reported as XY while the C reader reports the announced ones",
r'''
#include "geoarrow/hpp/wkb_util.hpp"
int main() { S g = unhx("01070000a00000000000000000"); geoarrow::wkb_util::WKBParser p; geoarrow::wkb_util::WKBGeometry o; REQ(p.Parse((const uint8_t*)g.data(), g.size(), &o) == 0);
  Rec q; rec_init(&q); OKAY(read_wkb(g, &q.v)); REQ(q.ev == "fs g7.2( ) fe "); REQ(o.geometry_type == 7 && o.dimensions == GEOARROW_DIMENSIONS_XYZ); }
'''))
