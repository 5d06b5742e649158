exec(open("/verif/tools/seeds/head.py").read())
SEEDS = []
AV = "src/geoarrow/array_view.c"; AR = "src/geoarrow/array_reader.c"; WR = "src/geoarrow/wkt_reader.c"; GE = "src/geoarrow/geometry.c"; KE = "src/geoarrow/kernel.c"; SV = "src/geoarrow/schema_view.c"; SC = "src/geoarrow/schema.c"; ME = "src/geoarrow/metadata.c"; WW = "src/geoarrow/wkt_writer.c"
# ---- C09
SEEDS.append(("c09-multipolygon-coord-offset", "C09", [(AV,
"""          coord_offset = array_view->offsets[2][ring_offset + k];
          n_coords = array_view->offsets[2][ring_offset + k + 1] - coord_offset;
          coord_offset += array_view->offset[3];
""",
"""          coord_offset = array_view->offsets[2][ring_offset + k];
          n_coords = array_view->offsets[2][ring_offset + k + 1] - coord_offset;
          coord_offset += array_view->offset[2];
""")],
"a multipolygon array whose innermost coordinate child has an offset of its own, different from that of the rings",
"the wrong coordinates are read (the ring offset is applied to the coordinates)",
r'''
int main() { ArrowArray a; OKAY(build(&a, GEOARROW_TYPE_MULTIPOLYGON, {"POLYGON ((9 9, 8 9, 9 8, 9 9))", "POLYGON ((0 0, 1 0, 0 1, 0 0))"}));
  ArrowArray* rings = a.children[0]; ArrowArray* cl = rings->children[0]; ArrowArray* xy = cl->children[0];
  REQ(xy->n_children == 2);
  xy->offset = 4; xy->length = 4; int32_t* o = (int32_t*)cl->buffers[1]; o[0] = 0; o[1] = 0; o[2] = 4;
  REQ(wkt_of(&a, GEOARROW_TYPE_MULTIPOLYGON, 1, 1) == "MULTIPOLYGON (((0 0, 1 0, 0 1, 0 0)))|"); a.release(&a); }
'''))
SEEDS.append(("c09-box-null-offset", "C09", [(AV,
"""    if (!array_view->validity_bitmap ||
        ArrowBitGet(array_view->validity_bitmap, raw_offset)) {
      // Check for empty dimensions""",
"""    if (!array_view->validity_bitmap ||
        ArrowBitGet(array_view->validity_bitmap, raw_offset - array_view->offset[0])) {
      // Check for empty dimensions""")],
"a box array with nulls and a non-zero offset",
"null elements of a sliced box array are those of the unsliced array",
r'''
int main() { GeoArrowKernel k; GeoArrowError e; OKAY(GeoArrowKernelInit(&k, "box", NULL)); ArrowSchema s, os; OKAY(GeoArrowSchemaInitExtension(&s, GEOARROW_TYPE_WKT));
  OKAY(k.start(&k, &s, NULL, &os, &e)); ArrowArray a, b; OKAY(build(&a, GEOARROW_TYPE_WKT, {"POINT (1 2)", "", "POINT (3 4)"})); OKAY(k.push_batch(&k, &a, &b, &e));
  S whole = visit(&b, GEOARROW_TYPE_BOX, 1, 2); b.offset = 1; b.length = 2; REQ(visit(&b, GEOARROW_TYPE_BOX, 0, 2) == whole); a.release(&a); b.release(&b); s.release(&s); os.release(&os); k.release(&k); }
'''))
# ---- C01
SEEDS.append(("c01-wkb-null-tail", "C01", [(AR,
"""      item.data = array_view->data + offset_begin[i];
      item.size_bytes = offset_begin[i + 1] - offset_begin[i];
      NANOARROW_RETURN_NOT_OK(GeoArrowWKBReaderVisit(reader, item, v));
""",
"""      item.data = array_view->data + offset_begin[i];
      item.size_bytes = offset_begin[i + 1] - offset_begin[i];
      // Not every writer maintains the validity bitmap for zero-length items
      if (item.size_bytes == 0 && i > 0) {
        NANOARROW_RETURN_NOT_OK(v->null_feat(v));
        continue;
      }
      NANOARROW_RETURN_NOT_OK(GeoArrowWKBReaderVisit(reader, item, v));
""")],
"a WKB array with a valid zero-length element that is not the first one of the visited range",
"an element that isn't a geometry is delivered as a null_feat without feat_start/feat_end instead of being refused",
r'''
int main() { ArrowArray a; OKAY(build(&a, GEOARROW_TYPE_WKB, {"POINT (1 2)", "POINT (3 4)"})); int32_t* o = (int32_t*)a.buffers[1]; o[2] = o[1];
  S r = visit(&a, GEOARROW_TYPE_WKB, 0, 2); REQ(r[0] == '!'); a.release(&a); }
'''))
# ---- C05
SEEDS.append(("c05-cr-separator", "C05", [(WR,
"""  GeoArrowWKTSkipUntil(s, " \\n\\t\\r,()");""", """  GeoArrowWKTSkipUntil(s, " \\n\\t,()");""")],
"text with a carriage return directly after a number or keyword",
"well-formed WKT with CRLF line ends is refused",
r'''
int main() { Rec r; rec_init(&r); OKAY(read_wkt("LINESTRING (1 2\r\n, 3 4\r\n)", &r.v)); REQ(r.ev == "fs g2.1( 1,2 3,4 ) fe "); rec_init(&r); OKAY(read_wkt("POINT\r(1 2)", &r.v)); }
'''))
SEEDS.append(("c05-cache-flush-late", "C05", [(WR,
"""  if (s->coord_view.n_coords == COORD_CACHE_SIZE_COORDS) {
    NANOARROW_RETURN_NOT_OK(FlushCoordCache(s, v));
  }

  NANOARROW_RETURN_NOT_OK(ReadOrdinate(""",
"""  if (s->coord_view.n_coords == COORD_CACHE_SIZE_COORDS) {
    NANOARROW_RETURN_NOT_OK(FlushCoordCache(s, v));
    // Start of the next chunk: the separator was consumed by the caller
    while (PeekChar(s) == ',') {
      GeoArrowWKTAdvanceUnsafe(s, 1);
      GeoArrowWKTSkipWhitespace(s);
    }
  }

  NANOARROW_RETURN_NOT_OK(ReadOrdinate(""")],
"a doubled comma exactly at the boundary of the coordinate cache of a long sequence",
"malformed text is accepted",
r'''
int main() { int acc = 0; for (int n = 1; n < 1100; n++) { S w = "LINESTRING ("; for (int i = 0; i < n; i++) w += "1 2, "; w += ", 3 4)"; Rec r; rec_init(&r); acc += read_wkt(w, &r.v) == 0; } REQ(acc == 0); }
'''))
# ---- C08
# ---- C11
SEEDS.append(("c11-realloc-end-nodes", "C11", [(GE,
"""      ptrdiff_t offset = node->coords[i] - private_data->coords.data;
      node->coords[i] = new_coords->data + offset;
""",
"""      ptrdiff_t offset = node->coords[i] - private_data->coords.data;
      // A sequence that starts at the end has no coordinates to move yet
      if (offset < private_data->coords.size_bytes || i == 0) {
        node->coords[i] = new_coords->data + offset;
      }
""")],
"a sequence that begins exactly where the coordinate buffer must be reallocated",
"y (and z, m) pointers of the sequence stay in the freed buffer",
r"""
int main() { GeoArrowGeometry g; OKAY(GeoArrowGeometryInit(&g)); GeoArrowVisitor v; memset(&v, 0, sizeof v); GeoArrowError e; GeoArrowVisitorInitVoid(&v); v.error = &e; GeoArrowGeometryInitVisitor(&g, &v); v.error = &e;
  for (int k = 1; k < 70; k++) { S w = "MULTIPOINT ZM ("; for (int i = 0; i < k; i++) { char b[80]; snprintf(b, 80, "%s(%d %d %d %d)", i ? ", " : "", i, i + 1, i + 2, i + 3); w += b; } w += ")";
    GeoArrowGeometry f; OKAY(GeoArrowGeometryInit(&f)); GeoArrowGeometryInitVisitor(&f, &v); v.error = &e; OKAY(read_wkt(w, &v)); Rec a, b; rec_init(&a); rec_init(&b); OKAY(read_wkt(w, &a.v)); OKAY(GeoArrowGeometryVisit(&f, &b.v)); S x = a.ev, y = b.ev; REQ(x == y); GeoArrowGeometryReset(&f); }
  GeoArrowGeometryReset(&g); }
""", "asan"))
SEEDS.append(("c11-visit-chunk-cursor", "C11", [(GE,
"""    for (int i = 0; i < coord_view.n_values; i++) {
      node_cursor.coords[i] += chunk_size * node_cursor.coord_stride[i];
    }
  }
""",
"""    for (int i = 0; i < coord_view.n_values; i++) {
      node_cursor.coords[i] += chunk_size * node_cursor.coord_stride[0];
    }
  }
""")],
"a sequence longer than one chunk whose ordinates have different strides (a view over separate buffers)",
"ordinates of later chunks are read from the wrong place",
r'''
int main() { enum { N = 1000 }; static double xs[N], yzs[2 * N]; for (int i = 0; i < N; i++) { xs[i] = i; yzs[2 * i] = 10 * i; yzs[2 * i + 1] = 7; }
  GeoArrowGeometryNode n; memset(&n, 0, sizeof n); n.geometry_type = GEOARROW_GEOMETRY_TYPE_LINESTRING; n.dimensions = GEOARROW_DIMENSIONS_XY; n.size = N; for (int i = 0; i < 4; i++) { n.coords[i] = (const uint8_t*)xs; }
  n.coords[0] = (const uint8_t*)xs; n.coord_stride[0] = 8; n.coords[1] = (const uint8_t*)yzs; n.coord_stride[1] = 16; GeoArrowGeometryView g; g.root = &n; g.size_nodes = 1; Rec r; rec_init(&r); OKAY(GeoArrowGeometryViewVisit(g, &r.v));
  S want = "fs g2.1( "; for (int i = 0; i < N; i++) want += nm(i) + "," + nm(10 * i) + " "; want += ") fe "; REQ(r.ev == want); }
'''))
# ---- C15
SEEDS.append(("c15-max-size-by-chars-left", "C15", [(WW,
"""  if (private->max_element_size_bytes >= 0 &&
      (private->values.size_bytes - private->values_feat_start) >
          private->max_element_size_bytes) {""",
"""  if (private->max_element_size_bytes > 0 &&
      (private->values.size_bytes - private->values_feat_start) >
          private->max_element_size_bytes) {""")],
"max_element_size_bytes of zero", "an element longer than the limit is written",
r'''
int main() { GeoArrowKernel k; GeoArrowError e; OKAY(GeoArrowKernelInit(&k, "format_wkt", NULL)); GeoArrowWKTWriter w; OKAY(GeoArrowWKTWriterInit(&w)); w.max_element_size_bytes = 0; GeoArrowVisitor v; memset(&v, 0, sizeof v); GeoArrowWKTWriterInitVisitor(&w, &v); v.error = &e;
  int rc = read_wkt("LINESTRING (1 2, 3 4)", &v); if (rc == EAGAIN) rc = v.feat_end(&v); OKAY(rc); ArrowArray a; OKAY(GeoArrowWKTWriterFinish(&w, &a, &e)); REQ(items(&a)[0] == ""); a.release(&a); GeoArrowWKTWriterReset(&w); k.release(&k); }
'''))
# ---- C16
SEEDS.append(("c16-box-bitmap-carried-over", "C16", [(KE,
"""  if (private_data->box2d_private.null_count > 0) {
    ArrowArraySetValidityBitmap(&tmp, &private_data->box2d_private.validity);
  } else {
    ArrowBitmapReset(&private_data->box2d_private.validity);
  }
""",
"""  if (private_data->box2d_private.validity.buffer.data != NULL) {
    if (private_data->box2d_private.null_count == length) {
      // All null: share the bitmap rather than moving it
      NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(ArrowArrayValidityBitmap(&tmp), 0, length));
    } else {
      ArrowArraySetValidityBitmap(&tmp, &private_data->box2d_private.validity);
    }
  }
""")],
"the box kernel given an all-null batch followed by another batch",
"validity bits of the previous batch are kept and applied to the next batch",
r'''
int main() { GeoArrowKernel k; GeoArrowError e; OKAY(GeoArrowKernelInit(&k, "box", NULL)); ArrowSchema s, os; OKAY(GeoArrowSchemaInitExtension(&s, GEOARROW_TYPE_WKT)); OKAY(k.start(&k, &s, NULL, &os, &e));
  ArrowArray a, b, o; OKAY(build(&a, GEOARROW_TYPE_WKT, {"", ""})); OKAY(k.push_batch(&k, &a, &o, &e)); REQ(visit(&o, GEOARROW_TYPE_BOX, 0, 2) == "fs null fe fs null fe "); o.release(&o);
  OKAY(build(&b, GEOARROW_TYPE_WKT, {"POINT (1 2)", "POINT (3 4)", ""})); OKAY(k.push_batch(&k, &b, &o, &e)); S r = visit(&o, GEOARROW_TYPE_BOX, 0, 3); REQ(r.find("null") != S::npos && r.find("null") == r.rfind("null")); REQ(r.find("1,2") != S::npos && r.find("3,4") != S::npos); o.release(&o);
  a.release(&a); b.release(&b); s.release(&s); os.release(&os); k.release(&k); }
'''))
# ---- C17
SEEDS.append(("c17-nested-first-seen", "C17", [(KE,
"""  if (private_data->geometry_types_private.geometry_type ==
      GEOARROW_GEOMETRY_TYPE_GEOMETRY) {
    private_data->geometry_types_private.geometry_type = geometry_type;
    private_data->geometry_types_private.dimensions = dimensions;
  }
""",
"""  if (private_data->geometry_types_private.geometry_type ==
      GEOARROW_GEOMETRY_TYPE_GEOMETRY) {
    private_data->geometry_types_private.geometry_type = geometry_type;
    private_data->geometry_types_private.dimensions = dimensions;
  } else if (private_data->geometry_types_private.dimensions == GEOARROW_DIMENSIONS_XY) {
    // WKB collections sometimes only declare dimensions on their children
    private_data->geometry_types_private.dimensions = dimensions;
  }
""")],
"an XY collection whose first child with coordinates has other dimensions",
"the type reported combines the collection's type with the child's dimensions",
r'''
int main() { GeoArrowKernel k; GeoArrowError e; OKAY(GeoArrowKernelInit(&k, "unique_geometry_types_agg", NULL)); ArrowSchema s, os; OKAY(GeoArrowSchemaInitExtension(&s, GEOARROW_TYPE_WKT)); OKAY(k.start(&k, &s, NULL, &os, &e));
  ArrowArray a, o; const char* t = "GEOMETRYCOLLECTION (POINT Z (1 2 3))"; ArrowArrayInitFromType(&a, NANOARROW_TYPE_STRING); ArrowArrayStartAppending(&a); ArrowArrayAppendString(&a, ArrowCharView(t)); ArrowArrayFinishBuildingDefault(&a, NULL);
  OKAY(k.push_batch(&k, &a, NULL, &e)); OKAY(k.finish(&k, &o, &e)); REQ(o.length == 1 && ((const int32_t*)o.buffers[1])[0] == 7); o.release(&o); a.release(&a); s.release(&s); os.release(&os); k.release(&k); }
'''))
SEEDS.append(("c17-box-agg-else-if", "C17", [(KE,
"""        private_data->box2d_private.min_values[dim_i] = value;
      }

      if (value > private_data->box2d_private.max_values[dim_i]) {""",
"""        private_data->box2d_private.min_values[dim_i] = value;
      } else if (value > private_data->box2d_private.max_values[dim_i]) {""")],
"a coordinate sequence whose ordinates strictly decrease from the first one on",
"the maximum misses the first value (stays -inf or too small)",
r'''
int main() { GeoArrowKernel k; GeoArrowError e; OKAY(GeoArrowKernelInit(&k, "box_agg", NULL)); ArrowSchema s, os; OKAY(GeoArrowSchemaInitExtension(&s, GEOARROW_TYPE_WKT)); OKAY(k.start(&k, &s, NULL, &os, &e));
  ArrowArray a, o; OKAY(build(&a, GEOARROW_TYPE_WKT, {"LINESTRING (5 1, 4 2, 3 3)"})); OKAY(k.push_batch(&k, &a, NULL, &e)); OKAY(k.finish(&k, &o, &e)); REQ(((const double*)o.children[2]->buffers[1])[0] == 5 && ((const double*)o.children[3]->buffers[1])[0] == 3); o.release(&o); a.release(&a); s.release(&s); os.release(&os); k.release(&k); }
'''))

TI = "src/geoarrow/geoarrow_type_inline.h"; DT = "src/geoarrow/hpp/geometry_data_type.hpp"; AU = "src/geoarrow/hpp/array_util.hpp"; BU = "src/geoarrow/builder.c"; NW = "src/geoarrow/native_writer.c"; WBW = "src/geoarrow/wkb_writer.c"
# ---- C01
SEEDS.append(("c01-view-offset-validity", "C01", [(AR,
"""    if (!ArrowArrayViewIsNull(array_view, offset + i)) {
      arrow_item = ArrowArrayViewGetBytesUnsafe(array_view, offset + i);""",
"""    if (array_view->null_count == 0 || i == 0 ||
        !ArrowArrayViewIsNull(array_view, offset + i)) {
      arrow_item = ArrowArrayViewGetBytesUnsafe(array_view, offset + i);""")],
"a large WKB or WKB view array whose first visited element is null", "a null first element is not delivered as null",
r"""
int main() { ArrowArray a; OKAY(build(&a, GEOARROW_TYPE_LARGE_WKB, {"POINT (1 2)", "", "POINT (3 4)"})); REQ(visit(&a, GEOARROW_TYPE_LARGE_WKB, 1, 2) == "fs null fe fs g1.1( 3,4 ) fe "); a.release(&a); }
"""))
SEEDS.append(("c01-visit-empty-first", "C01", [("src/geoarrow/geometry.c",
"""      for (uint32_t i = 0; i < node->size; i++) {
        GEOARROW_RETURN_NOT_OK(v->ring_start(v));
        GEOARROW_RETURN_NOT_OK(GeoArrowGeometryVisitSequence(node + i + 1, v));
        GEOARROW_RETURN_NOT_OK(v->ring_end(v));
      }
""",
"""      for (uint32_t i = 0; i < node->size; i++) {
        // Rings without coordinates at the end don't need to be visited
        if (i > 0 && i == node->size - 1 && node[i + 1].size == 0) {
          break;
        }
        GEOARROW_RETURN_NOT_OK(v->ring_start(v));
        GEOARROW_RETURN_NOT_OK(GeoArrowGeometryVisitSequence(node + i + 1, v));
        GEOARROW_RETURN_NOT_OK(v->ring_end(v));
      }
""")],
"WKB of a polygon with an empty last ring after other rings", "the ring events of the last ring are not delivered",
r"""
int main() { S b = "0103000000" "02000000" "01000000" "000000000000f03f0000000000000040" "00000000"; Rec r; rec_init(&r); OKAY(read_wkb(unhx(b), &r.v)); REQ(r.ev == "fs g3.1( r( 1,2 ) r( ) ) fe "); }
"""))
# ---- C08
SEEDS.append(("c08-empty-multipoint-child-kept", "C08", [(WR,
"""  if (PeekChar(s) == '(' || PeekChar(s) == 'E') {
    return ReadEmptyOrPointCoordinate(s, v);
  }
""",
"""  if (PeekChar(s) == '(' ||
      (PeekChar(s) == 'E' && s->coord_view.n_values < 4)) {
    return ReadEmptyOrPointCoordinate(s, v);
  }
""")],
"a ZM multipoint with an EMPTY point converted from WKT", "text that the WKT writer itself produces can't be converted back",
r"""
int main() { Rec r; rec_init(&r); OKAY(read_wkt("MULTIPOINT ZM (1 2 3 4, EMPTY)", &r.v)); REQ(r.ev == "fs g4.4( g1.4( 1,2,3,4 ) g1.4( ) ) fe "); }
"""))
# ---- C12
SEEDS.append(("c12-stale-coord-cache", "C12", [(WR,
"""    GeoArrowWKTSkipWhitespace(s);

    ResetCoordCache(s);

    // Read the first coordinate (there must always be one)""",
"""    GeoArrowWKTSkipWhitespace(s);

    // Read the first coordinate (there must always be one)""")],
"a reader used again after it refused a text in the middle of a coordinate sequence", "coordinates of the refused element are delivered with the next element",
r"""
int main() { GeoArrowWKTReader rd; OKAY(GeoArrowWKTReaderInit(&rd)); Rec r; rec_init(&r); S a = "LINESTRING (1 2, 3 4, x", b = "LINESTRING (5 6)"; GeoArrowStringView v; v.data = a.data(); v.size_bytes = a.size(); REQ(GeoArrowWKTReaderVisit(&rd, v, &r.v) != 0);
  rec_init(&r); r.ev = ""; v.data = b.data(); v.size_bytes = b.size(); OKAY(GeoArrowWKTReaderVisit(&rd, v, &r.v)); REQ(r.ev == "fs g2.1( 5,6 ) fe "); GeoArrowWKTReaderReset(&rd); }
"""))
SEEDS.append(("c12-geometry-level-kept", "C12", [(GE,
"""  GEOARROW_RETURN_NOT_OK(ArrowBufferResize(&private_data->coords, 0, 0));
  private_data->current_level = 0;
  return GEOARROW_OK;
}""",
"""  GEOARROW_RETURN_NOT_OK(ArrowBufferResize(&private_data->coords, 0, 0));
  return GEOARROW_OK;
}""")],
"a geometry visitor used again after a feature that was not completed", "the next feature is built at the wrong level",
r"""
int main() { GeoArrowGeometry g; OKAY(GeoArrowGeometryInit(&g)); GeoArrowVisitor v; memset(&v, 0, sizeof v); GeoArrowError e; GeoArrowVisitorInitVoid(&v); GeoArrowGeometryInitVisitor(&g, &v); v.error = &e;
  REQ(read_wkt("MULTIPOLYGON (((0 0, x", &v) != 0); OKAY(read_wkt("LINESTRING (1 2, 3 4)", &v)); REQ(g.root[0].level == 0); for (int i = 0; i < 40; i++) read_wkt("MULTIPOLYGON (((0 0, x", &v); OKAY(read_wkt("LINESTRING (1 2, 3 4)", &v)); GeoArrowGeometryReset(&g); }
"""))
# ---- C18
SEEDS.append(("c18-box-interleaved-mask", "C18", [(TI,
"""  int type_int = (int)type;
  if (type_int >= GEOARROW_TYPE_INTERLEAVED_POINT) {
    type_int -= 10000;
  }

  switch (type_int / 1000) {""",
"""  int type_int = (int)type;
  if (type_int > GEOARROW_TYPE_INTERLEAVED_POINT) {
    type_int -= 10000;
  }

  switch (type_int / 1000) {""")],
"the interleaved XY point type", "the dimensions of one type identifier are unknown (or wrong)",
r"""
int main() { for (int g = 1; g <= 6; g++) for (int d = 1; d <= 4; d++) for (int c = 1; c <= 2; c++) { enum GeoArrowType t = GeoArrowMakeType((GeoArrowGeometryType)g, (GeoArrowDimensions)d, (GeoArrowCoordType)c); REQ(GeoArrowDimensionsFromType(t) == d); REQ(GeoArrowGeometryTypeFromType(t) == g); } }
"""))
# ---- C19
SEEDS.append(("c19-box-max-name", "C19", [(SV,
"""    if (max_dim != dim[i]) {""",
"""    if (max_dim != dim[i] && i < 2) {""")],
"a box schema whose z/m max child has the wrong name", "a schema that isn't a box is accepted (and gets a type)",
r"""
int main() { ArrowSchema s; OKAY(GeoArrowSchemaInitExtension(&s, GEOARROW_TYPE_BOX_ZM)); OKAY(ArrowSchemaSetName(s.children[6], "mmax")); OKAY(ArrowSchemaSetName(s.children[7], "zmax")); GeoArrowSchemaView v; GeoArrowError e; REQ(GeoArrowSchemaViewInit(&v, &s, &e) != 0); s.release(&s); }
"""))
SEEDS.append(("c19-fsl-named-too-wide", "C19", [(SV,
"""  if (expected_n_dims != na_schema_view.fixed_size) {""",
"""  if (expected_n_dims > na_schema_view.fixed_size) {""")],
"a fixed-size list named for fewer dimensions than it has", "a schema whose name and size disagree is accepted",
r"""
int main() { ArrowSchema s; OKAY(GeoArrowSchemaInitExtension(&s, GEOARROW_TYPE_INTERLEAVED_POINT_ZM)); OKAY(ArrowSchemaSetName(s.children[0], "xym")); GeoArrowSchemaView v; GeoArrowError e; REQ(GeoArrowSchemaViewInit(&v, &s, &e) != 0); s.release(&s); }
"""))
# ---- C20
SEEDS.append(("c20-escape-size", "C20", [(ME,
"""        if (val == '"' || val == '\\\\') {
          *out++ = '\\\\';
        }
""",
"""        if ((val == '"' || val == '\\\\') &&
            (i == 0 || metadata_view->crs.data[i - 1] != '\\\\')) {
          *out++ = '\\\\';
        }
""")],
"a plain CRS text with a backslash directly before a quote or another backslash",
"the serialised metadata isn't what was set (and is shorter than announced)",
r"""
int main() { GeoArrowMetadataView m, b; GeoArrowError e; memset(&m, 0, sizeof m); S c = "a\\\\b"; m.edge_type = GEOARROW_EDGE_TYPE_PLANAR; m.crs_type = GEOARROW_CRS_TYPE_UNKNOWN; m.crs.data = c.data(); m.crs.size_bytes = c.size();
  char o[100]; memset(o, 0, 100); int64_t n = GeoArrowMetadataSerialize(&m, o, 100); REQ(S(o, n) == "{\"crs\":\"a\\\\\\\\b\"}"); GeoArrowStringView v; v.data = o; v.size_bytes = n; OKAY(GeoArrowMetadataViewInit(&b, v, &e)); char u[100]; REQ(S(u, GeoArrowUnescapeCrs(b.crs, u, 100)) == c); }
"""))
# ---- C22
SEEDS.append(("c22-update-child-length", "C22", [(AU,
"""      int64_t first_offset = offsets[offset];
      int64_t last_offset = offsets[offset + length];
      return child.Slice(first_offset, last_offset - first_offset);""",
"""      int64_t first_offset = offsets[offset];
      int64_t last_offset = offsets[length];
      return child.Slice(first_offset, last_offset - first_offset);""")],
"Coords()/VisitVertices() of a list array view with an offset", "the wrong number of coordinates is visited",
r"""
#include "geoarrow/geoarrow.hpp"
#include "geoarrow/hpp/array_util.hpp"
int main() { ArrowArray a; OKAY(build(&a, GEOARROW_TYPE_LINESTRING, {"LINESTRING (0 1, 2 3)", "LINESTRING (4 5, 6 7)", "LINESTRING (8 9, 10 11)"})); a.offset = 1; a.length = 2; GeoArrowArrayView v; GeoArrowError e; OKAY(GeoArrowArrayViewInitFromType(&v, GEOARROW_TYPE_LINESTRING)); OKAY(GeoArrowArrayViewSetArray(&v, &a, &e));
  geoarrow::array_util::LinestringArray<geoarrow::array_util::XY<double>> l; OKAY(l.Init(&v)); REQ(l.Coords().size() == 4); REQ(l.Slice(1, 1).Coords().size() == 2 && l.Slice(1, 1).Coords().coord(0)[0] == 8); a.release(&a); }
"""))
SEEDS.append(("c22-xym-cast", "C22", [(AU,
"""    return XYM{x, y, m};""", """    return XYM{x, y, z == z ? z : m};""")],
"coordinates of an XYZM sequence visited as XYM", "z values are reported as m",
r"""
#include "geoarrow/geoarrow.hpp"
#include "geoarrow/hpp/array_util.hpp"
using namespace geoarrow::array_util;
int main() { XYZM<double> c{1, 2, 3, 4}; auto r = CoordCast<XYZM<double>, XYM<double>>(c); REQ(r.m() == 4); }
"""))
# ---- C24
SEEDS.append(("c24-simple-keeps-metadata", "C24", [(DT,
"""    return Make(geometry_type(), dimensions, coord_type(), extension_metadata());""",
"""    return Make(geometry_type(), dimensions, coord_type(),
                edge_type() == GEOARROW_EDGE_TYPE_PLANAR && crs_type() == GEOARROW_CRS_TYPE_UNKNOWN
                    ? crs()
                    : extension_metadata());""")],
"WithDimensions() of a type with a CRS of unknown type given as a JSON object", "the CRS is parsed as the extension metadata and dropped",
r"""
#include "geoarrow/geoarrow.hpp"
int main() { auto t = geoarrow::Point().WithCrs("{\"a\":\"b\"}"); REQ(t.XYZ().crs() == "{\"a\":\"b\"}"); }
"""))
SEEDS.append(("c24-multi-of-multi-dims", "C24", [(DT,
"""      case GEOARROW_GEOMETRY_TYPE_POLYGON:
      case GEOARROW_GEOMETRY_TYPE_MULTIPOLYGON:
        return WithGeometryType(GEOARROW_GEOMETRY_TYPE_MULTIPOLYGON);""",
"""      case GEOARROW_GEOMETRY_TYPE_POLYGON:
        return WithGeometryType(GEOARROW_GEOMETRY_TYPE_MULTIPOLYGON);
      case GEOARROW_GEOMETRY_TYPE_MULTIPOLYGON:
        return WithGeometryType(geometry_type()).WithCoordType(GEOARROW_COORD_TYPE_SEPARATE);""")],
"Multi() of an interleaved multipolygon type", "the coordinate type of the result is changed",
r"""
#include "geoarrow/geoarrow.hpp"
int main() { auto t = geoarrow::Polygon().Multi().WithCoordType(GEOARROW_COORD_TYPE_INTERLEAVED).XYZ(); REQ(t.Multi().id() == t.id()); REQ(t.Simple().Multi().id() == t.id()); }
"""))
# ---- C26
SEEDS.append(("c26-precision-zero", "C26", [("src/geoarrow/double_print.c",
"""  if (f > 1.0e17 || f < -1.0e17) {
    return GeoArrowd2sexp_buffered_n(f, 17, result);""",
"""  if (f > 1.0e17 || f < -1.0e15) {
    return GeoArrowd2sexp_buffered_n(f, 17, result);""")],
"a number between -1e17 and -1e15", "a number within the fixed-notation range is written in scientific notation",
r"""
int main() { char b[400]; int64_t n = GeoArrowPrintDouble(-1234567890123456.0, 0, b); REQ(S(b, n) == "-1234567890123456"); }
"""))
# ---- C21
SEEDS.append(("c21-builder-dealloc-size", "C21", [(BU,
"""  private_data->custom_free(ptr, size, private_data->private_data);
  ArrowFree(private_data);""",
"""  if (size > 0) {
    private_data->custom_free(ptr, size, private_data->private_data);
  }
  ArrowFree(private_data);""")],
"an owned buffer of size zero handed to a builder", "the buffer's deallocator is never called",
r"""
int main() { static int n; GeoArrowBuilder b; OKAY(GeoArrowBuilderInitFromType(&b, GEOARROW_TYPE_POINT)); double d[1]; GeoArrowBufferView v; v.data = (uint8_t*)d; v.size_bytes = 0; OKAY(GeoArrowBuilderSetOwnedBuffer(&b, 1, v, [](uint8_t*, int64_t, void* p) { ++*(int*)p; }, &n)); GeoArrowBuilderReset(&b); REQ(n == 1); }
"""))
# ---- C13
SEEDS.append(("c13-ring-end-level", "C13", [(GE,
"""static int ring_end_geometry(struct GeoArrowVisitor* v) {
  struct GeoArrowGeometry* geom = (struct GeoArrowGeometry*)v->private_data;
  struct GeoArrowGeometryPrivate* private_data =
      (struct GeoArrowGeometryPrivate*)geom->private_data;

  if (private_data->current_level == 0) {""",
"""static int ring_end_geometry(struct GeoArrowVisitor* v) {
  struct GeoArrowGeometry* geom = (struct GeoArrowGeometry*)v->private_data;
  struct GeoArrowGeometryPrivate* private_data =
      (struct GeoArrowGeometryPrivate*)geom->private_data;

  if (private_data->current_level == 0 && geom->size_nodes == 0) {""")],
"ring_end without ring_start after other calls", "the level becomes negative and sizes are counted outside the table",
r"""
int main() { GeoArrowGeometry g; OKAY(GeoArrowGeometryInit(&g)); GeoArrowVisitor v; memset(&v, 0, sizeof v); GeoArrowError e; GeoArrowVisitorInitVoid(&v); GeoArrowGeometryInitVisitor(&g, &v); v.error = &e;
  OKAY(v.feat_start(&v)); OKAY(v.geom_start(&v, GEOARROW_GEOMETRY_TYPE_POINT, GEOARROW_DIMENSIONS_XY)); OKAY(v.geom_end(&v)); REQ(v.ring_end(&v) != 0); GeoArrowGeometryReset(&g); }
"""))
