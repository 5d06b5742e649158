exec(open("/verif/tools/seeds/head.py").read())
SEEDS = []
WR = "src/geoarrow/wkt_reader.c"; AU = "src/geoarrow/hpp/array_util.hpp"; TI = "src/geoarrow/geoarrow_type_inline.h"; WB = "src/geoarrow/hpp/wkb_util.hpp"; PX = "python/geoarrow-c/src/geoarrow/c/_lib.pyx"; SC = "src/geoarrow/schema.c"; ME = "src/geoarrow/metadata.c"
SEEDS.append(("c12-bare-multipoint-cache", "C12", [(WR, "  ResetCoordCache(s);\n  NANOARROW_RETURN_NOT_OK(ReadCoordinate(s, v));\n  return FlushCoordCache(s, v);", "  NANOARROW_RETURN_NOT_OK(ReadCoordinate(s, v));\n  return FlushCoordCache(s, v);")],
"a text refused in the middle of a coordinate sequence and then, with the same reader, a multipoint whose points have no parentheses",
"coordinates of the refused text appear in the first point of the next one",
r'''
int main() { GeoArrowWKTReader r; OKAY(GeoArrowWKTReaderInit(&r)); Rec a; rec_init(&a); GeoArrowStringView s; S bad = "LINESTRING (1 2, 3 4, x)", good = "MULTIPOINT (5 6, 7 8)";
  s.data = bad.data(); s.size_bytes = bad.size(); REQ(GeoArrowWKTReaderVisit(&r, s, &a.v) != 0);
  a.ev = ""; s.data = good.data(); s.size_bytes = good.size(); OKAY(GeoArrowWKTReaderVisit(&r, s, &a.v)); fprintf(stderr, "%s\n", a.ev.c_str());
  REQ(a.ev == "fs g4.1( g1.1( 5,6 ) g1.1( 7,8 ) ) fe "); GeoArrowWKTReaderReset(&r); }
'''))
CPP = '#include "geoarrow/geoarrow.hpp"\n'
SEEDS.append(("c22-list-child-own-offset", "C22", [(AU, "    child_p->offset = child.offset + child_offset;\n", "    child_p->offset = child_offset;\n")],
"a linestring array whose coordinate child has an offset of its own",
"the sequence views give the wrong coordinates",
CPP + r'''
int main() { ArrowArray a; OKAY(build(&a, GEOARROW_TYPE_LINESTRING, {"LINESTRING (9 9, 8 8, 0 1, 2 3)"}));
  ArrowArray* c = a.children[0]; c->offset = 2; c->length = 2; ((int32_t*)a.buffers[1])[1] = 2;
  GeoArrowArrayView v; OKAY(GeoArrowArrayViewInitFromType(&v, GEOARROW_TYPE_LINESTRING)); OKAY(GeoArrowArrayViewSetArray(&v, &a, NULL));
  geoarrow::array_util::LinestringArray<geoarrow::array_util::XY<double>> arr; OKAY(arr.Init(&v));
  S got; for (const auto& s : arr.value) for (const auto& p : s) got += nm(p.x()) + "," + nm(p.y()) + " ";
  REQ(got == "0,1 2,3 "); a.release(&a); }
'''))
SEEDS.append(("c22-iterator-index", "C22", [(AU, "  value_type operator[](int64_t i) const { return this->outer_.coord(this->i_ + i); }", "  value_type operator[](int64_t i) const { return this->outer_.coord(i); }")],
"indexing an iterator that has been advanced",
"it[n] counts from the start of the sequence instead of the iterator",
CPP + r'''
int main() { double d[] = {0, 1, 2, 3, 4, 5}; geoarrow::array_util::CoordSequence<geoarrow::array_util::XY<double>> s; OKAY(s.InitInterleaved(3, d)); auto it = s.begin(); ++it; REQ(it[1].x() == 4); REQ((*it).x() == 2); }
'''))
SEEDS.append(("c22-unaligned-dend-slice", "C22", [(AU, "    return dimension_iterator(values[j] + ((offset + length) * stride_bytes),\n                              stride_bytes);", "    return dimension_iterator(values[j] + (offset * stride_bytes + length * sizeof(ordinate_type)),\n                              stride_bytes);")],
"the ordinates of one dimension of an unaligned interleaved sequence",
"the iteration over the ordinates of a dimension ends too early",
CPP + r'''
int main() { double d[] = {0, 1, 2, 3, 4, 5, 6, 7}; geoarrow::array_util::UnalignedCoordSequence<geoarrow::array_util::XY<double>> s; OKAY(s.InitInterleaved(4, d)); auto t = s.Slice(1, 2);
  S g; for (auto it = t.dbegin(1); it < t.dend(1); ++it) g += nm(*it) + " "; REQ(g == "3 5 "); }
'''))
SEEDS.append(("c22-valid-child-slice", "C22", [(AU, "      int64_t first_offset = offsets[offset];\n      int64_t last_offset = offsets[offset + length];", "      int64_t first_offset = offsets[offset];\n      int64_t last_offset = offsets[length];")],
"a sliced list sequence (offset of its own) whose vertices are visited all at once",
"the vertices of the last elements are skipped (or the number of vertices is negative)",
CPP + r'''
int main() { ArrowArray a; OKAY(build(&a, GEOARROW_TYPE_LINESTRING, {"LINESTRING (9 9)", "LINESTRING (0 1, 2 3)", "LINESTRING (4 5)"})); a.offset = 1; a.length = 2;
  GeoArrowArrayView v; OKAY(GeoArrowArrayViewInitFromType(&v, GEOARROW_TYPE_LINESTRING)); OKAY(GeoArrowArrayViewSetArray(&v, &a, NULL));
  using C = geoarrow::array_util::XY<double>; geoarrow::array_util::LinestringArray<C> arr; OKAY(arr.Init(&v));
  S got; arr.VisitVertices<C>([&](C p) { got += nm(p.x()) + "," + nm(p.y()) + " "; }); REQ(got == "0,1 2,3 4,5 "); a.release(&a); }
'''))
SEEDS.append(("c22-is-null-offset", "C22", [(AU, "  bool is_null(int64_t i) const {\n    i += value.offset;\n    return validity != nullptr && !(validity[i / 8] & (1 << (i % 8)));", "  bool is_null(int64_t i) const {\n    return validity != nullptr && !(validity[i / 8] & (1 << (i % 8)));")],
"is_null() of an array with nulls and a non-zero offset",
"is_null() gives the answer for an element of the array before the slice",
CPP + r'''
int main() { ArrowArray a; OKAY(build(&a, GEOARROW_TYPE_LINESTRING, {"LINESTRING (9 9)", "", "LINESTRING (4 5)"})); a.offset = 1; a.length = 2;
  GeoArrowArrayView v; OKAY(GeoArrowArrayViewInitFromType(&v, GEOARROW_TYPE_LINESTRING)); OKAY(GeoArrowArrayViewSetArray(&v, &a, NULL));
  using C = geoarrow::array_util::XY<double>; geoarrow::array_util::LinestringArray<C> arr; OKAY(arr.Init(&v)); REQ(arr.is_null(0)); REQ(!arr.is_null(1)); REQ(!arr.is_valid(0)); REQ(arr.is_valid(1)); a.release(&a); }
'''))
SEEDS.append(("c14-xym-to-xyzm", "C14", [(TI, "        case GEOARROW_DIMENSIONS_XYM:\n          dim_map[3] = 2;\n          break;\n        case GEOARROW_DIMENSIONS_XYZM:\n          dim_map[2] = 2;\n          dim_map[3] = 3;", "        case GEOARROW_DIMENSIONS_XYM:\n          dim_map[2] = 2;\n          break;\n        case GEOARROW_DIMENSIONS_XYZM:\n          dim_map[2] = 2;\n          dim_map[3] = 3;")],
"coordinates with M but no Z copied to a destination with Z and M",
"the M values are written as Z",
r'''
int main() { GeoArrowNativeWriter w; GeoArrowVisitor v; OKAY(GeoArrowNativeWriterInit(&w, GEOARROW_TYPE_POINT_ZM)); GeoArrowVisitorInitVoid(&v); GeoArrowError e; OKAY(GeoArrowNativeWriterInitVisitor(&w, &v)); v.error = &e;
  OKAY(read_wkt("POINT M (1 2 3)", &v)); ArrowArray a; OKAY(GeoArrowNativeWriterFinish(&w, &a, &e)); GeoArrowNativeWriterReset(&w);
  S s = wkt_of(&a, GEOARROW_TYPE_POINT_ZM, 0, 1); fprintf(stderr, "%s\n", s.c_str()); REQ(s == "POINT ZM (1 2 nan 3)|"); a.release(&a); }
'''))
SEEDS.append(("c23-nested-dims-leak", "C23", [(WB, "    last_coord_stride_ = 2 + has_z + has_m;\n    if (has_z && has_m) {", "    last_coord_stride_ = 2 + (has_z || last_dims_z_) + has_m;\n    last_dims_z_ = has_z;\n    if (has_z && has_m) {"),
 (WB, "  uint32_t last_coord_stride_;\n", "  uint32_t last_coord_stride_;\n  bool last_dims_z_{};\n")], "a", "b", "int main() { }")) if False else None
SEEDS.append(("c23-stale-ring-endian", "C23", [(WB, "    seq->endianness = last_endian_;", "    if (seq->endianness != internal::kLittleEndian || out->NumSequences() == 1) seq->endianness = last_endian_;")],
"a WKBGeometry used for a little-endian polygon with several rings and then for a big-endian one",
"the rings after the first are decoded with the byte order of the previous polygon",
CPP + r'''
static S poly(int be) { S r; auto u = [&](uint32_t x) { char b[4]; memcpy(b, &x, 4); if (be) std::swap(b[0], b[3]), std::swap(b[1], b[2]); r.append(b, 4); };
  auto d = [&](double x) { char b[8]; memcpy(b, &x, 8); if (be) for (int i = 0; i < 4; i++) std::swap(b[i], b[7 - i]); r.append(b, 8); };
  r += (char)(be ? 0 : 1); u(3); u(2); u(1); d(1); d(2); u(1); d(3); d(4); return r; }
int main() { using namespace geoarrow; wkb_util::WKBGeometry g; wkb_util::WKBParser p; using C = array_util::XY<double>;
  for (int be : {1, 0, 1, 0}) { S w = poly(be); REQ(p.Parse((const uint8_t*)w.data(), w.size(), &g) == wkb_util::WKBParser::OK); S got; g.VisitVertices<C>([&](C c) { got += nm(c.x()) + "," + nm(c.y()) + " "; }); REQ(got == "1,2 3,4 "); } }
'''))
SEEDS.append(("c23-point-list-edges", "C23", [(WB, "      case GEOARROW_GEOMETRY_TYPE_POINT:\n      case GEOARROW_GEOMETRY_TYPE_MULTIPOINT:\n        VisitVertices<CoordDst>([&](CoordDst v0) { func(v0, v0); });\n        return;\n", "      case GEOARROW_GEOMETRY_TYPE_MULTIPOINT:\n        VisitVertices<CoordDst>([&](CoordDst v0) { func(v0, v0); });\n        return;\n      case GEOARROW_GEOMETRY_TYPE_POINT:\n        if (NumSequences() == 0 || dimensions != GEOARROW_DIMENSIONS_XYM) {\n          VisitVertices<CoordDst>([&](CoordDst v0) { func(v0, v0); });\n          return;\n        }\n")],
"the edges of a point with M values", "points with M have no degenerate edge",
CPP + r'''
int main() { using namespace geoarrow; S w = unhx("01d1070000000000000000f03f00000000000000400000000000000840"); wkb_util::WKBGeometry g; wkb_util::WKBParser p; REQ(p.Parse((const uint8_t*)w.data(), w.size(), &g) == wkb_util::WKBParser::OK);
  using C = array_util::XYM<double>; int n = 0; g.VisitEdges<C>([&](C a, C b) { n++; REQ(a.m() == 3 && b.m() == 3); }); REQ(n == 1); }
'''))
SEEDS.append(("c18-wkb-view-name", "C18", [(TI, "    case GEOARROW_TYPE_WKT:\n    case GEOARROW_TYPE_LARGE_WKT:\n    case GEOARROW_TYPE_WKT_VIEW:\n      return \"geoarrow.wkt\";\n", "    case GEOARROW_TYPE_WKT:\n    case GEOARROW_TYPE_LARGE_WKT:\n      return \"geoarrow.wkt\";\n")],
"the extension name of the WKT view type", "a schema cannot be made for it",
r'''
int main() { const char* n = GeoArrowExtensionNameFromType(GEOARROW_TYPE_WKT_VIEW); REQ(n && S(n) == "geoarrow.wkt"); ArrowSchema s; OKAY(GeoArrowSchemaInitExtension(&s, GEOARROW_TYPE_WKT_VIEW)); s.release(&s); }
'''))
SEEDS.append(("c18-rect-flags", "C18", [(SC, "    ArrowSchemaInitFromType(schema->children[n_dims + i], NANOARROW_TYPE_DOUBLE));\n    NANOARROW_RETURN_NOT_OK(\n        ArrowSchemaSetName(schema->children[n_dims + i], dim_name_max));", "    ArrowSchemaInitFromType(schema->children[n_dims + i], NANOARROW_TYPE_DOUBLE));\n    if (i == 3) dim_name_max[0] = dims[2];\n    NANOARROW_RETURN_NOT_OK(\n        ArrowSchemaSetName(schema->children[n_dims + i], dim_name_max));")],
"a box schema with four dimensions", "the last child is called zmax instead of mmax, so the schema is not recognised",
r'''
int main() { ArrowSchema s; OKAY(GeoArrowSchemaInitExtension(&s, GEOARROW_TYPE_BOX_ZM)); GeoArrowSchemaView v; GeoArrowError e; OKAY(GeoArrowSchemaViewInit(&v, &s, &e)); REQ(v.type == GEOARROW_TYPE_BOX_ZM); s.release(&s); }
'''))
# ---- C20
SEEDS.append(("c20-string-escaped-quote", "C20", [(ME, "    s->size_bytes--;\n    s->data++;\n    is_escape = 0;\n  }\n\n  return EINVAL;", "    s->size_bytes--;\n    s->data++;\n    is_escape = is_escape && c == '\\\\';\n  }\n\n  return EINVAL;")],
"a CRS string that ends in an escaped backslash", "the closing quote is taken for an escaped one",
r'''
int main() { S j = "{\"crs\":\"a\\\\\"}"; GeoArrowStringView s; s.data = j.data(); s.size_bytes = j.size(); GeoArrowMetadataView m; GeoArrowError e; OKAY(GeoArrowMetadataViewInit(&m, s, &e)); REQ(S(m.crs.data, m.crs.size_bytes) == "\"a\\\\\""); }
'''))
SEEDS.append(("c20-serialize-exact", "C20", [(ME, "  if (metadata_size <= n) {\n    int64_t chars_written", "  if (metadata_size < n) {\n    int64_t chars_written")],
"serialising to a buffer of exactly the required size", "nothing is written",
r'''
int main() { GeoArrowMetadataView m; memset(&m, 0, sizeof m); m.edge_type = GEOARROW_EDGE_TYPE_SPHERICAL; char b[64]; int64_t n = GeoArrowMetadataSerialize(&m, b, 64); S full(b, n); memset(b, '?', 64); REQ(GeoArrowMetadataSerialize(&m, b, n) == n); REQ(S(b, n) == full); }
'''))
# ---- C25
PH = r'''
import gc, sys, weakref
import numpy as np, pyarrow as pa

from geoarrow.c import _lib as lib
def schema_of(t):
    return lib.CGeometryDataType.Make(t, lib.GEOARROW_DIMENSIONS_XY, lib.GEOARROW_COORD_TYPE_INTERLEAVED).to_schema()
'''
SEEDS.append(("c25-view-base-dropped", "C25", [(PX, "        array._assert_valid()\n        self._base = array\n", "        array._assert_valid()\n        self._base = schema\n")],
"the array holder is collected while buffers of its view are still used", "the buffers point to released memory",
PH + r'''
class Tag(np.ndarray): pass
src = np.arange(8.0).view(Tag); w = weakref.ref(src)
arr = pa.FixedSizeListArray.from_arrays(pa.DoubleArray.from_buffers(pa.float64(), 8, [None, pa.py_buffer(src)]), 2)
h = lib.ArrayHolder(); arr._export_to_c(h._addr())
v = lib.CArrayView(h, schema_of(lib.GEOARROW_GEOMETRY_TYPE_POINT)); b = v.buffers()[-1]
del arr, src, h, v; gc.collect()
assert w() is not None, "released"
assert list(np.array(b)) == [float(i) for i in range(8)]
''', "py"))
SEEDS.append(("c25-push-agg-error", "C25", [(PX, "        cdef int result = self.c_kernel.push_batch(&self.c_kernel, &array.c_array,\n                                                   NULL, &error.c_error)\n        if result != GEOARROW_OK:\n            error.raise_message(f\"GeoArrowKernel<{self.cname_str}>::push_batch()\", result)\n", "        cdef int result = self.c_kernel.push_batch(&self.c_kernel, &array.c_array,\n                                                   NULL, &error.c_error)\n        if result != GEOARROW_OK and error.c_error.message[0] == 0:\n            error.raise_message(f\"GeoArrowKernel<{self.cname_str}>::push_batch()\", result)\n")],
"an aggregating kernel that is given a batch it refuses", "the refusal is not raised and the rest of the batch is silently missing",
PH + r'''
k = lib.CKernel(b"unique_geometry_types_agg"); s = lib.CGeometryDataType.FromStorage
st = lib.SchemaHolder(); pa.binary()._export_to_c(st._addr()); ty = lib.CGeometryDataType.FromStorage(st, b"geoarrow.wkb", b"")
k.start(ty.to_schema(), b"")
h = lib.ArrayHolder(); pa.array([b"\x01\x01"], pa.binary())._export_to_c(h._addr())
try:
    k.push_batch_agg(h)
except lib.GeoArrowCException:
    sys.exit(0)
sys.exit(1)
''', "py"))
SEEDS.append(("c25-interleaved-size", "C25", [(PX, "                n_coords * coords.n_values,\n", "                n_coords * 2,\n")],
"the coordinate buffer of an interleaved array with more than two dimensions", "the buffer is shorter than the data",
PH + r'''
arr = pa.FixedSizeListArray.from_arrays(pa.array([float(i) for i in range(6)]), 3)
s = lib.CGeometryDataType.Make(lib.GEOARROW_GEOMETRY_TYPE_POINT, lib.GEOARROW_DIMENSIONS_XYZ, lib.GEOARROW_COORD_TYPE_INTERLEAVED).to_schema()
h = lib.ArrayHolder(); arr._export_to_c(h._addr()); b = lib.CArrayView(h, s).buffers()[-1]
assert list(np.array(b)) == [0.0, 1, 2, 3, 4, 5], list(np.array(b))
''', "py"))
SEEDS.append(("c25-eq-edges", "C25", [(PX, "        if self.id != other.id or self.edge_type != other.edge_type:\n            return False\n", "        if self.id != other.id or (self.edge_type != other.edge_type and self.crs_type == lib_none):\n            return False\n".replace("lib_none", "GEOARROW_CRS_TYPE_NONE"))],
"two types with a CRS that differ in their edges only", "they compare equal",
PH + r'''
t = lib.CGeometryDataType.Make(lib.GEOARROW_GEOMETRY_TYPE_POINT, lib.GEOARROW_DIMENSIONS_XY, lib.GEOARROW_COORD_TYPE_SEPARATE).with_crs(b"OGC:CRS84", lib.GEOARROW_CRS_TYPE_UNKNOWN)
assert t != t.with_edge_type(lib.GEOARROW_EDGE_TYPE_SPHERICAL)
assert t == t.with_edge_type(lib.GEOARROW_EDGE_TYPE_SPHERICAL).with_edge_type(lib.GEOARROW_EDGE_TYPE_PLANAR)
''', "py"))
SEEDS.append(("c25-release-twice", "C25", [(PX, "    def release(self):\n        if self.c_array.release == NULL:\n            raise ValueError('Array is already released')\n        self.c_array.release(&self.c_array)", "    def release(self):\n        if self.c_array.release == NULL:\n            raise ValueError('Array is already released')\n        self.c_array.release = NULL")],
"release() of an array holder", "the array is never released",
PH + r'''
class Tag(np.ndarray): pass
src = np.arange(8.0).view(Tag); w = weakref.ref(src)
arr = pa.DoubleArray.from_buffers(pa.float64(), 8, [None, pa.py_buffer(src)])
h = lib.ArrayHolder(); arr._export_to_c(h._addr()); del arr, src; gc.collect(); assert w() is not None
h.release(); gc.collect(); assert w() is None; assert not h.is_valid()
''', "py"))
