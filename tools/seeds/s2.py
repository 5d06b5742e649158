exec(open("/verif/tools/seeds/head.py").read())
SEEDS = []
GEOMPRE = r'''
struct G { GeoArrowGeometry g; GeoArrowVisitor v; GeoArrowError e;
  G(const char* w) { OKAY(GeoArrowGeometryInit(&g)); memset(&v, 0, sizeof v); GeoArrowVisitorInitVoid(&v); GeoArrowGeometryInitVisitor(&g, &v); v.error = &e; if (w) OKAY(read_wkt(w, &v)); }
  ~G() { GeoArrowGeometryReset(&g); } };
'''
SEEDS.append(("c04-multipoint-empty-child", "C04", [("src/geoarrow/native_writer.c",
"""        case GEOARROW_GEOMETRY_TYPE_POINT:
        case GEOARROW_GEOMETRY_TYPE_MULTIPOINT:
          GEOARROW_RETURN_NOT_OK(
              GeoArrowNativeWriterAppendSize(writer, 0, coord_count, error));
          break;
""",
"""        case GEOARROW_GEOMETRY_TYPE_POINT:
        case GEOARROW_GEOMETRY_TYPE_MULTIPOINT:
          // One coordinate per point
          GEOARROW_RETURN_NOT_OK(
              GeoArrowNativeWriterAppendSize(writer, 0, node->size, error));
          break;
""")],
"a multipoint with an EMPTY point among its points, appended as a whole-geometry view to a native multipoint array",
"the offset counts the empty point although it has no coordinate, so later elements are shifted and the last offset exceeds the coordinates",
GEOMPRE + r'''
int main() { G a("MULTIPOINT ((1 2), EMPTY, (3 4))"), b("MULTIPOINT ((5 6))"); GeoArrowNativeWriter w; GeoArrowError e; OKAY(GeoArrowNativeWriterInit(&w, GEOARROW_TYPE_INTERLEAVED_MULTIPOINT));
  OKAY(GeoArrowNativeWriterAppend(&w, GeoArrowGeometryAsView(&a.g), &e)); OKAY(GeoArrowNativeWriterAppend(&w, GeoArrowGeometryAsView(&b.g), &e));
  ArrowArray arr; OKAY(GeoArrowNativeWriterFinish(&w, &arr, &e)); const int32_t* o = (const int32_t*)arr.buffers[1]; REQ(o[1] == 2); REQ(o[2] == 3); REQ(arr.children[0]->length == 3);
  arr.release(&arr); GeoArrowNativeWriterReset(&w); }
'''))
SEEDS.append(("c04-ring-flush-at-feature-end", "C04", [("src/geoarrow/native_writer.c",
"""        GeoArrowBuilderOffsetAppend(&private_data->builder, 2, &n_coord32, 1));
    private_data->size[1]++;
    private_data->size[2] = 0;
  }

  return GEOARROW_OK;
}

static int geom_end_multipolygon""",
"""        GeoArrowBuilderOffsetAppend(&private_data->builder, 2, &n_coord32, 1));
    private_data->size[1]++;
  }

  return GEOARROW_OK;
}

static int geom_end_multipolygon"""), ("src/geoarrow/native_writer.c",
"""  if (private_data->level == 2) {
    private_data->level--;
    if (private_data->size[2] > 0) {
      if (private_data->builder.view.coords.size_coords > 2147483647) {""",
"""  if (private_data->level == 1) {
    // Ring sizes are relative to the polygon that contains them
    private_data->size[2] = 0;
  }

  if (private_data->level == 2) {
    private_data->level--;
    if (private_data->size[2] > 0) {
      if (private_data->builder.view.coords.size_coords > 2147483647) {""")],
"a polygon with an empty ring after a non-empty ring, delivered as events to a native multipolygon array",
"a zero-length ring appears in the array (parts that have no coordinates are otherwise dropped)",
r'''
int main() { ArrowArray a; OKAY(build(&a, GEOARROW_TYPE_MULTIPOLYGON, {"POLYGON ((0 0, 1 0, 0 1, 0 0), EMPTY, (1 1, 2 1, 1 2, 1 1))"}));
  REQ(wkt_of(&a, GEOARROW_TYPE_MULTIPOLYGON, 0, 1) == "MULTIPOLYGON (((0 0, 1 0, 0 1, 0 0), (1 1, 2 1, 1 2, 1 1)))|"); a.release(&a); }
'''))
SEEDS.append(("c04-separated-capacity-first-buffer", "C04", [("src/geoarrow/geoarrow_type_inline.h",
"""      for (int64_t i = last_buffer - n_values + 1; i <= last_buffer; i++) {
        // Sync the coord view size back to the buffer size
        builder->view.buffers[i].size_bytes = writable_view->size_coords * sizeof(double);
""",
"""      // Sync the coord view size back to the buffer size
      for (int64_t i = last_buffer - 2 + 1; i <= last_buffer; i++) {
        builder->view.buffers[i].size_bytes = writable_view->size_coords * sizeof(double);
      }

      for (int64_t i = last_buffer - n_values + 1; i <= last_buffer; i++) {
""")],
"separated coordinates with more than two ordinates whose buffers grow more than once",
"x (and y) buffers of Z/M/ZM arrays are reserved relative to a stale size; growth overruns or loses coordinates",
r'''
int main() { ArrowArray a; S w = "LINESTRING ZM ("; for (int i = 0; i < 3000; i++) { char b[80]; snprintf(b, 80, "%s%d %d %d %d", i ? ", " : "", i, i + 1, i + 2, i + 3); w += b; } w += ")";
  OKAY(build(&a, GEOARROW_TYPE_LINESTRING_ZM, {w, w})); REQ(wkt_of(&a, GEOARROW_TYPE_LINESTRING_ZM, 0, 2) == w + "|" + w + "|"); a.release(&a); }
''', "asan"))
SEEDS.append(("c04-multi-of-one-not-first", "C04", [("src/geoarrow/native_writer.c",
"""          GEOARROW_RETURN_NOT_OK(
              GeoArrowNativeWriterAppendPolygonOffsets(writer, node + 1, 1, 0, error));
          break;
""",
"""          GEOARROW_RETURN_NOT_OK(
              GeoArrowNativeWriterAppendSize(writer, 0, node[1].size, error));
          GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendSize(
              writer, 1, GeoArrowGeometryViewNumCoords(geom), error));
          for (uint32_t i = 1; i < node[1].size; i++) {
            GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendSize(writer, 1, 0, error));
          }
          break;
""")],
"a one-part multipolygon whose polygon has more than one ring, appended as a view to a native polygon array",
"all coordinates are attributed to the first ring and the other rings are empty",
GEOMPRE + r'''
int main() { G a("MULTIPOLYGON (((0 0, 9 0, 0 9, 0 0), (1 1, 2 1, 1 2, 1 1)))"); GeoArrowNativeWriter w; GeoArrowError e; OKAY(GeoArrowNativeWriterInit(&w, GEOARROW_TYPE_POLYGON));
  OKAY(GeoArrowNativeWriterAppend(&w, GeoArrowGeometryAsView(&a.g), &e)); ArrowArray arr; OKAY(GeoArrowNativeWriterFinish(&w, &arr, &e));
  REQ(wkt_of(&arr, GEOARROW_TYPE_POLYGON, 0, 1) == "POLYGON ((0 0, 9 0, 0 9, 0 0), (1 1, 2 1, 1 2, 1 1))|"); arr.release(&arr); GeoArrowNativeWriterReset(&w); }
'''))
