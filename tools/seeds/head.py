HEAD = r'''#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "geoarrow/geoarrow.h"
#include "nanoarrow/nanoarrow.h"
typedef std::string S;
#define REQ(x) do { if (!(x)) { fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #x); exit(1); } } while (0)
#define OKAY(x) REQ((x) == 0)
static inline S hx(const void* p, size_t n) { S r; char b[4]; for (size_t i = 0; i < n; i++) { snprintf(b, 4, "%02x", ((const unsigned char*)p)[i]); r += b; } return r; }
static inline S unhx(const S& s) { S r; for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)strtol(s.substr(i, 2).c_str(), 0, 16); return r; }
struct Rec { struct GeoArrowVisitor v; struct GeoArrowError e; S ev; };
static S nm(double x) { char b[40]; if (std::isnan(x)) return "nan"; snprintf(b, 40, "%.17g", x); return b; }
static inline void rec_init(Rec* r) {
  memset(&r->v, 0, sizeof r->v); GeoArrowVisitorInitVoid(&r->v); r->v.private_data = r; r->v.error = &r->e;
  r->v.feat_start = [](GeoArrowVisitor* v) { ((Rec*)v->private_data)->ev += "fs "; return 0; };
  r->v.null_feat = [](GeoArrowVisitor* v) { ((Rec*)v->private_data)->ev += "null "; return 0; };
  r->v.geom_start = [](GeoArrowVisitor* v, enum GeoArrowGeometryType t, enum GeoArrowDimensions d) { ((Rec*)v->private_data)->ev += "g" + std::to_string((int)t) + "." + std::to_string((int)d) + "( "; return 0; };
  r->v.ring_start = [](GeoArrowVisitor* v) { ((Rec*)v->private_data)->ev += "r( "; return 0; };
  r->v.coords = [](GeoArrowVisitor* v, const struct GeoArrowCoordView* c) { for (int64_t i = 0; i < c->n_coords; i++) { S s; for (int j = 0; j < c->n_values; j++) s += (j ? "," : "") + nm(GEOARROW_COORD_VIEW_VALUE(c, i, j)); ((Rec*)v->private_data)->ev += s + " "; } return 0; };
  r->v.ring_end = [](GeoArrowVisitor* v) { ((Rec*)v->private_data)->ev += ") "; return 0; };
  r->v.geom_end = [](GeoArrowVisitor* v) { ((Rec*)v->private_data)->ev += ") "; return 0; };
  r->v.feat_end = [](GeoArrowVisitor* v) { ((Rec*)v->private_data)->ev += "fe "; return 0; };
}
static inline int read_wkt(const S& s, struct GeoArrowVisitor* v) {
  struct GeoArrowWKTReader r; if (GeoArrowWKTReaderInit(&r)) return -1;
  struct GeoArrowStringView sv; sv.data = s.data(); sv.size_bytes = s.size();
  int rc = GeoArrowWKTReaderVisit(&r, sv, v); GeoArrowWKTReaderReset(&r); return rc;
}
static inline int read_wkb(const S& b, struct GeoArrowVisitor* v) {
  struct GeoArrowWKBReader r; if (GeoArrowWKBReaderInit(&r)) return -1;
  char* p = (char*)malloc(b.size() ? b.size() : 1); memcpy(p, b.data(), b.size());
  struct GeoArrowBufferView bv; bv.data = (const uint8_t*)p; bv.size_bytes = b.size();
  int rc = GeoArrowWKBReaderVisit(&r, bv, v); GeoArrowWKBReaderReset(&r); free(p); return rc;
}
static inline int null_feat(struct GeoArrowVisitor* v) { int rc; if ((rc = v->feat_start(v))) return rc; if ((rc = v->null_feat(v))) return rc; return v->feat_end(v); }
static inline std::vector<S> items(const struct ArrowArray* a) {
  std::vector<S> r; const int32_t* o = (const int32_t*)a->buffers[1];
  for (int64_t i = 0; i < a->length; i++) {
    const uint8_t* v = (const uint8_t*)a->buffers[0];
    if (v && !((v[(a->offset + i) / 8] >> ((a->offset + i) % 8)) & 1)) { r.push_back("null"); continue; }
    r.push_back(S((const char*)a->buffers[2] + o[a->offset + i], o[a->offset + i + 1] - o[a->offset + i]));
  }
  return r;
}
// build an array of any type from WKT ("" = null)
static inline int build(struct ArrowArray* out, enum GeoArrowType t, const std::vector<S>& w) {
  struct GeoArrowArrayWriter aw; struct GeoArrowVisitor v; struct GeoArrowError e; memset(&v, 0, sizeof v);
  int rc = GeoArrowArrayWriterInitFromType(&aw, t); if (rc) return rc;
  GeoArrowVisitorInitVoid(&v); v.error = &e; rc = GeoArrowArrayWriterInitVisitor(&aw, &v); v.error = &e;
  for (auto& s : w) { if (rc) break; rc = s.empty() ? null_feat(&v) : read_wkt(s, &v); }
  if (!rc) rc = GeoArrowArrayWriterFinish(&aw, out, &e);
  GeoArrowArrayWriterReset(&aw); return rc;
}
static inline S visit(struct ArrowArray* a, enum GeoArrowType t, int64_t off, int64_t len) {
  Rec r; rec_init(&r); struct GeoArrowArrayReader rd; struct GeoArrowError e;
  if (GeoArrowArrayReaderInitFromType(&rd, t)) return "!init";
  int rc = GeoArrowArrayReaderSetArray(&rd, a, &e);
  if (!rc) rc = GeoArrowArrayReaderVisit(&rd, off, len, &r.v);
  GeoArrowArrayReaderReset(&rd);
  return rc ? "!rc" + std::to_string(rc) : r.ev;
}
static inline S wkt_of(struct ArrowArray* a, enum GeoArrowType t, int64_t off, int64_t len) {
  struct GeoArrowWKTWriter w; struct GeoArrowVisitor v; struct GeoArrowError e; struct ArrowArray o; memset(&v, 0, sizeof v);
  GeoArrowVisitorInitVoid(&v); GeoArrowWKTWriterInit(&w); GeoArrowWKTWriterInitVisitor(&w, &v); v.error = &e;
  struct GeoArrowArrayReader rd; if (GeoArrowArrayReaderInitFromType(&rd, t)) return "!init";
  int rc = GeoArrowArrayReaderSetArray(&rd, a, &e);
  if (!rc) rc = GeoArrowArrayReaderVisit(&rd, off, len, &v);
  GeoArrowArrayReaderReset(&rd);
  if (!rc) rc = GeoArrowWKTWriterFinish(&w, &o, &e);
  GeoArrowWKTWriterReset(&w);
  if (rc) return "!rc" + std::to_string(rc);
  S s; for (auto& x : items(&o)) s += x + "|";
  o.release(&o); return s;
}
'''
