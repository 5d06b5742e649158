// Life cycles: a fixed set of slots holding one library object each, arrays and buffers
// whose release is counted, and allocation failures inside a single library call.
#include "life.h"
#include <set>

extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
}
static bool g_armed = false, g_fired = false, g_asked = false;
static long g_at = 0, g_count = 0;
static bool g_sticky = false;
// nanoarrow does not check the second allocation of ArrowArrayInitFromType() (the pointers
// to the buffers of an array): it is not one of those that fail.  Nor is growing a buffer, which nanoarrow forgets if it fails
static bool trip(size_t n) {
  if (!g_armed || n == sizeof(void*) * NANOARROW_MAX_FIXED_BUFFERS) return false;
  g_count++;
  if (g_count == g_at || (g_sticky && g_count > g_at)) { g_fired = true; return true; }
  return false;
}
extern "C" {
void* __wrap_malloc(size_t n) { if (trip(n)) { errno = ENOMEM; return nullptr; } return __real_malloc(n); }
void* __wrap_calloc(size_t n, size_t m) { if (trip(0)) { errno = ENOMEM; return nullptr; } return __real_calloc(n, m); }
void* __wrap_realloc(void* p, size_t n) { if (!p && trip(0)) { errno = ENOMEM; return nullptr; } return __real_realloc(p, n); }
}
// nanoarrow loses what it made so far when an allocation fails in these two
extern "C" {
ArrowErrorCode __real_ArrowArrayInitFromSchema(struct ArrowArray*, const struct ArrowSchema*, struct ArrowError*);
ArrowErrorCode __real_ArrowArrayAllocateChildren(struct ArrowArray*, int64_t);
ArrowErrorCode __wrap_ArrowArrayInitFromSchema(struct ArrowArray* a, const struct ArrowSchema* s, struct ArrowError* e) {
  bool was = g_armed; g_armed = false;
  ArrowErrorCode rc = __real_ArrowArrayInitFromSchema(a, s, e);
  g_armed = was; return rc;
}
ArrowErrorCode __wrap_ArrowArrayAllocateChildren(struct ArrowArray* a, int64_t n) {
  bool was = g_armed; g_armed = false;
  ArrowErrorCode rc = __real_ArrowArrayAllocateChildren(a, n);
  g_armed = was; return rc;
}
}
Armed::Armed() { if (g_asked) g_armed = true; }
Armed::~Armed() { g_armed = false; }

// ------------------------------------------------------------ counted resources
static std::vector<int> g_freed;                       // since the last report
void life_freed(int id) { g_freed.push_back(id); }
struct Wrap { void (*rel)(struct ArrowArray*); void* priv; int id; bool done; };
static std::vector<std::unique_ptr<Wrap>> g_wraps;
static void wrap_release(struct ArrowArray* a) {
  Wrap* w = (Wrap*)a->private_data;
  life_freed(w->id);
  if (w->done) { a->release = nullptr; return; }
  w->done = true;
  a->release = w->rel;
  a->private_data = w->priv;
  a->release(a);
  if (a->release) { outs("!array-not-marked-released"); a->release = nullptr; }
}
void life_count(struct ArrowArray* a, int id) {
  g_wraps.emplace_back(new Wrap{a->release, a->private_data, id, false});
  a->release = &wrap_release;
  a->private_data = g_wraps.back().get();
}
struct Arr { struct ArrowArray a; int enc; };
static std::map<int, Arr> g_arr;

// -------------------------------------------------------------------- contents
struct Rows { std::vector<std::string> v; std::string cur; };
static int rs_start(struct GeoArrowVisitor* v) { ((Rows*)v->private_data)->cur = "empty"; return 0; }
static int rs_null(struct GeoArrowVisitor* v) { ((Rows*)v->private_data)->cur = "null"; return 0; }
static int rs_coords(struct GeoArrowVisitor* v, const struct GeoArrowCoordView* c) {
  Rows* r = (Rows*)v->private_data;
  for (int64_t i = 0; i < c->n_coords; i++) {
    double x = GEOARROW_COORD_VIEW_VALUE(c, i, 0), y = GEOARROW_COORD_VIEW_VALUE(c, i, 1);
    std::string t = y == x + 1 ? num((x - 1) / 10) : num(x) + ":" + num(y);
    r->cur = r->cur == "empty" ? t : r->cur + "+" + t;
  }
  return 0;
}
static int rs_end(struct GeoArrowVisitor* v) { Rows* r = (Rows*)v->private_data; r->v.push_back(r->cur); return 0; }
void rows_visitor(struct GeoArrowVisitor* v, void* rows) {
  GeoArrowVisitorInitVoid(v);
  v->feat_start = &rs_start;
  v->null_feat = &rs_null;
  v->coords = &rs_coords;
  v->feat_end = &rs_end;
  v->private_data = rows;
}
std::string rows_text(const std::vector<std::string>& v) {
  std::string s;
  for (auto& x : v) s += (s.empty() ? "" : ",") + x;
  return "[" + s + "]";
}
static std::string dump(struct ArrowArray* a, int enc) {
  if (!a->release) return "released";
  auto valid = [&](int64_t i) {
    const uint8_t* b = (const uint8_t*)a->buffers[0];
    return !b || ((b[(i + a->offset) >> 3] >> ((i + a->offset) & 7)) & 1);
  };
  Rows r;
  if (enc == 0) return "nulls=" + std::to_string(a->length);
  if (enc == 990) {
    if (a->n_children != 4) return "!children";
    for (int64_t i = 0; i < a->length; i++) {
      double x = ((const double*)a->children[0]->buffers[1])[i];
      r.v.push_back(!valid(i) ? "null" : std::isinf(x) ? "empty" : num((x - 1) / 10));
    }
    return rows_text(r.v);
  }
  if (enc == 991) {
    for (int64_t i = 0; i < a->length; i++) r.v.push_back(std::to_string(((const int32_t*)a->buffers[1])[i]));
    return rows_text(r.v);
  }
  struct GeoArrowArrayReader rd;
  if (GeoArrowArrayReaderInitFromType(&rd, (enum GeoArrowType)enc)) return "!reader";
  struct GeoArrowVisitor v;
  rows_visitor(&v, &r);
  struct GeoArrowError e;
  memset(&e, 0, sizeof e);
  v.error = &e;
  int rc = GeoArrowArrayReaderSetArray(&rd, a, &e);
  if (!rc) rc = GeoArrowArrayReaderVisit(&rd, 0, a->length, &v);
  GeoArrowArrayReaderReset(&rd);
  return rc ? "!" + rcs(rc) : rows_text(r.v);
}

// ----------------------------------------------------------------------- slots
struct CSlot : LifeObj {
  // every kind lives at the start of the same, initially dirty, memory
  union U {
    struct { struct GeoArrowWKBWriter w; struct GeoArrowVisitor v; } wkb;
    struct { struct GeoArrowWKTWriter w; struct GeoArrowVisitor v; } wkt;
    struct { struct GeoArrowNativeWriter w; struct GeoArrowVisitor v; } nat;
    struct { struct GeoArrowArrayWriter w; struct GeoArrowVisitor v; } arr;
    struct GeoArrowArrayReader rd;
    struct GeoArrowKernel k;
    struct { struct GeoArrowScalarUdfFactory f; struct GeoArrowScalarUdf u; } udf;
    struct GeoArrowGeometry g;
    struct GeoArrowBuilder b;
    struct ArrowSchema s;
  } * u;
  std::string kind;
  int enc = 0;
  struct ArrowArray* held = nullptr;
  struct GeoArrowError err;
  CSlot(U* mem) : u(mem) { memset(&err, 0, sizeof err); }

  struct GeoArrowVisitor* vis() {
    return kind == "wkb" ? &u->wkb.v : kind == "wkt" ? &u->wkt.v : kind == "nat" ? &u->nat.v : &u->arr.v;
  }
  int init(const std::string& k, int e) {
    kind = k; enc = e;
    Armed arm;
    if (k == "wkb") { int rc = GeoArrowWKBWriterInit(&u->wkb.w); if (!rc) GeoArrowWKBWriterInitVisitor(&u->wkb.w, &u->wkb.v); return rc; }
    if (k == "wkt") { int rc = GeoArrowWKTWriterInit(&u->wkt.w); if (!rc) GeoArrowWKTWriterInitVisitor(&u->wkt.w, &u->wkt.v); return rc; }
    if (k == "nat") {
      int rc = GeoArrowNativeWriterInit(&u->nat.w, (enum GeoArrowType)e);
      if (!rc && (rc = GeoArrowNativeWriterInitVisitor(&u->nat.w, &u->nat.v))) GeoArrowNativeWriterReset(&u->nat.w);
      return rc;
    }
    if (k == "arr") {
      int rc = GeoArrowArrayWriterInitFromType(&u->arr.w, (enum GeoArrowType)e);
      if (!rc && (rc = GeoArrowArrayWriterInitVisitor(&u->arr.w, &u->arr.v))) GeoArrowArrayWriterReset(&u->arr.w);
      return rc;
    }
    if (k == "rd") return GeoArrowArrayReaderInitFromType(&u->rd, (enum GeoArrowType)e);
    if (k == "rds") {
      struct ArrowSchema s;
      bool was = g_asked;                           // the input is not part of the call
      if (was) { g_armed = false; }
      int rc = GeoArrowSchemaInitExtension(&s, (enum GeoArrowType)e);
      if (rc) return rc;
      if (was) g_armed = true;
      rc = GeoArrowArrayReaderInitFromSchema(&u->rd, &s, nullptr);
      g_armed = false;
      s.release(&s);
      return rc;
    }
    if (k.compare(0, 2, "k:") == 0) return GeoArrowKernelInit(&u->k, k.c_str() + 2, nullptr);
    if (k.compare(0, 2, "u:") == 0) return GeoArrowScalarUdfFactoryInit(&u->udf.f, k.c_str() + 2, "", nullptr);
    if (k == "geom") return GeoArrowGeometryInit(&u->g);
    if (k == "bld") return GeoArrowBuilderInitFromType(&u->b, (enum GeoArrowType)e);
    if (k == "blds") {
      struct ArrowSchema s;
      bool was = g_armed;
      g_armed = false;
      int rc = GeoArrowSchemaInitExtension(&s, (enum GeoArrowType)e);
      g_armed = was;
      if (rc) return rc;
      rc = GeoArrowBuilderInitFromSchema(&u->b, &s, nullptr);
      g_armed = false;
      s.release(&s);
      return rc;
    }
    if (k == "schema") return GeoArrowSchemaInit(&u->s, (enum GeoArrowType)e);
    if (k == "ext") return GeoArrowSchemaInitExtension(&u->s, (enum GeoArrowType)e);
    return -1;
  }
  bool kern() const { return kind[0] == 'k'; }
  int feed(int r) override {                        // r < 0: null; the feature is a point
    struct GeoArrowVisitor* v = vis();
    v->error = &err;
    double xy[2] = {10.0 * r + 1, 10.0 * r + 2};
    struct GeoArrowCoordView c;
    memset(&c, 0, sizeof c);
    c.n_coords = 1; c.n_values = 2; c.coords_stride = 1;
    c.values[0] = xy; c.values[1] = xy + 1;
    Armed arm;
    int rc = v->feat_start(v);
    if (r < 0) { if (!rc) rc = v->null_feat(v); }
    else {
      if (!rc) rc = v->geom_start(v, GEOARROW_GEOMETRY_TYPE_POINT, GEOARROW_DIMENSIONS_XY);
      if (!rc) rc = v->coords(v, &c);
      if (!rc) rc = v->geom_end(v);
    }
    if (!rc) rc = v->feat_end(v);
    return rc;
  }
  int open() override {                             // a feature that is never ended
    struct GeoArrowVisitor* v = vis();
    v->error = &err;
    Armed arm;
    int rc = v->feat_start(v);
    if (!rc) rc = v->geom_start(v, GEOARROW_GEOMETRY_TYPE_POINT, GEOARROW_DIMENSIONS_XY);
    return rc;
  }
  int finish(struct ArrowArray* o) override {
    Armed arm;
    if (kind == "wkb") return GeoArrowWKBWriterFinish(&u->wkb.w, o, &err);
    if (kind == "wkt") return GeoArrowWKTWriterFinish(&u->wkt.w, o, &err);
    if (kind == "nat") return GeoArrowNativeWriterFinish(&u->nat.w, o, &err);
    if (kind == "arr") return GeoArrowArrayWriterFinish(&u->arr.w, o, &err);
    if (kern()) return u->k.finish(&u->k, o, &err);
    return GeoArrowBuilderFinish(&u->b, o, &err);
  }
  int set(struct ArrowArray* a, bool) override { held = a; Armed arm; return GeoArrowArrayReaderSetArray(&u->rd, a, &err); }
  int visit(struct GeoArrowVisitor* v) override { v->error = &err; Armed arm; return GeoArrowArrayReaderVisit(&u->rd, 0, held->length, v); }
  int start(int e, const std::string& opts) override {
    struct ArrowSchema in, os;
    memset(&os, 0, sizeof os);
    int rc = e < 0 ? ArrowSchemaInitFromType(&in, NANOARROW_TYPE_INT32) : GeoArrowSchemaInitExtension(&in, (enum GeoArrowType)e);
    if (rc) return -2;
    struct ArrowBuffer ob;
    ArrowBufferInit(&ob);
    if (ArrowMetadataBuilderInit(&ob, nullptr)) exit(3);
    if (opts != "-") {
      size_t p = opts.find('=');
      std::string key = opts.substr(0, p), val = opts.substr(p + 1);
      if (ArrowMetadataBuilderAppend(&ob, ArrowCharView(key.c_str()), ArrowCharView(val.c_str()))) exit(3);
    }
    { Armed arm; rc = u->k.start(&u->k, &in, (const char*)ob.data, &os, &err); }
    ArrowBufferReset(&ob);
    in.release(&in);
    if (!rc && !os.release) outs("!no-schema");
    if (!rc) { os.release(&os); if (os.release) outs("!schema-not-marked-released"); }
    return rc;
  }
  int push(struct ArrowArray* a, struct ArrowArray* o) override { Armed arm; return u->k.push_batch(&u->k, a, o, &err); }
  int udf(int step, int64_t n, struct ArrowArray* o) override {
    if (step == 0) { Armed arm; u->udf.f.new_scalar_udf_impl(&u->udf.f, &u->udf.u); return 0; }
    if (step == 1) {
      struct ArrowSchema os;
      memset(&os, 0, sizeof os);
      int rc;
      { Armed arm; rc = u->udf.u.init(&u->udf.u, nullptr, nullptr, 0, &os); }
      if (!rc && os.release) os.release(&os);
      return rc;
    }
    if (step == 2) { Armed arm; return u->udf.u.execute(&u->udf.u, nullptr, 0, n, o); }
    u->udf.u.release(&u->udf.u);
    return u->udf.u.release == nullptr ? 0 : -5;
  }
  int node(int r) override {
    if (r == -2) { Armed arm; return GeoArrowGeometryResizeNodes(&u->g, 0); }
    struct GeoArrowGeometryNode* n = nullptr;
    int rc;
    { Armed arm; rc = GeoArrowGeometryAppendNode(&u->g, &n); }
    if (rc) return rc;
    n->geometry_type = GEOARROW_GEOMETRY_TYPE_POINT;
    n->dimensions = GEOARROW_DIMENSIONS_XY;
    return 0;
  }
  int copy(LifeObj* from) override {
    struct GeoArrowGeometryView v = GeoArrowGeometryAsView(&((CSlot*)from)->u->g);
    Armed arm;
    return GeoArrowGeometryDeepCopy(v, &u->g);
  }
  int build(struct GeoArrowVisitor*) override {      // a geometry from visitor calls
    struct GeoArrowVisitor v;
    GeoArrowVisitorInitVoid(&v);
    v.error = &err;
    GeoArrowGeometryInitVisitor(&u->g, &v);
    double xy[2] = {1, 2};
    struct GeoArrowCoordView c;
    memset(&c, 0, sizeof c);
    c.n_coords = 1; c.n_values = 2; c.coords_stride = 1;
    c.values[0] = xy; c.values[1] = xy + 1;
    Armed arm;
    int rc = v.feat_start(&v);
    if (!rc) rc = v.geom_start(&v, GEOARROW_GEOMETRY_TYPE_MULTIPOINT, GEOARROW_DIMENSIONS_XY);
    for (int i = 0; i < 3 && !rc; i++) {
      rc = v.geom_start(&v, GEOARROW_GEOMETRY_TYPE_POINT, GEOARROW_DIMENSIONS_XY);
      if (!rc) rc = v.coords(&v, &c);
      if (!rc) rc = v.geom_end(&v);
    }
    if (!rc) rc = v.geom_end(&v);
    if (!rc) rc = v.feat_end(&v);
    return rc;
  }
  struct Owned { int id; uint8_t* p; };
  static void own_free(uint8_t* ptr, int64_t, void* priv) {
    Owned* o = (Owned*)priv;
    life_freed(o->id);
    if (ptr != o->p) outs("!wrong-pointer");
    free(o->p);
    delete o;
  }
  int own(int i, int id, const void* data, size_t n) override {
    Owned* w = new Owned{id, (uint8_t*)malloc(n ? n : 1)};
    if (n) memcpy(w->p, data, n);
    struct GeoArrowBufferView bv = {w->p, (int64_t)n};
    int rc;
    { Armed arm; rc = GeoArrowBuilderSetOwnedBuffer(&u->b, i, bv, &own_free, w); }
    if (rc) own_free(w->p, (int64_t)n, w);           // on failure the caller keeps it
    return rc;
  }
  int append(int i, struct GeoArrowBufferView value) override { Armed arm; return GeoArrowBuilderAppendBuffer(&u->b, i, value); }
  int meta(int which) override {
    struct GeoArrowMetadataView mv;
    static const char kCrs[] = "{\"crs\":\"OGC:CRS84\",\"edges\":\"spherical\"}";
    struct GeoArrowStringView sv = {kCrs, (int64_t)sizeof(kCrs) - 1};
    if (GeoArrowMetadataViewInit(&mv, sv, nullptr)) return -3;
    if (which == 0) { Armed arm; return GeoArrowSchemaSetMetadata(&u->s, &mv); }
    struct ArrowSchema src;
    if (GeoArrowSchemaInitExtension(&src, GEOARROW_TYPE_POINT) || GeoArrowSchemaSetMetadata(&src, &mv)) return -3;
    int rc;
    { Armed arm; rc = which == 1 ? GeoArrowSchemaSetMetadataFrom(&u->s, &src) : GeoArrowSchemaSetMetadata(&u->s, &mv); }
    src.release(&src);
    return rc;
  }
  bool reset() override {
    if (kind == "wkb") GeoArrowWKBWriterReset(&u->wkb.w);
    else if (kind == "wkt") GeoArrowWKTWriterReset(&u->wkt.w);
    else if (kind == "nat") GeoArrowNativeWriterReset(&u->nat.w);
    else if (kind == "arr") GeoArrowArrayWriterReset(&u->arr.w);
    else if (kind == "rd" || kind == "rds") GeoArrowArrayReaderReset(&u->rd);
    else if (kern()) { u->k.release(&u->k); return u->k.release == nullptr; }
    else if (kind[0] == 'u') { u->udf.f.release(&u->udf.f); return u->udf.f.release == nullptr; }
    else if (kind == "geom") GeoArrowGeometryReset(&u->g);
    else if (kind == "bld" || kind == "blds") GeoArrowBuilderReset(&u->b);
    else { u->s.release(&u->s); return u->s.release == nullptr; }
    return true;
  }
};
std::map<std::string, LifeMaker>& life_makers() { static std::map<std::string, LifeMaker> m; return m; }
struct Slot { CSlot::U* mem = nullptr; std::unique_ptr<LifeObj> o; };
static std::map<int, Slot> g_slot;
static bool g_begun = false;
static Slot& slot(const std::string& s) {
  if (!g_begun) {
    g_begun = true;
    defer([] {
      for (auto& p : g_slot) free(p.second.mem);
      g_slot.clear();
      for (auto& p : g_arr) if (p.second.a.release) p.second.a.release(&p.second.a);
      g_arr.clear();
      g_wraps.clear();
      g_freed.clear();
      g_begun = g_asked = g_fired = false;
    });
  }
  Slot& r = g_slot[atoi(s.c_str())];
  if (!r.mem) { r.mem = (CSlot::U*)malloc(sizeof(CSlot::U)); memset((void*)r.mem, 0xA5, sizeof(CSlot::U)); }
  return r;
}
static void say(const std::string& s) {
  std::string f;
  for (int x : g_freed) f += (f.empty() ? "" : ",") + std::to_string(x);
  outs(s + " f=" + f + (g_asked ? g_fired ? " fired" : " unfired" : ""));
  g_freed.clear();
  g_asked = g_fired = false;
}
// what a call left in an array: counted and kept, or, when an allocation failed during
// the call, shown and released at once
static std::string take(int rc, struct ArrowArray* o, int id, int enc) {
  if (rc) return "";
  if (!o->release) return " !no-array";
  life_count(o, id);
  if (!g_asked) { g_arr[id].a = *o; g_arr[id].enc = enc; return ""; }
  std::string s = g_fired ? " " + dump(o, enc) : "";
  o->release(o);
  return s;
}
// errors are not told apart
static std::string ok(int rc) { return rc == 0 ? "ok" : rc == -5 ? "unmarked" : rc < 0 ? "harness" : "err"; }

static int fill_buffers(LifeObj* o, const std::vector<std::string>& rows, int id0, bool own) {
  std::vector<uint8_t> bits((rows.size() + 7) / 8);
  std::vector<double> xs, ys;
  for (size_t i = 0; i < rows.size(); i++) {
    bool nul = rows[i] == "0";
    if (!nul) bits[i / 8] |= 1 << (i % 8);
    xs.push_back(nul ? 0 : 10.0 * atoi(rows[i].c_str()) + 1);
    ys.push_back(nul ? 0 : 10.0 * atoi(rows[i].c_str()) + 2);
  }
  const void* data[3] = {bits.data(), xs.data(), ys.data()};
  size_t size[3] = {bits.size(), xs.size() * 8, ys.size() * 8};
  for (int i = 0; i < 3; i++) {
    struct GeoArrowBufferView bv = {(const uint8_t*)data[i], (int64_t)size[i]};
    int rc = own ? o->own(i, id0 + i, data[i], size[i]) : o->append(i, bv);
    if (rc) return rc;
  }
  return 0;
}

void register_life() {
  reg("loom", [](const Args& a) { slot("1"); g_asked = true; g_fired = false; g_count = 0; g_at = labs(atol(a[1].c_str())); g_sticky = a[1][0] == '-'; });
  reg("lnew", [](const Args& a) {  // lnew S kind enc
    Slot& s = slot(a[1]);
    std::string k = a[2];
    int e = atoi(a[3].c_str()), rc;
    LifeObj* o;
    if (life_makers().count(k)) { o = life_makers()[k](e); rc = o ? 0 : 1; }
    else { CSlot* c = new CSlot(s.mem); rc = c->init(k, e); o = c; if (rc) { delete c; o = nullptr; } }
    s.o.reset(o);
    say("lnew " + ok(rc));
    // a failed allocation that the library could do without: the object exists
  });
  reg("lfeed", [](const Args& a) { say("lfeed " + ok(slot(a[1]).o->feed(a[2] == "0" ? -1 : atoi(a[2].c_str())))); });
  reg("lopen", [](const Args& a) { say("lopen " + ok(slot(a[1]).o->open())); });
  reg("lfin", [](const Args& a) {  // lfin S id enc|-
    struct ArrowArray o;
    memset(&o, 0, sizeof o);
    int rc = slot(a[1]).o->finish(a[3] == "-" ? nullptr : &o);
    std::string t = a[3] == "-" ? "" : take(rc, &o, atoi(a[2].c_str()), atoi(a[3].c_str()));
    say("lfin " + ok(rc) + t);
  });
  reg("lset", [](const Args& a) {  // lset S id own
    int id = atoi(a[2].c_str());
    bool own = a[3] == "1";
    int rc = slot(a[1]).o->set(&g_arr[id].a, own);
    if (rc && own && g_arr[id].a.release) g_arr[id].a.release(&g_arr[id].a);
    say("lset " + ok(rc));
  });
  reg("lvisit", [](const Args& a) {
    struct GeoArrowVisitor v;
    Rows r;
    rows_visitor(&v, &r);
    int rc = slot(a[1]).o->visit(&v);
    say("lvisit " + ok(rc) + (rc ? "" : " " + rows_text(r.v)));
  });
  reg("lstart", [](const Args& a) { say("lstart " + ok(slot(a[1]).o->start(atoi(a[2].c_str()), a[3]))); });
  reg("lpush", [](const Args& a) {  // lpush S in out|- enc
    struct ArrowArray o;
    memset(&o, 0, sizeof o);
    int rc = slot(a[1]).o->push(&g_arr[atoi(a[2].c_str())].a, a[3] == "-" ? nullptr : &o);
    std::string t = a[3] == "-" ? "" : take(rc, &o, atoi(a[3].c_str()), atoi(a[4].c_str()));
    say("lpush " + ok(rc) + t);
  });
  reg("ludf", [](const Args& a) {  // ludf S step n out
    struct ArrowArray o;
    memset(&o, 0, sizeof o);
    int step = atoi(a[2].c_str());
    int rc = slot(a[1]).o->udf(step, atoi(a[3].c_str()), &o);
    std::string t = step == 2 ? take(rc, &o, atoi(a[4].c_str()), 0) : "";
    say("ludf " + ok(rc) + t);
  });
  reg("lnode", [](const Args& a) { say("lnode " + ok(slot(a[1]).o->node(atoi(a[2].c_str())))); });
  reg("lcopy", [](const Args& a) { say("lcopy " + ok(slot(a[1]).o->copy(slot(a[2]).o.get()))); });
  reg("lbuild", [](const Args& a) { say("lbuild " + ok(slot(a[1]).o->build(nullptr))); });
  reg("lfill", [](const Args& a) {  // lfill S own id0 rows...
    std::vector<std::string> rows(a.begin() + 4, a.end());
    say("lfill " + ok(fill_buffers(slot(a[1]).o.get(), rows, atoi(a[3].c_str()), a[2] == "1")));
  });
  reg("lmeta", [](const Args& a) { say("lmeta " + ok(slot(a[1]).o->meta(atoi(a[2].c_str())))); });
  reg("lreset", [](const Args& a) {
    Slot& s = slot(a[1]);
    if (!s.o) { say("lreset none"); return; }        // its creation failed
    bool r = s.o->reset();
    s.o.reset();
    say(r ? "lreset" : "lreset !unmarked");
  });
  reg("lmk", [](const Args& a) {  // lmk id enc rows...; row -1 is malformed
    slot("1");
    int id = atoi(a[1].c_str()), e = atoi(a[2].c_str());
    struct ArrowArray& x = g_arr[id].a;
    g_arr[id].enc = e;
    static const enum ArrowType kT[] = {NANOARROW_TYPE_BINARY, NANOARROW_TYPE_LARGE_BINARY, NANOARROW_TYPE_STRING, NANOARROW_TYPE_LARGE_STRING, NANOARROW_TYPE_BINARY_VIEW, NANOARROW_TYPE_STRING_VIEW};
    bool bad = false;
    if (e < 0) bad = ArrowArrayInitFromType(&x, NANOARROW_TYPE_NA) != 0;
    else if (e < 100000) {
      struct ArrowSchema s;
      bad = GeoArrowSchemaInit(&s, (enum GeoArrowType)e) || ArrowArrayInitFromSchema(&x, &s, nullptr) || ArrowArrayStartAppending(&x);
      s.release(&s);
      for (size_t i = 3; i < a.size() && !bad; i++) {
        if (a[i] == "0") { bad = ArrowArrayAppendNull(&x, 1); continue; }
        double r = 10.0 * atoi(a[i].c_str());
        bad = ArrowArrayAppendDouble(x.children[0], r + 1) || ArrowArrayAppendDouble(x.children[1], r + 2) || ArrowArrayFinishElement(&x);
      }
    } else {
      bad = ArrowArrayInitFromType(&x, kT[e - 100001]) || ArrowArrayStartAppending(&x);
      bool wkt = e == 100003 || e == 100004 || e == 100006;
      for (size_t i = 3; i < a.size() && !bad; i++) {
        if (a[i] == "0") { bad = ArrowArrayAppendNull(&x, 1); continue; }
        int r = atoi(a[i].c_str());
        std::string t;
        if (r < 0) t = "zz";
        else if (wkt) t = "POINT (" + std::to_string(10 * r + 1) + " " + std::to_string(10 * r + 2) + ")";
        else {
          double xy[2] = {10.0 * r + 1, 10.0 * r + 2};
          t = std::string("\x01\x01\x00\x00\x00", 5) + std::string((const char*)xy, 16);
        }
        if (wkt) bad = ArrowArrayAppendString(&x, ArrowStringView{t.data(), (int64_t)t.size()});
        else bad = ArrowArrayAppendBytes(&x, ArrowBufferView{{t.data()}, (int64_t)t.size()});
      }
    }
    if (!bad) bad = ArrowArrayFinishBuildingDefault(&x, nullptr);
    if (bad) { outs("lmk !"); return; }
    life_count(&x, id);
    say("lmk");
  });
  reg("ldump", [](const Args& a) { Arr& x = g_arr[atoi(a[1].c_str())]; say("ldump " + dump(&x.a, x.enc)); });
  reg("lrel", [](const Args& a) {
    Arr& x = g_arr[atoi(a[1].c_str())];
    if (!x.a.release) { say("lrel none"); return; }
    x.a.release(&x.a);
    say("lrel");
  });
}
