#include "vm.h"

#include <csignal>
#include <cstdarg>
#include <iostream>
#include <set>
#include <sstream>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#include <sanitizer/lsan_interface.h>
#define HAVE_ASAN 1
#endif
#endif

static std::map<std::string, std::function<void(const Args&)>>& table() {
  static std::map<std::string, std::function<void(const Args&)>> t;
  return t;
}
void reg(const char* name, std::function<void(const Args&)> fn) { table()[name] = fn; }

void outs(const std::string& s) {
  fwrite(s.data(), 1, s.size(), stdout);
  fputc('\n', stdout);
}
void out(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vprintf(fmt, ap);
  va_end(ap);
  fputc('\n', stdout);
}
std::string rcs(int rc) {
  switch (rc) {
    case 0: return "0";
    case EINVAL: return "EINVAL";
    case ENOTSUP: return "ENOTSUP";
    case EAGAIN: return "EAGAIN";
    case EOVERFLOW: return "EOVERFLOW";
    case ENOMEM: return "ENOMEM";
    default: return "E" + std::to_string(rc);
  }
}
bool g_bits = false;  // print numbers as the 16 hex digits of their bits
std::string num(double v) {
  if (g_bits) {
    uint64_t u;
    memcpy(&u, &v, 8);
    char b[24];
    snprintf(b, sizeof b, "%016llx", (unsigned long long)u);
    return b;
  }
  if (std::isnan(v)) return "nan";
  if (std::isinf(v)) return v > 0 ? "inf" : "-inf";
  char b[64];
  if (v == std::floor(v) && std::fabs(v) < 1e15)
    snprintf(b, sizeof b, "%s%lld", (v == 0 && std::signbit(v)) ? "-" : "", (long long)v);
  else
    snprintf(b, sizeof b, "%.17g", v);
  return b;
}
std::vector<std::string> split(const std::string& s, char sep) {
  std::vector<std::string> r;
  size_t i = 0;
  for (;;) {
    size_t j = s.find(sep, i);
    if (j == std::string::npos) { r.push_back(s.substr(i)); return r; }
    r.push_back(s.substr(i, j - i));
    i = j + 1;
  }
}
std::string hex(const void* p, size_t n) {
  static const char* d = "0123456789abcdef";
  std::string r;
  r.reserve(2 * n);
  for (size_t i = 0; i < n; i++) {
    unsigned char c = ((const unsigned char*)p)[i];
    r += d[c >> 4];
    r += d[c & 15];
  }
  return r;
}
std::string unhex(const std::string& s) {
  std::string r;
  if (s == "-") return r;
  auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
  for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)(v(s[i]) * 16 + v(s[i + 1]));
  return r;
}

static std::vector<std::function<void()>> deferred;
void defer(std::function<void()> fn) { deferred.push_back(fn); }

void Exact::poison() {
#ifdef HAVE_ASAN
  ASAN_POISON_MEMORY_REGION(p, 1);
#endif
}
Exact::~Exact() {
#ifdef HAVE_ASAN
  if (!n) ASAN_UNPOISON_MEMORY_REGION(p, 1);
#endif
  free(p);
}

// ------------------------------------------------------------------- coordinates
static const int kAxes[5][4] = {{0}, {1, 2, 0, 0}, {1, 2, 3, 0}, {1, 2, 4, 0}, {1, 2, 3, 4}};
static int nvals(int d) { return d == 1 ? 2 : d == 4 ? 4 : 3; }
double g_scale = 1;  // ordinates are multiplied by this (exact powers of ten)
static double ordinate(int64_t i, int axis) { return (10.0 * i + axis) * g_scale; }

struct CoordStore {
  std::vector<std::unique_ptr<Exact>> mem;
  struct GeoArrowCoordView view;
};
// layout 0 separated, 1 interleaved, 2 interleaved with padding, 3 interleaved with the
// ordinates of each coordinate in reversed order
static std::unique_ptr<CoordStore> make_coords(int d, int64_t start, int64_t n, int layout) {
  auto cs = std::unique_ptr<CoordStore>(new CoordStore());
  memset(&cs->view, 0, sizeof(cs->view));
  int k = nvals(d);
  cs->view.n_coords = n;
  cs->view.n_values = k;
  if (layout == 0) {
    cs->view.coords_stride = 1;
    for (int j = 0; j < k; j++) {
      std::vector<double> v;
      for (int64_t i = 0; i < n; i++) v.push_back(ordinate(start + i, kAxes[d][j]));
      cs->mem.emplace_back(new Exact(v.data(), v.size() * 8));
      cs->view.values[j] = (const double*)cs->mem.back()->p;
    }
  } else {
    int stride = layout == 1 ? k : k + 2;
    std::vector<double> v;
    if (layout == 3) stride = k;
    auto at = [&](int j) { return layout == 3 ? k - 1 - j : j; };
    for (int64_t i = 0; i < n; i++)
      for (int j = 0; j < (i == n - 1 ? k : stride); j++)
        v.push_back(j < k ? ordinate(start + i, kAxes[d][at(j)]) : -777);
    cs->mem.emplace_back(new Exact(v.data(), v.size() * 8));
    for (int j = 0; j < k; j++) cs->view.values[j] = ((const double*)cs->mem.back()->p) + at(j);
    cs->view.coords_stride = stride;
  }
  return cs;
}

std::shared_ptr<CoordStore> coords_of(int d, int64_t start, int64_t n, int layout) {
  return std::shared_ptr<CoordStore>(make_coords(d, start, n, layout));
}
const struct GeoArrowCoordView* view_of_coords(CoordStore* s) { return &s->view; }

// ------------------------------------------------------------------- recorder
struct Recorder {
  struct GeoArrowVisitor v;
  struct GeoArrowError error;
  std::vector<std::string> ev;
  int64_t calls = 0;
  int64_t abort_at = -1;  // 1-based callback index
  int abort_code = 0;
  int64_t after_abort = 0;
  bool raw = false;  // do not merge coords calls
  int64_t total = 0;  // coordinates seen since the last clear
  int hit() {
    calls++;
    // far more than any source here holds: stop the reader
    if (ev.size() >= 20000) return EIO;
    if (abort_at > 0 && calls > abort_at) after_abort++;
    if (abort_at > 0 && calls == abort_at) return abort_code;
    return 0;
  }
  static Recorder* of(struct GeoArrowVisitor* v) { return (Recorder*)v->private_data; }
  void add(const std::string& s) {
    if (ev.size() < 20000) ev.push_back(s);
  }
};
static int r_fs(struct GeoArrowVisitor* v) { Recorder::of(v)->add("fs"); return Recorder::of(v)->hit(); }
static int r_nul(struct GeoArrowVisitor* v) { Recorder::of(v)->add("nul"); return Recorder::of(v)->hit(); }
static int r_gs(struct GeoArrowVisitor* v, enum GeoArrowGeometryType t, enum GeoArrowDimensions d) {
  Recorder::of(v)->add("gs:" + std::to_string((int)t) + ":" + std::to_string((int)d));
  return Recorder::of(v)->hit();
}
static int r_rs(struct GeoArrowVisitor* v) { Recorder::of(v)->add("rs"); return Recorder::of(v)->hit(); }
static int r_c(struct GeoArrowVisitor* v, const struct GeoArrowCoordView* c) {
  Recorder* r = Recorder::of(v);
  std::string s;
  bool cont = !r->raw && !r->ev.empty() && r->ev.back()[0] == 'c' &&
              r->ev.back().compare(0, 3, "c:" + std::to_string(c->n_values)) == 0;
  if (c->n_coords == 0 && !r->raw) return r->hit();
  // far more than any source here holds: say so and stop the reader
  r->total += c->n_coords;
  if (r->total > 20000 || c->n_coords < 0) { r->add("!many"); return EIO; }
  if (!cont) s = "c:" + std::to_string(c->n_values) + ":";
  for (int64_t i = 0; i < c->n_coords; i++) {
    if (i || cont) s += ";";
    for (int j = 0; j < c->n_values; j++) {
      if (j) s += ",";
      double x;
      memcpy(&x, c->values[j] + i * c->coords_stride, 8);
      s += num(x);
    }
  }
  if (cont) r->ev.back() += s; else r->add(s);
  return r->hit();
}
static int r_re(struct GeoArrowVisitor* v) { Recorder::of(v)->add("re"); return Recorder::of(v)->hit(); }
static int r_ge(struct GeoArrowVisitor* v) { Recorder::of(v)->add("ge"); return Recorder::of(v)->hit(); }
static int r_fe(struct GeoArrowVisitor* v) { Recorder::of(v)->add("fe"); return Recorder::of(v)->hit(); }

// ------------------------------------------------------------------- targets
struct Target {
  enum Kind { WKB, WKT, NAT, ARR, GEOM, REC, VOID, PP } kind;
  std::unique_ptr<PPWriter> pp;
  struct GeoArrowVisitor v;
  struct GeoArrowError error;
  struct GeoArrowWKBWriter wkb;
  struct GeoArrowWKTWriter wkt;
  struct GeoArrowNativeWriter nat;
  struct GeoArrowArrayWriter arr;
  struct GeoArrowGeometry geom;
  Recorder rec;
  bool alive = false;
  void reset() {
    if (!alive) return;
    alive = false;
    switch (kind) {
      case WKB: GeoArrowWKBWriterReset(&wkb); break;
      case WKT: GeoArrowWKTWriterReset(&wkt); break;
      case NAT: GeoArrowNativeWriterReset(&nat); break;
      case ARR: GeoArrowArrayWriterReset(&arr); break;
      case GEOM: GeoArrowGeometryReset(&geom); break;
      case PP: pp.reset(); break;
      default: break;
    }
  }
};
static std::map<std::string, std::shared_ptr<Target>> targets;
static std::map<std::string, std::shared_ptr<struct ArrowArray>> arrays;
static std::map<std::string, std::shared_ptr<struct GeoArrowWKBReader>> wkbr;
static std::map<std::string, std::shared_ptr<struct GeoArrowWKTReader>> wktr;

struct GeoArrowVisitor* visitor_of(const std::string& n) {
  if (!targets.count(n)) { out("!no target %s", n.c_str()); exit(3); }
  return &targets[n]->v;
}
struct GeoArrowError* error_of(const std::string& n) { return &targets[n]->error; }
struct GeoArrowGeometry* geom_of(const std::string& n) { return &targets[n]->geom; }

struct ArrowArray* array_slot(const std::string& n, bool fresh) {
  if (fresh || !arrays.count(n)) {
    auto a = std::shared_ptr<struct ArrowArray>(new ArrowArray(), [](struct ArrowArray* p) {
      if (p->release) p->release(p);
      delete p;
    });
    memset(a.get(), 0, sizeof(*a));
    arrays[n] = a;
  }
  return arrays[n].get();
}

static void void_visitor(struct GeoArrowVisitor* v, struct GeoArrowError* e) {
  memset(v, 0, sizeof(*v));
  GeoArrowVisitorInitVoid(v);
  memset(e, 0, sizeof(*e));
  v->error = e;
}

static void cmd_new(const Args& a) {
  auto t = std::make_shared<Target>();
  void_visitor(&t->v, &t->error);
  const std::string& k = a[2];
  int rc = 0;
  auto geti = [&](size_t i, long long def) { return a.size() > i ? atoll(a[i].c_str()) : def; };
  if (k == "wkb") {
    t->kind = Target::WKB;
    rc = GeoArrowWKBWriterInit(&t->wkb);
    if (!rc) GeoArrowWKBWriterInitVisitor(&t->wkb, &t->v);
    t->v.error = &t->error;
  } else if (k == "wkt") {
    t->kind = Target::WKT;
    rc = GeoArrowWKTWriterInit(&t->wkt);
    if (!rc) {
      if (a.size() > 3) t->wkt.precision = (int)geti(3, 16);
      if (a.size() > 4) t->wkt.use_flat_multipoint = (int)geti(4, 1);
      if (a.size() > 5) t->wkt.max_element_size_bytes = geti(5, -1);
      GeoArrowWKTWriterInitVisitor(&t->wkt, &t->v);
    }
    t->v.error = &t->error;
  } else if (k == "nat") {
    t->kind = Target::NAT;
    rc = GeoArrowNativeWriterInit(&t->nat, (enum GeoArrowType)geti(3, 1));
    if (!rc) {
      rc = GeoArrowNativeWriterInitVisitor(&t->nat, &t->v);
      if (rc) GeoArrowNativeWriterReset(&t->nat);
    }
  } else if (k == "pp") {  // pp TYPE HOW [precision [flat multipoint]]
    if (!pp_writer) exit(2);
    t->kind = Target::PP;
    t->pp.reset(pp_writer((int)geti(4, 0), (int)geti(3, 1), (int)geti(5, -1), (int)geti(6, -1), &rc));
    if (!rc) { t->pp->v->error = &t->error; t->v = *t->pp->v; }
  } else if (k == "arr" || k == "arrs") {
    t->kind = Target::ARR;
    if (k == "arr") {
      rc = GeoArrowArrayWriterInitFromType(&t->arr, (enum GeoArrowType)geti(3, 1));
    } else {
      struct ArrowSchema s;
      s.release = nullptr;
      rc = GeoArrowSchemaInitExtension(&s, (enum GeoArrowType)geti(3, 1));
      if (!rc) rc = GeoArrowArrayWriterInitFromSchema(&t->arr, &s);
      if (s.release) s.release(&s);
    }
    if (!rc) {
      if (a.size() > 4 && !rc) rc = GeoArrowArrayWriterSetPrecision(&t->arr, (int)geti(4, 16));
      if (a.size() > 5 && !rc) rc = GeoArrowArrayWriterSetFlatMultipoint(&t->arr, (int)geti(5, 1));
      if (!rc) rc = GeoArrowArrayWriterInitVisitor(&t->arr, &t->v);
      if (rc) GeoArrowArrayWriterReset(&t->arr);
      t->v.error = &t->error;
    }
  } else if (k == "geom") {
    t->kind = Target::GEOM;
    rc = GeoArrowGeometryInit(&t->geom);
    if (!rc) GeoArrowGeometryInitVisitor(&t->geom, &t->v);
    t->v.error = &t->error;
  } else if (k == "void") {
    t->kind = Target::VOID;
  } else if (k == "rec") {
    t->kind = Target::REC;
    t->rec.abort_at = geti(3, -1);
    t->rec.abort_code = (int)geti(4, EAGAIN);
    t->rec.raw = geti(5, 0) != 0;
    t->v.feat_start = r_fs; t->v.null_feat = r_nul; t->v.geom_start = r_gs; t->v.ring_start = r_rs;
    t->v.coords = r_c; t->v.ring_end = r_re; t->v.geom_end = r_ge; t->v.feat_end = r_fe;
    t->v.private_data = &t->rec;
  }
  t->alive = rc == 0;
  auto keep = t;
  targets[a[1]] = t;
  defer([keep]() { keep->reset(); });
  if (rc || k == "nat" || k == "arr" || k == "arrs" || k == "pp") out("new %s", rcs(rc).c_str());
}

// one event token -> callback
static int send(struct GeoArrowVisitor* v, const std::string& tok, int layout) {
  if (tok == "fs") return v->feat_start(v);
  if (tok == "nul") return v->null_feat(v);
  if (tok == "rs") return v->ring_start(v);
  if (tok == "re") return v->ring_end(v);
  if (tok == "ge") return v->geom_end(v);
  if (tok == "fe") return v->feat_end(v);
  auto p = split(tok, ':');
  if (p[0] == "gs")
    return v->geom_start(v, (enum GeoArrowGeometryType)atoi(p[1].c_str()),
                         (enum GeoArrowDimensions)atoi(p[2].c_str()));
  if (p[0] == "c") {
    auto cs = make_coords(atoi(p[1].c_str()), atoll(p[2].c_str()), atoll(p[3].c_str()),
                          p.size() > 4 ? atoi(p[4].c_str()) : layout);
    return v->coords(v, &cs->view);
  }
  if (p[0] == "v") {  // v:x,y;x,y   literal ordinates, separated layout
    auto cc = split(p[1], ';');
    int k = (int)split(cc[0], ',').size();
    std::vector<std::vector<double>> col(k);
    for (auto& c : cc) {
      auto o = split(c, ',');
      for (int j = 0; j < k; j++) col[j].push_back(strtod(o[j].c_str(), nullptr));
    }
    struct GeoArrowCoordView cv;
    memset(&cv, 0, sizeof cv);
    cv.n_coords = cc.size();
    cv.n_values = k;
    cv.coords_stride = 1;
    for (int j = 0; j < k; j++) cv.values[j] = col[j].data();
    return v->coords(v, &cv);
  }
  out("!bad token %s", tok.c_str());
  exit(3);
}
// ev X layout tokens...   stop at the first error
static void cmd_ev(const Args& a) {
  auto* v = visitor_of(a[1]);
  int layout = atoi(a[2].c_str());
  for (size_t i = 3; i < a.size(); i++) {
    int rc = send(v, a[i], layout);
    if (rc) { out("ev %s @%d", rcs(rc).c_str(), (int)(i - 3)); return; }
  }
  outs("ev 0");
}
// evall X layout tokens...   continue after errors
static void cmd_evall(const Args& a) {
  auto* v = visitor_of(a[1]);
  int layout = atoi(a[2].c_str());
  std::string s = "evall";
  for (size_t i = 3; i < a.size(); i++) { s += " "; s += rcs(send(v, a[i], layout)); }
  outs(s);
}
// evfeat X layout tokens...  on an error inside a feature, skip to its feat_end
static void cmd_evfeat(const Args& a) {
  auto* v = visitor_of(a[1]);
  int layout = atoi(a[2].c_str());
  std::string s = "evfeat";
  bool skip = false;
  for (size_t i = 3; i < a.size(); i++) {
    if (skip && a[i] != "fe") continue;
    int rc = send(v, a[i], layout);
    if (rc) { s += " " + rcs(rc) + "@" + std::to_string(i - 3); skip = a[i] != "fe"; }
    if (a[i] == "fe") skip = false;
  }
  outs(s);
}
static int fin(Target* t, struct ArrowArray* arr, struct GeoArrowError* e) {
  switch (t->kind) {
    case Target::WKB: return GeoArrowWKBWriterFinish(&t->wkb, arr, e);
    case Target::WKT: return GeoArrowWKTWriterFinish(&t->wkt, arr, e);
    case Target::NAT: return GeoArrowNativeWriterFinish(&t->nat, arr, e);
    case Target::ARR: return GeoArrowArrayWriterFinish(&t->arr, arr, e);
    case Target::PP: return t->pp->finish(arr);
    default: return -1;
  }
}
static void cmd_fin(const Args& a) {
  struct GeoArrowError e;
  memset(&e, 0, sizeof e);
  struct ArrowArray* arr = array_slot(a[2], true);
  int rc = fin(targets[a[1]].get(), arr, &e);
  out("fin %s", rcs(rc).c_str());
}

// ------------------------------------------------------------------- array dumps
static bool bit(const uint8_t* p, int64_t i) { return (p[i >> 3] >> (i & 7)) & 1; }
static std::string validity(const struct ArrowArray* a) {
  std::string s;
  const uint8_t* b = (const uint8_t*)a->buffers[0];
  for (int64_t i = 0; i < a->length; i++) s += (!b || bit(b, a->offset + i)) ? '1' : '0';
  return s;
}
static std::string coord_dump(const struct ArrowArray* a, int64_t n, int d, bool inter) {
  std::string s;
  int k = nvals(d);
  for (int64_t i = 0; i < n; i++) {
    if (i) s += ";";
    for (int j = 0; j < k; j++) {
      if (j) s += ",";
      double x;
      if (inter) {
        const struct ArrowArray* c = a->children[0];
        x = ((const double*)c->buffers[1])[c->offset + (a->offset + i) * k + j];
      } else {
        const struct ArrowArray* c = a->children[j];
        x = ((const double*)c->buffers[1])[c->offset + a->offset + i];
      }
      s += num(x);
    }
  }
  return s;
}
std::string show_array(const struct ArrowArray* a, int type) {
  if (!a->release) return "arr released";
  std::string s = "arr len=" + std::to_string(a->length) + " nulls=" + std::to_string(a->null_count);
  if (a->offset) s += " off=" + std::to_string(a->offset);
  s += " valid=" + validity(a);
  if (type >= 100001) {
    s += " items=";
    bool large = type == 100002 || type == 100004;
    if (a->n_buffers != 3) return s + "!nbuf";
    for (int64_t i = 0; i < a->length; i++) {
      int64_t lo, hi;
      if (large) {
        lo = ((const int64_t*)a->buffers[1])[a->offset + i];
        hi = ((const int64_t*)a->buffers[1])[a->offset + i + 1];
      } else {
        lo = ((const int32_t*)a->buffers[1])[a->offset + i];
        hi = ((const int32_t*)a->buffers[1])[a->offset + i + 1];
      }
      if (i) s += ",";
      if (i == 0 && lo != 0) s += "!first" + std::to_string(lo);
      if (hi < lo) { s += "!neg"; continue; }
      s += hex((const char*)a->buffers[2] + lo, hi - lo);
    }
    return s;
  }
  int kind = type % 1000, d = (type % 10000) / 1000 + 1;
  bool inter = type >= 10000;
  static const int lv[7] = {0, 0, 1, 2, 1, 2, 3};
  const struct ArrowArray* c = a;
  s += " offs=";
  for (int l = 0; l < lv[kind]; l++) {
    if (l) s += "|";
    const int32_t* o = (const int32_t*)c->buffers[1];
    int64_t prev = 0;
    for (int64_t i = 0; i <= c->length; i++) {
      if (i) s += ",";
      int32_t x = (o == nullptr || c->length + c->offset == 0) ? 0 : o[c->offset + i];
      s += std::to_string(x);
      prev = x;
    }
    const struct ArrowArray* ch = c->children[0];
    if (ch->length != prev) s += "!childlen" + std::to_string(ch->length);
    if (l > 0 && c->null_count > 0) s += "!innernulls";
    c = ch;
  }
  s += " coords=";
  if (lv[kind] == 0 && c->length != a->length) s += "!len";
  int k = nvals(d);
  if (inter) {
    if (c->n_children != 1 || c->children[0]->length != c->length * k)
      s += "!childlen" + std::to_string(c->children[0]->length);
  } else {
    if (c->n_children != k) return s + "!nchildren";
    for (int j = 0; j < k; j++)
      if (c->children[j]->length != c->length) s += "!childlen" + std::to_string(c->children[j]->length);
  }
  s += coord_dump(c, c->length, d, inter);
  return s;
}

// ------------------------------------------------------------------- hand-built geometry
// Nodes with arbitrary coordinate layouts, from well-formed event tokens (one feature).
struct HandGeom {
  std::vector<struct GeoArrowGeometryNode> nodes;
  std::vector<std::unique_ptr<Exact>> mem;
  std::unique_ptr<Exact> exact;  // the nodes, in memory that ends with the last one
};
static std::map<std::string, std::shared_ptr<HandGeom>> hands;
static const double kNaNv = std::numeric_limits<double>::quiet_NaN();
static const uint8_t* kNaNp = (const uint8_t*)&kNaNv;
static void set_coords(HandGeom* h, struct GeoArrowGeometryNode* nd, int d,
                       const std::vector<int64_t>& idx, int layout) {
  // 0 interleaved unaligned, 1 separated, 2 reversed separated, 3 swapped interleaved,
  // 4 padded unaligned (stride 8k+5), 5 swapped separated reversed,
  // 6 every axis with a stride of its own, 7 the same with odd axes reversed and swapped bytes,
  // 8 and 9 as the library's own setters lay them out (interleaved, separated; unaligned)
  int k = nvals(d);
  int64_t n = idx.size();
  bool swap = layout == 3 || layout == 5 || layout == 7;
  bool sep = layout == 1 || layout == 2 || layout == 5;
  bool rev = layout == 2 || layout == 5;
  int pad = layout == 4 ? 5 : 0;
  nd->size = (uint32_t)n;
  nd->flags = swap ? GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN : 0;
  auto bytes = [&](double x) {
    char b[8];
    memcpy(b, &x, 8);
    std::string r(b, 8);
    if (swap) r = std::string(r.rbegin(), r.rend());
    return r;
  };
  for (int j = 0; j < 4; j++) { nd->coords[j] = kNaNp; nd->coord_stride[j] = 0; }
  if (layout >= 8) {
    std::string s("abc");
    for (int64_t i = 0; i < n * k; i++) s += bytes(layout == 8 ? ordinate(idx[i / k], kAxes[d][i % k]) : ordinate(idx[i % n], kAxes[d][i / n]));
    h->mem.emplace_back(new Exact(s.data(), s.size()));
    struct GeoArrowBufferView b;
    b.data = (const uint8_t*)h->mem.back()->p + 3;
    b.size_bytes = n * k * 8;
    enum GeoArrowGeometryType t = (enum GeoArrowGeometryType)nd->geometry_type;
    enum GeoArrowDimensions dd = (enum GeoArrowDimensions)d;
    nd->size = 0;
    nd->geometry_type = 0;
    if (layout == 8) GeoArrowGeometryNodeSetInterleaved(nd, t, dd, b);
    else GeoArrowGeometryNodeSetSeparated(nd, t, dd, b);
  } else if (layout >= 6) {
    for (int j = 0; j < k; j++) {
      bool back = layout == 7 && j % 2 == 1;
      int gap = ((j + (layout == 7)) % 4) * 3;
      std::string s;
      for (int64_t i = 0; i < n; i++) {
        s += bytes(ordinate(idx[back ? n - 1 - i : i], kAxes[d][j]));
        if (i + 1 < n) s += std::string(gap, '\x66');
      }
      if (n == 0) s = std::string(8, '\x7f');
      h->mem.emplace_back(new Exact(s.data(), s.size()));
      nd->coords[j] = (const uint8_t*)h->mem.back()->p + (back && n ? (n - 1) * (8 + gap) : 0);
      nd->coord_stride[j] = back ? -(8 + gap) : 8 + gap;
    }
  } else if (sep) {
    for (int j = 0; j < k; j++) {
      std::string s;
      for (int64_t i = 0; i < n; i++) s += bytes(ordinate(idx[rev ? n - 1 - i : i], kAxes[d][j]));
      if (n == 0) s = std::string(8, '\x7f');
      h->mem.emplace_back(new Exact(s.data(), s.size()));
      nd->coords[j] = (const uint8_t*)h->mem.back()->p + (rev && n ? (n - 1) * 8 : 0);
      nd->coord_stride[j] = rev ? -8 : 8;
    }
  } else {
    int off = layout == 0 || layout == 4 ? 3 : 0;
    std::string s(off, '\x55');
    for (int64_t i = 0; i < n; i++) {
      for (int j = 0; j < k; j++) s += bytes(ordinate(idx[i], kAxes[d][j]));
      if (i + 1 < n) s += std::string(pad, '\x66');
    }
    if (n == 0) s += std::string(8 * k, '\x7f');
    h->mem.emplace_back(new Exact(s.data(), s.size()));
    for (int j = 0; j < k; j++) {
      nd->coords[j] = (const uint8_t*)h->mem.back()->p + off + 8 * j;
      nd->coord_stride[j] = 8 * k + pad;
    }
  }
}
// hand H layout tokens...
static void cmd_hand(const Args& a) {
  auto h = std::make_shared<HandGeom>();
  int layout = atoi(a[2].c_str());
  struct Fr { size_t node; int d; std::vector<int64_t> idx; };
  std::vector<Fr> st;
  for (size_t i = 3; i < a.size(); i++) {
    const std::string& t = a[i];
    if (t == "fs" || t == "fe") continue;
    auto p = split(t, ':');
    if (p[0] == "gs" || p[0] == "rs") {
      struct GeoArrowGeometryNode nd;
      memset(&nd, 0, sizeof nd);
      int ty = p[0] == "rs" ? 2 : atoi(p[1].c_str());
      int d = p[0] == "rs" ? st.back().d : atoi(p[2].c_str());
      for (int j = 0; j < 4; j++) nd.coords[j] = kNaNp;
      nd.geometry_type = (uint8_t)ty;
      nd.dimensions = (uint8_t)d;
      nd.level = (uint8_t)st.size();
      if (!st.empty()) h->nodes[st.back().node].size++;
      h->nodes.push_back(nd);
      st.push_back({h->nodes.size() - 1, d, {}});
    } else if (p[0] == "c") {
      for (int64_t j = 0; j < atoll(p[3].c_str()); j++) st.back().idx.push_back(atoll(p[2].c_str()) + j);
    } else if (t == "re" || t == "ge") {
      auto* nd = &h->nodes[st.back().node];
      if (nd->geometry_type <= 2) {
        // the node vector may move while building, the coordinates do not
        set_coords(h.get(), nd, st.back().d, st.back().idx, layout);
      }
      st.pop_back();
    }
  }
  hands[a[1]] = h;
}
// nodes H d type:size ...   a node list taken literally (size H: 2^32 - 1)
static void cmd_nodes(const Args& a) {
  auto h = std::make_shared<HandGeom>();
  int d = atoi(a[2].c_str());
  int64_t at = 0;
  for (size_t i = 3; i < a.size(); i++) {
    auto p = split(a[i], ':');
    struct GeoArrowGeometryNode nd;
    memset(&nd, 0, sizeof nd);
    for (int j = 0; j < 4; j++) nd.coords[j] = kNaNp;
    nd.geometry_type = (uint8_t)atoi(p[0].c_str());
    nd.dimensions = (uint8_t)d;
    nd.level = (uint8_t)(i % 3);
    uint32_t size = p[1] == "H" ? 0xffffffffu : (uint32_t)atoi(p[1].c_str());
    if (nd.geometry_type == 1 || nd.geometry_type == 2) {
      std::vector<int64_t> idx;
      for (uint32_t j = 0; j < size; j++) idx.push_back(at++);
      set_coords(h.get(), &nd, d, idx, (int)(i % 6));
    }
    nd.size = size;
    h->nodes.push_back(nd);
  }
  hands[a[1]] = h;
}
static struct GeoArrowGeometryView view_of(const std::string& n) {
  struct GeoArrowGeometryView v;
  if (hands.count(n)) {
    HandGeom* h = hands[n].get();
    if (!h->exact) h->exact.reset(new Exact(h->nodes.data(), h->nodes.size() * sizeof(struct GeoArrowGeometryNode)));
    v.root = (const struct GeoArrowGeometryNode*)h->exact->p;
    v.size_nodes = hands[n]->nodes.size();
  } else {
    v = GeoArrowGeometryAsView(geom_of(n));
  }
  return v;
}
// app X G : append a whole geometry
static void cmd_app(const Args& a) {
  Target* t = targets[a[1]].get();
  struct GeoArrowError e;
  memset(&e, 0, sizeof e);
  int rc = t->kind == Target::NAT ? GeoArrowNativeWriterAppend(&t->nat, view_of(a[2]), &e)
                                  : GeoArrowWKBWriterAppend(&t->wkb, view_of(a[2]));
  out("app %s", rcs(rc).c_str());
}
static void cmd_appnull(const Args& a) {
  Target* t = targets[a[1]].get();
  int rc = t->kind == Target::NAT ? GeoArrowNativeWriterAppendNull(&t->nat)
                                  : GeoArrowWKBWriterAppendNull(&t->wkb);
  out("app %s", rcs(rc).c_str());
}

static void print_events(const Recorder& r) {
  std::string s = "events";
  for (auto& e : r.ev) { s += " "; s += e; }
  outs(s);
}

struct GeoArrowVisitor* recorder_start(const std::string& name) {
  auto& t = targets[name];
  t->rec.ev.clear();
  t->rec.calls = t->rec.total = t->rec.after_abort = 0;
  return &t->v;
}
std::string recorder_events(const std::string& name) {
  std::string s;
  for (auto& e : targets[name]->rec.ev) { if (!s.empty()) s += " "; s += e; }
  return s;
}
void register_more();
void register_arrays();
void register_numbers();
void register_rows();
void register_kernels();
void register_types();
void register_meta();
void register_life();
__attribute__((weak)) void register_lifepp();
__attribute__((weak)) void register_cppwrap();
PPWriter* (*pp_writer)(int, int, int, int, int*) = nullptr;
PPBuilder* (*pp_builder)(int, int, int*) = nullptr;
__attribute__((weak)) void register_dtypes();    // left out when its headers do not compile
__attribute__((weak)) void register_cviews();
static bool started = false;
static void end_case() {
  g_bits = false;
  g_scale = 1;
  // objects are destroyed in reverse order of creation
  while (!deferred.empty()) { auto f = deferred.back(); deferred.pop_back(); f(); }
  targets.clear();
  arrays.clear();
  hands.clear();
  wkbr.clear();
  wktr.clear();
}

static void on_alarm(int) {
  static const char m[] = "\n!HANG\n";
  if (write(1, m, sizeof(m) - 1)) {}
  _exit(96);
}

int main(int argc, char** argv) {
  signal(SIGALRM, on_alarm);
  std::ios::sync_with_stdio(false);
  setvbuf(stdout, nullptr, _IOFBF, 1 << 20);
  reg("new", cmd_new);
  reg("ev", cmd_ev);
  reg("evall", cmd_evall);
  reg("evfeat", cmd_evfeat);
  reg("fin", cmd_fin);
  reg("hand", cmd_hand);
  reg("nodes", cmd_nodes);
  reg("app", cmd_app);
  reg("appnull", cmd_appnull);
  reg("show", [](const Args& a) { outs(show_array(array_slot(a[1], false), atoi(a[2].c_str()))); });
  reg("rel", [](const Args& a) { arrays.erase(a[1]); });
  reg("reset", [](const Args& a) { targets[a[1]]->reset(); });
  reg("events", [](const Args& a) { print_events(targets[a[1]]->rec); });
  reg("calls", [](const Args& a) {
    out("calls %lld after=%lld", (long long)targets[a[1]]->rec.calls, (long long)targets[a[1]]->rec.after_abort);
  });
  reg("clear", [](const Args& a) {
    auto& r = targets[a[1]]->rec;
    r.ev.clear();
    r.calls = 0;
    r.total = 0;
    r.after_abort = 0;
    memset(&targets[a[1]]->error, 0, sizeof(struct GeoArrowError));
  });
  reg("arm", [](const Args& a) {
    auto& r = targets[a[1]]->rec;
    r.abort_at = atoll(a[2].c_str());
    r.abort_code = atoi(a[3].c_str());
  });
  // aborts X CODE MAX cmd...   cmd undisturbed, then with the visitor returning CODE at its k-th call
  reg("aborts", [](const Args& a) {
    auto& r = targets[a[1]]->rec;
    Args c(a.begin() + 4, a.end());
    int64_t n = 0, most = atoll(a[3].c_str());
    auto once = [&](int64_t k) {
      r.ev.clear(); r.calls = r.total = r.after_abort = 0;
      r.abort_at = k; r.abort_code = atoi(a[2].c_str());
      memset(&targets[a[1]]->error, 0, sizeof(struct GeoArrowError));
      table()[c[0]](c);
      std::string s = "trace " + std::to_string(k) + " " + std::to_string(r.after_abort);
      for (auto& e : r.ev) s += " " + e;
      outs(s);
      return (int64_t)r.calls;
    };
    n = once(-1);
    int64_t step = n > most ? n / most + 1 : 1;
    for (int64_t k = 1 + (n > most ? n % step : 0); k <= n; k += step) once(k);
    r.abort_at = -1;
  });
  // visit an array (readers)
  reg("visit", [](const Args& a) {  // visit A TYPE off len X
    struct GeoArrowArrayReader r;
    struct GeoArrowError e;
    memset(&e, 0, sizeof e);
    int rc = GeoArrowArrayReaderInitFromType(&r, (enum GeoArrowType)atoi(a[2].c_str()));
    if (rc) { out("visit init %s", rcs(rc).c_str()); return; }
    rc = GeoArrowArrayReaderSetArray(&r, array_slot(a[1], false), &e);
    if (rc) { out("visit set %s", rcs(rc).c_str()); GeoArrowArrayReaderReset(&r); return; }
    rc = GeoArrowArrayReaderVisit(&r, atoll(a[3].c_str()), atoll(a[4].c_str()), visitor_of(a[5]));
    const struct GeoArrowArrayView* av = nullptr;
    bool same = true;
    if (GeoArrowArrayReaderArrayView(&r, &av) == 0)
      same = av && av->length[0] == array_slot(a[1], false)->length && av->offset[0] == array_slot(a[1], false)->offset;
    out("visit %s%s", rcs(rc).c_str(), same ? "" : " !view");
    GeoArrowArrayReaderReset(&r);
  });
  reg("vnat", [](const Args& a) {  // vnat A TYPE off len X
    struct GeoArrowArrayView av;
    struct GeoArrowError e;
    memset(&e, 0, sizeof e);
    // a view of one's own, from a type or a schema, or the one inside a reader
    enum GeoArrowType type = (enum GeoArrowType)atoi(a[2].c_str());
    int how = (int)((atoll(a[3].c_str()) + atoll(a[4].c_str()) + atoi(a[2].c_str()) / 1000) % 3), rc = 0;
    if (how == 1) {
      struct GeoArrowArrayReader r;
      const struct GeoArrowArrayView* p = nullptr;
      rc = GeoArrowArrayReaderInitFromType(&r, type);
      if (rc) { out("visit init %s", rcs(rc).c_str()); return; }
      rc = GeoArrowArrayReaderSetArray(&r, array_slot(a[1], false), &e);
      if (rc) { out("visit set %s", rcs(rc).c_str()); GeoArrowArrayReaderReset(&r); return; }
      rc = GeoArrowArrayReaderArrayView(&r, &p);
      if (!rc) rc = GeoArrowArrayViewVisitNative(p, atoll(a[3].c_str()), atoll(a[4].c_str()), visitor_of(a[5]));
      out("visit %s", rcs(rc).c_str());
      GeoArrowArrayReaderReset(&r);
      return;
    }
    if (how == 2) {
      struct ArrowSchema s;
      s.release = nullptr;
      rc = GeoArrowSchemaInitExtension(&s, type);
      if (!rc) rc = GeoArrowArrayViewInitFromSchema(&av, &s, &e);
      if (s.release) s.release(&s);
    } else rc = GeoArrowArrayViewInitFromType(&av, type);
    if (rc) { out("visit init %s", rcs(rc).c_str()); return; }
    rc = GeoArrowArrayViewSetArray(&av, array_slot(a[1], false), &e);
    if (rc) { out("visit set %s", rcs(rc).c_str()); return; }
    rc = GeoArrowArrayViewVisitNative(&av, atoll(a[3].c_str()), atoll(a[4].c_str()), visitor_of(a[5]));
    out("visit %s", rcs(rc).c_str());
  });
  reg("rdwkt", [](const Args& a) {  // rdwkt R HEX X   persistent reader R
    if (!wktr.count(a[1])) {
      auto r = std::shared_ptr<struct GeoArrowWKTReader>(new GeoArrowWKTReader(), [](struct GeoArrowWKTReader* p) {
        GeoArrowWKTReaderReset(p); delete p; });
      if (GeoArrowWKTReaderInit(r.get())) exit(3);
      wktr[a[1]] = r;
    }
    std::string s = unhex(a[2]);
    Exact ex(s.data(), s.size());
    struct GeoArrowStringView sv;
    sv.data = ex.p;
    sv.size_bytes = ex.n;
    auto* v = visitor_of(a[3]);
    int rc = GeoArrowWKTReaderVisit(wktr[a[1]].get(), sv, v);
    out("rd %s", rcs(rc).c_str());
  });
  auto wkb_reader = [](const std::string& n) {
    if (!wkbr.count(n)) {
      auto r = std::shared_ptr<struct GeoArrowWKBReader>(new GeoArrowWKBReader(), [](struct GeoArrowWKBReader* p) {
        GeoArrowWKBReaderReset(p); delete p; });
      if (GeoArrowWKBReaderInit(r.get())) exit(3);
      wkbr[n] = r;
    }
    return wkbr[n].get();
  };
  reg("rdwkb", [wkb_reader](const Args& a) {  // rdwkb R HEX X
    auto* r = wkb_reader(a[1]);
    std::string s = unhex(a[2]);
    Exact ex(s.data(), s.size());
    struct GeoArrowBufferView bv;
    bv.data = (const uint8_t*)ex.p;
    bv.size_bytes = ex.n;
    int rc = GeoArrowWKBReaderVisit(r, bv, visitor_of(a[3]));
    out("rd %s", rcs(rc).c_str());
  });
  // read a geometry view and use it: visit | deep copy into G | shallow copy | append to writer
  reg("wkbview", [wkb_reader](const Args& a) {  // wkbview R HEX mode X
    auto* r = wkb_reader(a[1]);
    std::string s = unhex(a[2]);
    Exact ex(s.data(), s.size());
    struct GeoArrowBufferView bv;
    bv.data = (const uint8_t*)ex.p;
    bv.size_bytes = ex.n;
    struct GeoArrowGeometryView gv;
    struct GeoArrowError e;
    memset(&e, 0, sizeof e);
    int rc = GeoArrowWKBReaderRead(r, bv, &gv, &e);
    if (rc) { out("rd %s", rcs(rc).c_str()); return; }
    if (a[3] == "visit") rc = GeoArrowGeometryViewVisit(gv, visitor_of(a[4]));
    else if (a[3] == "deep") rc = GeoArrowGeometryDeepCopy(gv, geom_of(a[4]));
    else if (a[3] == "shallow") {
      rc = GeoArrowGeometryShallowCopy(gv, geom_of(a[4]));
      if (!rc) rc = GeoArrowGeometryVisit(geom_of(a[4]), visitor_of(a[5]));
    } else if (a[3] == "app") {
      Target* t = targets[a[4]].get();
      rc = t->kind == Target::NAT ? GeoArrowNativeWriterAppend(&t->nat, gv, &e) : GeoArrowWKBWriterAppend(&t->wkb, gv);
    } else if (a[3] == "ncoords") { out("n %u", GeoArrowGeometryViewNumCoords(gv)); }
    out("rd %s", rcs(rc).c_str());
  });
  reg("gcopy", [](const Args& a) {  // gcopy deep|shallow SRC DST
    int rc = a[1] == "deep" ? GeoArrowGeometryDeepCopy(view_of(a[2]), geom_of(a[3]))
                            : GeoArrowGeometryShallowCopy(view_of(a[2]), geom_of(a[3]));
    out("gcopy %s", rcs(rc).c_str());
  });
  reg("gvisit", [](const Args& a) {  // gvisit G X
    int rc;
    if (hands.count(a[1])) rc = GeoArrowGeometryViewVisit(view_of(a[1]), visitor_of(a[2]));
    else rc = GeoArrowGeometryVisit(geom_of(a[1]), visitor_of(a[2]));
    out("gvisit %s", rcs(rc).c_str());
  });
  reg("handfree", [](const Args& a) { hands.erase(a[1]); });
  reg("bits", [](const Args&) { g_bits = true; });
  reg("scale", [](const Args& a) { g_scale = atof(a[1].c_str()); });
  // mkser A type item item ...   (hex, "-" empty, "null"); the first two items lie before the
  // array's offset when type is negative
  reg("mkser", [](const Args& a) {
    struct ArrowArray* arr = array_slot(a[1], true);
    int type = atoi(a[2].c_str());
    bool pre = type < 0;
    if (pre) type = -type;
    bool large = type == 100002 || type == 100004;
    bool txt = type >= 100003;
    if (ArrowArrayInitFromType(arr, large ? (txt ? NANOARROW_TYPE_LARGE_STRING : NANOARROW_TYPE_LARGE_BINARY)
                                          : (txt ? NANOARROW_TYPE_STRING : NANOARROW_TYPE_BINARY))) exit(3);
    if (ArrowArrayStartAppending(arr)) exit(3);
    for (size_t i = 3; i < a.size(); i++) {
      if (a[i] == "null") { if (ArrowArrayAppendNull(arr, 1)) exit(3); continue; }
      std::string x = unhex(a[i]);
      struct ArrowBufferView bv;
      bv.data.data = x.data();
      bv.size_bytes = x.size();
      if (ArrowArrayAppendBytes(arr, bv)) exit(3);
    }
    if (ArrowArrayFinishBuildingDefault(arr, nullptr)) exit(3);
    // tighten the data buffer so that reads behind it are seen
    struct ArrowBuffer* d = ArrowArrayBuffer(arr, 2);
    ArrowBufferResize(d, d->size_bytes, 1);
    arr->buffers[2] = d->data;
    if (pre) { arr->offset = 2; arr->length -= 2; arr->null_count = -1; }
  });
  // gfill how H G: what a shallow copy does, by the node-level functions
  reg("gfill", [](const Args& a) {
    int how = atoi(a[1].c_str()), rc = 0;
    struct GeoArrowGeometryView v = view_of(a[2]);
    struct GeoArrowGeometry* g = geom_of(a[3]);
    bool fresh = true;
    if (how == 0 || how == 1) {  // append one by one
      rc = how ? GeoArrowGeometryResizeNodesInline(g, 0) : GeoArrowGeometryResizeNodes(g, 0);
      for (int64_t i = 0; !rc && i < v.size_nodes; i++) {
        struct GeoArrowGeometryNode* nd = nullptr;
        rc = how ? GeoArrowGeometryAppendNodeInline(g, &nd) : GeoArrowGeometryAppendNode(g, &nd);
        if (rc) break;
        if (nd != g->root + i || g->size_nodes != i + 1) fresh = false;
        else {
          fresh = fresh && !nd->size && !nd->geometry_type && !nd->dimensions && !nd->flags && !nd->level;
          for (int j = 0; j < 4; j++) fresh = fresh && nd->coords[j] && nd->coord_stride[j] == 0;
          *nd = v.root[i];
        }
      }
    } else {  // make room, maybe too much, and fill it
      if (how == 4) rc = GeoArrowGeometryResizeNodesInline(g, v.size_nodes + 7);
      if (!rc) rc = how == 2 ? GeoArrowGeometryResizeNodes(g, v.size_nodes) : GeoArrowGeometryResizeNodesInline(g, v.size_nodes);
      if (!rc && g->size_nodes != v.size_nodes) fresh = false;
      for (int64_t i = 0; !rc && fresh && i < v.size_nodes; i++) g->root[i] = v.root[i];
    }
    out("gcopy %s%s", rcs(rc).c_str(), fresh ? "" : " !nodes");
  });
  // copygen H dst outlayout: all coordinates into memory of fixed dimensions
  reg("copygen", [](const Args& a) {
    struct GeoArrowGeometryView v = view_of(a[1]);
    int d = atoi(a[2].c_str()), lay = atoi(a[3].c_str()), k = nvals(d);
    int64_t n = GeoArrowGeometryViewNumCoords(v);
    // 0 interleaved, 1 separated, 2 unaligned interleaved with gaps, 3 separated in reverse
    int64_t stride = lay == 0 ? 8 * k : lay == 2 ? 8 * k + 5 : 8, pre = lay == 2 ? 3 : 0;
    std::string fill(lay % 2 ? 8 * k * n : n ? pre + stride * (n - 1) + 8 * k : pre, '\x7b');
    Exact mem(fill.data(), fill.size());
    uint8_t* o[4] = {nullptr, nullptr, nullptr, nullptr};
    int32_t st[4] = {1 << 20, 1 << 20, 1 << 20, 1 << 20};
    for (int j = 0; j < k; j++) {
      o[j] = (uint8_t*)mem.p + (lay % 2 ? 8 * n * j + (lay == 3 && n ? 8 * (n - 1) : 0) : pre + 8 * j);
      st[j] = (int32_t)(lay == 3 ? -8 : stride);
    }
    uint8_t* p[4];
    memcpy(p, o, sizeof p);
    GeoArrowGeometryViewCopyCoordsGeneric(v, p, st, (enum GeoArrowDimensions)d);
    std::string s = "cg ";
    for (int64_t i = 0; i < n; i++) {
      if (i) s += ";";
      for (int j = 0; j < k; j++) { double x; memcpy(&x, o[j] + i * st[j], 8); s += (j ? "," : "") + num(x); }
    }
    if (lay == 2) {
      for (int64_t i = 0; i < pre && i < (int64_t)mem.n; i++) if (mem.p[i] != '\x7b') s += " !front";
      for (int64_t i = 0; i + 1 < n; i++)
        for (int j = 0; j < 5; j++) if (mem.p[pre + i * stride + 8 * k + j] != '\x7b') s += " !gap";
    }
    outs(s);
  });
  // writeseq H: every coordinate sequence of its own, into exactly the memory it needs and into too little
  reg("writeseq", [](const Args& a) {
    struct GeoArrowGeometryView v = view_of(a[1]);
    std::string s = "ws";
    for (int64_t i = 0; i < v.size_nodes; i++) {
      const struct GeoArrowGeometryNode* nd = v.root + i;
      if (nd->geometry_type > 2) continue;
      int k = nvals(nd->dimensions);
      int64_t need = (int64_t)8 * k * nd->size;
      std::string fill(need, '\x7b');
      Exact mem(fill.data(), fill.size());
      for (int64_t less : {need, (int64_t)8, (int64_t)1}) {
        if (!need || less > need) continue;
        int64_t got = GeoArrowGeometryNodeWriteSequence(nd, (uint8_t*)mem.p, need - less);
        if (got != need) s += " !short" + std::to_string(got);
        if (memcmp(mem.p, fill.data(), need)) s += " !touched";
      }
      int64_t got = GeoArrowGeometryNodeWriteSequence(nd, (uint8_t*)mem.p, need);
      if (got != need) s += " !size" + std::to_string(got);
      s += " ";
      for (uint32_t c = 0; c < nd->size; c++) {
        if (c) s += ";";
        for (int j = 0; j < k; j++) { double x; memcpy(&x, mem.p + 8 * (c * k + j), 8); s += (j ? "," : "") + num(x); }
      }
      s += "|";
    }
    outs(s);
  });
  reg("numcoords", [](const Args& a) { out("n %u", GeoArrowGeometryViewNumCoords(view_of(a[1]))); });

  register_more();
  register_arrays();
  register_numbers();
  register_rows();
  register_kernels();
  register_types();
  register_meta();
  register_life();
  if (register_lifepp) register_lifepp();
  if (register_cppwrap) register_cppwrap();
  if (register_dtypes) register_dtypes();
  if (register_cviews) register_cviews();

  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty() || line[0] == '#') continue;
    Args a;
    std::istringstream is(line);
    std::string tok;
    while (is >> tok) a.push_back(tok);
    if (a[0] == "case") {
      alarm(30);
      if (started) end_case();
      started = true;
      outs("case " + a[1]);
      fflush(stdout);
      continue;
    }
    auto it = table().find(a[0]);
    if (it == table().end()) { out("!unknown command %s", a[0].c_str()); fflush(stdout); return 3; }
    it->second(a);
  }
  end_case();
#ifdef HAVE_ASAN
  if (argc > 1 && !strcmp(argv[1], "--leaks")) {
    fflush(stdout);
    if (__lsan_do_recoverable_leak_check()) outs("!leak");
  }
#endif
  outs("done");
  fflush(stdout);
  return 0;
}
