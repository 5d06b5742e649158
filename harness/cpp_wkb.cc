// The C++ WKB parser, observed in the notation of the recording visitor.
#include <sys/mman.h>

#include "vm.h"
#include "geoarrow/geoarrow.hpp"
#include "geoarrow/hpp/wkb_util.hpp"

using namespace geoarrow;
using wkb_util::WKBGeometry;
using wkb_util::WKBParser;
using wkb_util::WKBSequence;

template <typename C>
static std::string edges(const WKBGeometry& g) {
  std::string o = "edges";
  g.VisitEdges<C>([&](C a, C b) {
    o += " ";
    for (size_t j = 0; j < a.size(); j++) { if (j) o += ","; o += num(a[j]); }
    o += ">";
    for (size_t j = 0; j < b.size(); j++) { if (j) o += ","; o += num(b[j]); }
  });
  return o;
}
// every native sequence looked at directly agrees with its visit
static bool direct(const WKBGeometry& g) {
  using V = array_util::XY<double>;
  for (uint32_t i = 0; i < g.NumSequences(); i++) {
    const WKBSequence& q = g.Sequence(i);
    if (q.endianness != wkb_util::internal::kNativeEndian) continue;
    auto n = q.ViewAsNativeXY();
    if ((uint64_t)n.size() != q.size()) return false;
    uint32_t k = 0;
    bool same = true;
    q.VisitVertices<V>([&](V c) {
      V x = n.coord(k++);
      same = same && !memcmp(&x[0], &c[0], 8) && !memcmp(&x[1], &c[1], 8);
    });
    if (!same || k != q.size()) return false;
  }
  for (uint32_t i = 0; i < g.NumGeometries(); i++) if (!direct(g.Geometry(i))) return false;
  return true;
}
struct PP { WKBParser parser; WKBGeometry geom; };
static std::map<std::string, std::shared_ptr<PP>> pps;

template <typename C>
static std::string verts(const WKBSequence& q) {
  std::string s;
  int n = 0;
  q.VisitVertices<C>([&](C c) {
    if (n++) s += ";";
    for (size_t j = 0; j < c.size(); j++) { if (j) s += ","; s += num(c[j]); }
  });
  return s;
}
static void coords(const WKBSequence& q, std::string* s) {
  if (q.size() == 0) return;
  *s += " c:";
  switch (q.dimensions) {
    case GEOARROW_DIMENSIONS_XY: *s += "2:" + verts<array_util::XY<double>>(q); break;
    case GEOARROW_DIMENSIONS_XYZ: *s += "3:" + verts<array_util::XYZ<double>>(q); break;
    case GEOARROW_DIMENSIONS_XYM: *s += "3:" + verts<array_util::XYM<double>>(q); break;
    case GEOARROW_DIMENSIONS_XYZM: *s += "4:" + verts<array_util::XYZM<double>>(q); break;
    default: *s += "?";
  }
}
static void walk(const WKBGeometry& g, std::string* s) {
  *s += " gs:" + std::to_string((int)g.geometry_type) + ":" + std::to_string((int)g.dimensions);
  bool poly = g.geometry_type == GEOARROW_GEOMETRY_TYPE_POLYGON;
  for (uint32_t i = 0; i < g.NumSequences(); i++) {
    if (poly) *s += " rs";
    coords(g.Sequence(i), s);
    if (poly) *s += " re";
  }
  for (uint32_t i = 0; i < g.NumGeometries(); i++) walk(g.Geometry(i), s);
  *s += " ge";
}
static void srids(const WKBGeometry& g, std::string* s) {
  *s += " " + (g.srid == WKBGeometry::kSridUnset ? std::string("-") : std::to_string(g.srid));
  for (uint32_t i = 0; i < g.NumGeometries(); i++) srids(g.Geometry(i), s);
}
void register_cpp_wkb() {
  reg("wkbpp", [](const Args& a) {  // wkbpp P HEX
    if (!pps.count(a[1])) {
      pps[a[1]] = std::make_shared<PP>();
      defer([]() { pps.clear(); });
    }
    PP* p = pps[a[1]].get();
    std::string s = unhex(a[2]);
    Exact ex(s.data(), s.size());
    const uint8_t* cur = nullptr;
    WKBParser::Status st;
    struct GeoArrowBufferView bv;
    bv.data = (const uint8_t*)ex.p;
    bv.size_bytes = ex.n;
    st = p->parser.Parse(bv, &p->geom, &cur);
    out("pp %s", p->parser.ErrorToString(st).c_str());
    if (st != WKBParser::OK && st != WKBParser::TOO_MANY_BYTES) return;
    out("end %lld", (long long)(ex.n - (cur - (const uint8_t*)ex.p)));
    std::string o = "events fs";
    walk(p->geom, &o);
    outs(o + " fe");
    o = "vertices";
    using V = array_util::XYZM<double>;
    p->geom.VisitVertices<V>([&](V c) {
      o += " ";
      for (size_t j = 0; j < c.size(); j++) { if (j) o += ","; o += num(c[j]); }
    });
    outs(o);
    switch (a.size() > 3 ? atoi(a[3].c_str()) : 0) {
      case 1: o = edges<array_util::XY<double>>(p->geom); break;
      case 2: o = edges<array_util::XYZ<double>>(p->geom); break;
      case 3: o = edges<array_util::XYM<double>>(p->geom); break;
      case 4: o = edges<array_util::XYZM<double>>(p->geom); break;
      default: o.clear();
    }
    if (!direct(p->geom)) o += " !direct";
    if (!o.empty()) outs(o);
    o = "srid";
    srids(p->geom, &o);
    outs(o);
  });
  // a view longer than 4 GiB whose geometry ends early; only its head is touched
  reg("wkbpphuge", [](const Args& a) {
    std::string s = unhex(a[1]);
    size_t n = (1ull << 32) + s.size();
    void* m = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) { outs("pp skipped"); return; }
    memcpy(m, s.data(), s.size());
    PP p;
    struct GeoArrowBufferView bv;
    bv.data = (const uint8_t*)m;
    bv.size_bytes = (int64_t)n;
    out("pp %s", p.parser.ErrorToString(p.parser.Parse(bv, &p.geom)).c_str());
    munmap(m, n);
  });
}
