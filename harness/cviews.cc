// C++ views of native arrays.
#include "geoarrow/hpp/exception.hpp"
#include "geoarrow/hpp/geometry_type_traits.hpp"
#include "geoarrow/hpp/wkb_util.hpp"
#include "vm.h"
using namespace geoarrow::array_util;
template <typename C>
static std::string co(const C& c) {
  std::string r;
  for (size_t i = 0; i < c.size(); i++) r += (i ? "," : "") + num(c[i]);
  return r;
}
template <typename T, size_t N>
static std::string nest(const std::array<T, N>& c) { return co(c); }
template <typename C>
static std::string nest(const CoordSequence<C>& s) {
  std::string r = "[";
  int64_t n = 0;
  for (const auto& x : s) r += (n++ ? " " : "") + co(x);
  if (n != s.size()) r += "!size";
  return r + "]";
}
template <typename T>
static std::string nest(const ListSequence<T>& s) {
  std::string r = "[";
  int64_t n = 0;
  for (const auto& x : s) r += (n++ ? " " : "") + nest(x);
  if (n != s.size()) r += "!size";
  return r + "]";
}
// the ith element of a sequence without an iterator
template <typename C>
static std::string at(const CoordSequence<C>& s, int64_t i) { return co(s.coord(i)); }
template <typename T>
static std::string at(const ListSequence<T>& s, int64_t i) {
  T child;
  s.InitChild(&child);
  s.UpdateChild(&child, i);
  std::string r = "[";
  for (int64_t k = child.size(); k-- > 0;) {
    std::string x = at(child, k);
    r = r == "[" ? "[" + x : "[" + x + " " + r.substr(1);
  }
  return r + "]";
}
template <typename It>
static std::string deref(It& it) { return nest(*it); }
struct Slices {
  std::vector<std::pair<int64_t, int64_t>> v;
  explicit Slices(const std::string& s) {
    if (s == "-") return;
    for (auto& p : split(s, ';')) {
      auto q = split(p, ':');
      v.emplace_back(atoll(q[0].c_str()), atoll(q[1].c_str()));
    }
  }
  template <typename A>
  A apply(A a) const {
    for (auto& p : v) a = a.Slice(p.first, p.second);
    return a;
  }
};
template <typename A>
static void dump(A& arr, const char* cmd) {
  std::string s, t;
  auto it = arr.value.begin();
  for (int64_t i = 0; i < arr.value.size(); i++, ++it) {
    bool n = arr.is_null(i);
    if (n == arr.is_valid(i)) s += " !validity";
    s += std::string(" | ") + (n ? "nul " : "") + deref(it);
  }
  if (it != arr.value.end()) s += " !end";
  for (int64_t i = arr.value.size(); i-- > 0;) t = std::string(" | ") + (arr.is_null(i) ? "nul " : "") + at(arr.value, i) + t;
  out("%s%s%s", cmd, s.c_str(), t == s ? "" : (" !index" + t).c_str());
}
template <typename D, typename V>
static std::string verts(const V& v) {
  std::string s;
  v.template VisitVertices<D>([&](D c) { s += " " + co(c); });
  return s;
}
template <typename D, typename V>
static std::string edges(const V& v) {
  std::string s;
  v.template VisitEdges<D>([&](D a, D b) { s += " " + co(a) + ">" + co(b); });
  return s;
}
template <typename V>
static void visit(const char* cmd, const V& v, int dst, bool e) {
  std::string s;
  switch (dst) {
    case 1: s = e ? edges<XY<double>>(v) : verts<XY<double>>(v); break;
    case 2: s = e ? edges<XYZ<double>>(v) : verts<XYZ<double>>(v); break;
    case 3: s = e ? edges<XYM<double>>(v) : verts<XYM<double>>(v); break;
    default: s = e ? edges<XYZM<double>>(v) : verts<XYZM<double>>(v);
  }
  out("%s%s", cmd, s.c_str());
}
// iterator walks
static std::string val(double v) { return num(v); }
template <typename T, size_t N>
static std::string val(const std::array<T, N>& v) { return co(v); }
template <typename It, typename F, typename G, typename P>
static void walk(It it, const It& b, const It& e, const std::string& ops, F star, G index, P post) {
  std::string s;
  for (auto& o : split(ops, ';')) {
    int64_t k = o.size() > 1 ? atoll(o.c_str() + 1) : 0;
    switch (o[0]) {
      case '+': ++it; break;
      case '-': --it; break;
      case 'a': it += k; break;
      case 's': it -= k; break;
      case '*': s += " " + star(it); break;
      case '[': s += " " + index(it, k); break;
      case 'p': s += " " + post(it); break;
      default: {
        char buf[100];
        snprintf(buf, sizeof buf, " %lld/%lld/%d%d%d%d%d%d", (long long)(it - b), (long long)(e - it), it < e, it == e, it > b, it >= e, it <= b, it != b);
        s += buf;
      }
    }
  }
  out("cvwalk%s", s.c_str());
}
static std::string none() { return "?"; }
template <typename S>
static void walk_coords(const S& s, const std::string& ops) {
  using It = typename S::const_iterator;
  walk(s.begin(), s.begin(), s.end(), ops, [](It& i) { return val(*i); }, [](It& i, int64_t k) { return val(i[k]); }, [](It&) { return none(); });
}
template <typename S>
static void walk_dim(const S& s, int j, const std::string& ops) {
  using It = typename S::dimension_iterator;
  walk(s.dbegin(j), s.dbegin(j), s.dend(j), ops, [](It& i) { return val(*i); }, [](It& i, int64_t k) { return val(i[k]); }, [](It& i) { return val(i++); });
}
// an unaligned copy of a coordinate sequence
template <typename C, typename Load>
struct Unaligned {
  std::unique_ptr<Exact> mem;
  UnalignedCoordSequence<C, Load> seq;
  Unaligned(const CoordSequence<C>& s, int mode) {
    const int nd = C().size();
    bool inter = mode & 1, swap = mode & 2;
    int extra = mode & 4 ? 1 : 0, mis = mode >> 3 & 7, pad = mode >> 6 & 1 ? 2 : 0;
    int64_t n = s.size() + 2 * pad, stride = inter ? nd + extra : 1 + extra;
    // the last coordinate ends the buffer
    int64_t total = inter ? (n ? (n - 1) * stride + nd : 0) : n * stride * nd;
    std::string raw(mis + total * 8, '\x41');
    auto put = [&](int64_t i, int j, double v) {
      char b[8];
      memcpy(b, &v, 8);
      if (swap) std::reverse(b, b + 8);
      memcpy(&raw[mis + 8 * (inter ? i * stride + j : (j * n + i) * stride)], b, 8);
    };
    for (int64_t i = 0; i < s.size(); i++)
      for (int j = 0; j < nd; j++) put(i + pad, j, s.coord(i)[j]);
    mem.reset(new Exact(raw.data(), raw.size()));
    const char* p = mem->p + mis;
    if (inter) {
      seq.InitInterleaved(n, p, stride);
    } else {
      std::array<const void*, C().size()> dims;
      for (int j = 0; j < nd; j++) dims[j] = p + 8 * j * n * stride;
      seq.InitSeparated(n, dims, stride);
    }
    if (pad) seq = seq.Slice(pad, s.size());
  }
};
// an aligned one, through the pointers InitInterleaved and InitSeparated take
template <typename C>
struct Aligned {
  std::vector<double> mem;
  CoordSequence<C> seq;
  Aligned(const CoordSequence<C>& s, int mode) {
    const int nd = C().size();
    bool inter = mode & 1;
    int extra = mode & 4 ? 1 : 0, pad = mode >> 6 & 1 ? 2 : 0;
    int64_t n = s.size() + 2 * pad, stride = inter ? nd + extra : 1 + extra;
    mem.assign((inter ? n * stride : n * stride * nd) + 1, -7);
    for (int64_t i = 0; i < s.size(); i++)
      for (int j = 0; j < nd; j++) mem[inter ? (i + pad) * stride + j : (j * n + i + pad) * stride] = s.coord(i)[j];
    if (inter) {
      if (extra) seq.InitInterleaved(n, mem.data(), stride); else seq.InitInterleaved(n, mem.data());
    } else {
      std::array<const double*, C().size()> dims;
      for (int j = 0; j < nd; j++) dims[j] = mem.data() + j * n * stride;
      if (extra) seq.InitSeparated(n, dims, stride); else seq.InitSeparated(n, dims);
    }
    if (pad) seq = seq.Slice(pad, s.size());
  }
};
template <typename S>
static void on_seq(const S& s, const std::string& what, const Args& a) {
  if (what == "coords") walk_coords(s, a[9]);
  else if (what == "dim") walk_dim(s, atoi(a[8].c_str()), a[9]);
  else { visit("cvu", s, atoi(a[8].c_str()), a[9] == "e"); }
}
template <typename C>
static void on_copy(const CoordSequence<C>& s, int mode, const std::string& what, const Args& a) {
  using T = double;
  if (mode & 2) { Unaligned<C, internal::LoadSwapped<T>> u(s, mode); on_seq(u.seq, what, a); }
  else if (mode & 128) { Aligned<C> u(s, mode); on_seq(u.seq, what, a); }
  else { Unaligned<C, internal::LoadIdentity<T>> u(s, mode); on_seq(u.seq, what, a); }
}
struct Held {
  struct GeoArrowArrayView v;
  bool ok;
  Held(const std::string& arr, int type) {
    struct GeoArrowError e;
    ok = GeoArrowArrayViewInitFromType(&v, (enum GeoArrowType)type) == 0 && GeoArrowArrayViewSetArray(&v, array_slot(arr, false), &e) == 0;
  }
};
// cv A TYPE KIND*VD SLICES what ...
template <typename A>
static void on_array(A& arr0, const struct GeoArrowArrayView* v, const Args& a, bool* inited) {
  if (arr0.Init(v) != GEOARROW_OK) { *inited = false; return; }
  *inited = true;
  if (a[4] == "fit") return;
  A arr = Slices(a[4]).apply(arr0);
  const std::string& w = a[5];
  if (w == "dump") { dump(arr, "cvdump"); return; }
  if (w == "type") { out("cvtype %d %d", (int)A::geometry_type, (int)A::dimensions); return; }
  if (w == "all") { auto s = arr.Coords(); out("cvall %s", nest(s).c_str()); return; }
  if (w == "verts") { visit("cvverts", arr, atoi(a[6].c_str()), false); return; }
  if (w == "edges") { visit("cvedges", arr, atoi(a[6].c_str()), true); return; }
  auto s = arr.Coords();
  int mode = atoi(a[7].c_str());
  if (a[6] == "coords") walk_coords(s, a[9]);
  else if (a[6] == "dim") walk_dim(s, atoi(a[8].c_str()), a[9]);
  else if (a[6] == "list") {
    using It = decltype(arr.value.begin());
    walk(arr.value.begin(), arr.value.begin(), arr.value.end(), a[9], [](It& i) { return nest(*i); }, [](It&, int64_t) { return none(); }, [](It&) { return none(); });
  } else if (a[6] == "ucoords") on_copy(s, mode, "coords", a);
  else if (a[6] == "udim") on_copy(s, mode, "dim", a);
  else on_copy(s, mode, "visit", a);
}
template <typename C>
static void on_box(const struct GeoArrowArrayView* v, const Args& a, bool* inited) {
  BoxArray<C> arr0;
  *inited = arr0.Init(v) == GEOARROW_OK;
  if (!*inited || a[4] == "fit") return;
  BoxArray<C> arr = Slices(a[4]).apply(arr0);
  const std::string& w = a[5];
  if (w == "dump") {
    dump(arr, "cvdump");
    auto lo = arr.LowerBound();
    auto hi = arr.UpperBound();
    dump(lo, "cvlower");
    dump(hi, "cvupper");
    visit("cvlv", lo, 4, false);
    visit("cvhv", hi, 4, false);
    std::string s;
    for (const auto& b : arr.value)
      s += " " + co(b.lower_bound()) + "/" + co(b.upper_bound()) + "/" + num(b.xmin()) + "," + num(b.ymin()) + "," + num(b.zmin()) + "," + num(b.mmin()) + "," +
           num(b.xmax()) + "," + num(b.ymax()) + "," + num(b.zmax()) + "," + num(b.mmax());
    out("cvbox%s", s.c_str());
    auto e = C::box_type::Empty();
    out("cvempty %s", co(e).c_str());
  } else if (w == "type") out("cvtype %d %d", (int)BoxArray<C>::geometry_type, (int)BoxArray<C>::dimensions);
  else if (a[6] == "coords" || a[6] == "list") walk_coords(arr.value, a[9]);
}
static bool run_cv(int type, const struct GeoArrowArrayView* v, const Args& a) {
  bool inited = false;
  if (type % 1000 == 990) {
    switch (type / 1000) {
      case 0: on_box<XY<double>>(v, a, &inited); break;
      case 1: on_box<XYZ<double>>(v, a, &inited); break;
      case 2: on_box<XYM<double>>(v, a, &inited); break;
      default: on_box<XYZM<double>>(v, a, &inited);
    }
    return inited;
  }
  GEOARROW_DISPATCH_NATIVE_ARRAY_CALL((enum GeoArrowType)type, on_array, v, a, &inited);
  return inited;
}
void register_cviews() {
  reg("cvwkb", [](const Args& a) {  // cvwkb A SLICES
    Held h(a[1], GEOARROW_TYPE_WKB);
    geoarrow::wkb_util::WKBArray<int32_t> arr;
    if (!h.ok || arr.Init(&h.v) != GEOARROW_OK) { out("cvwkb refused"); return; }
    arr = Slices(a[2]).apply(arr);
    std::string s;
    const BinarySequence<int32_t>& blobs = arr.value;
    auto b = blobs.begin();
    int64_t n = arr.value.length, i = 0;
    auto hex = [](const GeoArrowBufferView& v) {
      std::string r;
      char c[3];
      for (int64_t k = 0; k < v.size_bytes; k++) { snprintf(c, 3, "%02x", v.data[k]); r += c; }
      return r.empty() ? std::string("-") : r;
    };
    for (; b != blobs.end(); ++b, ++i) {
      if (arr.is_null(i)) { s += " nul"; continue; }
      s += " " + hex(*b);
      if (hex(blobs.begin()[i]) != hex(*b) || hex(blobs.blob(i)) != hex(*b)) s += "!index";
    }
    if (i != n) s += " !size";
    outs("cvwkb" + s);
    for (int d = 1; d <= 4; d++) {
      visit("cvverts", arr, d, false);
      visit("cvedges", arr, d, true);
    }
    // the parsed elements, back to front
    s = "";
    auto it = arr.value.end();
    for (i = n; i-- > 0;) {
      --it;
      if (arr.is_null(i)) { s = " nul" + s; continue; }
      s = " " + std::to_string((int)(*it).geometry_type) + "." + std::to_string((int)(*it).dimensions) + s;
    }
    outs("cvgeoms" + s);
  });
  reg("cv", [](const Args& a) {  // cv A TYPE VIEWTYPE SLICES what ...
    Held h(a[1], atoi(a[2].c_str()));
    if (!h.ok) { out("cv view"); return; }
    if (!run_cv(atoi(a[3].c_str()), &h.v, a)) out("cv refused");
  });
  reg("cvfit", [](const Args& a) {  // cvfit A TYPE
    Held h(a[1], atoi(a[2].c_str()));
    std::string s;
    for (int k : {1, 2, 3, 4, 5, 6, 990}) {
      s += ' ';
      for (int d = 0; d < 4; d++) s += run_cv(k + 1000 * d, &h.v, {"", "", "", "", "fit"}) ? '1' : '0';
    }
    out("cvfit%s", s.c_str());
  });
}
