// C++ data type objects.
#include "geoarrow/hpp/geometry_data_type.hpp"
#include "geoarrow/hpp/geometry_type_traits.hpp"
#include "vm.h"
using geoarrow::GeometryDataType;
struct ArrowSchema* schema_slot(const std::string& name);
struct ArrowSchema* schema_named(const std::string& name);
static std::map<std::string, std::unique_ptr<GeometryDataType>> dts;
static GeometryDataType& dt(const std::string& n) { return *dts.at(n); }
static std::string lonlat() {
  struct GeoArrowMetadataView v;
  memset(&v, 0, sizeof v);
  GeoArrowMetadataSetLonLat(&v);
  return std::string(v.crs.data, v.crs.size_bytes);
}
static std::string crs_text(const std::string& s) { return s == lonlat() ? "LONLAT" : s.empty() ? "-" : hex(s.data(), s.size()); }
static std::string meta_text(const std::string& m) {  // what the C reader makes of it
  struct GeoArrowMetadataView v;
  Exact e(m.data(), m.size());
  struct GeoArrowStringView sv = {e.p, (int64_t)m.size()};
  if (GeoArrowMetadataViewInit(&v, sv, nullptr)) return "!" + m;
  int64_t n = GeoArrowUnescapeCrs(v.crs, nullptr, 0);
  std::string c(n, '\0');
  if (n) GeoArrowUnescapeCrs(v.crs, &c[0], n);
  return std::to_string((int)v.edge_type) + "/" + std::to_string((int)v.crs_type) + "/" + crs_text(c);
}
static std::string seen(const GeometryDataType& x) {
  std::string ext;
  try { ext = x.extension_name(); } catch (geoarrow::Exception&) { ext = "-"; }
  char b[200];
  snprintf(b, sizeof b, "t=%d g=%d d=%d c=%d nd=%d e=%d r=%d", (int)x.id(), (int)x.geometry_type(), (int)x.dimensions(), (int)x.coord_type(), x.num_dimensions(),
           (int)x.edge_type(), (int)x.crs_type());
  return std::string(b) + " crs=" + crs_text(x.crs()) + " ext=" + ext + " meta=" + meta_text(x.extension_metadata());
}
template <typename F>
static void made(const char* cmd, const std::string& to, F f) {
  try {
    auto p = std::unique_ptr<GeometryDataType>(new GeometryDataType(f()));
    dts[to] = std::move(p);
    defer([to] { dts.erase(to); });
    out("%s ok", cmd);
  } catch (geoarrow::Exception& e) {
    (void)e.what();
    out("%s refused", cmd);
  }
}
static std::string txt(const std::string& h) { return h == "-" ? "" : unhex(h); }
template <enum GeoArrowGeometryType g, enum GeoArrowDimensions d, int sep, int inter>
static void trait() {
  using S = geoarrow::type_traits::TypeTraits<(enum GeoArrowType)sep>;
  using I = geoarrow::type_traits::TypeTraits<(enum GeoArrowType)inter>;
  using G = geoarrow::type_traits::GeometryTypeTraits<g, d>;
  out("dttrait %d %d %d", (int)G::type_id(), (int)G::type_id(GEOARROW_COORD_TYPE_SEPARATE), (int)G::type_id(GEOARROW_COORD_TYPE_INTERLEAVED));
  out("dttrait %d %d %d %d", sep, (int)S::geometry_type, (int)S::dimensions, (int)S::coord_type_id);
  out("dttrait %d %d %d %d", inter, (int)I::geometry_type, (int)I::dimensions, (int)I::coord_type_id);
}
template <enum GeoArrowGeometryType g>
static void traits() {
  trait<g, GEOARROW_DIMENSIONS_XY, g, g + 10000>();
  trait<g, GEOARROW_DIMENSIONS_XYZ, g + 1000, g + 11000>();
  trait<g, GEOARROW_DIMENSIONS_XYM, g + 2000, g + 12000>();
  trait<g, GEOARROW_DIMENSIONS_XYZM, g + 3000, g + 13000>();
}
void register_dtypes() {
  reg("dtnew", [](const Args& a) {  // dtnew Y  |  Y t meta  |  Y g d c meta
    if (a.size() == 2) made("dtnew", a[1], [] { return GeometryDataType(); });
    else if (a.size() == 4) made("dtnew", a[1], [&] { return GeometryDataType::Make((enum GeoArrowType)atoi(a[2].c_str()), txt(a[3])); });
    else made("dtnew", a[1], [&] {
      return GeometryDataType::Make((enum GeoArrowGeometryType)atoi(a[2].c_str()), (enum GeoArrowDimensions)atoi(a[3].c_str()),
                                    (enum GeoArrowCoordType)atoi(a[4].c_str()), txt(a[5]));
    });
  });
  reg("dtconst", [](const Args&) {
    out("dtconst %d %d %d %d %d %d", (int)geoarrow::Wkb().id(), (int)geoarrow::Wkt().id(), (int)geoarrow::Box().id(), (int)geoarrow::Point().id(),
        (int)geoarrow::Linestring().id(), (int)geoarrow::Polygon().id());
  });
  reg("dttraits", [](const Args&) {
    traits<GEOARROW_GEOMETRY_TYPE_POINT>(); traits<GEOARROW_GEOMETRY_TYPE_LINESTRING>(); traits<GEOARROW_GEOMETRY_TYPE_POLYGON>();
    traits<GEOARROW_GEOMETRY_TYPE_MULTIPOINT>(); traits<GEOARROW_GEOMETRY_TYPE_MULTILINESTRING>(); traits<GEOARROW_GEOMETRY_TYPE_MULTIPOLYGON>();
  });
  reg("dtop", [](const Args& a) {  // dtop X Y op val [crs text]
    const GeometryDataType& x = dt(a[1]);
    const std::string& w = a[3];
    int v = atoi(a[4].c_str());
    made("dtop", a[2], [&]() -> GeometryDataType {
      if (w == "g") return x.WithGeometryType((enum GeoArrowGeometryType)v);
      if (w == "d") return x.WithDimensions((enum GeoArrowDimensions)v);
      if (w == "dm") return v == 1 ? x.XY() : v == 2 ? x.XYZ() : v == 3 ? x.XYM() : x.XYZM();
      if (w == "c") return x.WithCoordType((enum GeoArrowCoordType)v);
      if (w == "simple") return x.Simple();
      if (w == "multi") return x.Multi();
      if (w == "e") return x.WithEdgeType((enum GeoArrowEdgeType)v);
      if (w == "crs") {
        std::string s = txt(a[5]);  // gone when the object is looked at
        if (v == 1 && s.size() % 2) return dt(a[1]).WithCrs(s);
        return dt(a[1]).WithCrs(s, (enum GeoArrowCrsType)v);
      }
      if (w == "lonlat") return dt(a[1]).WithCrsLonLat();
      if (w == "copy") return GeometryDataType(x);
      if (w == "move") return GeometryDataType(std::move(dt(a[1])));
      if (w == "id") return GeometryDataType::Make(x.id(), x.extension_metadata());
      if (w == "parts") return GeometryDataType::Make(x.geometry_type(), x.dimensions(), x.coord_type(), x.extension_metadata());
      struct Guard {
        struct ArrowSchema s;
        ~Guard() { if (s.release) s.release(&s); }
      } g;
      g.s.release = nullptr;
      if (w == "schema") { x.InitSchema(&g.s); return GeometryDataType::Make(&g.s); }
      if (w == "storage") { x.InitStorageSchema(&g.s); return GeometryDataType::Make(&g.s, x.extension_name(), x.extension_metadata()); }
      exit(3);
    });
  });
  reg("dtassign", [](const Args& a) { dt(a[2]) = dt(a[1]); });
  reg("dtmove", [](const Args& a) { dt(a[2]) = std::move(dt(a[1])); });
  reg("dtdel", [](const Args& a) { dts.erase(a[1]); });
  reg("dtsee", [](const Args& a) { out("dtsee %s", seen(dt(a[1])).c_str()); });
  reg("dtstr", [](const Args& a) { out("dtstr %s", (a.size() > 2 ? dt(a[1]).ToString(atoi(a[2].c_str())) : dt(a[1]).ToString()).c_str()); });
  reg("dtschema", [](const Args& a) {  // dtschema X A storage?
    struct ArrowSchema* s = schema_slot(a[2]);
    try {
      if (a[3] == "1") dt(a[1]).InitStorageSchema(s); else dt(a[1]).InitSchema(s);
      out("dtschema ok");
    } catch (geoarrow::Exception&) { out("dtschema refused"); }
  });
  reg("dtfrom", [](const Args& a) {  // dtfrom Y A [ext meta]
    made("dtfrom", a[1], [&] {
      struct ArrowSchema* s = schema_named(a[2]);
      return a.size() > 3 ? GeometryDataType::Make(s, txt(a[3]), txt(a[4])) : GeometryDataType::Make((const struct ArrowSchema*)s);
    });
  });
}
