// Extension metadata.
#include "vm.h"
struct ArrowSchema* schema_named(const std::string& name);
static struct GeoArrowMetadataView view_from(const Args& a, size_t at, std::vector<std::shared_ptr<Exact>>* keep) {
  struct GeoArrowMetadataView v;
  memset(&v, 0, sizeof v);
  v.edge_type = (enum GeoArrowEdgeType)atoi(a[at].c_str());
  v.crs_type = (enum GeoArrowCrsType)atoi(a[at + 1].c_str());
  std::string c = a[at + 2] == "-" ? "" : unhex(a[at + 2]);
  keep->push_back(std::make_shared<Exact>(c.data(), c.size()));
  v.crs.data = keep->back()->p;
  v.crs.size_bytes = (int64_t)c.size();
  return v;
}
static std::string hexs(const std::string& s) { return s.empty() ? "-" : hex(s.data(), s.size()); }
void register_meta() {
  reg("minit", [](const Args& a) {  // minit HEX
    std::string t = a[1] == "-" ? "" : unhex(a[1]);
    Exact e(t.data(), t.size());
    struct GeoArrowStringView sv = {e.p, (int64_t)t.size()};
    struct GeoArrowMetadataView v, before;
    memset(&before, 0x5a, sizeof before);
    memcpy((void*)&v, &before, sizeof v);
    struct GeoArrowError err;
    err.message[0] = 0;
    int rc = GeoArrowMetadataViewInit(&v, sv, &err);
    if (rc) { out("minit refused%s", memcmp(&v, &before, sizeof v) ? ",modified" : ""); return; }
    out("minit %d %d %s", (int)v.edge_type, (int)v.crs_type, v.crs.size_bytes ? hexs(std::string(v.crs.data, v.crs.size_bytes)).c_str() : "-");
  });
  reg("munesc", [](const Args& a) {  // munesc HEX n
    std::string t = a[1] == "-" ? "" : unhex(a[1]);
    Exact e(t.data(), t.size());
    struct GeoArrowStringView sv = {e.p, (int64_t)t.size()};
    int64_t n = atoll(a[2].c_str());
    std::vector<char> buf(n > 0 ? n : 1, '\x7e');
    Exact b(buf.data(), n);
    int64_t r = GeoArrowUnescapeCrs(sv, b.p, n);
    std::string got(b.p, (size_t)std::min(n, r));
    out("munesc %lld %s%s", (long long)r, hexs(got).c_str(), r < n ? (b.p[r] == 0 ? " nul" : " !nul") : "");
  });
  reg("mser", [](const Args& a) {  // mser edge ctype crs extra   (buffer of the reported size + extra)
    std::vector<std::shared_ptr<Exact>> keep;
    auto v = view_from(a, 1, &keep);
    int64_t need = GeoArrowMetadataSerialize(&v, nullptr, 0);
    int64_t n = need + atoll(a[4].c_str());
    if (n < 0) n = 0;
    std::vector<char> buf(n > 0 ? n : 1, '\x7e');
    Exact b(buf.data(), n);
    int64_t r = GeoArrowMetadataSerialize(&v, b.p, n);
    std::string got(b.p, (size_t)std::min(n, r));
    out("mser %lld %s%s", (long long)r, n < r ? "-" : hexs(got).c_str(), r < n ? (b.p[r] == 0 ? " nul" : " !nul") : "");
  });
  reg("mset", [](const Args& a) {  // mset SCHEMA edge ctype crs
    std::vector<std::shared_ptr<Exact>> keep;
    auto v = view_from(a, 2, &keep);
    int rc = GeoArrowSchemaSetMetadata(schema_named(a[1]), &v);
    out("mset %s", rcs(rc).c_str());
  });
  reg("msetfrom", [](const Args& a) { out("msetfrom %s", rcs(GeoArrowSchemaSetMetadataFrom(schema_named(a[1]), schema_named(a[2]))).c_str()); });
  reg("mdump", [](const Args& a) {  // all key/value pairs of a schema, sorted by key
    struct ArrowMetadataReader r;
    ArrowMetadataReaderInit(&r, schema_named(a[1])->metadata);
    struct ArrowStringView k, v;
    std::vector<std::string> all;
    while (ArrowMetadataReaderRead(&r, &k, &v) == 0) all.push_back(std::string(k.data, k.size_bytes) + "=" + hexs(std::string(v.data, v.size_bytes)));
    std::sort(all.begin(), all.end());
    std::string s = "mdump";
    for (auto& x : all) s += " " + x;
    outs(s);
  });
  reg("mlonlat", [](const Args&) {
    struct GeoArrowMetadataView v;
    memset(&v, 0, sizeof v);
    v.edge_type = GEOARROW_EDGE_TYPE_SPHERICAL;
    GeoArrowMetadataSetLonLat(&v);
    out("mlonlat %d %d %c", (int)v.edge_type, (int)v.crs_type, v.crs.data[0]);
  });
  reg("mdeep", [](const Args& a) {  // mdeep open depth close: {"k":<open^depth><close^depth>}
    std::string t = "{\"k\":";
    std::string o = unhex(a[1]), c = a[3] == "-" ? "" : unhex(a[3]);
    int n = atoi(a[2].c_str());
    for (int i = 0; i < n; i++) t += o;
    for (int i = 0; i < n; i++) t += c;
    t += "}";
    Exact e(t.data(), t.size());
    struct GeoArrowStringView sv = {e.p, (int64_t)t.size()};
    struct GeoArrowMetadataView v;
    out("mdeep %s", GeoArrowMetadataViewInit(&v, sv, nullptr) ? "refused" : "ok");
  });
}
