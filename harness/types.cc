// Type identifiers, schemas and what reading them back gives.
#include "vm.h"
extern "C" {
int c_make(int, int, int); int c_geom(int); int c_dim(int); int c_coord(int); const char* c_ext(int); const char* c_name(char, int);
int c_schema(struct ArrowSchema*, int, int); int c_view(struct GeoArrowSchemaView*, int); int c_arrayview(struct GeoArrowArrayView*, int);
int c_builder(struct GeoArrowBuilder*, int);
}
static std::map<std::string, std::shared_ptr<struct ArrowSchema>> schemas;
struct ArrowSchema* schema_slot(const std::string& name) {
  auto s = std::shared_ptr<struct ArrowSchema>(new ArrowSchema(), [](struct ArrowSchema* p) { if (p->release) p->release(p); delete p; });
  s->release = nullptr;
  schemas[name] = s;
  defer([name] { schemas.erase(name); });
  return s.get();
}
struct ArrowSchema* schema_named(const std::string& name) { return schemas.at(name).get(); }
static std::string tree_text(const struct ArrowSchema* s) {
  std::string r = std::string(s->format ? s->format : "~") + "|" + (s->name ? s->name : "") + "|" + std::to_string(s->n_children);
  for (int64_t i = 0; i < s->n_children; i++) r += ";" + tree_text(s->children[i]);
  return r;
}
static void build_tree(struct ArrowSchema* s, const std::vector<std::string>& nodes, size_t* at) {
  auto p = split(nodes.at((*at)++), '|');
  ArrowSchemaInit(s);
  ArrowSchemaSetFormat(s, p[0].c_str());
  ArrowSchemaSetName(s, p[1] == "~" ? nullptr : p[1].c_str());
  int n = atoi(p[2].c_str());
  if (n) {
    ArrowSchemaAllocateChildren(s, n);
    for (int i = 0; i < n; i++) build_tree(s->children[i], nodes, at);
  }
}
static std::string shape_text(const struct ArrowArray* a) {
  std::string r = std::to_string(a->n_buffers) + "/" + std::to_string(a->n_children);
  for (int64_t i = 0; i < a->n_children; i++) r += ";" + shape_text(a->children[i]);
  return r;
}
static std::string sv_text(const struct GeoArrowStringView& s) { return s.data ? (s.size_bytes ? hex(s.data, s.size_bytes) : "empty") : "none"; }
static std::string view_text(const struct GeoArrowSchemaView& v) {
  return "t=" + std::to_string((int)v.type) + " g=" + std::to_string((int)v.geometry_type) + " d=" + std::to_string((int)v.dimensions) + " c=" +
         std::to_string((int)v.coord_type) + " ext=" + (v.extension_name.data ? std::string(v.extension_name.data, v.extension_name.size_bytes) : "-") +
         " meta=" + sv_text(v.extension_metadata);
}
template <typename T, typename F>
static std::string guarded(T* v, F f, bool* ok) {
  T before;
  memset(&before, 0x5a, sizeof before);
  memcpy((void*)v, &before, sizeof before);
  int rc = f();
  *ok = rc == 0;
  if (!rc) return "";
  return memcmp((void*)v, &before, sizeof before) ? "refused,modified" : "refused";
}
void register_types() {
  reg("tmake", [](const Args& a) { out("tmake %d", c_make(atoi(a[1].c_str()), atoi(a[2].c_str()), atoi(a[3].c_str()))); });
  reg("tstep", [](const Args& a) {  // tstep from what val
    int t = atoi(a[1].c_str()), v = atoi(a[3].c_str()), g = c_geom(t), d = c_dim(t), c = c_coord(t);
    (a[2] == "g" ? g : a[2] == "d" ? d : c) = v;
    out("tstep %d", c_make(g, d, c));
  });
  reg("tfacts", [](const Args& a) {
    int t = atoi(a[1].c_str());
    const char* e = c_ext(t);
    out("tfacts %d %d %d %s remake=%d", c_geom(t), c_dim(t), c_coord(t), e ? e : "-", c_make(c_geom(t), c_dim(t), c_coord(t)));
  });
  reg("tremake", [](const Args& a) { int t = atoi(a[1].c_str()); out("tremake %d", c_make(c_geom(t), c_dim(t), c_coord(t))); });
  reg("tname", [](const Args& a) { out("tname %s", c_name(a[1][0], atoi(a[2].c_str()))); });
  reg("tschema", [](const Args& a) {  // tschema X t 0|1
    struct ArrowSchema* s = schema_slot(a[1]);
    int rc = c_schema(s, atoi(a[2].c_str()), atoi(a[3].c_str()));
    if (rc) { out("tschema %s%s", rc ? "refused" : "", s->release ? ",unreleased" : ""); return; }
    out("tschema %s", tree_text(s).c_str());
  });
  reg("tview", [](const Args& a) {
    struct GeoArrowSchemaView v;
    bool ok;
    std::string r = guarded(&v, [&] { return c_view(&v, atoi(a[1].c_str())); }, &ok);
    out("tview %s", ok ? view_text(v).c_str() : r.c_str());
  });
  reg("taview", [](const Args& a) {
    struct GeoArrowArrayView v;
    int rc = c_arrayview(&v, atoi(a[1].c_str()));
    if (rc) out("taview refused");
    else out("taview lists=%d dims=%d type=%d", (int)v.n_offsets, (int)v.coords.n_values, (int)v.schema_view.type);
  });
  reg("tshape", [](const Args& a) {  // layout of an empty array from a builder
    struct GeoArrowBuilder b;
    int rc = c_builder(&b, atoi(a[1].c_str()));
    if (rc) { outs("tshape refused"); return; }
    struct ArrowArray arr;
    arr.release = nullptr;
    rc = GeoArrowBuilderFinish(&b, &arr, nullptr);
    if (rc) out("tshape !%s", rcs(rc).c_str());
    else { out("tshape %s", shape_text(&arr).c_str()); arr.release(&arr); }
    GeoArrowBuilderReset(&b);
  });
  reg("smk", [](const Args& a) {  // smk X tree ext(~ none, hex)|- meta(~ none, hex)
    struct ArrowSchema* s = schema_slot(a[1]);
    size_t at = 0;
    build_tree(s, split(a[2], ';'), &at);
    struct ArrowBuffer m;
    if (ArrowMetadataBuilderInit(&m, nullptr)) exit(3);
    auto put = [&](const char* key, const std::string& v) {
      std::string t = unhex(v);
      struct ArrowStringView sv = {t.data(), (int64_t)t.size()};
      if (ArrowMetadataBuilderAppend(&m, ArrowCharView(key), sv)) exit(3);
    };
    put("other", "78");
    if (a[4] != "~" && a.size() > 5) put("ARROW:extension:metadata", a[4]);
    if (a[3] != "~") put("ARROW:extension:name", a[3] == "-" ? "" : a[3]);
    if (a[4] != "~" && a.size() == 5) put("ARROW:extension:metadata", a[4] == "-" ? "" : a[4]);
    ArrowSchemaSetMetadata(s, (const char*)m.data);
    ArrowBufferReset(&m);
  });
  reg("sview", [](const Args& a) {  // sview X [ext hex|-|~]   (with ext: from storage)
    struct ArrowSchema* s = schemas.at(a[1]).get();
    struct GeoArrowSchemaView v;
    struct GeoArrowError e;
    e.message[0] = 0;
    bool ok;
    std::string name = a.size() > 2 && a[2] != "-" && a[2] != "~" ? unhex(a[2]) : "";
    Exact exact(name.data(), name.size());
    struct GeoArrowStringView nv = {a.size() > 2 && a[2] == "~" ? nullptr : exact.p, (int64_t)name.size()};
    std::string r = guarded(&v, [&] { return a.size() > 2 ? GeoArrowSchemaViewInitFromStorage(&v, s, nv, &e) : GeoArrowSchemaViewInit(&v, s, &e); }, &ok);
    out("sview %s", ok ? view_text(v).c_str() : r.c_str());
  });
}
