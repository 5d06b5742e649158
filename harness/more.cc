#include "vm.h"
// ------------------------------------------------------------------- raw builder
struct BuilderT {
  struct GeoArrowBuilder b;
  struct GeoArrowBuilder* p = &b;
  std::unique_ptr<PPBuilder> pp;
  int mode = 0;  // 0: append; 1: reserve, check, append in one go; 2: the same, element by element
  bool alive = false;
  ~BuilderT() { if (alive && !pp) GeoArrowBuilderReset(&b); }
};
static std::map<std::string, std::shared_ptr<BuilderT>> builders;
static std::map<int, int> free_count;
static std::vector<int> freed_now;
struct Owned { int id; uint8_t* p; int64_t n; };
static void owned_free(uint8_t* ptr, int64_t size, void* pd) {
  Owned* o = (Owned*)pd;
  freed_now.push_back(o->id);
  free_count[o->id]++;
  if (ptr != o->p) freed_now.push_back(-1);
  if (size != o->n) freed_now.push_back(-2);
  free(ptr);
  delete o;
}
static struct BuilderT* bld(const std::string& n) { return builders[n].get(); }
static std::vector<struct ArrowArray*> null_arr;

void register_builder() {
  reg("bnew", [](const Args& a) {  // bnew B type
    auto t = std::make_shared<BuilderT>();
    int rc = GeoArrowBuilderInitFromType(&t->b, (enum GeoArrowType)atoi(a[2].c_str()));
    t->alive = rc == 0;
    builders[a[1]] = t;
    freed_now.clear();
    free_count.clear();
    defer([]() { builders.clear(); });
    out("bnew %s", rcs(rc).c_str());
  });
  reg("bnewschema", [](const Args& a) {
    auto t = std::make_shared<BuilderT>();
    struct ArrowSchema s;
    s.release = nullptr;
    int rc = GeoArrowSchemaInitExtension(&s, (enum GeoArrowType)atoi(a[2].c_str()));
    if (!rc) rc = GeoArrowBuilderInitFromSchema(&t->b, &s, nullptr);
    if (s.release) s.release(&s);
    t->alive = rc == 0;
    builders[a[1]] = t;
    freed_now.clear();
    free_count.clear();
    defer([]() { builders.clear(); });
    out("bnew %s", rcs(rc).c_str());
  });
  reg("bnewpp", [](const Args& a) {  // bnewpp B type how
    if (!pp_builder) exit(2);
    auto t = std::make_shared<BuilderT>();
    int rc = 0;
    t->pp.reset(pp_builder(atoi(a[3].c_str()), atoi(a[2].c_str()), &rc));
    t->alive = rc == 0;
    if (!rc) t->p = t->pp->builder();
    builders[a[1]] = t;
    freed_now.clear();
    free_count.clear();
    defer([]() { builders.clear(); });
    out("bnew %s", rcs(rc).c_str());
  });
  reg("bmode", [](const Args& a) { bld(a[1])->mode = atoi(a[2].c_str()); });
  reg("bapp", [](const Args& a) {  // bapp B i hex
    std::string s = unhex(a[3]);
    Exact e(s.data(), s.size());
    struct GeoArrowBufferView v;
    v.data = (const uint8_t*)e.p;
    v.size_bytes = e.n;
    BuilderT* t = bld(a[1]);
    int i = atoi(a[2].c_str()), rc;
    if (t->pp) rc = t->pp->app(i, v.data, v.size_bytes);
    else if (!t->mode) rc = GeoArrowBuilderAppendBuffer(t->p, i, v);
    else {
      rc = GeoArrowBuilderReserveBuffer(t->p, i, v.size_bytes);
      if (!rc && !GeoArrowBuilderBufferCheck(t->p, i, v.size_bytes)) rc = -7;
      if (!rc && t->mode == 1) GeoArrowBuilderAppendBufferUnsafe(t->p, i, v);
      for (int64_t k = 0; !rc && t->mode == 2 && k < e.n; k++) {
        v.data = (const uint8_t*)e.p + k;
        v.size_bytes = 1;
        GeoArrowBuilderAppendBufferUnsafe(t->p, i, v);
      }
    }
    out("bapp %s", rcs(rc).c_str());
  });
  reg("boffs", [](const Args& a) {  // boffs B level v,v,v
    std::vector<int32_t> v;
    for (auto& x : split(a[3], ',')) v.push_back(atoi(x.c_str()));
    BuilderT* t = bld(a[1]);
    int i = atoi(a[2].c_str()), rc;
    int64_t n = v.size();
    if (t->pp) rc = t->pp->offs(i, v);
    else if (!t->mode) rc = GeoArrowBuilderOffsetAppend(t->p, i, v.data(), n);
    else {
      rc = GeoArrowBuilderOffsetReserve(t->p, i, n);
      if (!rc && !GeoArrowBuilderOffsetCheck(t->p, i, n)) rc = -7;
      if (!rc && t->mode == 1) GeoArrowBuilderOffsetAppendUnsafe(t->p, i, v.data(), n);
      for (int64_t k = 0; !rc && t->mode == 2 && k < n; k++) GeoArrowBuilderOffsetAppendUnsafe(t->p, i, &v[k], 1);
    }
    out("boffs %s", rcs(rc).c_str());
  });
  reg("bown", [](const Args& a) {  // bown B i hex id
    std::string s = unhex(a[3]);
    Owned* o = new Owned();
    o->id = atoi(a[4].c_str());
    o->n = s.size();
    o->p = (uint8_t*)malloc(s.size() ? s.size() : 1);
    if (s.size()) memcpy(o->p, s.data(), s.size());
    struct GeoArrowBufferView v;
    v.data = o->p;
    v.size_bytes = o->n;
    int rc = GeoArrowBuilderSetOwnedBuffer(bld(a[1])->p, atoi(a[2].c_str()), v, owned_free, o);
    if (rc) { free(o->p); delete o; }
    out("bown %s", rcs(rc).c_str());
  });
  reg("bcoords", [](const Args& a) {  // bcoords B srcdim start n layout
    int d = atoi(a[2].c_str());
    int64_t n = atoll(a[4].c_str());
    auto keep = coords_of(d, atoll(a[3].c_str()), n + 1, atoi(a[5].c_str()));
    // the element range starts at offset 1 of the source view for odd layouts
    int64_t off = atoi(a[5].c_str()) % 2;
    BuilderT* t = bld(a[1]);
    const struct GeoArrowCoordView* c = view_of_coords(keep.get());
    enum GeoArrowDimensions dim = (enum GeoArrowDimensions)d;
    int rc;
    if (t->pp) rc = t->pp->coords(c, d, off, n);
    else if (!t->mode) rc = GeoArrowBuilderCoordsAppend(t->p, c, dim, off, n);
    else {
      rc = GeoArrowBuilderCoordsReserve(t->p, n);
      if (!rc && !GeoArrowBuilderCoordsCheck(t->p, n)) rc = -7;
      if (!rc && t->mode == 1) GeoArrowBuilderCoordsAppendUnsafe(t->p, c, dim, off, n);
      for (int64_t k = 0; !rc && t->mode == 2 && k < n; k++) GeoArrowBuilderCoordsAppendUnsafe(t->p, c, dim, off + k, 1);
    }
    out("bcoords %s", rcs(rc).c_str());
  });
  reg("bfin", [](const Args& a) {
    struct GeoArrowError e;
    struct ArrowArray* arr = array_slot(a[2], true);
    BuilderT* t = bld(a[1]);
    out("bfin %s", rcs(t->pp ? t->pp->finish(arr) : GeoArrowBuilderFinish(t->p, arr, &e)).c_str());
  });
  reg("breset", [](const Args& a) {
    if (bld(a[1])->pp) bld(a[1])->pp.reset();
    else GeoArrowBuilderReset(&bld(a[1])->b);
    bld(a[1])->alive = false;
  });
  reg("freed", [](const Args&) {
    std::string s = "freed";
    std::vector<int> v = freed_now;
    std::sort(v.begin(), v.end());
    for (int x : v) { s += " " + std::to_string(x); if (x > 0 && free_count[x] != 1) s += "!x" + std::to_string(free_count[x]); }
    freed_now.clear();
    outs(s);
  });
  // cvcopy srcdim dstdim n srclayout dstlayout : GeoArrowCoordViewCopy
  reg("cvcopy", [](const Args& a) {
    int sd = atoi(a[1].c_str()), dd = atoi(a[2].c_str());
    int64_t n = atoll(a[3].c_str());
    auto keep = coords_of(sd, 0, n + 2, atoi(a[4].c_str()));
    static const int nv[] = {0, 2, 3, 3, 4};
    int k = nv[dd];
    struct GeoArrowWritableCoordView w;
    memset(&w, 0, sizeof w);
    std::vector<double> sent((n + 3) * k, -999);
    Exact mem(sent.data(), sent.size() * 8);
    double* p = (double*)mem.p;
    w.n_values = k;
    w.size_coords = w.capacity_coords = n + 3;
    bool inter = a[5] == "1";
    w.coords_stride = inter ? k : 1;
    for (int j = 0; j < k; j++) w.values[j] = inter ? p + j : p + (n + 3) * j;
    GeoArrowCoordViewCopy(view_of_coords(keep.get()), (enum GeoArrowDimensions)sd, 1, &w, (enum GeoArrowDimensions)dd, 2, n);
    std::string s = "cv ";
    for (int64_t i = 0; i < n + 3; i++) {
      if (i) s += ";";
      for (int j = 0; j < k; j++) { if (j) s += ","; s += num(w.values[j][i * w.coords_stride]); }
    }
    outs(s);
  });
  reg("mapdims", [](const Args& a) {
    int m[4] = {9, 9, 9, 9};
    GeoArrowMapDimensions((enum GeoArrowDimensions)atoi(a[1].c_str()), (enum GeoArrowDimensions)atoi(a[2].c_str()), m);
    static const int nv[] = {0, 2, 3, 3, 4};
    std::string s = "map";
    for (int i = 0; i < nv[atoi(a[2].c_str())]; i++) s += " " + std::to_string(m[i]);
    outs(s);
  });
}
__attribute__((weak)) void register_cpp_wkb();
void register_more() {
  register_builder();
  if (register_cpp_wkb) register_cpp_wkb();
}

