// The C++ owners: ArrayWriter, ArrayReader, ArrayBuilder.
#include "geoarrow/geoarrow.hpp"
#include "life.h"
// a container that reports when its last owner lets go of it
struct Counted {
  typedef double value_type;
  std::unique_ptr<std::vector<double>> v;
  int id;
  Counted(int i) : v(new std::vector<double>()), id(i) {}
  Counted(Counted&& o) : v(std::move(o.v)), id(o.id) {}
  ~Counted() { if (v) life_freed(id); }
  const double* data() const { return v->data(); }
  size_t size() const { return v->size(); }
};
struct CountedBits {
  typedef uint8_t value_type;
  std::unique_ptr<std::vector<uint8_t>> v;
  int id;
  CountedBits(int i) : v(new std::vector<uint8_t>()), id(i) {}
  CountedBits(CountedBits&& o) : v(std::move(o.v)), id(o.id) {}
  ~CountedBits() { if (v) life_freed(id); }
  const uint8_t* data() const { return v->data(); }
  size_t size() const { return v->size(); }
};
template <typename F> static int tried(F f) {
  try { f(); return 0; } catch (::geoarrow::Exception&) { return 1; }
}
struct XWriter : LifeObj {
  std::unique_ptr<geoarrow::ArrayWriter> w;
  int init(int e) { return tried([&] { Armed arm; w.reset(new geoarrow::ArrayWriter((enum GeoArrowType)e)); }); }
  int feed(int r) override {
    struct GeoArrowVisitor* v = nullptr;
    if (tried([&] { Armed arm; v = w->visitor(); })) return 1;
    double xy[2] = {10.0 * r + 1, 10.0 * r + 2};
    struct GeoArrowCoordView c;
    memset(&c, 0, sizeof c);
    c.n_coords = 1; c.n_values = 2; c.coords_stride = 1;
    c.values[0] = xy; c.values[1] = xy + 1;
    Armed arm;
    int rc = v->feat_start(v);
    if (r < 0) { if (!rc) rc = v->null_feat(v); }
    else {
      if (!rc) rc = v->geom_start(v, GEOARROW_GEOMETRY_TYPE_POINT, GEOARROW_DIMENSIONS_XY);
      if (!rc) rc = v->coords(v, &c);
      if (!rc) rc = v->geom_end(v);
    }
    return rc ? rc : v->feat_end(v);
  }
  int open() override {
    struct GeoArrowVisitor* v = nullptr;
    if (tried([&] { Armed arm; v = w->visitor(); })) return 1;
    Armed arm;
    int rc = v->feat_start(v);
    return rc ? rc : v->geom_start(v, GEOARROW_GEOMETRY_TYPE_POINT, GEOARROW_DIMENSIONS_XY);
  }
  int finish(struct ArrowArray* o) override { return tried([&] { Armed arm; w->Finish(o); }); }
};
struct XReader : LifeObj {
  std::unique_ptr<geoarrow::ArrayReader> r;
  int64_t n = 0;
  int init(int e) { return tried([&] { Armed arm; r.reset(new geoarrow::ArrayReader((enum GeoArrowType)e)); }); }
  int set(struct ArrowArray* a, bool own) override {
    n = a->length;
    return tried([&] { Armed arm; if (own) r->SetArray(a); else r->SetArrayNonOwning(a); });
  }
  int visit(struct GeoArrowVisitor* v) override { Armed arm; return r->Visit(v, 0, n); }
};
struct XBuilder : LifeObj {
  std::unique_ptr<geoarrow::ArrayBuilder> b;
  int init(int e) { return tried([&] { Armed arm; b.reset(new geoarrow::ArrayBuilder((enum GeoArrowType)e)); }); }
  int own(int i, int id, const void* data, size_t n) override {
    const uint8_t* bytes = (const uint8_t*)data;
    return tried([&] {
      if (i == 0) {
        CountedBits c(id);
        c.v->assign(bytes, bytes + n);
        Armed arm;
        b->SetBufferWrapped(0, std::move(c));
      } else {
        Counted c(id);
        c.v->assign((const double*)data, (const double*)(bytes + n));
        GeoArrowBufferView whole = {(const uint8_t*)c.v->data(), (int64_t)n};
        Armed arm;
        if (i == 1) b->SetBufferWrapped(1, std::move(c));
        else b->SetBufferWrapped(2, std::move(c), whole);
      }
    });
  }
  int append(int i, struct GeoArrowBufferView value) override {
    return tried([&] {
      Armed arm;
      if (i == 0) b->AppendToBuffer(0, std::vector<uint8_t>(value.data, value.data + value.size_bytes));
      else b->AppendToBuffer(i, std::vector<double>((const double*)value.data, (const double*)(value.data + value.size_bytes)));
    });
  }
  int finish(struct ArrowArray* o) override { return tried([&] { Armed arm; b->Finish(o); }); }
};
struct XSchema : LifeObj {
  struct ArrowSchema s;
  int init(int e) {
    geoarrow::GeometryDataType t = geoarrow::GeometryDataType::Make((enum GeoArrowType)(e % 1000000), "{\"crs\":\"EPSG:1234\"}");
    return tried([&] { Armed arm; if (e < 1000000) t.InitSchema(&s); else t.InitStorageSchema(&s); });
  }
  bool reset() override { s.release(&s); return s.release == nullptr; }
};
template <typename T> static LifeObj* make(int e) {
  std::unique_ptr<T> x(new T());
  return x->init(e) ? nullptr : x.release();
}
void register_lifepp() {
  life_makers()["xwr"] = &make<XWriter>;
  life_makers()["xrd"] = &make<XReader>;
  life_makers()["xbld"] = &make<XBuilder>;
  life_makers()["xschema"] = &make<XSchema>;
}
