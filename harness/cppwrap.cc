// The C++ wrappers around the array writer and the builder, used as writers like any other.
#include "geoarrow/geoarrow.hpp"
#include "vm.h"
struct Ext {
  struct ArrowSchema s;
  Ext(int type) {
    s.release = nullptr;
    if (GeoArrowSchemaInitExtension(&s, (enum GeoArrowType)type)) throw ::geoarrow::ErrnoException(EINVAL, "schema", nullptr);
  }
  ~Ext() { if (s.release) s.release(&s); }
};
template <typename F> static int tried(F f) {
  try { f(); return 0; } catch (::geoarrow::ErrnoException& e) { return e.code; } catch (::geoarrow::Exception&) { return EINVAL; }
}
template <typename T> static T* made(int how, int type) {
  if (how % 3 == 0) return new T((enum GeoArrowType)type);
  Ext x(type);
  if (how % 3 == 1) return new T(geoarrow::GeometryDataType::Make(&x.s));
  return new T(&x.s);
}
struct W : PPWriter {
  std::unique_ptr<geoarrow::ArrayWriter> w;
  int finish(struct ArrowArray* out) override { return tried([&] { w->Finish(out); }); }
};
struct Bd : PPBuilder {
  std::unique_ptr<geoarrow::ArrayBuilder> b;
  struct GeoArrowBuilder* builder() override { return b->builder(); }
  int app(int64_t i, const uint8_t* p, int64_t n) override {
    if (n % 8 == 0) {
      std::vector<uint64_t> v(n / 8);
      if (n) memcpy(v.data(), p, n);
      return tried([&] { b->AppendToBuffer(i, v); });
    }
    std::vector<uint8_t> v(p, p + n);
    return tried([&] { b->AppendToBuffer(i, v); });
  }
  int offs(int64_t i, const std::vector<int32_t>& v) override { return tried([&] { b->AppendToOffsetBuffer(i, v); }); }
  int coords(const struct GeoArrowCoordView* c, int d, int64_t off, int64_t n) override {
    return tried([&] { b->AppendCoords(c, (enum GeoArrowDimensions)d, off, n); });
  }
  int finish(struct ArrowArray* out) override { return tried([&] { b->Finish(out); }); }
};
void register_cppwrap() {
  pp_writer = [](int how, int type, int prec, int flat, int* rc) -> PPWriter* {
    std::unique_ptr<W> w(new W());
    *rc = tried([&] {
      w->w.reset(made<geoarrow::ArrayWriter>(how, type));
      if (prec >= 0) w->w->SetPrecision(prec);
      if (flat >= 0) w->w->SetFlatMultipoint(flat != 0);
      w->v = w->w->visitor();
    });
    return w.release();
  };
  pp_builder = [](int how, int type, int* rc) -> PPBuilder* {
    std::unique_ptr<Bd> w(new Bd());
    *rc = tried([&] { w->b.reset(made<geoarrow::ArrayBuilder>(how, type)); });
    return w.release();
  };
}
