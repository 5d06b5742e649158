// Replay machine: executes small scripts against the public geoarrow API and prints
// observations in a canonical text form.  It contains no expectations of its own.
#pragma once
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "geoarrow/geoarrow.h"
#include "nanoarrow/nanoarrow.h"

using Args = std::vector<std::string>;
void reg(const char* name, std::function<void(const Args&)> fn);
std::string rcs(int rc);
std::string num(double v);
std::vector<std::string> split(const std::string& s, char sep);
std::string hex(const void* p, size_t n);
std::string unhex(const std::string& s);
void out(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void outs(const std::string& s);

// Deferred destructors of everything created in the current case (run LIFO at "end").
void defer(std::function<void()> fn);

// exact-size heap copy so that ASan sees any access outside it
struct Exact {
  char* p;
  size_t n;
  Exact(const void* src, size_t n_) : p((char*)malloc(n_ ? n_ : 1)), n(n_) {
    if (n_) memcpy(p, src, n_);
    if (!n_) { free(p); p = (char*)malloc(1); poison(); }
  }
  ~Exact();
  void poison();
  Exact(const Exact&) = delete;
};

// the C++ owners of cppwrap.cc (null where that file was left out)
struct PPWriter {
  struct GeoArrowVisitor* v = nullptr;
  virtual ~PPWriter() {}
  virtual int finish(struct ArrowArray* out) = 0;
};
struct PPBuilder {
  virtual ~PPBuilder() {}
  virtual struct GeoArrowBuilder* builder() = 0;
  virtual int app(int64_t i, const uint8_t* p, int64_t n) = 0;
  virtual int offs(int64_t i, const std::vector<int32_t>& v) = 0;
  virtual int coords(const struct GeoArrowCoordView* c, int d, int64_t off, int64_t n) = 0;
  virtual int finish(struct ArrowArray* out) = 0;
};
extern PPWriter* (*pp_writer)(int how, int type, int prec, int flat, int* rc);
extern PPBuilder* (*pp_builder)(int how, int type, int* rc);

struct ArrowArray* array_slot(const std::string& name, bool fresh);
struct GeoArrowVisitor* visitor_of(const std::string& name);
struct GeoArrowError* error_of(const std::string& name);
struct GeoArrowGeometry* geom_of(const std::string& name);
std::string show_array(const struct ArrowArray* a, int type);

// coordinates start..start+n-1 of the numbering convention in one of several memory layouts
struct CoordStore;
std::shared_ptr<CoordStore> coords_of(int d, int64_t start, int64_t n, int layout);
const struct GeoArrowCoordView* view_of_coords(CoordStore* s);
