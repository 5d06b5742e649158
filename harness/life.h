// Shared between the C and the C++ half of the life-cycle harness.
#pragma once
#include "vm.h"
struct Armed { Armed(); ~Armed(); };               // allocations may fail while one is alive
struct LifeObj {
  virtual ~LifeObj() {}
  virtual int feed(int) { return -1; }
  virtual int open() { return -1; }
  virtual int finish(struct ArrowArray*) { return -1; }
  virtual int set(struct ArrowArray*, bool) { return -1; }
  virtual int visit(struct GeoArrowVisitor*) { return -1; }
  virtual int start(int, const std::string&) { return -1; }
  virtual int push(struct ArrowArray*, struct ArrowArray*) { return -1; }
  virtual int udf(int, int64_t, struct ArrowArray*) { return -1; }
  virtual int node(int) { return -1; }
  virtual int copy(LifeObj*) { return -1; }
  virtual int build(struct GeoArrowVisitor*) { return -1; }
  virtual int own(int /*i*/, int /*id*/, const void*, size_t) { return -1; }   // a counted buffer
  virtual int append(int, struct GeoArrowBufferView) { return -1; }
  virtual int meta(int) { return -1; }
  virtual bool reset() { return true; }              // true: marked as released, where it is
};
typedef LifeObj* (*LifeMaker)(int enc);
std::map<std::string, LifeMaker>& life_makers();
void life_freed(int id);
