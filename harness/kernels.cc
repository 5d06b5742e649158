// Kernels: life cycle and typed dumps of what they produce.
#include "vm.h"
static std::map<std::string, std::shared_ptr<struct GeoArrowKernel>> kernels;
static std::string meta_of(struct ArrowSchema* s) {
  struct ArrowStringView meta = ArrowCharView(nullptr), km = ArrowCharView("ARROW:extension:metadata");
  ArrowMetadataGetValue(s->metadata, km, &meta);
  return meta.data ? std::string(meta.data, meta.size_bytes) : "";
}
static std::string schema_text(struct ArrowSchema* s, struct ArrowSchema* in) {
  if (!s->release) return "none";
  std::string r = std::string("fmt=") + (s->format ? s->format : "(null)") + " kids=" + std::to_string(s->n_children);
  struct ArrowStringView ext = ArrowCharView(nullptr), meta = ArrowCharView(nullptr);
  struct ArrowStringView ke = ArrowCharView("ARROW:extension:name"), km = ArrowCharView("ARROW:extension:metadata");
  ArrowMetadataGetValue(s->metadata, ke, &ext);
  ArrowMetadataGetValue(s->metadata, km, &meta);
  r += " ext=" + (ext.data ? std::string(ext.data, ext.size_bytes) : "-");
  r += " meta=" + std::string(!meta.data ? "none" : meta_of(s) == meta_of(in) ? "same" : meta_of(s));
  struct GeoArrowSchemaView v;
  if (ext.data) r += GeoArrowSchemaViewInit(&v, s, nullptr) ? " type=!" : " type=" + std::to_string((int)v.type);
  return r;
}
// the metadata argument: "-" none, otherwise hex of the text
static bool in_schema(struct ArrowSchema* s, const std::string& type, const std::string& meta) {
  if (type == "int") return ArrowSchemaInitFromType(s, NANOARROW_TYPE_INT32) == 0;
  if (GeoArrowSchemaInitExtension(s, (enum GeoArrowType)atoi(type.c_str()))) return false;
  if (meta == "-") return true;
  std::string m = unhex(meta);
  struct GeoArrowMetadataView mv;
  struct GeoArrowStringView sv = {m.data(), (int64_t)m.size()};
  if (GeoArrowMetadataViewInit(&mv, sv, nullptr)) return false;
  return GeoArrowSchemaSetMetadata(s, &mv) == 0;
}
void register_kernels() {
  reg("knew", [](const Args& a) {  // knew K name
    auto k = std::shared_ptr<struct GeoArrowKernel>(new GeoArrowKernel(), [](struct GeoArrowKernel* p) {
      if (p->release) p->release(p);
      delete p; });
    memset(k.get(), 0, sizeof *k);
    int rc = GeoArrowKernelInit(k.get(), a[2].c_str(), nullptr);
    if (rc) { out("knew %s", rcs(rc).c_str()); return; }
    kernels[a[1]] = k;
    std::string n = a[1];
    defer([n] { kernels.erase(n); });
  });
  reg("kstart", [](const Args& a) {  // kstart K TYPE opts meta
    struct ArrowSchema in, os;
    memset(&os, 0, sizeof os);
    if (!in_schema(&in, a[2], a[4])) { outs("kstart !schema"); return; }
    struct ArrowBuffer ob;
    ArrowBufferInit(&ob);
    if (ArrowMetadataBuilderInit(&ob, nullptr)) exit(3);
    if (a[3] != "-")
      for (auto& kv : split(a[3], ',')) {
        size_t p = kv.find('=');
        std::string key = kv.substr(0, p), val = kv.substr(p + 1);
        struct ArrowStringView k = {key.data(), (int64_t)key.size()}, v = {val.data(), (int64_t)val.size()};
        if (ArrowMetadataBuilderAppend(&ob, k, v)) exit(3);
      }
    struct GeoArrowError e;
    memset(&e, 0, sizeof e);
    struct GeoArrowKernel* k = kernels[a[1]].get();
    int rc = k->start(k, &in, a[3] == "-" && a.size() < 6 ? nullptr : (const char*)ob.data, &os, &e);
    if (rc && os.release) outs("kstart !output-of-failure");
    outs("kstart " + rcs(rc) + (rc ? "" : " " + schema_text(&os, &in)));
    if (os.release) os.release(&os);
    in.release(&in);
    ArrowBufferReset(&ob);
  });
  reg("kpush", [](const Args& a) {  // kpush K A OUT|-
    struct GeoArrowKernel* k = kernels[a[1]].get();
    struct GeoArrowError e;
    memset(&e, 0, sizeof e);
    struct ArrowArray* o = a[3] == "-" ? nullptr : array_slot(a[3], true);
    int rc = k->push_batch(k, array_slot(a[2], false), o, &e);
    out("kpush %s%s", rcs(rc).c_str(), rc && o && o->release ? " !output-of-failure" : "");
  });
  reg("kfin", [](const Args& a) {
    struct GeoArrowKernel* k = kernels[a[1]].get();
    struct GeoArrowError e;
    memset(&e, 0, sizeof e);
    struct ArrowArray* o = a[2] == "-" ? nullptr : array_slot(a[2], true);
    int rc = k->finish(k, o, &e);
    out("kfin %s%s", rcs(rc).c_str(), rc && o && o->release ? " !output-of-failure" : "");
  });
  reg("krel", [](const Args& a) {
    struct GeoArrowKernel* k = kernels[a[1]].get();
    k->release(k);
    out("krel %d", k->release == nullptr);
  });
  auto valid = [](struct ArrowArray* x, int64_t i) {
    const uint8_t* b = (const uint8_t*)x->buffers[0];
    i += x->offset;
    return !b || ((b[i >> 3] >> (i & 7)) & 1);
  };
  reg("showbox", [valid](const Args& a) {
    struct ArrowArray* x = array_slot(a[1], false);
    if (!x->release) { outs("box released"); return; }
    std::string s = "box len=" + std::to_string(x->length) + " nulls=" + std::to_string(x->null_count) + " ";
    if (x->n_children != 4) { outs(s + "!children"); return; }
    for (int j = 0; j < 4; j++) if (x->children[j]->length != x->length) s += "!childlen";
    for (int64_t i = 0; i < x->length; i++) {
      if (i) s += "|";
      if (!valid(x, i)) { s += "null"; continue; }
      for (int j = 0; j < 4; j++)
        s += (j ? "," : "") + num(((const double*)x->children[j]->buffers[1])[x->children[j]->offset + x->offset + i]);
    }
    outs(s);
  });
  reg("showint", [valid](const Args& a) {
    struct ArrowArray* x = array_slot(a[1], false);
    if (!x->release) { outs("int released"); return; }
    std::string s = "int len=" + std::to_string(x->length) + " nulls=" + std::to_string(x->null_count) + " ";
    for (int64_t i = 0; i < x->length; i++)
      s += (i ? "," : "") + (valid(x, i) ? std::to_string(((const int32_t*)x->buffers[1])[x->offset + i]) : "null");
    outs(s);
  });
  reg("shownull", [](const Args& a) {
    struct ArrowArray* x = array_slot(a[1], false);
    if (!x->release) { outs("null released"); return; }
    out("null len=%lld nulls=%lld bufs=%lld kids=%lld", (long long)x->length, (long long)x->null_count, (long long)x->n_buffers, (long long)x->n_children);
  });
}
