// Arrow arrays laid out exactly as a script says: every buffer is an exact-size heap block.
#include "vm.h"

static long live = 0;
struct RawPriv {
  std::vector<std::unique_ptr<Exact>> mem;
  std::vector<const void*> bufs;
  std::vector<struct ArrowArray*> kids;
};
static void raw_release(struct ArrowArray* a) {
  auto* p = (RawPriv*)a->private_data;
  for (auto* k : p->kids) {
    if (k->release) k->release(k);
    free(k);
  }
  delete p;
  a->release = nullptr;
  live--;
}
template <class T> static std::string pack(const std::string& s) {
  std::string r;
  if (s.empty()) return r;
  for (auto& x : split(s, ',')) {
    T v;
    if (std::is_floating_point<T>::value) v = (T)strtod(x.c_str(), nullptr);
    else v = (T)strtoll(x.c_str(), nullptr, 10);
    r.append((const char*)&v, sizeof v);
  }
  return r;
}
static std::string buf_of(const std::string& s) {
  size_t c = s.find(':');
  std::string k = s.substr(0, c), v = s.substr(c + 1);
  if (k == "i32") return pack<int32_t>(v);
  if (k == "i64") return pack<int64_t>(v);
  if (k == "f64") return pack<double>(v);
  if (k == "hex") return v == "" ? "" : unhex(v);
  if (k == "bits") {
    std::string r((v.size() + 7) / 8, '\0');
    for (size_t i = 0; i < v.size(); i++)
      if (v[i] == '1') r[i / 8] |= (char)(1 << (i % 8));
    return r;
  }
  out("!bad buffer %s", s.c_str());
  exit(3);
}
// raw NAME len off nulls buf|buf child|child
static void cmd_raw(const Args& a) {
  auto* p = new RawPriv();
  for (auto& b : split(a[5], '|')) {
    if (b == "N") { p->bufs.push_back(nullptr); continue; }
    std::string s = buf_of(b);
    p->mem.emplace_back(new Exact(s.data(), s.size()));
    p->bufs.push_back(p->mem.back()->p);
  }
  if (a.size() > 6 && a[6] != "-")
    for (auto& k : split(a[6], '|')) {
      auto* kid = (struct ArrowArray*)malloc(sizeof(struct ArrowArray));
      struct ArrowArray* src = array_slot(k, false);
      *kid = *src;
      src->release = nullptr;
      p->kids.push_back(kid);
    }
  struct ArrowArray* arr = array_slot(a[1], true);
  memset(arr, 0, sizeof *arr);
  arr->length = atoll(a[2].c_str());
  arr->offset = atoll(a[3].c_str());
  arr->null_count = atoll(a[4].c_str());
  arr->n_buffers = p->bufs.size();
  arr->buffers = p->bufs.data();
  arr->n_children = p->kids.size();
  arr->children = p->kids.data();
  arr->private_data = p;
  arr->release = raw_release;
  live++;
}
void register_arrays() {
  reg("raw", cmd_raw);
  // reslice A off len : the consumer's own slice of an array
  reg("reslice", [](const Args& a) {
    struct ArrowArray* x = array_slot(a[1], false);
    x->offset += atoll(a[2].c_str());
    x->length = atoll(a[3].c_str());
    if (x->n_buffers < 1 || x->buffers[0] != nullptr) x->null_count = -1;  // (no bitmap: the count stays 0)
  });
  reg("rawlive", [](const Args&) { out("rawlive %ld", live); });
}
