// Whole-array observations: structural validity and every element read on its own.
#include "vm.h"
struct GeoArrowVisitor* recorder_start(const std::string& name);
std::string recorder_events(const std::string& name);

static void cmd_sound(const Args& a) {  // sound A TYPE
  struct ArrowArray* arr = array_slot(a[1], false);
  if (!arr->release) { outs("sound released"); return; }
  struct ArrowSchema s;
  if (GeoArrowSchemaInit(&s, (enum GeoArrowType)atoi(a[2].c_str()))) { outs("sound schema"); return; }
  struct ArrowArrayView v;
  struct ArrowError e;
  memset(&e, 0, sizeof e);
  int rc = ArrowArrayViewInitFromSchema(&v, &s, &e);
  if (!rc) rc = ArrowArrayViewSetArray(&v, arr, &e);
  if (!rc) rc = ArrowArrayViewValidate(&v, NANOARROW_VALIDATION_LEVEL_FULL, &e);
  int64_t zeros = 0;
  for (int64_t i = 0; !rc && i < v.length; i++) zeros += ArrowArrayViewIsNull(&v, i) ? 1 : 0;
  bool counted = arr->null_count == -1 ? (arr->n_buffers == 0 || arr->buffers[0] != nullptr) : arr->null_count == zeros;
  if (rc) out("sound !invalid %s", e.message);
  else if (!counted) out("sound !null_count %lld of %lld", (long long)arr->null_count, (long long)zeros);
  else outs("sound");
  ArrowArrayViewReset(&v);
  s.release(&s);
}
static void cmd_rows(const Args& a) {  // rows A TYPE X
  struct ArrowArray* arr = array_slot(a[1], false);
  if (!arr->release) { outs("rows released"); return; }
  struct GeoArrowArrayReader r;
  struct GeoArrowError e;
  memset(&e, 0, sizeof e);
  if (GeoArrowArrayReaderInitFromType(&r, (enum GeoArrowType)atoi(a[2].c_str()))) { outs("rows init"); return; }
  int rc = GeoArrowArrayReaderSetArray(&r, arr, &e);
  std::string s = "rows";
  if (rc) s += " set " + rcs(rc);
  for (int64_t i = 0; !rc && i < arr->length; i++) {
    struct GeoArrowVisitor* v = recorder_start(a[3]);
    int rc2 = GeoArrowArrayReaderVisit(&r, i, 1, v);
    s += " | " + (rc2 ? rcs(rc2) : recorder_events(a[3]));
  }
  GeoArrowArrayReaderReset(&r);
  outs(s);
}
void register_rows() { reg("sound", cmd_sound); reg("rows", cmd_rows); }
