// Decimal text <-> double
#include "vm.h"
static std::string bits_of(double x) {
  uint64_t u;
  memcpy(&u, &x, 8);
  char b[24];
  snprintf(b, sizeof b, "%016llx", (unsigned long long)u);
  return b;
}
static double from_bits(const std::string& s) {
  uint64_t u = strtoull(s.c_str(), nullptr, 16);
  double x;
  memcpy(&x, &u, 8);
  return x;
}
void register_numbers() {
  reg("parse", [](const Args& a) {  // parse HEX...
    std::string s = "parse";
    for (size_t i = 1; i < a.size(); i++) {
      std::string t = unhex(a[i]);
      Exact ex(t.data(), t.size());
      double x = 0;
      int rc = GeoArrowFromChars(ex.p, ex.p + ex.n, &x);
      s += " " + (rc ? rcs(rc) : bits_of(x));
    }
    outs(s);
  });
  reg("print", [](const Args& a) {  // print BITS p...
    double x = from_bits(a[1]);
    std::string s = "print";
    for (size_t i = 2; i < a.size(); i++) {
      char b[512];
      memset(b, '!', sizeof b);
      int64_t n = GeoArrowPrintDouble(x, (uint32_t)atoi(a[i].c_str()), b);
      s += " " + (n < 0 || n > 500 ? "!length" : std::string(b, (size_t)n));
    }
    outs(s);
  });
  reg("trip", [](const Args& a) {  // trip BITS p : print, then parse what was printed
    std::string s = "trip";
    char b[512];
    memset(b, '!', sizeof b);
    int64_t n = GeoArrowPrintDouble(from_bits(a[1]), (uint32_t)atoi(a[2].c_str()), b);
    Exact ex(b, n < 0 || n > 500 ? 0 : (size_t)n);
    double x = 0;
    int rc = GeoArrowFromChars(ex.p, ex.p + ex.n, &x);
    s += " " + (rc ? rcs(rc) : bits_of(x));
    outs(s);
  });
}
