// C06: the module is named after the header: its file name without directory and last extension, made an identifier.
#include "e_lib.h"
#include <cstring>
namespace {
bool head(unsigned char c) { return (c >= 'a') & (c <= 'z') | (c >= 'A') & (c <= 'Z') | (c == '_'); }
bool body(unsigned char c) { return head(c) | (c >= '0') & (c <= '9'); }
bool okFile(const char *p, size_t n) { bool r = true; for (size_t i = 0; i < n; i++) r &= (p[i] != 0) & (p[i] != '/'); return r; }
const char *const HDR = "#pragma once\n#include <genpybind/genpybind.h>\nvoid f() GENPYBIND(visible);\n";
std::string stem;
template <size_t OFF, size_t N> void setupF(Env &e) {
  std::string b = e.fileBytes(OFF, N, okFile);
  stem = e.file; stem.replace(OFF, N, b);
  size_t dot = stem.size(); while (dot > 0 && stem[dot - 1] != '.') dot--;
  if (dot > 0) stem.resize(dot - 1);
}
void oracle(Env &, const Result &r) {
  gs_assert(r.exit_code == 0, "valid input");
  std::string ref; bool pending = false;
  for (char c : stem) {
    if (ref.empty() ? head(c) : body(c)) { if (pending) ref += '_'; pending = false; ref += c; } else pending = true;
  }
  if (pending) ref += '_';
  if (ref.empty()) return; // no name to derive one from
  const std::string &o = r.out(); static const char M[] = "PYBIND11_MODULE("; const size_t L = sizeof M - 1;
  size_t p = o.size(); bool found = false;
  while (p > L && !found) { p--; found = memcmp(o.data() + p - L, M, L) == 0; }
  gs_assert(found, "there is a module definition"); if (!found) return;
  gs_assert(p + ref.size() < o.size(), "module name present"); if (p + ref.size() >= o.size()) return;
  gs_assert(memcmp(o.data() + p, ref.data(), ref.size()) == 0, "the module is named after the header");
  unsigned char t = o[p + ref.size()]; gs_assert(t == ',' || t == ' ', "the module name ends there");
  gs_cover("module name");
}
RegE A({"C06.q.file2", HDR, {}, setupF<0, 2>, oracle, 1, false, {}, "ab.h"});
RegE B({"C06.q.filedot", HDR, {}, setupF<3, 2>, oracle, 1, false, {}, "x9.ab.v2.hpp"});
RegE C({"C06.q.filenoext", HDR, {}, setupF<0, 2>, oracle, 1, false, {}, "abc"});
RegE D({"C06.t.file4", HDR, {}, setupF<0, 4>, oracle, 1, false, {}, "abcd.h"});
RegE E({"C06.t.filedot4", HDR, {}, setupF<2, 4>, oracle, 1, false, {}, "1.abcd.h.in"});
} // namespace
