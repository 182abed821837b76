// C06: makeValidIdentifier / isValidIdentifier over all byte strings up to N.
#include "e_lib.h"
#include "genpybind/string_utils.h"
#include <llvm/ADT/SmallString.h>
#include <cstdlib>
#include <cstring>
static bool head(unsigned char c) { return (c >= 'a' && c <= 'z') | (c >= 'A' && c <= 'Z') | (c == '_'); }
static bool body(unsigned char c) { return head(c) | (c >= '0' && c <= '9'); }

template <size_t N> static void run() {
  char in[N + 1];
  memset(in, 'a', sizeof in);
  gs_bytes("b", in, N);
  size_t n = gs_concrete(gs_range("len", N + 1, N));
  // reference: runs of characters that cannot occur at their position become one '_'
  char ref[2 * N + 2];
  size_t m = 0;
  bool pending = false, started = false;
  for (size_t i = 0; i < n; i++) {
    unsigned char c = (unsigned char)in[i];
    bool ok = started ? body(c) : head(c);
    if (ok) {
      if (pending) ref[m++] = '_';
      pending = false;
      ref[m++] = (char)c;
      started = true;
    } else
      pending = true;
  }
  if (pending) ref[m++] = '_';

  llvm::SmallString<128> name(llvm::StringRef(in, n));
  genpybind::makeValidIdentifier(name);
  gs_assert(name.size() == m, "makeValidIdentifier: wrong length");
  if (name.size() == m)
    gs_assert(m == 0 || memcmp(name.data(), ref, m) == 0, "makeValidIdentifier: wrong result");
  gs_assert(n == 0 || genpybind::isValidIdentifier(name), "makeValidIdentifier: result is not a valid identifier");
  bool valid = n > 0 && head((unsigned char)in[0]);
  for (size_t i = 1; i < n; i++) valid &= body((unsigned char)in[i]);
  gs_assert(genpybind::isValidIdentifier(llvm::StringRef(in, n)) == valid, "isValidIdentifier: wrong answer");
  if (valid) gs_assert(name.size() == n && memcmp(name.data(), in, n) == 0, "makeValidIdentifier: changes a valid identifier");
  gs_cover("end");
}
static RegU R5("C06.q.ident5", run<5>), R8("C06.t.ident8", run<8>);
