// Instrumented re-implementations of the small LLVM support functions that are
// called with symbolic data.  Calls from instrumented
// code are redirected to them (GsPass.cpp), in the symbolic build only;
// counterexample replay always uses the originals.
#include <llvm/ADT/StringRef.h>
#include <llvm/Support/raw_ostream.h>
#include "gs.h"
#include <cstring>
using namespace llvm;

#pragma clang diagnostic ignored "-Wreturn-type-c-linkage"
extern "C" {
// native originals (e_ast.cpp)
raw_ostream &_gs_raw_write(raw_ostream *os, const char *p, size_t n);
bool _gs_getint(StringRef Str, unsigned Radix, unsigned long long &Result);
// Kept out of line so that reference and model denote digits by the same term.
__attribute__((noinline)) static unsigned long long digit_value(unsigned char c) { return (unsigned long long)c - '0'; }
bool _gsm__ZN4llvm20getAsUnsignedIntegerENS_9StringRefEjRy(StringRef Str, unsigned Radix, unsigned long long &Result) {
  if (Radix != 10) { gs_concrete_bytes((void *)Str.data(), Str.size()); return _gs_getint(Str, Radix, Result); }
  if (Str.empty()) return true;
  unsigned long long r = 0;
  size_t i = 0;
  for (; i < Str.size(); i++) {
    unsigned char c = (unsigned char)Str[i];
    if (c < '0' || c > '9') break;
    unsigned long long d = digit_value(c);
    if (i >= 19) if (r > (~0ull) / 10 || (r == (~0ull) / 10 && d > (~0ull) % 10)) return true;
    r = r * 10 + d;
  }
  if (i == 0 || i != Str.size()) return true;
  Result = r;
  return false;
}
// POSIX paths; the name is not "/", "." or ".." and does not end in '/'.
StringRef _gsm__ZN4llvm3sys4path8filenameENS_9StringRefENS1_5StyleE(StringRef p, int) {
  size_t i = p.size(); while (i > 0 && p.data()[i - 1] != '/') i--;
  return StringRef(p.data() + i, p.size() - i);
}
StringRef _gsm__ZN4llvm3sys4path4stemENS_9StringRefENS1_5StyleE(StringRef p, int st) {
  StringRef f = _gsm__ZN4llvm3sys4path8filenameENS_9StringRefENS1_5StyleE(p, st);
  size_t i = f.size(); while (i > 0 && f.data()[i - 1] != '.') i--;
  return i == 0 ? f : StringRef(f.data(), i - 1);
}
StringRef _gsm__ZN4llvm3sys4path9extensionENS_9StringRefENS1_5StyleE(StringRef p, int st) {
  StringRef f = _gsm__ZN4llvm3sys4path8filenameENS_9StringRefENS1_5StyleE(p, st);
  size_t i = f.size(); while (i > 0 && f.data()[i - 1] != '.') i--;
  return i == 0 ? StringRef() : StringRef(f.data() + i - 1, f.size() - i + 1);
}
static bool inset(StringRef s, char c) {
  bool r = false;
  for (size_t i = 0; i < s.size(); i++) r |= s.data()[i] == c;
  return r;
}
size_t _gsm__ZNK4llvm9StringRef17find_first_not_ofES0_m(const StringRef *t, StringRef Chars, size_t From) {
  for (size_t i = From < t->size() ? From : t->size(), e = t->size(); i != e; ++i)
    if (!inset(Chars, t->data()[i])) return i;
  return StringRef::npos;
}
size_t _gsm__ZNK4llvm9StringRef17find_first_not_ofEcm(const StringRef *t, char C, size_t From) {
  for (size_t i = From < t->size() ? From : t->size(), e = t->size(); i != e; ++i)
    if (t->data()[i] != C) return i;
  return StringRef::npos;
}
size_t _gsm__ZNK4llvm9StringRef13find_first_ofES0_m(const StringRef *t, StringRef Chars, size_t From) {
  for (size_t i = From < t->size() ? From : t->size(), e = t->size(); i != e; ++i)
    if (inset(Chars, t->data()[i])) return i;
  return StringRef::npos;
}
size_t _gsm__ZNK4llvm9StringRef16find_last_not_ofES0_m(const StringRef *t, StringRef Chars, size_t From) {
  for (size_t i = (From < t->size() ? From : t->size()) - 1, e = -1; i != e; --i)
    if (!inset(Chars, t->data()[i])) return i;
  return StringRef::npos;
}
size_t _gsm__ZNK4llvm9StringRef16find_last_not_ofEcm(const StringRef *t, char C, size_t From) {
  for (size_t i = (From < t->size() ? From : t->size()) - 1, e = -1; i != e; --i)
    if (t->data()[i] != C) return i;
  return StringRef::npos;
}
size_t _gsm__ZNK4llvm9StringRef12find_last_ofES0_m(const StringRef *t, StringRef Chars, size_t From) {
  for (size_t i = (From < t->size() ? From : t->size()) - 1, e = -1; i != e; --i)
    if (inset(Chars, t->data()[i])) return i;
  return StringRef::npos;
}
size_t _gsm__ZNK4llvm9StringRef4findES0_m(const StringRef *t, StringRef Str, size_t From) {
  if (From > t->size()) return StringRef::npos;
  if (Str.empty()) return From;
  for (size_t i = From; i + Str.size() <= t->size(); i++)
    if (memcmp(t->data() + i, Str.data(), Str.size()) == 0) return i;
  return StringRef::npos;
}
size_t _gsm__ZNK4llvm9StringRef5rfindES0_(const StringRef *t, StringRef Str) {
  size_t N = Str.size();
  if (N > t->size()) return StringRef::npos;
  for (size_t i = t->size() - N + 1, e = 0; i != e;) {
    --i;
    if (N == 0 || memcmp(t->data() + i, Str.data(), N) == 0) return i;
  }
  return StringRef::npos;
}
std::string _gsm__ZNK4llvm9StringRef5upperEv(const StringRef *t) {
  std::string r; r.reserve(t->size());
  for (size_t i = 0; i < t->size(); i++) { char c = t->data()[i]; r.push_back(c >= 'a' && c <= 'z' ? (char)(c - 32) : c); }
  return r;
}
std::string _gsm__ZNK4llvm9StringRef5lowerEv(const StringRef *t) {
  std::string r; r.reserve(t->size());
  for (size_t i = 0; i < t->size(); i++) { char c = t->data()[i]; r.push_back(c >= 'A' && c <= 'Z' ? (char)(c + 32) : c); }
  return r;
}
static unsigned char lower(unsigned char c) { return (unsigned char)(c + (((unsigned char)(c - 'A') < 26) ? 32 : 0)); }
static int ascii_ncmp(const char *a, const char *b, size_t n) {
  bool same = true; for (size_t i = 0; i < n; i++) same = same & (lower((unsigned char)a[i]) == lower((unsigned char)b[i]));
  if (same) return 0;
  for (size_t i = 0; i < n; i++) { unsigned char x = lower((unsigned char)a[i]), y = lower((unsigned char)b[i]); if (x != y) return x < y ? -1 : 1; }
  return 0;
}
int _gsm__ZNK4llvm9StringRef19compare_insensitiveES0_(const StringRef *t, StringRef r) {
  if (int x = ascii_ncmp(t->data(), r.data(), t->size() < r.size() ? t->size() : r.size())) return x;
  return t->size() == r.size() ? 0 : t->size() < r.size() ? -1 : 1;
}
bool _gsm__ZNK4llvm9StringRef23starts_with_insensitiveES0_(const StringRef *t, StringRef r) { return t->size() >= r.size() && ascii_ncmp(t->data(), r.data(), r.size()) == 0; }
bool _gsm__ZNK4llvm9StringRef21ends_with_insensitiveES0_(const StringRef *t, StringRef r) { return t->size() >= r.size() && ascii_ncmp(t->data() + t->size() - r.size(), r.data(), r.size()) == 0; }
bool _gs_consumeint(StringRef &Str, unsigned Radix, unsigned long long &Result);
bool _gsm__ZN4llvm22consumeUnsignedIntegerERNS_9StringRefEjRy(StringRef &Str, unsigned Radix, unsigned long long &Result) {
  if (Radix != 10) { gs_concrete_bytes((void *)Str.data(), Str.size()); return _gs_consumeint(Str, Radix, Result); }
  if (Str.empty()) return true;
  unsigned long long r = 0;
  size_t i = 0;
  for (; i < Str.size(); i++) {
    unsigned char c = (unsigned char)Str.data()[i];
    if (c < '0' || c > '9') break;
    unsigned long long d = digit_value(c);
    if (i >= 19) if (r > (~0ull) / 10 || (r == (~0ull) / 10 && d > (~0ull) % 10)) return true;
    r = r * 10 + d;
  }
  if (i == 0) return true;
  Str = StringRef(Str.data() + i, Str.size() - i);
  Result = r;
  return false;
}
size_t _gsm__ZNK4llvm9StringRef5countES0_(const StringRef *t, StringRef Str) {
  size_t n = 0, i = 0, N = Str.size();
  if (N == 0) return 0;
  while (i + N <= t->size()) { if (memcmp(t->data() + i, Str.data(), N) == 0) { n++; i += N; } else i++; }
  return n;
}
// What the lexer read; symbolic where the check says so.
const std::string *_gs_token(int index);
int _gs_token_index(const void *token, const void *sm, const void *lo);
typedef std::string (*Spelling)(const void *token, const void *sm, const void *lo, bool *invalid);
Spelling _gs_spelling();
std::string _gsm__ZN5clang5Lexer11getSpellingB5cxx11ERKNS_5TokenERKNS_13SourceManagerERKNS_11LangOptionsEPb(const void *token, const void *sm, const void *lo, bool *invalid) {
  int i = _gs_token_index(token, sm, lo);
  if (i < 0) return _gs_spelling()(token, sm, lo, invalid);
  if (invalid) *invalid = false;
  return *_gs_token(i);
}
#define CT(f, e) int _gsm_##f(int c) { return (int)(e); }
#define IN(l, n) ((unsigned)(c - (l)) < (n))
CT(isdigit, IN('0', 10u)) CT(isalpha, IN('a', 26u) | IN('A', 26u)) CT(isalnum, IN('0', 10u) | IN('a', 26u) | IN('A', 26u)) CT(isspace, (c == ' ') | IN('\t', 5u))
CT(isupper, IN('A', 26u)) CT(islower, IN('a', 26u)) CT(isprint, IN(' ', 95u)) CT(isxdigit, IN('0', 10u) | IN('a', 6u) | IN('A', 6u))
CT(tolower, c + (IN('A', 26u) ? 32 : 0)) CT(toupper, c - (IN('a', 26u) ? 32 : 0))
extern void *_ZTVN4llvm18raw_string_ostreamE[];
raw_ostream &_gsm__ZN4llvm11raw_ostream5writeEPKcm(raw_ostream *os, const char *p, size_t n) {
  if (*(void ***)os == _ZTVN4llvm18raw_string_ostreamE + 2) {
    static_cast<raw_string_ostream *>(os)->str().append(p, n);
    return *os;
  }
  return _gs_raw_write(os, p, n);
}
raw_ostream &_gsm__ZN4llvm11raw_ostream5writeEh(raw_ostream *os, unsigned char C) {
  char c = (char)C;
  return _gsm__ZN4llvm11raw_ostream5writeEPKcm(os, &c, 1);
}
raw_ostream &_gsm__ZN4llvm11raw_ostream13write_escapedENS_9StringRefEb(raw_ostream *os, StringRef Str, bool UseHexEscapes) {
  auto hexdigit = [](unsigned x) { return (char)(x < 10 ? '0' + x : 'A' + x - 10); };
  for (size_t i = 0; i < Str.size(); i++) {
    unsigned char c = (unsigned char)Str.data()[i];
    char b[4];
    size_t n;
    if (c == '\\') { b[0] = '\\'; b[1] = '\\'; n = 2; }
    else if (c == '\t') { b[0] = '\\'; b[1] = 't'; n = 2; }
    else if (c == '\n') { b[0] = '\\'; b[1] = 'n'; n = 2; }
    else if (c == '"') { b[0] = '\\'; b[1] = '"'; n = 2; }
    else if (c >= 0x20 && c < 0x7f) { b[0] = (char)c; n = 1; }
    else if (UseHexEscapes) { b[0] = '\\'; b[1] = 'x'; b[2] = hexdigit(c >> 4); b[3] = hexdigit(c & 15); n = 4; }
    else { b[0] = '\\'; b[1] = (char)('0' + ((c >> 6) & 7)); b[2] = (char)('0' + ((c >> 3) & 7)); b[3] = (char)('0' + (c & 7)); n = 4; }
    _gsm__ZN4llvm11raw_ostream5writeEPKcm(os, b, n);
  }
  return *os;
}
}
