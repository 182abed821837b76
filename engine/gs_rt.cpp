// gpsym runtime: shadow memory, expression DAG, path exploration, z3 queries.
#include "gs.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <dlfcn.h>
#include <fcntl.h>
#include <malloc.h>
#include <map>
#include <poll.h>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <z3++.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void __libc_free(void *);
void *__memmove_chk(void *, const void *, size_t, size_t);
void *__memset_chk(void *, int, size_t, size_t);
}

namespace {
enum Op : u8 { ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  CONST = 20, VAR, EQ, ULT, ULE, SLT, SLE, NOT, ITE, CONCAT, EXTRACT, ZEXT, SEXT, TABLE };
} // namespace

struct Expr {
  u8 op, bits;
  int supp; // -1 none, >=0 single variable, -2 several
  u32 id;
  Expr *a, *b, *c;
  u64 val;  // CONST value, VAR index, EXTRACT low bit, TABLE content id
  u64 conc; // value under the current input
  u64 *tab; // table over the single (<=8 bit) support variable, if any
};

struct Var { std::string key; unsigned bits; u64 val; Expr *e; u64 dom[4]; };
enum EvK : u8 { BR, SW, CONC, ASSUME, ASSERT };
struct Ev { EvK k; Expr *cond; Expr *raw; u64 outcome; u64 site; const u64 *cases; u32 ncases; bool failed; std::string what; };

struct Shared {
  volatile int active_children;
  u8 fn[1 << 17];
  u8 siteflags;
};

static bool g_active = false;
static char *ar_base, *ar_cur, *ar_end; // private arena: engine allocations must not move the program's
static bool g_server; // the fork server itself is running: its allocations must not differ between children
static void *ar_free_[48];
static void *ar_alloc(size_t n) {
  unsigned k = 5; while (((size_t)1 << k) < n + 16) k++;
  char *b;
  if (ar_free_[k]) { b = (char *)ar_free_[k]; ar_free_[k] = *(void **)(b + 16); }
  else { if (ar_cur + ((size_t)1 << k) > ar_end) abort(); b = ar_cur; ar_cur += (size_t)1 << k; }
  *(size_t *)b = ((size_t)1 << k) - 16; *(size_t *)(b + 8) = k;
  return b + 16;
}
static void ar_release(void *p) { char *b = (char *)p - 16; unsigned k = *(size_t *)(b + 8); *(void **)p = ar_free_[k]; ar_free_[k] = b; }
static inline bool in_arena(void *p) { return (char *)p >= ar_base && (char *)p < ar_end; }
static bool g_in_rt = false, g_trace = false;
static bool sym_in(u64 p, u64 n);

struct RtGuard { bool old; RtGuard() { old = g_in_rt; g_in_rt = true; } ~RtGuard() { g_in_rt = old; } };

static std::vector<Expr *> *exprs;
static std::vector<Var> *vars;
static std::vector<Ev> *evs;
static std::unordered_set<Expr *> *known_true;
static std::map<std::string, int> *name_cnt;
static std::unordered_map<std::string, u64> *input;
static u32 g_bound; static u64 g_prefix_hash; static bool g_diverged = false, g_have_prefix = false;
static u64 g_cur_hash = 1469598103934665603ull;
static u64 st_inconsistent, st_native_conc, st_symload, st_native_exposed;
static std::set<std::string> *exposed_fns;
static int out_fd = -1;
static Shared *shm;
static bool g_finishing = false;
static u32 opt_maxev = 60000;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static inline u64 msk(unsigned b) { return b >= 64 ? ~0ull : ((1ull << b) - 1); }
static inline int64_t sx(u64 v, unsigned b) { return b >= 64 ? (int64_t)v : (int64_t)(v << (64 - b)) >> (64 - b); }

static u64 evalop(u8 op, unsigned bits, u64 x, u64 y, u64 z, Expr *e) {
  unsigned ab = e->a ? e->a->bits : bits;
  switch (op) {
  case ADD: return (x + y) & msk(bits);
  case SUB: return (x - y) & msk(bits);
  case MUL: return (x * y) & msk(bits);
  case UDIV: return y ? x / y : msk(bits);
  case UREM: return y ? x % y : x;
  case SDIV: { int64_t p = sx(x, bits), q = sx(y, bits); if (!q) return p < 0 ? 1 : msk(bits); if (q == -1) return (u64)(-(u64)p) & msk(bits); return (u64)(p / q) & msk(bits); }
  case SREM: { int64_t p = sx(x, bits), q = sx(y, bits); if (!q) return x; if (q == -1) return 0; return (u64)(p % q) & msk(bits); }
  case AND: return x & y;
  case OR: return x | y;
  case XOR: return x ^ y;
  case SHL: return y >= bits ? 0 : (x << y) & msk(bits);
  case LSHR: return y >= bits ? 0 : x >> y;
  case ASHR: { int64_t p = sx(x, bits); return (u64)(p >> (y >= bits ? bits - 1 : y)) & msk(bits); }
  case EQ: return x == y;
  case ULT: return x < y;
  case ULE: return x <= y;
  case SLT: return sx(x, ab) < sx(y, ab);
  case SLE: return sx(x, ab) <= sx(y, ab);
  case NOT: return x ^ 1;
  case ITE: return x ? y : z;
  case CONCAT: return (x << e->b->bits) | y;
  case EXTRACT: return (x >> e->val) & msk(bits);
  case ZEXT: return x;
  case SEXT: return (u64)sx(x, ab) & msk(bits);
  }
  abort();
}

struct Key { u8 op, bits; Expr *a, *b, *c; u64 val; bool operator==(const Key &o) const { return op == o.op && bits == o.bits && a == o.a && b == o.b && c == o.c && val == o.val; } };
struct KeyH { size_t operator()(const Key &k) const { u64 h = k.op * 131 + k.bits; h = h * 1000003 ^ (u64)k.a; h = h * 1000003 ^ (u64)k.b; h = h * 1000003 ^ (u64)k.c; h = h * 1000003 ^ k.val; return h ^ (h >> 29); } };
static std::unordered_map<Key, Expr *, KeyH> *cons;
static std::unordered_map<std::string, Expr *> *tabcons;

static Expr *raw_mk(u8 op, unsigned bits, Expr *a, Expr *b, Expr *c, u64 val);
static Expr *mkc(unsigned bits, u64 v) { return raw_mk(CONST, bits, 0, 0, 0, v & msk(bits)); }

static inline unsigned tabn(Expr *e) { return 1u << (*vars)[e->supp].bits; }
static inline u64 tabat(Expr *e, unsigned i) { return e->op == CONST ? e->val : e->tab[i]; }

static Expr *raw_mk(u8 op, unsigned bits, Expr *a, Expr *b, Expr *c, u64 val) {
  Key k{op, (u8)bits, a, b, c, val};
  auto it = cons->find(k);
  if (it != cons->end()) return it->second;
  Expr *e = (Expr *)ar_alloc(sizeof(Expr));
  e->op = op; e->bits = bits; e->a = a; e->b = b; e->c = c; e->val = val; e->tab = nullptr; e->id = exprs->size();
  int s = -1;
  for (Expr *x : {a, b, c}) if (x && x->supp != -1) { if (s == -1) s = x->supp; else if (s != x->supp) s = -2; }
  if (op == VAR) s = (int)val;
  e->supp = s;
  if (op == CONST) e->conc = val;
  else if (op == VAR) e->conc = (*vars)[val].val;
  else e->conc = evalop(op, bits, a->conc, b ? b->conc : 0, c ? c->conc : 0, e);
  if (s >= 0 && (*vars)[s].bits <= 8) {
    unsigned n = 1u << (*vars)[s].bits;
    u64 *t = (u64 *)ar_alloc(n * 8);
    if (op == VAR) for (unsigned i = 0; i < n; i++) t[i] = i;
    else for (unsigned i = 0; i < n; i++) t[i] = evalop(op, bits, tabat(a, i), b ? tabat(b, i) : 0, c ? tabat(c, i) : 0, e);
    e->tab = t;
    bool same = true;
    for (unsigned i = 1; i < n && same; i++) same = t[i] == t[0];
    if (same) { u64 v = t[0];   Expr *r = mkc(bits, v); (*cons)[k] = r; return r; }
    std::string ck((const char *)t, n * 8); ck.push_back((char)bits); ck.append((const char *)&s, 4);
    auto ti = tabcons->find(ck);
    if (ti != tabcons->end()) {   (*cons)[k] = ti->second; return ti->second; }
    (*tabcons)[ck] = e;
  }
  exprs->push_back(e);
  (*cons)[k] = e;
  return e;
}

static Expr *mk_table(Expr *var, unsigned bits, const u64 *t) {
  // leaf table expression
  unsigned n = 1u << (*vars)[var->val].bits;
  int s = (int)var->val;
  std::vector<u64> tt(t, t + n);
  for (auto &v : tt) v &= msk(bits);
  bool same = true; for (unsigned i = 1; i < n; i++) same &= tt[i] == tt[0];
  if (same) return mkc(bits, tt[0]);
  std::string ck((const char *)tt.data(), n * 8); ck.push_back((char)bits); ck.append((const char *)&s, 4);
  auto ti = tabcons->find(ck);
  if (ti != tabcons->end()) return ti->second;
  Expr *e = (Expr *)ar_alloc(sizeof(Expr));
  e->op = TABLE; e->bits = bits; e->a = var; e->b = e->c = nullptr; e->val = 0; e->id = exprs->size(); e->supp = s;
  e->tab = (u64 *)ar_alloc(n * 8);
  for (unsigned i = 0; i < n; i++) e->tab[i] = tt[i];
  e->conc = e->tab[var->conc];
  exprs->push_back(e);
  (*tabcons)[ck] = e;
  return e;
}

static Expr *mk(u8 op, unsigned bits, Expr *a, Expr *b = nullptr, Expr *c = nullptr, u64 val = 0) {
  bool allc = true;
  for (Expr *x : {a, b, c}) if (x && x->op != CONST) allc = false;
  if (allc) {
    Expr t; t.a = a; t.b = b; t.c = c; t.val = val; t.op = op; t.bits = bits;
    return mkc(bits, evalop(op, bits, a->val, b ? b->val : 0, c ? c->val : 0, &t));
  }
  switch (op) {
  case ADD: case OR: case XOR: case SUB: case SHL: case LSHR: case ASHR:
    if (b->op == CONST && b->val == 0) return a;
    if (a->op == CONST && a->val == 0 && (op == ADD || op == OR || op == XOR)) return b;
    if (op == XOR && a == b) return mkc(bits, 0);
    if (op == SUB && a == b) return mkc(bits, 0);
    if (op == OR && a == b) return a;
    if (op == XOR && bits == 1 && b->op == CONST) return mk(NOT, 1, a);
    if (op == XOR && bits == 1 && a->op == CONST) return mk(NOT, 1, b);
    if (op == OR) { if (b->op == CONST && b->val == msk(bits)) return b; if (a->op == CONST && a->val == msk(bits)) return a; }
    if (op == ADD && b->op == CONST && a->op == ADD && a->b->op == CONST) return mk(ADD, bits, a->a, mkc(bits, a->b->val + b->val));
    if (op == ADD && a->op == CONST) return mk(ADD, bits, b, a);
    if (op == SUB && b->op == CONST) return mk(ADD, bits, a, mkc(bits, 0 - b->val));
    if (op == OR && a->op == ZEXT && b->op == SHL) { /* leave */ }
    break;
  case AND:
    if (a == b) return a;
    if (a->op == CONST) std::swap(a, b);
    if (b->op == CONST) {
      if (b->val == 0) return b;
      if (b->val == msk(bits)) return a;
      if (a->op == ZEXT && (b->val & msk(a->a->bits)) == msk(a->a->bits)) return a;
      // low mask -> extract
      if (((b->val + 1) & b->val) == 0) { unsigned w = 64 - __builtin_clzll(b->val); return mk(ZEXT, bits, mk(EXTRACT, w, a, nullptr, nullptr, 0)); }
    }
    break;
  case MUL:
    if (a->op == CONST) std::swap(a, b);
    if (b->op == CONST && b->val == 1) return a;
    if (b->op == CONST && b->val == 0) return b;
    break;
  case EQ:
    if (a == b) return mkc(1, 1);
    if (a->op == CONST) std::swap(a, b);
    if (b->op == CONST) {
      if (a->bits == 1) return b->val ? a : mk(NOT, 1, a);
      if (a->op == ZEXT) { if (b->val > msk(a->a->bits)) return mkc(1, 0); return mk(EQ, 1, a->a, mkc(a->a->bits, b->val)); }
      if (a->op == CONCAT) return mk(AND, 1, mk(EQ, 1, a->a, mkc(a->a->bits, b->val >> a->b->bits)), mk(EQ, 1, a->b, mkc(a->b->bits, b->val)));
      if (a->op == ITE && (a->b->op == CONST || a->c->op == CONST)) return mk(ITE, 1, a->a, mk(EQ, 1, a->b, b), mk(EQ, 1, a->c, b));
      if (a->op == ADD && a->b->op == CONST) return mk(EQ, 1, a->a, mkc(a->bits, b->val - a->b->val));
    }
    break;
  case ULT: if (a == b) return mkc(1, 0); if (b->op == CONST && b->val == 0) return b->bits ? mkc(1, 0) : nullptr;
    if (a->op == ZEXT && b->op == CONST) { if (b->val > msk(a->a->bits)) return mkc(1, 1); return mk(ULT, 1, a->a, mkc(a->a->bits, b->val)); }
    break;
  case ULE: if (a == b) return mkc(1, 1); if (b->op == CONST && b->val == msk(b->bits)) return mkc(1, 1);
    if (a->op == ZEXT && b->op == CONST) { if (b->val >= msk(a->a->bits)) return mkc(1, 1); return mk(ULE, 1, a->a, mkc(a->a->bits, b->val)); }
    break;
  case SLT: if (a == b) return mkc(1, 0); break;
  case SLE: if (a == b) return mkc(1, 1); break;
  case NOT: if (a->op == NOT) return a->a; break;
  case ITE:
    if (a->op == CONST) return a->val ? b : c;
    if (b == c) return b;
    if (a->op == NOT) return mk(ITE, bits, a->a, c, b);
    if (bits == 1) {
      if (b->op == CONST && c->op == CONST) return b->val ? a : mk(NOT, 1, a);
      if (b->op == CONST) return b->val ? mk(OR, 1, a, c) : mk(AND, 1, mk(NOT, 1, a), c);
      if (c->op == CONST) return c->val ? mk(OR, 1, mk(NOT, 1, a), b) : mk(AND, 1, a, b);
    }
    break;
  case CONCAT:
    if (a->op == CONST && a->val == 0) return mk(ZEXT, bits, b);
    if (a->op == EXTRACT && b->op == EXTRACT && a->a == b->a && a->val == b->val + b->bits) return mk(EXTRACT, bits, a->a, nullptr, nullptr, b->val);
    if (a->op == EXTRACT && b->op == CONCAT && b->a->op == EXTRACT && a->a == b->a->a && a->val == b->a->val + b->a->bits)
      return mk(CONCAT, bits, mk(EXTRACT, a->bits + b->a->bits, a->a, nullptr, nullptr, b->a->val), b->b);
    break;
  case EXTRACT:
    if (val == 0 && bits == a->bits) return a;
    if (a->op == EXTRACT) return mk(EXTRACT, bits, a->a, nullptr, nullptr, val + a->val);
    if (a->op == CONCAT) {
      unsigned lo = a->b->bits;
      if (val >= lo) return mk(EXTRACT, bits, a->a, nullptr, nullptr, val - lo);
      if (val + bits <= lo) return mk(EXTRACT, bits, a->b, nullptr, nullptr, val);
      return mk(CONCAT, bits, mk(EXTRACT, val + bits - lo, a->a, nullptr, nullptr, 0), mk(EXTRACT, lo - val, a->b, nullptr, nullptr, val));
    }
    if (a->op == ZEXT) {
      unsigned w = a->a->bits;
      if (val >= w) return mkc(bits, 0);
      if (val + bits <= w) return mk(EXTRACT, bits, a->a, nullptr, nullptr, val);
      return mk(ZEXT, bits, mk(EXTRACT, w - val, a->a, nullptr, nullptr, val));
    }
    if (a->op == SEXT && val + bits <= a->a->bits) return mk(EXTRACT, bits, a->a, nullptr, nullptr, val);
    if ((a->op == AND || a->op == OR || a->op == XOR)) return mk(a->op, bits, mk(EXTRACT, bits, a->a, nullptr, nullptr, val), mk(EXTRACT, bits, a->b, nullptr, nullptr, val));
    if (a->op == ITE && (a->b->op == CONST || a->c->op == CONST)) return mk(ITE, bits, a->a, mk(EXTRACT, bits, a->b, nullptr, nullptr, val), mk(EXTRACT, bits, a->c, nullptr, nullptr, val));
    if (val == 0 && (a->op == ADD || a->op == SUB || a->op == MUL)) return mk(a->op, bits, mk(EXTRACT, bits, a->a, nullptr, nullptr, 0), mk(EXTRACT, bits, a->b, nullptr, nullptr, 0));
    if (a->op == LSHR && a->b->op == CONST && val + a->b->val + bits <= a->bits) return mk(EXTRACT, bits, a->a, nullptr, nullptr, val + a->b->val);
    if (a->op == SHL && a->b->op == CONST) {
      u64 n = a->b->val;
      if (val >= n) return mk(EXTRACT, bits, a->a, nullptr, nullptr, val - n);
      if (val + bits <= n) return mkc(bits, 0);
    }
    break;
  case ZEXT:
    if (bits == a->bits) return a;
    if (a->op == ZEXT) return mk(ZEXT, bits, a->a);
    break;
  case SEXT:
    if (bits == a->bits) return a;
    if (a->op == ZEXT) return mk(ZEXT, bits, a->a);
    break;
  }
  return raw_mk(op, bits, a, b, c, val);
}

static Expr *mknot(Expr *e) { return mk(NOT, 1, e); }

// ---------------------------------------------------------------- shadow memory
struct Page { Expr *e[4096]; u8 c[4096]; };
static u8 bloom[1 << 16];
static std::unordered_map<u64, Page *> *pages;
static inline u32 bh(u64 pg) { return (u32)((pg * 0x9E3779B97F4A7C15ull) >> 48); }
static Page *getpage(u64 pg, bool create) {
  auto it = pages->find(pg);
  if (it != pages->end()) return it->second;
  if (!create) return nullptr;
  Page *p = (Page *)calloc(1, sizeof(Page));
  (*pages)[pg] = p;
  bloom[bh(pg)] = 1;
  return p;
}
static inline bool maybe(u64 a) { return bloom[bh(a >> 12)]; }
static inline bool maybe_range(u64 a, u64 n) {
  for (u64 pg = a >> 12; pg <= (a + n - 1) >> 12; pg++) if (bloom[bh(pg)]) return true;
  return false;
}
static Expr *rd(u64 a) {
  if (!maybe(a)) return nullptr;
  Page *p = getpage(a >> 12, false);
  if (!p) return nullptr;
  Expr *e = p->e[a & 4095];
  if (e && p->c[a & 4095] != *(u8 *)a) { p->e[a & 4095] = nullptr; return nullptr; }
  return e;
}
static void wr(u64 a, Expr *e, u8 c) {
  if (e && e->op == CONST) e = nullptr;
  if (!e && !maybe(a)) return;
  Page *p = getpage(a >> 12, e != nullptr);
  if (!p) return;
  p->e[a & 4095] = e;
  p->c[a & 4095] = c;
}
static void clear_range(u64 a, u64 n) {
  if (!n || !g_active) return;
  u64 end = a + n;
  while (a < end) {
    u64 stop = std::min(end, (a | 4095) + 1);
    if (maybe(a)) if (Page *p = getpage(a >> 12, false)) __builtin_memset(&p->e[a & 4095], 0, (stop - a) * sizeof(Expr *));
    a = stop;
  }
}

// ---------------------------------------------------------------- events
static void finish_path(const char *status);
static bool domain_feasible(Expr *c) {
  if (c->op == CONST) return c->val;
  if (c->supp >= 0 && c->tab && c->bits == 1) {
    Var &v = (*vars)[c->supp];
    unsigned n = 1u << v.bits;
    for (unsigned i = 0; i < n; i++) if ((v.dom[i >> 6] >> (i & 63) & 1) && c->tab[i]) return true;
    return false;
  }
  return true;
}
static void dom_restrict(Expr *c) {
  if (c->supp >= 0 && c->tab && c->bits == 1) {
    Var &v = (*vars)[c->supp];
    unsigned n = 1u << v.bits;
    for (unsigned i = 0; i < n; i++) if (!c->tab[i]) v.dom[i >> 6] &= ~(1ull << (i & 63));
  } else if (c->op == AND) { dom_restrict(c->a); dom_restrict(c->b); }
}
static void push_ev(Ev e) {
  // hash for divergence detection
  if (evs->size() == g_bound && g_have_prefix && g_cur_hash != g_prefix_hash) { g_diverged = true; }
  u64 o = e.outcome * 0x9E3779B97F4A7C15ull ^ e.site ^ ((u64)e.k << 56);
  g_cur_hash = (g_cur_hash ^ o) * 1099511628211ull;
  if (!e.failed) { known_true->insert(e.cond); dom_restrict(e.cond); }
  evs->push_back(e);
  if (evs->size() > opt_maxev) finish_path("maxevents");
}
static u64 ev_hash_step(u64 h, u64 outcome, u64 site, EvK k) { return (h ^ (outcome * 0x9E3779B97F4A7C15ull ^ site ^ ((u64)k << 56))) * 1099511628211ull; }

static bool chk(Expr *e, u64 c) {
  if (e->conc != (c & msk(e->bits))) { st_inconsistent++; if (getenv("GS_DEBUG")) fprintf(stderr, "INCONSISTENT op=%d bits=%d expr=%llx actual=%llx\n", e->op, e->bits, (unsigned long long)e->conc, (unsigned long long)c); return false; }
  return true;
}

static void do_branch(Expr *e, bool taken, u64 site) {
  if (g_trace) fprintf(stderr, "T br %d supp %d op %d ra %p\n", taken, e->supp, (int)e->op, __builtin_return_address(0));
  if (e->op == CONST) return;
  if (!chk(e, taken)) return;
  Expr *t = taken ? e : mknot(e);
  if (known_true->count(t)) return;
  Expr *f = mknot(t);
  if (!domain_feasible(f)) return; // implied by the path: nothing to decide
  push_ev(Ev{BR, t, e, taken, site, nullptr, 0, false, ""});
}
// condition of every distinct successor (index 0 = default destination)
static std::vector<Expr *> switch_conds(Expr *e, const u64 *cases, u32 n) {
  u64 m = 0;
  for (u32 i = 0; i < n; i++) m = std::max(m, cases[2 * i + 1]);
  std::vector<Expr *> r(m + 1, mkc(1, 0));
  Expr *def = mkc(1, 1);
  for (u32 i = 0; i < n; i++) {
    Expr *c = mk(EQ, 1, e, mkc(e->bits, cases[2 * i]));
    def = mk(AND, 1, def, mknot(c));
    r[cases[2 * i + 1]] = mk(OR, 1, r[cases[2 * i + 1]], c);
  }
  r[0] = mk(OR, 1, r[0], def);
  return r;
}
static void do_conc(Expr *e, u64 v, u64 site) {
  if (e->op == CONST) return;
  if (!chk(e, v)) return;
  Expr *t = mk(EQ, 1, e, mkc(e->bits, v));
  if (t->op == CONST || known_true->count(t)) return;
  if (!domain_feasible(mknot(t))) return;
  push_ev(Ev{CONC, t, e, v & msk(e->bits), site, nullptr, 0, false, ""});
}

// ---------------------------------------------------------------- z3
static z3::context *zc;
static std::unordered_map<Expr *, z3::expr> *zmemo, *zbmemo;
static z3::expr toBV(Expr *e);
static z3::expr toBool(Expr *e);
static z3::expr tab_set(Expr *v, const std::vector<bool> &in) {
  unsigned n = in.size();
  z3::expr_vector d(*zc);
  z3::expr x = toBV(v);
  unsigned cnt = 0; for (bool b : in) cnt += b;
  bool neg = false;
  std::vector<bool> s = in;
  unsigned vb = (*vars)[v->val].bits;
  (void)cnt;
  for (unsigned i = 0; i < n;) {
    if (!s[i]) { i++; continue; }
    unsigned j = i; while (j + 1 < n && s[j + 1]) j++;
    if (i == j) d.push_back(x == zc->bv_val((uint64_t)i, vb));
    else if (i == 0) d.push_back(z3::ule(x, zc->bv_val((uint64_t)j, vb)));
    else if (j == n - 1) d.push_back(z3::uge(x, zc->bv_val((uint64_t)i, vb)));
    else d.push_back(z3::uge(x, zc->bv_val((uint64_t)i, vb)) && z3::ule(x, zc->bv_val((uint64_t)j, vb)));
    i = j + 1;
  }
  (void)neg;
  if (d.size() == 1) return d[0];
  return z3::mk_or(d);
}
static z3::expr toBool(Expr *e) {
  auto it = zbmemo->find(e);
  if (it != zbmemo->end()) return it->second;
  z3::expr r(*zc);
  if (e->op == CONST) r = zc->bool_val(e->val != 0);
  else if (e->tab) {
    unsigned n = tabn(e); std::vector<bool> in(n);
    for (unsigned i = 0; i < n; i++) in[i] = e->tab[i] & 1;
    r = tab_set((*vars)[e->supp].e, in);
  } else switch (e->op) {
    case EQ: r = (e->a->bits == 1 ? toBool(e->a) == toBool(e->b) : toBV(e->a) == toBV(e->b)); break;
    case ULT: r = z3::ult(toBV(e->a), toBV(e->b)); break;
    case ULE: r = z3::ule(toBV(e->a), toBV(e->b)); break;
    case SLT: r = z3::slt(toBV(e->a), toBV(e->b)); break;
    case SLE: r = z3::sle(toBV(e->a), toBV(e->b)); break;
    case NOT: r = !toBool(e->a); break;
    case AND: r = toBool(e->a) && toBool(e->b); break;
    case OR: r = toBool(e->a) || toBool(e->b); break;
    case XOR: r = toBool(e->a) != toBool(e->b); break;
    case ITE: r = z3::ite(toBool(e->a), toBool(e->b), toBool(e->c)); break;
    default: r = toBV(e) == zc->bv_val(1, 1);
  }
  zbmemo->emplace(e, r);
  return r;
}
static z3::expr toBV(Expr *e) {
  auto it = zmemo->find(e);
  if (it != zmemo->end()) return it->second;
  z3::expr r(*zc);
  unsigned b = e->bits;
  switch (e->op) {
  case CONST: r = zc->bv_val((uint64_t)e->val, b); break;
  case VAR: r = zc->bv_const((*vars)[e->val].key.c_str(), b); break;
  case ADD: r = toBV(e->a) + toBV(e->b); break;
  case SUB: r = toBV(e->a) - toBV(e->b); break;
  case MUL: r = toBV(e->a) * toBV(e->b); break;
  case UDIV: r = z3::udiv(toBV(e->a), toBV(e->b)); break;
  case SDIV: r = toBV(e->a) / toBV(e->b); break;
  case UREM: r = z3::urem(toBV(e->a), toBV(e->b)); break;
  case SREM: r = z3::srem(toBV(e->a), toBV(e->b)); break;
  case AND: if (b > 1) { r = toBV(e->a) & toBV(e->b); break; } goto boolish;
  case OR: if (b > 1) { r = toBV(e->a) | toBV(e->b); break; } goto boolish;
  case XOR: if (b > 1) { r = toBV(e->a) ^ toBV(e->b); break; } goto boolish;
  case SHL: r = z3::shl(toBV(e->a), toBV(e->b)); break;
  case LSHR: r = z3::lshr(toBV(e->a), toBV(e->b)); break;
  case ASHR: r = z3::ashr(toBV(e->a), toBV(e->b)); break;
  case ITE: r = z3::ite(toBool(e->a), toBV(e->b), toBV(e->c)); break;
  case CONCAT: r = z3::concat(toBV(e->a), toBV(e->b)); break;
  case EXTRACT: r = toBV(e->a).extract((unsigned)e->val + b - 1, (unsigned)e->val); break;
  case ZEXT: r = z3::zext(toBV(e->a), b - e->a->bits); break;
  case SEXT: r = z3::sext(toBV(e->a), b - e->a->bits); break;
  case TABLE: {
    if (b == 1) goto boolish;
    unsigned n = tabn(e);
    std::map<u64, std::vector<bool>> g;
    for (unsigned i = 0; i < n; i++) { auto &v = g[e->tab[i]]; if (v.empty()) v.resize(n); v[i] = true; }
    // most common value last
    u64 best = 0; size_t bc = 0;
    for (auto &[v, s] : g) { size_t c = std::count(s.begin(), s.end(), true); if (c > bc) { bc = c; best = v; } }
    r = zc->bv_val((uint64_t)best, b);
    for (auto &[v, s] : g) if (v != best) r = z3::ite(tab_set(e->a, s), zc->bv_val((uint64_t)v, b), r);
    break;
  }
  default: boolish:
    r = z3::ite(toBool(e), zc->bv_val(1, 1), zc->bv_val(0, 1));
  }
  zmemo->emplace(e, r);
  return r;
}

// ---------------------------------------------------------------- messages
static void wmsg(char t, const std::string &s) {
  u32 n = s.size();
  std::string m; m.push_back(t); m.append((char *)&n, 4); m += s;
  size_t o = 0;
  while (o < m.size()) { ssize_t k = write(out_fd, m.data() + o, m.size() - o); if (k < 0) { if (errno == EINTR) continue; _exit(77); } o += k; }
}
static std::string ser_input(const std::vector<std::pair<std::string, u64>> &in) {
  std::string s;
  for (auto &[k, v] : in) { s += k; s += ' '; s += std::to_string(v); s += '\n'; }
  return s;
}
static std::vector<std::pair<std::string, u64>> cur_input() {
  std::vector<std::pair<std::string, u64>> r;
  for (Var &v : *vars) r.push_back({v.key, v.val});
  return r;
}
static u64 st_asserts, st_assert_folded, st_assert_q;
static u64 st_fallback;
static u64 st_q, st_sat, st_unsat, st_unk, st_pruned; static double st_solve;
static std::vector<std::string> *notes;
static std::string *viol_now;

static void flush_path() {
  for (Var &v : *vars) { for (auto &d : v.dom) d = ~0ull; }
  z3::solver s(*zc);
  z3::params p(*zc); p.set("rlimit", 4000000u); s.set(p);
  u64 h = 1469598103934665603ull;
  auto model_input = [&](z3::model m) {
    auto in = cur_input();
    for (size_t i = 0; i < vars->size(); i++) {
      Var &v = (*vars)[i];
      z3::expr val = m.get_const_interp(zc->bv_const(v.key.c_str(), v.bits).decl());
      if ((Z3_ast)val) in[i].second = val.get_numeral_uint64();
    }
    return in;
  };
  auto query = [&](Expr *extra, std::vector<std::pair<std::string, u64>> *in, z3::model *, bool force = false) -> int {
    if (!force && !domain_feasible(extra)) { st_pruned++; return 0; }
    st_q++;
    double t = now();
    s.push(); s.add(toBool(extra));
    z3::check_result r = s.check();
    if (r == z3::sat && in) *in = model_input(s.get_model());
    if (r == z3::unknown) { // non-incremental bit-blasting pipeline
      z3::solver s2 = z3::tactic(*zc, "qfbv").mk_solver();
      z3::params p2(*zc); p2.set("timeout", 12000u); s2.set(p2);
      for (z3::expr x : s.assertions()) s2.add(x);
      r = s2.check();
      st_fallback++;
      if (const char *dp = getenv("GS_DUMP")) { std::string fn = std::string(dp) + "/q" + std::to_string(getpid()) + "_" + std::to_string(st_q) + (r == z3::unknown ? "u" : "k") + ".smt2"; FILE *f = fopen(fn.c_str(), "w"); if (f) { fputs(s2.to_smt2().c_str(), f); fclose(f); } }
      if (r == z3::sat && in) *in = model_input(s2.get_model());
    }
    s.pop();
    st_solve += now() - t;
    if (r == z3::sat) st_sat++; else if (r == z3::unsat) st_unsat++; else st_unk++;
    return r == z3::sat ? 1 : r == z3::unsat ? 0 : -1;
  };
  auto sched = [&](u32 bound, u64 hash, const std::vector<std::pair<std::string, u64>> &in) {
    wmsg('N', std::to_string(bound) + " " + std::to_string(hash) + "\n" + ser_input(in));
  };
  std::vector<std::pair<std::string, u64>> in;
  for (u32 i = 0; i < evs->size(); i++) {
    Ev &e = (*evs)[i];
    if (i >= g_bound && !g_diverged) {
      switch (e.k) {
      case BR:
        if (query(mknot(e.cond), &in, nullptr) == 1) sched(i + 1, ev_hash_step(h, !e.outcome, e.site, BR), in);
        break;
      case SW: {
        std::vector<Expr *> conds = switch_conds(e.raw, e.cases, e.ncases);
        for (u64 o = 0; o < conds.size(); o++)
          if (o != e.outcome && query(conds[o], &in, nullptr) == 1) sched(i + 1, ev_hash_step(h, o, e.site, SW), in);
        break;
      }
      case CONC: {
        Expr *ex = mknot(e.cond);
        if (e.raw->supp >= 0 && e.raw->tab) {
          // finite set of candidate values: one query each
          std::set<u64> vs; Var &v = (*vars)[e.raw->supp];
          for (unsigned k = 0; k < tabn(e.raw); k++) if (v.dom[k >> 6] >> (k & 63) & 1) vs.insert(e.raw->tab[k]);
          vs.erase(e.outcome);
          for (u64 v2 : vs) if (query(mk(EQ, 1, e.raw, mkc(e.raw->bits, v2)), &in, nullptr) == 1) sched(i + 1, ev_hash_step(h, v2, e.site, CONC), in);
          break;
        }
        s.push(); s.add(toBool(ex));
        int n = 0;
        for (;; n++) {
          if (n > 300) { st_unk++; break; }
          st_q++; double t = now();
          auto r = s.check(); st_solve += now() - t;
          if (r != z3::sat) { if (r == z3::unsat) st_unsat++; else st_unk++; break; }
          st_sat++;
          z3::model m = s.get_model();
          u64 val = m.eval(toBV(e.raw), true).get_numeral_uint64();
          in = model_input(m);
          sched(i + 1, ev_hash_step(h, val, e.site, CONC), in);
          s.add(toBV(e.raw) != zc->bv_val((uint64_t)val, e.raw->bits));
        }
        s.pop();
        break;
      }
      case ASSUME:
        if (e.failed && query(e.cond, &in, nullptr) == 1) sched(i, h, in);
        break;
      case ASSERT:
        st_assert_q++;
        if (query(mknot(e.cond), &in, nullptr, true) == 1) wmsg('V', e.what + "\n" + ser_input(in));
        break;
      }
    }
    if (e.failed) break;
    h = ev_hash_step(h, e.outcome, e.site, e.k);
    s.add(toBool(e.cond));
    dom_restrict(e.cond);
  }
}

static double g_t_child;
static void finish_path(const char *status) {
  double t_run = now() - g_t_child;
  if (g_finishing) _exit(78);
  g_finishing = true;
  g_active = false;
  if (viol_now->size()) wmsg('V', *viol_now + "\n" + ser_input(cur_input()));
  if (strcmp(status, "ok") && strcmp(status, "assume")) wmsg('X', std::string(status) + "\n" + ser_input(cur_input()));
  if (evs->size() < g_bound && strcmp(status, "assume")) g_diverged = true;
  if (const char *lg = getenv("GS_EVLOG")) {
    std::string fn = std::string(lg) + "/" + (g_diverged ? "D" : "P") + std::to_string(getpid());
    FILE *f = fopen(fn.c_str(), "w");
    if (f) { fprintf(f, "bound %u\n", g_bound); for (auto &kv2 : cur_input()) fprintf(f, "%s=%llu ", kv2.first.c_str(), (unsigned long long)kv2.second); fprintf(f, "\n"); for (Ev &e : *evs) fprintf(f, "%d %llx %llu\n", (int)e.k, (unsigned long long)e.site, (unsigned long long)e.outcome); fclose(f); }
  }
  double t_fl = now();
  flush_path();
  t_fl = now() - t_fl;
  std::string s;
  auto kv = [&](const char *k, u64 v) { s += k; s += ' '; s += std::to_string(v); s += '\n'; };
  kv("queries", st_q); kv("sat", st_sat); kv("unsat", st_unsat); kv("unknown", st_unk); kv("domain_pruned", st_pruned);
  kv("solver_us", (u64)(st_solve * 1e6)); kv("events", evs->size()); kv("inconsistent", st_inconsistent);
  kv("native_concretized", st_native_conc); kv("symbolic_loads", st_symload); kv("diverged", g_diverged); kv("exprs", exprs->size());
  kv("asserts", st_asserts); kv("asserts_folded", st_assert_folded); kv("assert_queries", st_assert_q); kv("fallback", st_fallback); kv("run_us", (u64)(t_run * 1e6)); kv("flush_us", (u64)(t_fl * 1e6)); kv("completed_paths", !strcmp(status, "ok")); kv("assume_cut", !strcmp(status, "assume"));
  wmsg('S', s);
  if (!notes->empty()) { std::string n; for (auto &x : *notes) n += x + "\n"; wmsg('O', ser_input(cur_input()) + "--\n" + n); }
  for (auto &x : *exposed_fns) wmsg('E', x);
  wmsg('D', status);
  _exit(0);
}

static void on_crash(int sig) {
  if (g_finishing) _exit(79);
  std::string st = "crash signal " + std::to_string(sig);
  finish_path(st.c_str());
}
static void on_alarm(int) { if (g_finishing) _exit(80); finish_path("timeout"); }

// ---------------------------------------------------------------- hooks
extern "C" {
Expr *gs_args[64];
Expr *gs_ret[16];
void *gs_byval[64];
static void *g_call_target, *g_ret_from;

static std::unordered_map<void *, u32> *fn_index;
static std::vector<const char *> *fn_names;
static std::unordered_set<void *> *native_ok, *deallocators;

void _gs_register(void **fns, const char **names, u64 n) {
  if (!fn_index) { fn_index = new std::unordered_map<void *, u32>; fn_names = new std::vector<const char *>; }
  for (u64 i = 0; i < n; i++) {
    if (fn_index->emplace(fns[i], fn_names->size()).second) fn_names->push_back(names[i]);
  }
}

static Expr *bin_(u32 op, u32 bits, Expr *a, Expr *b, u64 ca, u64 cb) {
  if (!a) a = mkc(bits, ca);
  if (!b) b = mkc(bits, cb);
  Expr *r = mk(op, bits, a, b);
  return r->op == CONST ? nullptr : r;
}
Expr *_gs_bin(u32 op, u32 bits, Expr *a, Expr *b, u64 ca, u64 cb) {
  if ((!a && !b) || !g_active) return nullptr;
  RtGuard g;
  return bin_(op, bits, a, b, ca, cb);
}
Expr *_gs_icmp(u32 pred, u32 bits, Expr *a, Expr *b, u64 ca, u64 cb) {
  if ((!a && !b) || !g_active) return nullptr;
  RtGuard g;
  if (!a) a = mkc(bits, ca);
  if (!b) b = mkc(bits, cb);
  Expr *r;
  switch (pred) { // llvm::CmpInst::Predicate
  case 32: r = mk(EQ, 1, a, b); break;
  case 33: r = mknot(mk(EQ, 1, a, b)); break;
  case 34: r = mknot(mk(ULE, 1, a, b)); break;
  case 35: r = mknot(mk(ULT, 1, a, b)); break;
  case 36: r = mk(ULT, 1, a, b); break;
  case 37: r = mk(ULE, 1, a, b); break;
  case 38: r = mknot(mk(SLE, 1, a, b)); break;
  case 39: r = mknot(mk(SLT, 1, a, b)); break;
  case 40: r = mk(SLT, 1, a, b); break;
  case 41: r = mk(SLE, 1, a, b); break;
  default: abort();
  }
  return r->op == CONST ? nullptr : r;
}
Expr *_gs_cast(u32 sext, u32 from, u32 to, Expr *a, u64) {
  if (!a || !g_active) return nullptr;
  RtGuard g;
  Expr *r = to < from ? mk(EXTRACT, to, a, nullptr, nullptr, 0) : mk(sext ? SEXT : ZEXT, to, a);
  return r->op == CONST ? nullptr : r;
}
Expr *_gs_select(Expr *c, u32 cc, u32 bits, Expr *a, Expr *b, u64 ca, u64 cb) {
  if (!g_active) return nullptr;
  if (!c) return cc ? a : b;
  RtGuard g;
  if (!a) a = mkc(bits, ca);
  if (!b) b = mkc(bits, cb);
  // conc consistency of the not-selected (possibly poison) arm is irrelevant
  Expr *r = mk(ITE, bits, c, a, b);
  return r->op == CONST ? nullptr : r;
}
Expr *_gs_gepadd(Expr *acc, u64 cacc, Expr *i, u64 ci, u32 ib, u64 scale) {
  if ((!acc && !i) || !g_active) return nullptr;
  RtGuard g;
  if (!acc) acc = mkc(64, cacc);
  if (!i) i = mkc(ib, ci);
  if (ib < 64) i = mk(SEXT, 64, i);
  Expr *r = mk(ADD, 64, acc, mk(MUL, 64, i, mkc(64, scale)));
  return r->op == CONST ? nullptr : r;
}
static Expr *load_bytes(u64 p, u32 n) {
  Expr *e[8]; bool any = false;
  for (u32 i = 0; i < n; i++) { e[i] = rd(p + i); any |= e[i] != nullptr; }
  if (!any) return nullptr;
  Expr *r = nullptr;
  for (u32 i = 0; i < n; i++) {
    Expr *x = e[i] ? e[i] : mkc(8, *(u8 *)(p + i));
    r = r ? mk(CONCAT, r->bits + 8, x, r) : x;
  }
  return r;
}
Expr *_gs_load(Expr *ps, void *p, u32 n, u32 bits) {
  if (!g_active) return nullptr;
  if (ps) {
    RtGuard g;
    if (ps->op != CONST && chk(ps, (u64)p)) {
      if (ps->supp >= 0 && ps->tab) {
        // symbolic index into memory: value as a function of the index variable
        Var &v = (*vars)[ps->supp];
        unsigned k = 1u << v.bits;
        bool ok = true;
        std::map<u64, Expr *> vals;
        for (unsigned i = 0; i < k && ok; i++) if (v.dom[i >> 6] >> (i & 63) & 1) {
          u64 a = ps->tab[i];
          if (vals.count(a)) continue;
          // stay within 64 KiB of the concrete access
          if (a + 65536 < (u64)p || a > (u64)p + 65536) { ok = false; break; }
          vals[a] = nullptr;
        }
        if (ok) {
          // accessibility check through the kernel
          for (auto &[a, e] : vals) { static int nullfd = open("/dev/null", O_WRONLY); (void)nullfd; unsigned char vec; if (mincore((void *)(a & ~4095ull), 1, &vec) != 0 || mincore((void *)((a + n - 1) & ~4095ull), 1, &vec) != 0) { ok = false; break; } }
        }
        if (ok) {
          bool anysym = false;
          for (auto &[a, e] : vals) { e = load_bytes(a, n); if (e) anysym = true; }
          st_symload++;
          if (!anysym) {
            std::vector<u64> t(k);
            for (unsigned i = 0; i < k; i++) {
              u64 x = 0;
              if (v.dom[i >> 6] >> (i & 63) & 1) __builtin_memcpy(&x, (void *)ps->tab[i], n);
              t[i] = x & msk(bits);
            }
            Expr *r = mk_table(v.e, bits, t.data());
            return r->op == CONST ? nullptr : r;
          }
          Expr *r = nullptr;
          for (auto &[a, e] : vals) {
            u64 x = 0; __builtin_memcpy(&x, (void *)a, n);
            Expr *y = e ? e : mkc(n * 8, x);
            r = r ? mk(ITE, n * 8, mk(EQ, 1, ps, mkc(64, a)), y, r) : y;
          }
          if (bits < n * 8) r = mk(EXTRACT, bits, r, nullptr, nullptr, 0);
          return r->op == CONST ? nullptr : r;
        }
      }
      do_conc(ps, (u64)p, 0x10ad);
    }
  }
  u64 a = (u64)p;
  if (!maybe(a) && !maybe(a + n - 1)) return nullptr;
  RtGuard g;
  Expr *r = load_bytes(a, n);
  if (!r) return nullptr;
  if (bits < n * 8) r = mk(EXTRACT, bits, r, nullptr, nullptr, 0);
  return r->op == CONST ? nullptr : r;
}
void _gs_store(Expr *ps, void *p, u32 n, Expr *v, u64 cv) {
  if (!g_active) return;
  u64 a = (u64)p;
  if (ps) { RtGuard g; do_conc(ps, a, 0x5706e); }
  if (!v) { if (g_trace && maybe_range(a, n) && sym_in(a, n)) fprintf(stderr, "T clear %llx ra %p\n", (unsigned long long)a, __builtin_return_address(0)); if (maybe_range(a, n)) clear_range(a, n); return; }
  RtGuard g;
  if (!chk(v, cv)) { clear_range(a, n); return; }
  if (g_trace) fprintf(stderr, "T store %llx n %u cv %llx ra %p\n", (unsigned long long)a, n, (unsigned long long)cv, __builtin_return_address(0));
  if (v->bits < n * 8) v = mk(ZEXT, n * 8, v);
  for (u32 i = 0; i < n; i++) wr(a + i, mk(EXTRACT, 8, v, nullptr, nullptr, 8 * i), (u8)(cv >> (8 * i)));
}
void _gs_store_clear(Expr *ps, void *p, u64 n) {
  if (!g_active) return;
  if (ps) { RtGuard g; do_conc(ps, (u64)p, 0x5706e); }
  if (n && maybe_range((u64)p, n)) { RtGuard g; clear_range((u64)p, n); }
}
void _gs_clear(void *p, u64 n) {
  if (!g_active || !n) return;
  if (maybe_range((u64)p, n)) { RtGuard g; clear_range((u64)p, n); }
}
void _gs_br(Expr *e, u32 taken, u64 site) {
  if (!e || !g_active) return;
  RtGuard g;
  if (g_trace) fprintf(stderr, "T brc site %llx ra %p\n", (unsigned long long)site, __builtin_return_address(0));
  do_branch(e, taken, site);
}
void _gs_switch(Expr *e, u64 v, u32 bits, const u64 *cases, u32 n, u64 site) {
  if (!e || !g_active || e->op == CONST) return;
  RtGuard g;
  if (!chk(e, v)) return;
  std::vector<Expr *> conds = switch_conds(e, cases, n);
  u64 o = 0;
  for (u32 i = 0; i < n; i++) if (cases[2 * i] == v) o = cases[2 * i + 1];
  Expr *t = conds[o];
  if (t->op == CONST || known_true->count(t)) return;
  if (!domain_feasible(mknot(t))) return;
  push_ev(Ev{SW, t, e, o, site, cases, n, false, ""});
}
void _gs_concretize(Expr *e, u64 v, u64 site) {
  if (!e || !g_active) return;
  RtGuard g;
  do_conc(e, v, site);
}
void _gs_enter(void *f, u32 n) {
  if (g_call_target != f) __builtin_memset(gs_args, 0, n * sizeof(Expr *)), __builtin_memset(gs_byval, 0, n * sizeof(Expr *));
  g_call_target = nullptr;
  if (g_active && shm) {
    // record execution of instrumented function
    static void *cache_f[4096];
    u32 h = ((u64)f >> 4) & 4095;
    if (cache_f[h] != f) { cache_f[h] = f; RtGuard g; auto it = fn_index->find(f); if (it != fn_index->end() && it->second < sizeof(shm->fn)) shm->fn[it->second] = 1; }
  }
}
void _gs_call(void *f, u32 n) {
  g_call_target = f;
  __builtin_memset(gs_args, 0, n * sizeof(Expr *));
}
void _gs_after(void *f, u32 n) {
  if (g_ret_from != f) __builtin_memset(gs_ret, 0, n * sizeof(Expr *));
  g_ret_from = nullptr;
}
void _gs_setret(void *f) { g_ret_from = f; }

static void conc_mem(u64 p, u64 n, u64 site) {
  for (u64 i = 0; i < n; i++) if (maybe(p + i)) if (Expr *e = rd(p + i)) { do_conc(e, *(u8 *)(p + i), site + 1); wr(p + i, nullptr, 0); }
}
static bool sym_in(u64 p, u64 n) {
  if (!maybe_range(p, n)) return false;
  for (u64 i = 0; i < n; i++) if (maybe(p + i)) { Expr *e = rd(p + i); if (e && e->op != CONST) return true; }
  return false;
}
static bool readable(u64 a) {
  if (a < 65536 || a >> 47) return false;
  unsigned char vec;
  return mincore((void *)(a & ~4095ull), 1, &vec) == 0;
}
void _gs_concmem(Expr *ps, void *p, u64 n) {
  if (!g_active) return;
  if (ps) { RtGuard g; do_conc(ps, (u64)p, 0xc0c); }
  if (maybe_range((u64)p, n)) { RtGuard g; conc_mem((u64)p, n, 0xc0d); }
}
// Symbolic data is about to be handed to code that is not instrumented.
void _gs_native(void *f, u64 *a, u32 n, u64 ptrmask, u64 site) {
  if (!g_active) return;
  static struct { void *f; u8 v; } cache[4096];
  u32 h = ((u64)f >> 4) & 4095;
  RtGuard g;
  if (cache[h].f != f) { cache[h].f = f; cache[h].v = (fn_index->count(f) || native_ok->count(f)) ? 1 : 2;
    // Sema works on the AST, whose objects hold no symbolic bytes it would look at (annotation texts are read by genpybind only).
    if (cache[h].v == 2) { Dl_info di; if (dladdr(f, &di) && di.dli_sname && (!strncmp(di.dli_sname, "_ZN5clang4Sema", 14) || !strncmp(di.dli_sname, "_ZNK5clang12TemplateName", 24))) cache[h].v = 3; } }
  if (cache[h].v == 1) {
    // Memory that is given back loses its shadow.
    if (deallocators->count(f)) if (u64 p = a[0]) if (u64 len = malloc_usable_size((void *)p)) if (maybe_range(p, len)) clear_range(p, len);
    return;
  }
  bool hit = false;
  u32 slot = 0;
  for (u32 i = 0; i < n; i++, slot++) {
    if (gs_args[slot]) { do_conc(gs_args[slot], a[i], site + 7); hit = true; }
    if (cache[h].v == 3 || !(ptrmask >> i & 1)) continue;
    u64 p = a[i];
    if (p < 65536) continue;
    if (i + 1 < n && !(ptrmask >> (i + 1) & 1) && a[i + 1] > 0 && a[i + 1] <= 65536 && maybe_range(p, a[i + 1]) && sym_in(p, a[i + 1])) { conc_mem(p, a[i + 1], site); hit = true; }
    if (readable(p) && readable(p + 15)) {
      u64 q = ((u64 *)p)[0], l = ((u64 *)p)[1];
      // string-like object {ptr,len}
      if (l > 0 && l < 65536 && q >= 65536 && maybe(q) && readable(q) && sym_in(q, l)) { conc_mem(q, l, site); hit = true; }
      // vector-like object {begin,end}
      else if (l > q && l - q < 65536 && q >= 65536 && readable(q) && maybe_range(q, l - q) && sym_in(q, l - q)) { conc_mem(q, l - q, site); hit = true; }
      else if (sym_in(p, 16)) { conc_mem(p, 16, site); hit = true; }
    }
  }
  if (hit && g_trace) { Dl_info di{}; dladdr(f, &di); fprintf(stderr, "T native %s %p ra %p\n", di.dli_sname ? di.dli_sname : "?", f, __builtin_return_address(0)); }
  if (hit) { st_native_conc++; if (exposed_fns->size() < 40) { auto it = fn_index->find(f); (void)it; Dl_info di; if (dladdr(f, &di) && di.dli_sname) exposed_fns->insert(di.dli_sname); else { char b[32]; snprintf(b, sizeof b, "%p", f); exposed_fns->insert(b); } } }
}
void gs_native_ok(void *f) { if (!native_ok) native_ok = new std::unordered_set<void *>; native_ok->insert(f); }

void _gs_memcpy(void *d, const void *s, u64 n) {
  if (!g_active || !n || d == s || !s) return;
  bool ss = maybe_range((u64)s, n), dd = maybe_range((u64)d, n);
  if (!ss && !dd) return;
  if (g_in_rt) return;
  RtGuard g;
  if (!ss) { clear_range((u64)d, n); return; }
  if ((u64)d < (u64)s) for (u64 i = 0; i < n; i++) { Expr *e = rd((u64)s + i); wr((u64)d + i, e, *((u8 *)s + i)); }
  else for (u64 i = n; i-- > 0;) { Expr *e = rd((u64)s + i); wr((u64)d + i, e, *((u8 *)s + i)); }
}
void _gs_memset(void *d, Expr *v, u64 n) {
  if (!g_active || !n || g_in_rt) return;
  if (!v && !maybe_range((u64)d, n)) return;
  RtGuard g;
  if (!v) { clear_range((u64)d, n); return; }
  for (u64 i = 0; i < n; i++) wr((u64)d + i, v, (u8)v->conc);
}
Expr *_gs_minmax(u32 k, u32 bits, Expr *a, Expr *b, u64 ca, u64 cb) {
  if ((!a && !b) || !g_active) return nullptr;
  RtGuard g;
  if (!a) a = mkc(bits, ca);
  if (!b) b = mkc(bits, cb);
  Expr *r;
  switch (k) {
  case 0: r = mk(ITE, bits, mk(ULT, 1, a, b), a, b); break;
  case 1: r = mk(ITE, bits, mk(ULT, 1, a, b), b, a); break;
  case 2: r = mk(ITE, bits, mk(SLT, 1, a, b), a, b); break;
  case 3: r = mk(ITE, bits, mk(SLT, 1, a, b), b, a); break;
  case 4: r = mk(ITE, bits, mk(ULT, 1, a, b), mkc(bits, 0), mk(SUB, bits, a, b)); break;
  default: { Expr *s = mk(ADD, bits, a, b); r = mk(ITE, bits, mk(ULT, 1, s, a), mkc(bits, ~0ull), s); }
  }
  return r->op == CONST ? nullptr : r;
}
Expr *_gs_bswap(u32 bits, Expr *a) {
  if (!a || !g_active) return nullptr;
  RtGuard g;
  Expr *r = nullptr;
  for (u32 i = 0; i < bits / 8; i++) { Expr *x = mk(EXTRACT, 8, a, nullptr, nullptr, bits - 8 - 8 * i); r = r ? mk(CONCAT, r->bits + 8, x, r) : x; }
  return r->op == CONST ? nullptr : r;
}
Expr *_gs_fsh(u32 left, u32 bits, Expr *a, Expr *b, Expr *n, u64 ca, u64 cb, u64 cn) {
  if ((!a && !b && !n) || !g_active) return nullptr;
  RtGuard g;
  if (n) do_conc(n, cn, 0xf5);
  if (!a) a = mkc(bits, ca);
  if (!b) b = mkc(bits, cb);
  u64 k = cn % bits;
  Expr *r;
  if (k == 0) r = left ? a : b;
  else if (left) r = mk(OR, bits, mk(SHL, bits, a, mkc(bits, k)), mk(LSHR, bits, b, mkc(bits, bits - k)));
  else r = mk(OR, bits, mk(SHL, bits, a, mkc(bits, bits - k)), mk(LSHR, bits, b, mkc(bits, k)));
  return r->op == CONST ? nullptr : r;
}

// ------------------------------------------------ modelled libc byte scanning
static Expr *take_arg(void *self, u32 i) { return g_call_target == self ? gs_args[i] : nullptr; }
static void ret1(void *self, Expr *e) { gs_ret[0] = e && e->op != CONST ? e : nullptr; g_ret_from = self; }

static int memcmp_(const u8 *p, const u8 *q, size_t n, Expr **out) {
  int c = 0;
  for (size_t i = 0; i < n; i++) if (p[i] != q[i]) { c = p[i] < q[i] ? -1 : 1; break; }
  *out = nullptr;
  if (!g_active || !n || (!maybe_range((u64)p, n) && !maybe_range((u64)q, n))) return c;
  RtGuard g;
  Expr *r = mkc(32, 0); bool any = false;
  for (size_t i = n; i-- > 0;) {
    Expr *a = rd((u64)p + i), *b = rd((u64)q + i);
    if (a || b) any = true;
    if (!a && !b && p[i] == q[i]) continue;
    if (!a) a = mkc(8, p[i]);
    if (!b) b = mkc(8, q[i]);
    r = mk(ITE, 32, mk(EQ, 1, a, b), r, mk(ITE, 32, mk(ULT, 1, a, b), mkc(32, (u64)-1), mkc(32, 1)));
  }
  if (any) *out = r;
  return c;
}
int _gsm_memcmp(const void *p, const void *q, size_t n) {
  if (g_active) { RtGuard g; for (int i = 0; i < 3; i++) if (Expr *e = take_arg((void *)&_gsm_memcmp, i)) do_conc(e, i == 0 ? (u64)p : i == 1 ? (u64)q : n, 0xa0 + i); }
  Expr *e; int c = memcmp_((const u8 *)p, (const u8 *)q, n, &e);
  ret1((void *)&_gsm_memcmp, e);
  return c;
}
int _gsm_bcmp(const void *p, const void *q, size_t n) {
  if (g_active) { RtGuard g; for (int i = 0; i < 3; i++) if (Expr *e = take_arg((void *)&_gsm_bcmp, i)) do_conc(e, i == 0 ? (u64)p : i == 1 ? (u64)q : n, 0xa4 + i); }
  Expr *e; int c = memcmp_((const u8 *)p, (const u8 *)q, n, &e);
  ret1((void *)&_gsm_bcmp, e);
  return c;
}
size_t _gsm_strlen(const char *s) {
  size_t n = 0;
  for (;; n++) {
    if (g_active) { RtGuard g; if (Expr *e = rd((u64)s + n)) do_branch(mk(EQ, 1, e, mkc(8, 0)), s[n] == 0, 0x571e); }
    if (!s[n]) break;
  }
  ret1((void *)&_gsm_strlen, nullptr);
  return n;
}
void *_gsm_memchr(const void *s, int c, size_t n) {
  RtGuard g;
  Expr *ec = g_active ? take_arg((void *)&_gsm_memchr, 1) : nullptr;
  if (g_active) { if (Expr *e = take_arg((void *)&_gsm_memchr, 0)) do_conc(e, (u64)s, 0xa8); if (Expr *e = take_arg((void *)&_gsm_memchr, 2)) do_conc(e, n, 0xa9); if (ec) ec = mk(EXTRACT, 8, ec, nullptr, nullptr, 0); }
  const u8 *p = (const u8 *)s; void *r = nullptr;
  for (size_t i = 0; i < n; i++) {
    bool hit = p[i] == (u8)c;
    if (g_active) { Expr *e = rd((u64)p + i); if (e || ec) do_branch(mk(EQ, 1, e ? e : mkc(8, p[i]), ec ? ec : mkc(8, (u8)c)), hit, 0x3e3c); }
    if (hit) { r = (void *)(p + i); break; }
  }
  ret1((void *)&_gsm_memchr, nullptr);
  return r;
}
int _gsm_strncmp(const char *a, const char *b, size_t n) {
  int r = 0;
  RtGuard g;
  for (size_t i = 0; i < n; i++) {
    u8 x = a[i], y = b[i];
    if (g_active) { Expr *e = rd((u64)a + i), *f = rd((u64)b + i); if (e || f) { Expr *ee = e ? e : mkc(8, x), *ff = f ? f : mkc(8, y); do_branch(mk(EQ, 1, ee, ff), x == y, 0x57c); if (x != y) do_branch(mk(ULT, 1, ee, ff), x < y, 0x57d); if (e) do_branch(mk(EQ, 1, e, mkc(8, 0)), x == 0, 0x57e); } }
    if (x != y) { r = x < y ? -1 : 1; break; }
    if (!x) break;
  }
  ret1((void *)&_gsm_strncmp, nullptr);
  return r;
}
int _gsm_strcmp(const char *a, const char *b) { int r = _gsm_strncmp(a, b, SIZE_MAX); ret1((void *)&_gsm_strcmp, nullptr); return r; }
char *_gsm_strchr(const char *s, int c) {
  size_t n = _gsm_strlen(s);
  char *r = (char *)_gsm_memchr(s, c, n + 1);
  ret1((void *)&_gsm_strchr, nullptr);
  return r;
}

// ------------------------------------------------ interposed libc (all modules)
// Called through a volatile pointer: the compiler otherwise folds it back into a call of our own memmove.
static void *(*volatile real_memmove)(void *, const void *, size_t, size_t) = &__memmove_chk;
void *memcpy(void *d, const void *s, size_t n) { if (g_active && !g_in_rt) _gs_memcpy(d, s, n); return real_memmove(d, s, n, (size_t)-1); }
void _gs_memmove(void *d, const void *s, u64 n) { if (g_active && !g_in_rt) _gs_memcpy(d, s, n); real_memmove(d, s, n, (size_t)-1); }
void *memmove(void *d, const void *s, size_t n) { if (g_active && !g_in_rt) _gs_memcpy(d, s, n); return real_memmove(d, s, n, (size_t)-1); }
void *memset(void *d, int c, size_t n) { if (g_active && !g_in_rt) _gs_memset(d, nullptr, n); return __memset_chk(d, c, n, (size_t)-1); }
void *malloc(size_t n) { if (((g_in_rt && g_active) || g_server) && ar_base) return ar_alloc(n); return __libc_malloc(n); }
void *calloc(size_t a, size_t b) { if (((g_in_rt && g_active) || g_server) && ar_base) { size_t n = a * b; void *p = ar_alloc(n); __memset_chk(p, 0, n, (size_t)-1); return p; } void *p = __libc_calloc(a, b); if (g_active && !g_in_rt && p) _gs_memset(p, nullptr, a * b); return p; }
void free(void *p) {
  if (in_arena(p)) { ar_release(p); return; }
  if (g_active && !g_in_rt && p) { RtGuard g; size_t n = malloc_usable_size(p); clear_range((u64)p, n); if (n > 16 && n < 4096) __memset_chk((char *)p + 16, 0xA5, n - 16, (size_t)-1); }
  __libc_free(p); // the first 16 bytes are left to glibc's double free detection
}
void *realloc(void *p, size_t n) {
  if (!p) return malloc(n);
  size_t o = in_arena(p) ? *(size_t *)((char *)p - 16) : malloc_usable_size(p);
  void *q = malloc(n);
  if (!q) return nullptr;
  memcpy(q, p, o < n ? o : n);
  free(p);
  return q;
}

// ---------------------------------------------------------------- harness API
static Expr *newvar(const char *name, unsigned bits, u64 init, u64 *out) {
  int k = (*name_cnt)[name]++;
  std::string key = std::string(name) + "#" + std::to_string(k);
  u64 v = init & msk(bits);
  auto it = input->find(key);
  if (it != input->end()) v = it->second & msk(bits);
  Var x; x.key = key; x.bits = bits; x.val = v; for (auto &d : x.dom) d = ~0ull;
  vars->push_back(x);
  Expr *e = raw_mk(VAR, bits, 0, 0, 0, vars->size() - 1);
  (*vars).back().e = e;
  *out = v;
  return e;
}
uint8_t gs_u8(const char *name, uint8_t init) { RtGuard g; u64 v; Expr *e = newvar(name, 8, init, &v); ret1((void *)&gs_u8, e); return (u8)v; }
uint32_t gs_u32(const char *name, uint32_t init) { RtGuard g; u64 v; Expr *e = newvar(name, 32, init, &v); ret1((void *)&gs_u32, e); return (u32)v; }
uint64_t gs_u64(const char *name, uint64_t init) { RtGuard g; u64 v; Expr *e = newvar(name, 64, init, &v); ret1((void *)&gs_u64, e); return v; }
static void assume_(Expr *e, bool c) {
  if (!e) { if (!c) finish_path("assume"); return; }
  if (!chk(e, c)) return;
  if (c && (known_true->count(e) || !domain_feasible(mknot(e)))) return;
  push_ev(Ev{ASSUME, e, e, c, 0xa55, nullptr, 0, !c, ""});
  if (!c) finish_path("assume");
}
uint8_t gs_range(const char *name, unsigned n, unsigned init) {
  RtGuard g; u64 v; Expr *e = newvar(name, 8, init, &v);
  assume_(mk(ULT, 1, e, mkc(8, n)), v < n);
  if (n == 1) e = nullptr;
  ret1((void *)&gs_range, e); return (u8)v;
}
void gs_bytes(const char *name, void *p, size_t n) {
  RtGuard g;
  for (size_t i = 0; i < n; i++) { u64 v; Expr *e = newvar(name, 8, ((u8 *)p)[i], &v); ((u8 *)p)[i] = (u8)v; wr((u64)p + i, e, (u8)v); }
}
void gs_table(void *p, uint8_t sel, const uint8_t *t) {
  RtGuard g;
  Expr *e = take_arg((void *)&gs_table, 1);
  *(u8 *)p = t[sel];
  if (!e || e->op != VAR) { if (e) do_conc(e, sel, 0x7ab); wr((u64)p, nullptr, 0); return; }
  u64 tt[256]; for (int i = 0; i < 256; i++) tt[i] = t[i];
  wr((u64)p, mk_table(e, 8, tt), t[sel]);
}
void gs_table64(void *p, uint8_t sel, const uint64_t *t) {
  RtGuard g;
  Expr *e = take_arg((void *)&gs_table64, 1);
  *(u64 *)p = t[sel];
  if (!e || e->op != VAR) { if (e) do_conc(e, sel, 0x7ab); clear_range((u64)p, 8); return; }
  Expr *x = mk_table(e, 64, t);
  for (int i = 0; i < 8; i++) wr((u64)p + i, mk(EXTRACT, 8, x, nullptr, nullptr, 8 * i), ((u8 *)p)[i]);
}
void gs_assume(bool c) { if (!g_active) { if (!c) abort(); return; } RtGuard g; Expr *e = take_arg((void *)&gs_assume, 0); assume_(e, c); }
void gs_assert(bool c, const char *what) {
  if (!g_active) return;
  RtGuard g;
  Expr *e = take_arg((void *)&gs_assert, 0);
  st_asserts++;
  if (!c) { *viol_now = what; finish_path("ok"); }
  if (!e || e->op == CONST || !chk(e, c)) { st_assert_folded++; return; }
  push_ev(Ev{ASSERT, e, e, c, 0xa55e, nullptr, 0, false, what});
}
void gs_cover(const char *what) { if (!g_active) return; RtGuard g; wmsg('C', what); }
uint64_t gs_concrete(uint64_t v) { if (g_active) { RtGuard g; if (Expr *e = take_arg((void *)&gs_concrete, 0)) do_conc(e, v, 0xcc); } ret1((void *)&gs_concrete, nullptr); return v; }
void gs_concrete_bytes(void *p, size_t n) { if (!g_active) return; RtGuard g; conc_mem((u64)p, n, 0xcb); }
bool gs_is_symbolic(void *p, size_t n) { RtGuard g; ret1((void *)&gs_is_symbolic, nullptr); return g_active && n && sym_in((u64)p, n); }
bool gs_replaying(void) { g_ret_from = nullptr; return false; }
void gs_note(const char *k, const char *v) { if (!g_active) return; RtGuard g; notes->push_back(std::string(k) + "=" + v); }
void gs_finish(void) { RtGuard g; finish_path("ok"); }
void gs_fail_now(const char *what) { RtGuard g; *viol_now = what; finish_path("ok"); }

static std::string jesc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }

struct Work { u32 bound; u64 hash; bool have; std::string in; };
struct Child { pid_t pid; int fd; std::string buf; bool done; std::string in; };

void gs_start(void) {
  for (const char *n : {"_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZN4llvm17deallocate_bufferEPvmm", "_ZN5clang7tooling9ClangToolD1Ev", "_ZN5clang7tooling9ClangTool3runEPNS0_10ToolActionE", "_ZN4llvm15SmallVectorBaseIjE13mallocForGrowEPvmmRm", "_ZN4llvm15SmallVectorBaseImE13mallocForGrowEPvmmRm", "_ZN4llvm15SmallVectorBaseIjE8grow_podEPvmm", "_ZN4llvm15SmallVectorBaseImE8grow_podEPvmm",
       "_ZN4llvm19SmallPtrSetImplBaseC1EPPKvRKS0_", "_ZN4llvm19SmallPtrSetImplBaseC2EPPKvRKS0_", "_ZN4llvm19SmallPtrSetImplBaseC1EPPKvjOS0_", "_ZN4llvm19SmallPtrSetImplBaseC2EPPKvjOS0_", "_ZN4llvm19SmallPtrSetImplBase8CopyFromERKS0_", "_ZN4llvm19SmallPtrSetImplBase8MoveFromEjOS0_", "_ZN4llvm19SmallPtrSetImplBase14insert_imp_bigEPKv", "_ZN4llvm19SmallPtrSetImplBase16shrink_and_clearEv"})
    if (void *f = dlsym(RTLD_DEFAULT, n)) gs_native_ok(f);
  if (!native_ok) native_ok = new std::unordered_set<void *>;
  deallocators = new std::unordered_set<void *>{(void *)&free};
  for (const char *n : {"_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm"}) if (void *f = dlsym(RTLD_DEFAULT, n)) deallocators->insert(f);
  for (void *f : {(void *)&gs_u8, (void *)&gs_u32, (void *)&gs_u64, (void *)&gs_range, (void *)&gs_bytes, (void *)&gs_table, (void *)&gs_table64, (void *)&gs_assume, (void *)&gs_assert, (void *)&gs_cover, (void *)&gs_concrete, (void *)&gs_concrete_bytes, (void *)&gs_is_symbolic, (void *)&gs_note, (void *)&gs_finish, (void *)&gs_replaying,
                  (void *)&_gsm_memcmp, (void *)&_gsm_bcmp, (void *)&_gsm_strlen, (void *)&_gsm_memchr, (void *)&_gsm_strcmp, (void *)&_gsm_strncmp, (void *)&_gsm_strchr, (void *)&memcpy, (void *)&memmove, (void *)&memset, (void *)&free, (void *)&realloc, (void *)&malloc})
    native_ok->insert(f);
  exprs = new std::vector<Expr *>; vars = new std::vector<Var>; vars->reserve(4096); evs = new std::vector<Ev>;
  known_true = new std::unordered_set<Expr *>; name_cnt = new std::map<std::string, int>; input = new std::unordered_map<std::string, u64>;
  cons = new std::unordered_map<Key, Expr *, KeyH>; tabcons = new std::unordered_map<std::string, Expr *>;
  pages = new std::unordered_map<u64, Page *>; notes = new std::vector<std::string>; viol_now = new std::string; exposed_fns = new std::set<std::string>;
  zc = new z3::context; zmemo = new std::unordered_map<Expr *, z3::expr>; zbmemo = new std::unordered_map<Expr *, z3::expr>;
  if (!fn_index) { fn_index = new std::unordered_map<void *, u32>; fn_names = new std::vector<const char *>; }
  ar_base = ar_cur = (char *)mmap(nullptr, 16ull << 30, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (ar_base == MAP_FAILED) abort();
  ar_end = ar_base + (16ull << 30);
  shm = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  auto envi = [](const char *n, double d) { const char *s = getenv(n); return s ? atof(s) : d; };
  double t0 = now(), limit = envi("GS_TIME", 60), childlimit = envi("GS_CHILD_TIME", 30);
  int J = (int)envi("GS_JOBS", 8);
  u64 maxpaths = (u64)envi("GS_PATHS", 1e9), maxviol = (u64)envi("GS_MAXVIOL", 5);
  u64 rng = (u64)envi("VERIF_SEED", 1) * 0x9E3779B97F4A7C15ull + 1;
  bool dbg = getenv("GS_DEBUG") != nullptr;
  g_server = true;
  std::vector<Work> work;
  std::string init;
  if (const char *p = getenv("GS_INPUT")) { FILE *f = fopen(p, "r"); if (f) { char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) init.append(b, k); fclose(f); } }
  work.push_back({0, 0, false, init});
  std::vector<Child> ch;
  std::map<std::string, u64> stats; std::map<std::string, u64> covers; std::set<std::string> exposed;
  std::map<std::string, std::string> viols; std::map<std::string, u64> status; std::vector<std::string> crashes; std::vector<std::string> samples;
  u64 paths = 0; bool stopped = false; size_t maxwork = 0;
  fflush(stdout); fflush(stderr);
  while (!work.empty() || !ch.empty()) {
    double el = now() - t0;
    if (el > limit || paths >= maxpaths || viols.size() >= maxviol || crashes.size() >= 20) { stopped = !work.empty() || !ch.empty(); if (el > limit) { for (auto &c : ch) kill(c.pid, SIGKILL); for (auto &c : ch) waitpid(c.pid, nullptr, 0); break; } if (ch.empty()) break; }
    else while ((int)ch.size() < J && !work.empty() && paths < maxpaths) {
      rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
      size_t i = (paths & 1) ? work.size() - 1 : rng % work.size();
      Work w = work[i]; work[i] = work.back(); work.pop_back();
      int pp[2]; if (pipe(pp)) abort();
      pid_t pid = fork();
      if (pid == 0) {
        g_t_child = now();
        close(pp[0]); out_fd = pp[1];
        for (auto &c : ch) close(c.fd);
        if (!dbg) { int d = open("/dev/null", O_RDWR); if (!getenv("GS_KEEPOUT")) { dup2(d, 1); dup2(d, 2); } }
        g_bound = w.bound; g_prefix_hash = w.hash; g_have_prefix = w.have;
        size_t o = 0;
        while (o < w.in.size()) { size_t e = w.in.find('\n', o); if (e == std::string::npos) e = w.in.size(); std::string l = w.in.substr(o, e - o); size_t sp = l.rfind(' '); if (sp != std::string::npos) (*input)[l.substr(0, sp)] = strtoull(l.c_str() + sp + 1, nullptr, 10); o = e + 1; }
        stack_t ss; ss.ss_sp = malloc(8 << 20); ss.ss_size = 8 << 20; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
        for (int sg : {SIGSEGV, SIGABRT, SIGBUS, SIGILL, SIGFPE}) { struct sigaction sa; __builtin_memset(&sa, 0, sizeof sa); sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(sg, &sa, nullptr); }
        struct sigaction sa; __builtin_memset(&sa, 0, sizeof sa); sa.sa_handler = on_alarm; sa.sa_flags = SA_ONSTACK; sigaction(SIGALRM, &sa, nullptr);
        alarm((unsigned)childlimit);
        g_trace = getenv("GS_TRACE") != nullptr;
        g_active = true; g_server = false;
        g_call_target = nullptr; g_ret_from = nullptr;
        return;
      }
      close(pp[1]);
      paths++;
      ch.push_back({pid, pp[0], "", false, w.in});
    }
    if (ch.empty()) continue;
    std::vector<pollfd> pf;
    for (auto &c : ch) pf.push_back({c.fd, POLLIN, 0});
    poll(pf.data(), pf.size(), 200);
    for (size_t i = ch.size(); i-- > 0;) {
      if (!(pf[i].revents & (POLLIN | POLLHUP))) continue;
      char b[65536]; ssize_t k = read(ch[i].fd, b, sizeof b);
      if (k > 0) { ch[i].buf.append(b, k); continue; }
      // EOF: process
      std::string &m = ch[i].buf; size_t o = 0; bool done = false;
      while (o + 5 <= m.size()) {
        char t = m[o]; u32 n; __builtin_memcpy(&n, &m[o + 1], 4); if (o + 5 + n > m.size()) break;
        std::string s = m.substr(o + 5, n); o += 5 + n;
        if (t == 'N') { size_t nl = s.find('\n'); u32 bd; unsigned long long hs; sscanf(s.c_str(), "%u %llu", &bd, &hs); work.push_back({bd, hs, true, s.substr(nl + 1)}); }
        else if (t == 'V') { size_t nl = s.find('\n'); viols.emplace(s.substr(0, nl), s.substr(nl + 1)); }
        else if (t == 'X') { crashes.push_back(s); }
        else if (t == 'C') covers[s]++;
        else if (t == 'E') exposed.insert(s);
        else if (t == 'O') { static size_t keep = getenv("GS_SAMPLES") ? strtoul(getenv("GS_SAMPLES"), nullptr, 10) : 6; if (samples.size() < keep) samples.push_back(s); }
        else if (t == 'S') { size_t q = 0; while (q < s.size()) { size_t e = s.find('\n', q); std::string l = s.substr(q, e - q); size_t sp = l.find(' '); stats[l.substr(0, sp)] += strtoull(l.c_str() + sp + 1, nullptr, 10); q = e + 1; } }
        else if (t == 'D') { done = true; status[s]++; }
      }
      maxwork = std::max(maxwork, work.size());
      if (!done) { status["lost"]++; crashes.push_back("lost child\n" + ch[i].in); }
      close(ch[i].fd); int wst; waitpid(ch[i].pid, &wst, 0);
      ch.erase(ch.begin() + i);
    }
  }
  FILE *f = getenv("GS_OUT") ? fopen(getenv("GS_OUT"), "w") : stdout;
  fprintf(f, "{\"paths\": %llu, \"wall_s\": %.3f, \"stopped_early\": %s, \"pending\": %zu", (unsigned long long)paths, now() - t0, stopped ? "true" : "false", work.size() + ch.size());
  for (auto &[k, v] : stats) fprintf(f, ", \"%s\": %llu", k.c_str(), (unsigned long long)v);
  fprintf(f, ", \"status\": {"); { bool c = false; for (auto &[k, v] : status) { fprintf(f, "%s\"%s\": %llu", c ? ", " : "", jesc(k).c_str(), (unsigned long long)v); c = true; } }
  fprintf(f, "}, \"covers\": {"); { bool c = false; for (auto &[k, v] : covers) { fprintf(f, "%s\"%s\": %llu", c ? ", " : "", jesc(k).c_str(), (unsigned long long)v); c = true; } }
  fprintf(f, "}, \"exposed\": ["); { bool c = false; for (auto &k : exposed) { fprintf(f, "%s\"%s\"", c ? ", " : "", jesc(k).c_str()); c = true; } }
  fprintf(f, "], \"samples\": ["); { bool c = false; for (auto &k : samples) { fprintf(f, "%s\"%s\"", c ? ", " : "", jesc(k).c_str()); c = true; } }
  fprintf(f, "], \"violations\": ["); { bool c = false; for (auto &[k, v] : viols) { fprintf(f, "%s{\"what\": \"%s\", \"input\": \"%s\"}", c ? ", " : "", jesc(k).c_str(), jesc(v).c_str()); c = true; } }
  fprintf(f, "], \"crashes\": ["); { bool c = false; for (auto &k : crashes) { fprintf(f, "%s\"%s\"", c ? ", " : "", jesc(k).c_str()); c = true; } }
  fprintf(f, "], \"functions\": ["); { bool c = false; for (size_t i = 0; i < fn_names->size() && i < sizeof(shm->fn); i++) if (shm->fn[i] && strstr((*fn_names)[i], "genpybind")) { fprintf(f, "%s\"%s\"", c ? ", " : "", (*fn_names)[i]); c = true; } }
  fprintf(f, "]}\n"); fclose(f);
  _exit(0);
}
} // extern "C"
