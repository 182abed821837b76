// Concrete runtime: replays one assignment (file $GS_INPUT, lines "name value").
#include "gs.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <fstream>
#include <map>
#include <string>
#include <malloc.h>
// Freed memory is overwritten, so that using it has visible consequences; glibc detects double frees.
extern "C" void __libc_free(void *);
extern "C" void free(void *p) {
  if (p) { size_t n = malloc_usable_size(p); if (n > 16 && n < 4096) memset((char *)p + 16, 0xA5, n - 16); }
  __libc_free(p);
}
static std::map<std::string, uint64_t> in;
static std::map<std::string, int> cnt;
static bool loaded;
static bool violated;
static void load() {
  if (loaded) return;
  loaded = true;
  const char *p = getenv("GS_INPUT");
  if (!p) return;
  std::ifstream f(p);
  std::string n; unsigned long long v;
  while (f >> n >> v) in[n] = v;
}
static uint64_t get(const char *name, uint64_t init) {
  load();
  auto it = in.find(std::string(name) + "#" + std::to_string(cnt[name]++));
  return it == in.end() ? init : it->second;
}
extern "C" {
uint8_t gs_u8(const char *n, uint8_t i) { return (uint8_t)get(n, i); }
uint32_t gs_u32(const char *n, uint32_t i) { return (uint32_t)get(n, i); }
uint64_t gs_u64(const char *n, uint64_t i) { return get(n, i); }
uint8_t gs_range(const char *n, unsigned, unsigned i) { return (uint8_t)get(n, i); }
void gs_bytes(const char *n, void *p, size_t k) {
  for (size_t i = 0; i < k; i++) ((uint8_t *)p)[i] = (uint8_t)get(n, ((uint8_t *)p)[i]);
}
void gs_table(void *p, uint8_t s, const uint8_t *t) { *(uint8_t *)p = t[s]; }
void gs_table64(void *p, uint8_t s, const uint64_t *t) { memcpy(p, &t[s], 8); }
void gs_assume(bool c) { if (!c) { printf("REPLAY assume-failed\n"); fflush(stdout); _exit(3); } }
void gs_assert(bool c, const char *w) { if (!c) { printf("REPLAY VIOLATED %s\n", w); fflush(stdout); violated = true; } }
void gs_cover(const char *w) { printf("REPLAY cover %s\n", w); }
uint64_t gs_concrete(uint64_t v) { return v; }
void gs_concrete_bytes(void *, size_t) {}
bool gs_is_symbolic(void *, size_t) { return false; }
void gs_start(void) {}
void gs_finish(void) { printf("REPLAY done\n"); fflush(stdout); fflush(stderr); _exit(violated ? 1 : 0); }
bool gs_replaying(void) { return true; }
void gs_note(const char *k, const char *v) { printf("REPLAY note %s=%s\n", k, v); }
}
