// gpsym harness API.  The same harness source is linked against
//  * gs_rt.cpp (symbolic engine; harness + real code compiled with GsPass), or
//  * gs_concrete.cpp (replay of one concrete assignment on the plain build).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
/// Fresh symbolic byte / word.  `name` identifies it in counterexamples.
uint8_t gs_u8(const char *name, uint8_t init);
uint32_t gs_u32(const char *name, uint32_t init);
uint64_t gs_u64(const char *name, uint64_t init);
/// Symbolic byte constrained to [0,n).
uint8_t gs_range(const char *name, unsigned n, unsigned init);
/// Make `n` bytes at `p` fresh symbolic bytes (current contents = initial values).
void gs_bytes(const char *name, void *p, size_t n);
/// byte p[i] := table[i][sel] (function of one symbolic byte variable)
void gs_table(void *p, uint8_t sel, const uint8_t *table256);
/// Same, for a 64-bit word.
void gs_table64(void *p, uint8_t sel, const uint64_t *table256);
void gs_assume(bool c);
void gs_assert(bool c, const char *what);
/// Vacuity witness: the run must reach every registered cover point.
void gs_cover(const char *what);
/// Split the path on the value so that it is concrete afterwards.
uint64_t gs_concrete(uint64_t v);
/// Concretise n bytes
void gs_concrete_bytes(void *p, size_t n);
bool gs_is_symbolic(void *p, size_t n);
/// In symbolic mode: fork-server exploration starts here; returns once per path
/// (in a child).  In concrete mode: returns immediately.
void gs_start(void);
/// Path is complete (does not return in symbolic mode).
void gs_finish(void);
bool gs_replaying(void);
/// note attached to a path (shown in samples)
void gs_note(const char *k, const char *v);
}
