// Harness interface. Under the engine these are intrinsics; natively (replay) sym_native.cpp supplies recorded values.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
void sym_bytes(const char *name, void *p, size_t n);
void sym_assume(int c);
void sym_assert_(int c, const char *msg);
void sym_fail(const char *msg);
void sym_reach(const char *label);
uint64_t sym_concretize(uint64_t v);
long sym_heap_live(void);
int sym_tier(void);
long sym_param(const char *name, long dflt);
int sym_native(void);
void sym_note(const char *name, uint64_t v);
int sym_is_symbolic(uint64_t v);
void sym_cut(void);
unsigned sym_choice_(const char *name, unsigned n);
}
#define ASSERT(c, msg) sym_assert_((c) ? 1 : 0, msg)
#define ASSUME(c) sym_assume((c) ? 1 : 0)
static inline uint64_t sym_uint(const char *name, unsigned nbytes) { uint64_t v = 0; sym_bytes(name, &v, nbytes); return v; }
static inline uint8_t sym_u8(const char *name) { uint8_t v; sym_bytes(name, &v, 1); return v; }
static inline uint16_t sym_u16(const char *name) { uint16_t v; sym_bytes(name, &v, 2); return v; }
static inline uint32_t sym_u32(const char *name) { uint32_t v; sym_bytes(name, &v, 4); return v; }
static inline uint64_t sym_u64(const char *name) { uint64_t v; sym_bytes(name, &v, 8); return v; }
static inline uint64_t sym_range(const char *name, uint64_t lo, uint64_t hi) // inclusive
{
	unsigned n = hi < 0x100 ? 1 : hi < 0x10000 ? 2 : hi < 0x100000000ull ? 4 : 8;
	uint64_t v = sym_uint(name, n); sym_assume(v >= lo && v <= hi); return v;
}
static inline unsigned sym_choice(const char *name, unsigned n) { return n <= 1 ? 0 : n <= 255 ? sym_choice_(name, n) : (unsigned)sym_concretize(sym_range(name, 0, n - 1)); }
static inline bool sym_bool(const char *name) { return sym_choice(name, 2) != 0; }
static inline unsigned sym_part(unsigned n) { long p = sym_param("part", -1); return p >= 0 ? (unsigned)p : sym_choice("part", n); } // --param part=N looks at one part only
