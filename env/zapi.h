// Interface between harnesses and the two ways of running them: symbolically (zsym) or natively
// (znative.c: the same harness and the same sources compiled by gcc, nondeterministic values read
// from a counterexample file).
#ifndef ZAPI_H
#define ZAPI_H
#include <stdint.h>
#include <stddef.h>

// a symbolic value of 'width' bits; every value is explored
uint64_t z_nondet(int width, const char *name);
// forks over 0..n-1: concrete on each path
uint32_t z_choice(uint32_t n, const char *name);
void z_assume(int cond);
void z_assert(int cond, const char *id);
void z_fail(const char *id);
void z_cover(const char *id);
void z_note(const char *text);
void z_prints(const char *text);
void z_end(void);
int64_t z_param(const char *name, int64_t dflt);
int z_is_symbolic(uint64_t v);
uint64_t z_concretize(uint64_t v);     // forks over the values of v
void z_mute_memory(int allow_exit);    // 1: the program may call exit() from here on (path ends)
uint64_t z_heap(void);                 // bytes the program under test holds on the heap
int z_addressable(const void *p, uint64_t n);

// one coroutine: the program under test; the harness resumes it, the environment yields from it
void z_coro_start(void (*fn)(void));
int z_coro_resume(void);               // 0: not running
void z_coro_yield(void);
void z_reset_globals(void);            // globals of the code under test back to their initial values

static inline uint8_t z_u8(const char *n) { return (uint8_t) z_nondet(8, n); }
static inline uint16_t z_u16(const char *n) { return (uint16_t) z_nondet(16, n); }
static inline uint32_t z_u32(const char *n) { return (uint32_t) z_nondet(32, n); }
static inline uint64_t z_u64(const char *n) { return z_nondet(64, n); }
static inline void z_bytes(void *p, size_t n, const char *name) { for(size_t i = 0; i < n; i++) ((uint8_t *) p)[i] = z_u8(name); }
static inline uint32_t z_range(uint32_t lo, uint32_t hi, const char *name) { uint32_t v = z_u32(name); z_assume(v >= lo && v <= hi); return v; }
#endif
