// Native replay of a counterexample: the same harness, the same environment model and the same sources,
// compiled by gcc with AddressSanitizer; nondeterministic values come from a file, in creation order.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <ucontext.h>
#include <sys/syscall.h>
#include "zapi.h"

static uint64_t vals[65536]; static uint32_t nvals, pos;
static struct { char name[64]; long long v; } prm[64]; static int nprm;
static int verbose;

#define OUT(...) do { dprintf(9, __VA_ARGS__); } while(0)
static uint64_t next(const char *name) {
    uint64_t v = pos < nvals ? vals[pos] : 0;
    if(verbose) OUT("input %s = %llu\n", name, (unsigned long long) v);
    pos++;
    return v;
}
uint64_t z_nondet(int w, const char *name) { uint64_t v = next(name); return w < 64 ? v & ((1ULL << w) - 1) : v; }
uint32_t z_choice(uint32_t n, const char *name) { if(n <= 1) return 0; uint32_t v = (uint32_t) next(name); return v < n ? v : 0; }
void z_assume(int c) { if(!c) { OUT("REPLAY-ASSUMPTION-FALSE\n"); _exit(4); } }
void z_assert(int c, const char *id) { if(!c) { OUT("REPLAY-VIOLATION assert %s\n", id); _exit(1); } }
void z_fail(const char *id) { OUT("REPLAY-VIOLATION assert %s\n", id); _exit(1); }
void z_cover(const char *id) { if(verbose) OUT("cover %s\n", id); }
void z_note(const char *t) { OUT("note %s\n", t); }
void z_prints(const char *t) { OUT("%s\n", t); }
void z_end(void) { OUT("REPLAY-COMPLETED\n"); _exit(0); }
int64_t z_param(const char *n, int64_t d) { for(int i = 0; i < nprm; i++) if(strcmp(prm[i].name, n) == 0) return prm[i].v; return d; }
int z_is_symbolic(uint64_t v) { (void) v; return 0; }
uint64_t z_concretize(uint64_t v) { return v; }
void z_mute_memory(int x) { (void) x; }
extern size_t __sanitizer_get_current_allocated_bytes(void);
uint64_t z_heap(void) { return __sanitizer_get_current_allocated_bytes(); }
int z_addressable(const void *p, uint64_t n) { (void) p; (void) n; return 1; }

// coroutine
static ucontext_t cm, cc; static int running; static char *cstack; static void (*cfn)(void);
static void centry(void) { cfn(); running = 0; }
void z_coro_start(void (*fn)(void)) {
    if(!cstack) cstack = malloc(16 << 20);
    cfn = fn; getcontext(&cc); cc.uc_stack.ss_sp = cstack; cc.uc_stack.ss_size = 16 << 20; cc.uc_link = &cm;
    makecontext(&cc, centry, 0); running = 1;
}
int z_coro_resume(void) { if(!running) return 0; swapcontext(&cm, &cc); return 1; }
void z_coro_yield(void) { swapcontext(&cc, &cm); }

// globals of the code under test live in these sections (objcopy renames them)
extern char __start_tgt_data[] __attribute__((weak)), __stop_tgt_data[] __attribute__((weak)), __start_tgt_bss[] __attribute__((weak)), __stop_tgt_bss[] __attribute__((weak));
static char *saved;
__attribute__((no_sanitize("address"))) void z_reset_globals(void) {
    volatile char *d = __start_tgt_data; volatile char *s = saved;
    size_t n = __stop_tgt_data - __start_tgt_data;
    for(size_t i = 0; i < n; i++) d[i] = s[i];
    volatile char *b = __start_tgt_bss; n = __stop_tgt_bss - __start_tgt_bss;
    for(size_t i = 0; i < n; i++) b[i] = 0;
}
__attribute__((no_sanitize("address"))) static void save_globals(void) {
    size_t n = __stop_tgt_data - __start_tgt_data; saved = malloc(n + 1);
    for(size_t i = 0; i < n; i++) ((volatile char *) saved)[i] = ((volatile char *) __start_tgt_data)[i];
}
void zmain(void);
int main(int argc, char **argv) {
    if(argc < 2) return 5;
    syscall(SYS_dup2, 1, 9);
    if(!freopen("/dev/null", "w", stdout)) return 5;
    verbose = getenv("ZVERBOSE") != NULL;
    FILE *f = fopen(argv[1], "r"); if(!f) return 5;
    char line[512];
    while(fgets(line, sizeof line, f)) {
        char nm[256]; unsigned long long v; long long sv;
        if(sscanf(line, "param %63s %lld", nm, &sv) == 2) { strcpy(prm[nprm].name, nm); prm[nprm++].v = sv; }
        else if(sscanf(line, "input %255s %llu", nm, &v) == 2 && nm[0] != '#') vals[nvals++] = v;
    }
    fclose(f);
    save_globals();
    zmain();
    OUT("REPLAY-COMPLETED\n");
    _exit(0);
}
