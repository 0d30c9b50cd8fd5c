// Drives the real daemon (zdbd's main) inside the modelled operating system.
#ifndef ZHARN_H
#define ZHARN_H
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include "zenv.h"

typedef struct { const void *p; uint32_t n; } zarg_t;
#define S(s) ((zarg_t) { (s), sizeof(s) - 1 })
#define B(p, n) ((zarg_t) { (p), (uint32_t) (n) })

// start of the daemon: program options are the standard directories plus 'opts' (NULL-terminated)
extern const char *zh_opts[16];
extern int zh_bits;                         // size (log2) of the in-memory key table
int zh_boot(void);                          // 1: waiting for clients; 0: the process ended or crashed
void zh_boot_crash(int at);                  // next starts are killed at this write (-1: not)
int zh_alive(void);
int zh_run(void);                           // deliver pending events, return when the daemon waits again (1) or is gone (0)
int zh_idle(void);                          // one timeout of the event loop
int zh_stop(void);                          // clean process restart helper: forget the process (descriptors closed)

void zh_connect(int c);
void zh_feed(int c, const void *p, uint32_t n);        // raw bytes towards the daemon, not yet delivered
void zh_feed_cmd(int c, int argc, const zarg_t *argv);
int zh_cmdv(int c, int argc, const zarg_t *argv);      // request and run; the reply is in zr
#define CMD(c, ...) zh_cmdv((c), (int) (sizeof((zarg_t[]) { __VA_ARGS__ }) / sizeof(zarg_t)), (zarg_t[]) { __VA_ARGS__ })

// reply of the last command (raw bytes), and a cursor over RESP values
typedef struct { const unsigned char *p; uint32_t n; uint32_t at; } zreply_t;
extern zreply_t zr;
void zr_take(int c);                        // everything sent to client c since the last take
int zr_is(const char *raw);                 // whole reply equals this text
int zr_error(void);                         // one well-formed error reply
int zr_bulk(const unsigned char **p, uint32_t *n);     // next value is a bulk string (cursor moves); 0 if not
int zr_nil(void);                           // next value is $-1
int zr_int(int64_t *v);                     // next value is an integer
int zr_array(int64_t *n);                   // next value is an array header
int zr_status(const char *s);               // next value is +s
int zr_end(void);                           // nothing left
int zr_bulk_is(const void *p, uint32_t n);  // next value is this bulk string

uint32_t zh_u32(const void *p);             // little-endian loads from files
uint64_t zh_u64(const void *p);
#endif
