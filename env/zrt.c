// The parts of the C library the code under test calls, for the symbolic build (the native replay uses
// the real C library). Only behaviour the standard defines is relied upon.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <stdarg.h>
#include <errno.h>
#include <ctype.h>
#include <getopt.h>
#include "zapi.h"

#undef stdout
#undef stderr
#undef stdin
static char zfiles[3];
FILE *stdin = (FILE *) &zfiles[0], *stdout = (FILE *) &zfiles[1], *stderr = (FILE *) &zfiles[2];

static int lower(int c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
int strcmp(const char *a, const char *b) { while(*a && *a == *b) { a++; b++; } return (unsigned char) *a - (unsigned char) *b; }
int strncmp(const char *a, const char *b, size_t n) { for(; n; n--, a++, b++) { if(*a != *b) return (unsigned char) *a - (unsigned char) *b; if(!*a) return 0; } return 0; }
int strcasecmp(const char *a, const char *b) { while(*a && lower((unsigned char) *a) == lower((unsigned char) *b)) { a++; b++; } return lower((unsigned char) *a) - lower((unsigned char) *b); }
int strncasecmp(const char *a, const char *b, size_t n) { for(; n; n--, a++, b++) { int x = lower((unsigned char) *a), y = lower((unsigned char) *b); if(x != y) return x - y; if(!*a) return 0; } return 0; }
char *strcpy(char *d, const char *s) { char *r = d; while((*d++ = *s++)); return r; }
char *stpcpy(char *d, const char *s) { while((*d = *s)) { d++; s++; } return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for(; i < n && s[i]; i++) d[i] = s[i]; for(; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { char *e = d + strlen(d); size_t i = 0; for(; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
char *strchr(const char *s, int c) { for(;; s++) { if(*s == (char) c) return (char *) s; if(!*s) return NULL; } }
char *strrchr(const char *s, int c) { const char *r = NULL; for(;; s++) { if(*s == (char) c) r = s; if(!*s) return (char *) r; } }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); for(; ; h++) { if(strncmp(h, n, l) == 0) return (char *) h; if(!*h) return NULL; } }
void *memchr(const void *p, int c, size_t n) { const unsigned char *s = p; for(size_t i = 0; i < n; i++) if(s[i] == (unsigned char) c) return (void *) (s + i); return NULL; }
void *memrchr(const void *p, int c, size_t n) { const unsigned char *s = p; for(size_t i = n; i > 0; i--) if(s[i - 1] == (unsigned char) c) return (void *) (s + i - 1); return NULL; }
void *memmem(const void *h, size_t hl, const void *n, size_t nl) { for(size_t i = 0; i + nl <= hl; i++) if(memcmp((const char *) h + i, n, nl) == 0) return (char *) h + i; return NULL; }
size_t strnlen(const char *s, size_t n) { size_t i = 0; while(i < n && s[i]) i++; return i; }
size_t strspn(const char *s, const char *a) { size_t i = 0; while(s[i] && strchr(a, s[i])) i++; return i; }
size_t strcspn(const char *s, const char *a) { size_t i = 0; while(s[i] && !strchr(a, s[i])) i++; return i; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *) s : NULL; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *r = malloc(n); if(r) memcpy(r, s, n); return r; }
char *strndup(const char *s, size_t n) { size_t l = strnlen(s, n); char *r = malloc(l + 1); if(r) { memcpy(r, s, l); r[l] = 0; } return r; }

static int isspc(int c) { return c == ' ' || (c >= 9 && c <= 13); }
// the value is exact modulo 2^64; overflow saturates as in C
static unsigned long long parse(const char *s, char **end, int base, int *neg, int *ovf) {
    const char *p = s; unsigned long long v = 0; int any = 0; *neg = 0; *ovf = 0;
    while(isspc(*p)) p++;
    if(*p == '-') { *neg = 1; p++; } else if(*p == '+') p++;
    if((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { base = 16; p += 2; } else if(base == 0) base = p[0] == '0' ? 8 : 10;
    for(;; p++) {
        int c = (unsigned char) *p; unsigned d;
        if(c >= '0' && c <= '9') d = c - '0'; else if(c >= 'a' && c <= 'z') d = c - 'a' + 10; else if(c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break;
        if(d >= (unsigned) base) break;
        any++;
        if(any > 15) { if(v > (~0ULL - d) / base) *ovf = 1; }
        v = v * base + d;
    }
    if(end) *end = (char *) (any ? p : s);
    return v;
}
long strtol(const char *s, char **e, int b) { int n, o; unsigned long long v = parse(s, e, b, &n, &o); if(o || v > (n ? 0x8000000000000000ULL : 0x7fffffffffffffffULL)) { errno = ERANGE; return n ? (long) 0x8000000000000000ULL : 0x7fffffffffffffffL; } return n ? (long) -v : (long) v; }
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long strtoul(const char *s, char **e, int b) { int n, o; unsigned long long v = parse(s, e, b, &n, &o); if(o) { errno = ERANGE; return ~0UL; } return n ? -v : v; }
unsigned long long strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
// the plain names too: the headers may rename the functions above
long plain_strtol(const char *s, char **e, int b) __asm__("strtol"); long plain_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
long long plain_strtoll(const char *s, char **e, int b) __asm__("strtoll"); long long plain_strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long plain_strtoul(const char *s, char **e, int b) __asm__("strtoul"); unsigned long plain_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
unsigned long long plain_strtoull(const char *s, char **e, int b) __asm__("strtoull"); unsigned long long plain_strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
int atoi(const char *s) { return (int) strtol(s, NULL, 10); }
long atol(const char *s) { return strtol(s, NULL, 10); }
long long atoll(const char *s) { return strtol(s, NULL, 10); }
long double strtold(const char *s, char **e) {
    const char *p = s; int neg = 0, any = 0; double v = 0, f = 1;
    while(isspc(*p)) p++;
    if(*p == '-') { neg = 1; p++; } else if(*p == '+') p++;
    for(; *p >= '0' && *p <= '9'; p++) { v = v * 10 + (*p - '0'); any = 1; }
    if(*p == '.') { p++; for(; *p >= '0' && *p <= '9'; p++) { f = f / 10; v = v + f * (*p - '0'); any = 1; } }
    if(e) *e = (char *) (any ? p : s);
    return neg ? -v : v;
}
double strtod(const char *s, char **e) { return (double) strtold(s, e); }
double atof(const char *s) { return strtod(s, NULL); }

#undef isdigit
#undef isprint
#undef isspace
#undef isalnum
#undef isalpha
#undef isxdigit
#undef tolower
#undef toupper
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isprint(int c) { return c >= 32 && c < 127; }
int isspace(int c) { return isspc(c); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int tolower(int c) { return lower(c); }
int toupper(int c) { return (c >= 'a' && c <= 'z') ? c - 32 : c; }
static unsigned short ctab[384]; static const unsigned short *ctabp = NULL;
const unsigned short **__ctype_b_loc(void) {
    if(!ctabp) { for(int c = 0; c < 128; c++) { unsigned short m = 0; if(isalpha(c)) m |= _ISalpha; if(isdigit(c)) m |= _ISdigit; if(isalnum(c)) m |= _ISalnum; if(isprint(c)) m |= _ISprint; if(isprint(c) && c != ' ') m |= _ISgraph; if(isspc(c)) m |= _ISspace; if(isxdigit(c)) m |= _ISxdigit; if(c >= 'A' && c <= 'Z') m |= _ISupper; if(c >= 'a' && c <= 'z') m |= _ISlower; if(isprint(c) && c != ' ' && !isalnum(c)) m |= _ISpunct; if(c < 32 || c == 127) m |= _IScntrl; if(c == ' ' || c == 9) m |= _ISblank; ctab[128 + c] = m; } ctabp = ctab + 128; }
    return &ctabp;
}

char *strerror(int e) { (void) e; return "error"; }
const char *gai_strerror(int e) { (void) e; return "error"; }
FILE *freopen(const char *p, const char *m, FILE *f) { (void) p; (void) m; return f; }
char *getenv(const char *n) { (void) n; return NULL; }
void qsort(void *b, size_t n, size_t s, int (*cmp)(const void *, const void *)) {
    char *a = b; char *t = malloc(s ? s : 1);
    for(size_t i = 1; i < n; i++) { size_t j = i; memcpy(t, a + i * s, s); while(j > 0 && cmp(a + (j - 1) * s, t) > 0) { memcpy(a + j * s, a + (j - 1) * s, s); j--; } memcpy(a + j * s, t, s); }
    free(t);
}

// ---------------------------------------------------------------- formatted output
typedef struct { char *s; size_t max, len; } sink_t;
static void put(sink_t *k, char c) { if(k->len + 1 < k->max) k->s[k->len] = c; k->len++; }
static const char dig[] = "0123456789abcdef", digu[] = "0123456789ABCDEF";
static int digits(char *b, unsigned long long v, int base, int up) {
    int n = 0;
    if(z_is_symbolic(v)) {
        // number of digits by comparison, each digit as an expression
        unsigned long long p = 1; unsigned long long pw[24]; int c = 0;
        do { pw[c++] = p; if(p > ~0ULL / base) break; p *= base; } while(v >= p);
        for(int i = c - 1; i >= 0; i--) { unsigned d = (v / pw[i]) % base; b[n++] = (base == 16 && d > 9) ? (up ? 'A' : 'a') + d - 10 : '0' + d; }
        return n;
    }
    char t[24]; int m = 0;
    do { t[m++] = (up ? digu : dig)[v % base]; v /= base; } while(v);
    while(m) b[n++] = t[--m];
    return n;
}
static void fmt(sink_t *k, const char *f, va_list ap) {
    for(; *f; f++) {
        if(*f != '%') { put(k, *f); continue; }
        f++;
        int left = 0, zero = 0, plus = 0, width = 0, prec = -1, l = 0;
        for(;; f++) { if(*f == '-') left = 1; else if(*f == '0') zero = 1; else if(*f == '+') plus = 1; else if(*f == ' ' || *f == '#') { } else break; }
        if(*f == '*') { width = va_arg(ap, int); if(width < 0) { left = 1; width = -width; } f++; } else while(*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
        if(*f == '.') { f++; prec = 0; if(*f == '*') { prec = va_arg(ap, int); f++; } else while(*f >= '0' && *f <= '9') prec = prec * 10 + *f++ - '0'; }
        for(;; f++) { if(*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') l = 1; else if(*f == 'h') { if(l == 0) l = -1; else l = -2; } else break; }
        char b[64]; const char *s = b; int n = 0; int neg = 0;
        switch(*f) {
            case '%': put(k, '%'); continue;
            case 'c': b[0] = (char) va_arg(ap, int); n = 1; break;
            case 's': s = va_arg(ap, const char *); if(!s) s = "(null)"; if(prec >= 0) while(n < prec && s[n]) n++; else n = (int) strlen(s); zero = 0; break;
            case 'd': case 'i': { long v = l > 0 ? va_arg(ap, long) : va_arg(ap, int); if(l == -1) v = (short) v; if(l == -2) v = (signed char) v; unsigned long u = v; if(v < 0) { neg = 1; u = -u; } n = digits(b, u, 10, 0); break; }
            case 'u': case 'x': case 'X': case 'o': { unsigned long v = l > 0 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned int); if(l == -1) v = (unsigned short) v; if(l == -2) v = (unsigned char) v; if(*f == 'x' && zero && width == 2 && z_is_symbolic(v) && v < 256) { unsigned char hi = (unsigned char) (v >> 4), lo = v & 15; b[0] = (char) ('0' + hi + (hi > 9) * 39); b[1] = (char) ('0' + lo + (lo > 9) * 39); n = 2; break; } n = digits(b, v, *f == 'u' ? 10 : *f == 'o' ? 8 : 16, *f == 'X'); break; }
            case 'p': { unsigned long v = va_arg(ap, unsigned long); b[0] = '0'; b[1] = 'x'; n = 2 + digits(b + 2, v, 16, 0); break; }
            case 'f': case 'F': case 'g': case 'e': {
                double d = va_arg(ap, double); int p = prec < 0 ? 6 : prec; unsigned long bits; memcpy(&bits, &d, 8);
                if(z_is_symbolic(bits)) d = 0;
                if(d < 0) { neg = 1; d = -d; }
                unsigned long sc = 1; for(int i = 0; i < p; i++) sc *= 10;
                unsigned long ip = (unsigned long) d; double fr = (d - (double) ip) * (double) sc + 0.5; unsigned long fp = (unsigned long) fr; if(fp >= sc) { ip++; fp -= sc; }
                n = digits(b, ip, 10, 0); if(p) { b[n++] = '.'; char t[24]; int m = digits(t, fp, 10, 0); for(int i = m; i < p; i++) b[n++] = '0'; for(int i = 0; i < m; i++) b[n++] = t[i]; } break; }
            default: z_fail("model:unsupported-format"); return;
        }
        int pad = width - n - (neg || plus);
        if(!left && !zero) while(pad-- > 0) put(k, ' ');
        if(neg) put(k, '-'); else if(plus) put(k, '+');
        if(!left && zero) while(pad-- > 0) put(k, '0');
        for(int i = 0; i < n; i++) put(k, s[i]);
        if(left) while(pad-- > 0) put(k, ' ');
    }
}
int vsnprintf(char *s, size_t n, const char *f, va_list ap) { sink_t k = { s, n, 0 }; fmt(&k, f, ap); if(n) s[k.len < n ? k.len : n - 1] = 0; return (int) k.len; }
int snprintf(char *s, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(s, n, f, ap); va_end(ap); return r; }
// writes as it goes, so that an overflow of the destination is seen as an out-of-bounds write
int vsprintf(char *s, const char *f, va_list ap) { sink_t k = { s, (size_t) 1 << 30, 0 }; fmt(&k, f, ap); s[k.len] = 0; return (int) k.len; }
int sprintf(char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsprintf(s, f, ap); va_end(ap); return r; }
int vasprintf(char **out, const char *f, va_list ap) { va_list c; va_copy(c, ap); sink_t k = { NULL, 0, 0 }; fmt(&k, f, c); va_end(c); char *b = malloc(k.len + 1); if(!b) return -1; sink_t w = { b, k.len + 1, 0 }; fmt(&w, f, ap); b[w.len] = 0; *out = b; return (int) w.len; }
int asprintf(char **out, const char *f, ...) { va_list ap; va_start(ap, f); int r = vasprintf(out, f, ap); va_end(ap); return r; }

// ---------------------------------------------------------------- options
char *optarg = NULL; int optind = 1, opterr = 1, optopt = 0;
int getopt_long_only(int argc, char *const argv[], const char *sh, const struct option *lo, int *idx) {
    (void) sh;
    if(optind == 0) optind = 1;
    if(optind >= argc || argv[optind][0] != '-') return -1;
    const char *a = argv[optind] + 1; if(*a == '-') a++;
    optind++;
    for(int i = 0; lo[i].name; i++) if(strcmp(lo[i].name, a) == 0) {
        if(idx) *idx = i;
        optarg = NULL;
        if(lo[i].has_arg == required_argument) { if(optind >= argc) return '?'; optarg = argv[optind++]; }
        return lo[i].val;
    }
    return '?';
}
int getopt_long(int argc, char *const argv[], const char *sh, const struct option *lo, int *idx) { return getopt_long_only(argc, argv, sh, lo, idx); }

// ---------------------------------------------------------------- paths
char *__xpg_basename(char *p) {
    if(!p || !*p) return ".";
    uint32_t n = strlen(p); while(n > 1 && p[n - 1] == '/') p[--n] = 0;
    char *s = strrchr(p, '/'); return s && s[1] ? s + 1 : p;
}
char *dirname(char *p) {
    if(!p || !*p) return ".";
    uint32_t n = strlen(p); while(n > 1 && p[n - 1] == '/') p[--n] = 0;
    char *s = strrchr(p, '/'); if(!s) return "."; while(s > p && *s == '/') s--; s[1] = 0; return p;
}

// less usual functions (a change may start using them)
char *strchrnul(const char *s, int c) { while(*s && *s != (char) c) s++; return (char *) s; }
void *rawmemchr(const void *s, int c) { const unsigned char *p = s; while(*p != (unsigned char) c) p++; return (void *) p; }
void *mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *) d + n; }
void *memccpy(void *d, const void *s, int c, size_t n) { char *a = d; const char *b = s; for(size_t i = 0; i < n; i++) { a[i] = b[i]; if(b[i] == (char) c) return a + i + 1; } return NULL; }
char *stpncpy(char *d, const char *s, size_t n) { size_t i = 0, l; for(; i < n && s[i]; i++) d[i] = s[i]; l = i; for(; i < n; i++) d[i] = 0; return d + l; }
size_t strlcpy(char *d, const char *s, size_t n) { size_t l = strlen(s); if(n) { size_t k = l < n - 1 ? l : n - 1; memcpy(d, s, k); d[k] = 0; } return l; }
size_t strlcat(char *d, const char *s, size_t n) { size_t k = strnlen(d, n); return k == n ? n + strlen(s) : k + strlcpy(d + k, s, n - k); }
char *strtok_r(char *s, const char *sep, char **save) { if(!s) s = *save; s += strspn(s, sep); if(!*s) { *save = s; return NULL; } char *e = s + strcspn(s, sep); if(*e) *e++ = 0; *save = e; return s; }
static char *tok_save;
char *strtok(char *s, const char *sep) { return strtok_r(s, sep, &tok_save); }
char *strsep(char **sp, const char *sep) { char *s = *sp; if(!s) return NULL; char *e = s + strcspn(s, sep); if(*e) { *e = 0; *sp = e + 1; } else *sp = NULL; return s; }
char *strcasestr(const char *h, const char *n) { size_t l = strlen(n); for(; ; h++) { if(strncasecmp(h, n, l) == 0) return (char *) h; if(!*h) return NULL; } }
void bzero(void *p, size_t n) { memset(p, 0, n); }
void bcopy(const void *s, void *d, size_t n) { memmove(d, s, n); }
void explicit_bzero(void *p, size_t n) { memset(p, 0, n); }
void *reallocarray(void *p, size_t a, size_t b) { if(b && a > (size_t) -1 / b) { errno = ENOMEM; return NULL; } return realloc(p, a * b); }
void *aligned_alloc(size_t a, size_t n) { (void) a; return malloc(n); }
int posix_memalign(void **p, size_t a, size_t n) { (void) a; *p = malloc(n); return *p ? 0 : ENOMEM; }
void *bsearch(const void *k, const void *b, size_t n, size_t w, int (*c)(const void *, const void *)) { size_t l = 0, h = n; while(l < h) { size_t m = (l + h) / 2; const void *p = (const char *) b + m * w; int r = c(k, p); if(r == 0) return (void *) p; if(r < 0) h = m; else l = m + 1; } return NULL; }
int (iscntrl)(int c) { return (c >= 0 && c < 32) || c == 127; }
int (isgraph)(int c) { return c > 32 && c < 127; }
int (isupper)(int c) { return c >= 'A' && c <= 'Z'; }
int (islower)(int c) { return c >= 'a' && c <= 'z'; }
int (ispunct)(int c) { return isgraph(c) && !isalnum(c); }
int (isblank)(int c) { return c == ' ' || c == '\t'; }
// sscanf: integers, characters, strings and literals
static int scan1(const char *s, const char *f, va_list ap) {
    const char *b = s; int n = 0;
    for(; *f; f++) {
        if(isspc((unsigned char) *f)) { while(isspc((unsigned char) *s)) s++; continue; }
        if(*f != '%') { if(*s != *f) return n || *s ? n : -1; s++; continue; }
        f++; int skip = 0, width = 0, size = 4;
        if(*f == '%') { if(*s != '%') return n; s++; continue; }
        if(*f == '*') { skip = 1; f++; }
        while(*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
        if(*f == 'h') { size = 2; f++; if(*f == 'h') { size = 1; f++; } } else if(*f == 'l') { size = 8; f++; if(*f == 'l') f++; } else if(*f == 'z' || *f == 'j' || *f == 't') { size = 8; f++; }
        if(*f == 'n') { *va_arg(ap, int *) = (int) (s - b); continue; }
        if(*f == 'c') { int w = width ? width : 1; char *o = skip ? NULL : va_arg(ap, char *); for(int i = 0; i < w; i++) { if(!*s) return n ? n : -1; if(o) o[i] = *s; s++; } n += !skip; continue; }
        while(isspc((unsigned char) *s)) s++;
        if(!*s) return n ? n : -1;
        if(*f == 's') { char *o = skip ? NULL : va_arg(ap, char *); int i = 0; while(*s && !isspc((unsigned char) *s) && (!width || i < width)) { if(o) o[i] = *s; i++; s++; } if(o) o[i] = 0; n += !skip; continue; }
        int base = *f == 'x' || *f == 'X' ? 16 : *f == 'o' ? 8 : *f == 'i' ? 0 : 10;
        if(*f != 'd' && *f != 'i' && *f != 'u' && base == 10) { z_fail("model:sscanf-conversion"); return n; }
        char t[32]; int l = 0, w = width && width < 31 ? width : 31; while(l < w && s[l]) { t[l] = s[l]; l++; } t[l] = 0;
        char *e; unsigned long long v = strtoull(t, &e, base); if(e == t) return n;
        s += e - t; if(skip) continue;
        if(size == 8) *va_arg(ap, unsigned long long *) = v; else if(size == 4) *va_arg(ap, unsigned int *) = (unsigned int) v; else if(size == 2) *va_arg(ap, unsigned short *) = (unsigned short) v; else *va_arg(ap, unsigned char *) = (unsigned char) v;
        n++;
    }
    return n;
}
int vsscanf(const char *s, const char *f, va_list ap) { return scan1(s, f, ap); }
int sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = scan1(s, f, ap); va_end(ap); return r; }
int __isoc99_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = scan1(s, f, ap); va_end(ap); return r; }
int plain_sscanf(const char *s, const char *f, ...) __asm__("sscanf"); int plain_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = scan1(s, f, ap); va_end(ap); return r; }
int plain_vsscanf(const char *s, const char *f, va_list ap) __asm__("vsscanf"); int plain_vsscanf(const char *s, const char *f, va_list ap) { return scan1(s, f, ap); }
