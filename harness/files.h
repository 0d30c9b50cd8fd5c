// Independent reading of the on-disk formats (data and index files), used as an oracle.
#ifndef FILES_H
#define FILES_H
#include "zharn.h"
#define DREC 18          // idlength u8, datalength u32, previous u32, integrity u32, flags u8, timestamp u32
#define DHEAD 28
#define IREC 38          // idlength u8, offset u32, length u32, previous u32, flags u8, dataid u32, timestamp u32, crc u32, parentid u32?, parentoff u32
#define IHEAD 29
typedef struct { uint32_t at, idlen, datalen, previous, crc, flags, ts; const unsigned char *id, *data; } drec_t;
static inline vnode_t *f_file(const char *root, const char *ns, char kind, int id) {
    char p[64]; sprintf(p, "/db/%s/%s/%c%d", root, ns, kind, id);
    return vfs_find(p);
}
static inline vnode_t *f_data(const char *ns, int id) { return f_file("d", ns, 'd', id); }
static inline vnode_t *f_index(const char *ns, int id) { return f_file("i", ns, 'i', id); }
// next record of a data file; 0 at the end; asserts the file is well formed
static inline int f_next(vnode_t *f, uint32_t *at, drec_t *r) {
    if(*at == f->size) return 0;
    z_assert(*at + DREC <= f->size, "data-file-record-complete");
    const unsigned char *p = f->data + *at;
    r->at = *at; r->idlen = p[0]; r->datalen = zh_u32(p + 1); r->previous = zh_u32(p + 5); r->crc = zh_u32(p + 9); r->flags = p[13]; r->ts = zh_u32(p + 14);
    z_assert(r->datalen <= f->size && *at + DREC + r->idlen + r->datalen <= f->size, "data-file-record-complete");
    r->id = p + DREC; r->data = r->id + r->idlen;
    *at += DREC + r->idlen + r->datalen;
    return 1;
}
// reflected CRC with the Castagnoli polynomial, start value 0, no final inversion
static inline uint32_t ref_crc(const unsigned char *p, uint32_t n) {
    uint32_t c = 0;
    for(uint32_t i = 0; i < n; i++) { c ^= p[i]; for(int k = 0; k < 8; k++) c = (c >> 1) ^ (0x82f63b78u & (0u - (c & 1))); }
    return c;
}
#endif
