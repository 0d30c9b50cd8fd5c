// Reference model of one namespace, driven in lockstep with the daemon.
#ifndef MODEL_H
#define MODEL_H
#include "zharn.h"
#define MKEYS 6
#define MVERS 8
#define MVAL 24
typedef struct { unsigned char v[MVAL]; uint32_t n; uint32_t ts; } mver_t;
typedef struct {
    unsigned char k[260]; uint32_t kn;
    int have;                     // readable now
    int dead;                     // was deleted at least once (a sequential id never comes back)
    int nv; mver_t ver[MVERS];    // versions since the last creation, oldest first
    int order;                    // position of the last effective write
} ment_t;
extern ment_t M[MKEYS];
extern int MN;                    // keys in use
extern int m_seq;                 // sequential mode
extern int m_c;                   // client used
extern int m_noabsent;            // skip reads of absent keys

void m_init(int seq);
void m_switch(int n);             // several namespaces: save the current model, use the n-th one (0-2)
void m_push(ment_t *e, const void *v, uint32_t n, uint32_t ts);   // record a write made outside of m_set/m_new
void m_keys(int n, int lens);     // n symbolic pairwise distinct keys; lens: 0 all one byte, 1 lengths 1 and 2 chosen
void m_value(unsigned char *v, uint32_t n);
int m_set(int i, const void *v, uint32_t n);      // SET on key/id i; checks the reply; 1 if something was written
int m_set_ts(int i, const void *v, uint32_t n, uint32_t ts, int explicit_ts);
int m_new(const void *v, uint32_t n);             // sequential insert; returns its slot
void m_del(int i);
void m_read_value(int i);         // GET only
void m_read(int i);               // GET/EXISTS/LENGTH of key i against the model
void m_verify(void);              // every key, MGET, CHECK, KEYTIME, DBSIZE, NSINFO sizes
void m_scan(int reverse, int page);   // full walk; page: at most this many entries per reply (0: all at once)
void m_history(int i);            // walk the version chain of key i
int64_t m_entries(void);
int64_t m_datasize(void);
int m_info(const char *name, int64_t *v);         // integer field of NSINFO of namespace m_ns
extern const char *m_ns;
int m_random_op(int nkeys, int lens, int ops);    // one arbitrary operation (SET/DEL)
#endif
