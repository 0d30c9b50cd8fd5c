// zsym: hash-consed bit-vector expressions (width 1..64) with local simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <map>
#include <algorithm>
#include <vector>

enum Op : uint8_t { E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR,
    E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT, E_NOT,
    E_LIN };   // k: index of a linear form over GF(2), constant ^ (atom_j ? K_j : 0) ^ ...

struct Expr {
    uint8_t op, w;
    uint32_t id;
    uint64_t k;            // constant value / variable index / extract low bit
    Expr *a, *b, *c;
    uint64_t vars[4];      // over-approximate variable set (index modulo 256), for slicing
    uint32_t pinEpoch = 0; uint64_t pinVal = 0;
    uint32_t evEpoch = 0;  uint64_t evVal = 0;
    void *z = nullptr;     // translated solver term
};

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) {
    if(w >= 64) return (int64_t) v;
    uint64_t m = 1ULL << (w - 1);
    v &= maskw(w);
    return (int64_t) ((v ^ m) - m);
}

struct Lin { uint64_t c = 0; std::vector<std::pair<Expr *, uint64_t>> t; };   // terms sorted by atom id
struct ExprKey { uint8_t op, w; uint64_t k; Expr *a, *b, *c; };

class ExprPool {
    std::vector<Expr *> table; size_t count = 0; size_t mask;
    std::vector<Expr *> blocks; size_t used = 0; static const size_t BLK = 4096;
    static uint64_t h(uint8_t op, uint8_t w, uint64_t k, Expr *a, Expr *b, Expr *c) {
        uint64_t x = op * 0x9E3779B97F4A7C15ULL ^ ((uint64_t) w << 32) ^ k * 0xC2B2AE3D27D4EB4FULL;
        x ^= (uint64_t) (a ? a->id + 1 : 0) * 0x165667B19E3779F9ULL; x = (x << 23) | (x >> 41);
        x ^= (uint64_t) (b ? b->id + 1 : 0) * 0x27D4EB2F165667C5ULL; x = (x << 19) | (x >> 45);
        x ^= (uint64_t) (c ? c->id + 1 : 0) * 0x85EBCA77C2B2AE63ULL;
        x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ULL; x ^= x >> 32;
        return x;
    }
    void grow() {
        std::vector<Expr *> old; old.swap(table);
        mask = mask * 2 + 1; table.assign(mask + 1, nullptr);
        for(Expr *e : old) if(e) { size_t i = h(e->op, e->w, e->k, e->a, e->b, e->c) & mask; while(table[i]) i = (i + 1) & mask; table[i] = e; }
    }
    Expr *alloc() {
        if(blocks.empty() || used == BLK) { blocks.push_back((Expr *) calloc(BLK, sizeof(Expr))); used = 0; }
        return &blocks.back()[used++];
    }
public:
    ExprPool() { mask = (1 << 16) - 1; table.assign(mask + 1, nullptr); }
    size_t size() const { return count; }

    Expr *raw(uint8_t op, uint8_t w, uint64_t k, Expr *a = nullptr, Expr *b = nullptr, Expr *c = nullptr) {
        size_t i = h(op, w, k, a, b, c) & mask;
        while(Expr *e = table[i]) {
            if(e->op == op && e->w == w && e->k == k && e->a == a && e->b == b && e->c == c) return e;
            i = (i + 1) & mask;
        }
        Expr *e = alloc();
        e->op = op; e->w = w; e->k = k; e->a = a; e->b = b; e->c = c; e->id = count++;
        for(int j = 0; j < 4; j++) e->vars[j] = (a ? a->vars[j] : 0) | (b ? b->vars[j] : 0) | (c ? c->vars[j] : 0);
        if(op == E_LIN) for(auto &x : lins[k].t) for(int j = 0; j < 4; j++) e->vars[j] |= x.first->vars[j];
        if(op == E_VAR) e->vars[(k >> 6) & 3] |= 1ULL << (k & 63);
        table[i] = e;
        if(count * 2 > mask) grow();
        return e;
    }
    Expr *cst(uint64_t v, unsigned w) { return raw(E_CONST, w, v & maskw(w)); }
    Expr *var(uint32_t idx, unsigned w) { return raw(E_VAR, w, idx); }

    static uint64_t fold(uint8_t op, unsigned w, uint64_t x, uint64_t y) {
        uint64_t m = maskw(w);
        switch(op) {
            case E_ADD: return (x + y) & m;
            case E_SUB: return (x - y) & m;
            case E_MUL: return (x * y) & m;
            case E_UDIV: return y ? (x / y) & m : m;
            case E_UREM: return y ? (x % y) & m : x;
            case E_SDIV: { int64_t a = sx(x, w), b = sx(y, w); if(!b) return (a < 0 ? 1 : m); if(b == -1) return (0 - (uint64_t) a) & m; return (uint64_t) (a / b) & m; }
            case E_SREM: { int64_t a = sx(x, w), b = sx(y, w); if(!b) return x; if(b == -1) return 0; return (uint64_t) (a % b) & m; }
            case E_AND: return x & y;
            case E_OR: return x | y;
            case E_XOR: return x ^ y;
            case E_SHL: return y >= w ? 0 : (x << y) & m;
            case E_LSHR: return y >= w ? 0 : (x & m) >> y;
            case E_ASHR: { int64_t a = sx(x, w); return (uint64_t) (a >> (y >= w ? w - 1 : y)) & m; }
            case E_EQ: return x == y;
            case E_ULT: return x < y;
            case E_ULE: return x <= y;
            case E_SLT: return sx(x, w) < sx(y, w);
            case E_SLE: return sx(x, w) <= sx(y, w);
        }
        abort();
    }
    // --- linear forms (checksums): equal bits cancel, equations are solved by elimination
    std::vector<Lin> lins; std::unordered_map<uint64_t, std::vector<uint32_t>> linIndex;
    typedef std::map<std::pair<uint32_t, Expr *>, uint64_t> LinMap;
    static bool linish(Expr *e) { while(e->op == E_EXTRACT || e->op == E_ZEXT) e = e->a; return e->op == E_LIN; }
    void linBit(Expr *b, uint64_t K, uint64_t &c, LinMap &m) {
        for(;;) {
            if(b->op == E_CONST) { if(b->k) c ^= K; return; }
            if(b->op == E_NOT) { c ^= K; b = b->a; continue; }
            if(b->op == E_XOR) { linBit(b->a, K, c, m); b = b->b; continue; }
            if(b->op == E_EXTRACT && b->a->op == E_LIN) { Lin &l = lins[b->a->k]; unsigned s = b->k; if(l.c >> s & 1) c ^= K; for(auto &x : l.t) if(x.second >> s & 1) m[{x.first->id, x.first}] ^= K; return; }
            m[{b->id, b}] ^= K; return;
        }
    }
    void linAdd(Expr *e, uint64_t &c, LinMap &m) {
        if(e->op == E_CONST) { c ^= e->k; return; }
        if(e->op == E_LIN) { Lin &l = lins[e->k]; c ^= l.c; for(auto &x : l.t) m[{x.first->id, x.first}] ^= x.second; return; }
        if(e->op == E_EXTRACT && e->a->op == E_LIN) { Lin &l = lins[e->a->k]; uint64_t mk = maskw(e->w); c ^= (l.c >> e->k) & mk; for(auto &x : l.t) m[{x.first->id, x.first}] ^= (x.second >> e->k) & mk; return; }
        if(e->op == E_ZEXT) { linAdd(e->a, c, m); return; }
        if(e->op == E_XOR) { linAdd(e->a, c, m); linAdd(e->b, c, m); return; }
        for(unsigned i = 0; i < e->w; i++) linBit(extract(e, i, 1), 1ULL << i, c, m);
    }
    Expr *mkLin(uint64_t c, LinMap &m, unsigned w) {
        Lin l; l.c = c & maskw(w); uint64_t h = l.c * 0x9E3779B97F4A7C15ULL + w;
        for(auto &x : m) if(x.second & maskw(w)) { l.t.push_back({x.first.second, x.second & maskw(w)}); h = (h ^ (x.first.first * 0xC2B2AE3D27D4EB4FULL + (x.second & maskw(w)))) * 0x165667B19E3779F9ULL; h ^= h >> 31; }
        if(l.t.empty()) return cst(l.c, w);
        for(uint32_t i : linIndex[h]) if(lins[i].c == l.c && lins[i].t == l.t) return raw(E_LIN, w, i);
        lins.push_back(std::move(l)); linIndex[h].push_back(lins.size() - 1); return raw(E_LIN, w, lins.size() - 1);
    }
    // sum == 0: false, or a conjunction of one equation per pivot
    Expr *linZero(uint64_t c, LinMap &m, unsigned w) {
        std::vector<Expr *> at; std::vector<uint64_t> col; for(auto &x : m) if(x.second) { at.push_back(x.first.second); col.push_back(x.second); }
        size_t n = at.size(), words = n / 64 + 1; std::vector<std::vector<uint64_t>> row(w, std::vector<uint64_t>(words, 0));
        for(unsigned i = 0; i < w; i++) { for(size_t j = 0; j < n; j++) if(col[j] >> i & 1) row[i][j >> 6] |= 1ULL << (j & 63); if(c >> i & 1) row[i][n >> 6] |= 1ULL << (n & 63); }
        unsigned r = 0; for(size_t j = 0; j < n && r < w; j++) {
            unsigned p = r; while(p < w && !(row[p][j >> 6] >> (j & 63) & 1)) p++; if(p == w) continue; std::swap(row[p], row[r]);
            for(unsigned i = 0; i < w; i++) if(i != r && (row[i][j >> 6] >> (j & 63) & 1)) for(size_t x = 0; x < words; x++) row[i][x] ^= row[r][x];
            r++; }
        for(unsigned i = r; i < w; i++) if(row[i][n >> 6] >> (n & 63) & 1) return cst(0, 1);
        Expr *res = cst(1, 1);
        for(unsigned i = 0; i < r; i++) { Expr *x = nullptr; for(size_t j = 0; j < n; j++) if(row[i][j >> 6] >> (j & 63) & 1) x = x ? bin(E_XOR, x, at[j]) : at[j]; if(!(row[i][n >> 6] >> (n & 63) & 1)) x = notE(x); res = bin(E_AND, res, x); }
        return res;
    }
    static bool isc(Expr *e) { return e->op == E_CONST; }
    static bool pinned0(Expr *) { return false; }

    Expr *notE(Expr *a) {
        if(isc(a)) return cst(~a->k, a->w);
        if(a->op == E_NOT) return a->a;
        return raw(E_NOT, a->w, 0, a);
    }
    Expr *ite(Expr *c, Expr *a, Expr *b) {
        if(isc(c)) return c->k ? a : b;
        if(a == b) return a;
        if(c->op == E_NOT) return ite(c->a, b, a);
        if(a->w == 1 && isc(a) && isc(b)) return a->k ? c : notE(c);
        if(a->w == 1 && isc(b) && !b->k) return bin(E_AND, c, a);
        if(a->w == 1 && isc(a) && a->k) return bin(E_OR, c, b);
        return raw(E_ITE, a->w, 0, c, a, b);
    }
    Expr *zext(Expr *a, unsigned w) {
        if(a->w == w) return a;
        if(isc(a)) return cst(a->k, w);
        if(a->op == E_ZEXT) return raw(E_ZEXT, w, 0, a->a);
        return raw(E_ZEXT, w, 0, a);
    }
    Expr *sext(Expr *a, unsigned w) {
        if(a->w == w) return a;
        if(isc(a)) return cst((uint64_t) sx(a->k, a->w), w);
        if(a->op == E_ZEXT) return zext(a->a, w);
        if(a->op == E_SEXT) return raw(E_SEXT, w, 0, a->a);
        return raw(E_SEXT, w, 0, a);
    }
    Expr *extract(Expr *a, unsigned lo, unsigned w) {
        if(lo == 0 && a->w == w) return a;
        if(isc(a)) return cst(a->k >> lo, w);
        switch(a->op) {
            case E_LIN: { Lin &l = lins[a->k]; uint64_t any = 0; for(auto &x : l.t) any |= (x.second >> lo) & maskw(w); if(!any) return cst(l.c >> lo, w); break; }
            case E_EXTRACT: return extract(a->a, a->k + lo, w);
            case E_ZEXT:
                if(lo >= a->a->w) return cst(0, w);
                if(lo + w <= a->a->w) return extract(a->a, lo, w);
                return zext(extract(a->a, lo, a->a->w - lo), w);
            case E_SEXT:
                if(lo + w <= a->a->w) return extract(a->a, lo, w);
                if(a->a->w == 1) return sext(a->a, w);
                break;
            case E_CONCAT: {
                unsigned lw = a->b->w;
                if(lo >= lw) return extract(a->a, lo - lw, w);
                if(lo + w <= lw) return extract(a->b, lo, w);
                return concat(extract(a->a, 0, lo + w - lw), extract(a->b, lo, lw - lo));
            }
            case E_AND: case E_OR: case E_XOR:
                return bin(a->op, extract(a->a, lo, w), extract(a->b, lo, w));
            case E_NOT: return notE(extract(a->a, lo, w));
            case E_ITE:
                if(isc(a->b) || isc(a->c)) return ite(a->a, extract(a->b, lo, w), extract(a->c, lo, w));
                break;
            case E_ADD: case E_SUB: case E_MUL:
                if(lo == 0) return bin(a->op, extract(a->a, 0, w), extract(a->b, 0, w));
                break;
            case E_SHL:
                if(isc(a->b)) {
                    uint64_t s = a->b->k;
                    if(s >= a->w) return cst(0, w);
                    if(lo >= s) return extract(a->a, lo - s, w);
                    if(lo + w <= s) return cst(0, w);
                }
                break;
            case E_LSHR:
                if(isc(a->b)) {
                    uint64_t s = a->b->k;
                    if(lo + s >= a->w) return cst(0, w);
                    if(lo + s + w <= a->w) return extract(a->a, lo + s, w);
                }
                break;
        }
        return raw(E_EXTRACT, w, lo, a);
    }
    Expr *concat(Expr *hi, Expr *lo) {
        unsigned w = hi->w + lo->w;
        if(isc(hi) && isc(lo)) return cst((hi->k << lo->w) | lo->k, w);
        if(isc(hi) && hi->k == 0) return zext(lo, w);
        if(hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->a == lo->a && hi->k == lo->k + lo->w) return extract(lo->a, lo->k, w);
        if(hi->op == E_EXTRACT && hi->a == lo && hi->k == lo->w) return extract(lo, 0, w); // (cannot happen, widths)
        if(hi->op == E_EXTRACT && lo->op == E_CONCAT && lo->a->op == E_EXTRACT && lo->a->a == hi->a && hi->k == lo->a->k + lo->a->w)
            return concat(extract(hi->a, lo->a->k, hi->w + lo->a->w), lo->b);
        if(hi->op == E_ZEXT && lo->op == E_EXTRACT) {
            Expr *h = hi->a;
            if(h->op == E_EXTRACT && h->a == lo->a && h->k == lo->k + lo->w) return zext(extract(lo->a, lo->k, h->w + lo->w), w);
        }
        return raw(E_CONCAT, w, 0, hi, lo);
    }
    Expr *bin(uint8_t op, Expr *a, Expr *b) {
        unsigned w = a->w;
        unsigned rw = (op >= E_EQ && op <= E_SLE) ? 1 : w;
        if(isc(a) && isc(b)) return cst(fold(op, w, a->k, b->k), rw);
        bool comm = op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ;
        if(comm && (isc(a) || (!isc(b) && a->id > b->id))) std::swap(a, b);
        uint64_t m = maskw(w);
        if((op == E_EQ || (op == E_XOR && w > 1)) && a != b && (linish(a) || linish(b) || (op == E_XOR && ((a->op == E_AND && a->a->op == E_SEXT && a->a->a->w == 1 && isc(a->b)) || (b->op == E_AND && b->a->op == E_SEXT && b->a->a->w == 1 && isc(b->b)))))) {
            uint64_t c = 0; LinMap lm; linAdd(a, c, lm); linAdd(b, c, lm);
            return op == E_EQ ? linZero(c & m, lm, w) : mkLin(c, lm, w);
        }
        switch(op) {
            case E_ADD:
                if(isc(b)) { if(!b->k) return a; if(a->op == E_ADD && isc(a->b)) return bin(E_ADD, a->a, cst(a->b->k + b->k, w)); }
                break;
            case E_SUB:
                if(isc(a) && !a->k && b->op == E_ZEXT && b->a->w == 1) return sext(b->a, w);
                if(a == b) return cst(0, w);
                if(isc(b)) return bin(E_ADD, a, cst(0 - b->k, w));
                if(a->op == E_ADD && a->a == b) return a->b;
                if(a->op == E_ADD && a->b == b) return a->a;
                break;
            case E_MUL:
                if(isc(b)) { if(!b->k) return b; if(b->k == 1) return a; if(!(b->k & (b->k - 1))) return bin(E_SHL, a, cst(__builtin_ctzll(b->k), w)); }
                break;
            case E_UDIV: if(isc(b) && b->k && !(b->k & (b->k - 1))) return bin(E_LSHR, a, cst(__builtin_ctzll(b->k), w)); break;
            case E_UREM: if(isc(b) && b->k && !(b->k & (b->k - 1))) return bin(E_AND, a, cst(b->k - 1, w)); break;
            case E_AND:
                if(a == b) return a;
                if(isc(b)) {
                    if(!b->k) return b;
                    if(b->k == m) return a;
                    if(!(b->k & (b->k + 1))) { unsigned n = __builtin_popcountll(b->k); return zext(extract(a, 0, n), w); }
                    if(a->op == E_ZEXT) return zext(bin(E_AND, a->a, cst(b->k, a->a->w)), w);
                }
                break;
            case E_OR:
                if(a == b) return a;
                if(isc(b)) { if(!b->k) return a; if(b->k == m) return b; }
                break;
            case E_XOR:
                if(a == b) return cst(0, w);
                if(isc(b)) { if(!b->k) return a; if(b->k == m) return notE(a); }
                break;
            case E_SHL:
                if(isc(b)) { if(!b->k) return a; if(b->k >= w) return cst(0, w); return raw_concat_zero(extract(a, 0, w - b->k), b->k); }
                break;
            case E_LSHR:
                if(isc(b)) { if(!b->k) return a; if(b->k >= w) return cst(0, w); return zext(extract(a, b->k, w - b->k), w); }
                break;
            case E_ASHR:
                if(isc(b)) { if(!b->k) return a; if(a->op == E_ZEXT) return bin(E_LSHR, a, b); if(b->k < w) return sext(extract(a, b->k, w - b->k), w); }
                break;
            case E_EQ:
                if(a == b) return cst(1, 1);
                if(isc(b)) {
                    if(w == 1) return b->k ? a : notE(a);
                    switch(a->op) {
                        case E_ZEXT: if(b->k & ~maskw(a->a->w)) return cst(0, 1); return bin(E_EQ, a->a, cst(b->k, a->a->w));
                        case E_SEXT: { uint64_t v = b->k & maskw(a->a->w); if((((uint64_t) sx(v, a->a->w)) & m) != b->k) return cst(0, 1); return bin(E_EQ, a->a, cst(v, a->a->w)); }
                        case E_ADD: if(isc(a->b)) return bin(E_EQ, a->a, cst(b->k - a->b->k, w)); break;
                        case E_SUB: if(!b->k) return bin(E_EQ, a->a, a->b); break;
                        case E_XOR: if(isc(a->b)) return bin(E_EQ, a->a, cst(b->k ^ a->b->k, w)); if(!b->k) return bin(E_EQ, a->a, a->b); break;
                        case E_NOT: return bin(E_EQ, a->a, cst(~b->k, w));
                        case E_ITE:
                            if(isc(a->b) && isc(a->c)) {
                                bool t = a->b->k == b->k, f = a->c->k == b->k;
                                if(t && f) return cst(1, 1); if(t) return a->a; if(f) return notE(a->a); return cst(0, 1);
                            }
                            if(isc(a->b) && a->b->k != b->k) return bin(E_AND, notE(a->a), bin(E_EQ, a->c, b));
                            if(isc(a->c) && a->c->k != b->k) return bin(E_AND, a->a, bin(E_EQ, a->b, b));
                            break;
                        case E_CONCAT: {
                            Expr *h = bin(E_EQ, a->a, cst(b->k >> a->b->w, a->a->w)), *l = bin(E_EQ, a->b, cst(b->k, a->b->w));
                            return bin(E_AND, h, l);
                        }
                        case E_OR: if(!b->k) return bin(E_AND, bin(E_EQ, a->a, b), bin(E_EQ, a->b, b)); break;
                    }
                } else if(a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return bin(E_EQ, a->a, b->a);
                else if(a->op == E_SEXT && b->op == E_SEXT && a->a->w == b->a->w) return bin(E_EQ, a->a, b->a);
                else if(w == 1) { }
                break;
            case E_ULT:
                if(a == b) return cst(0, 1);
                if(isc(b)) { if(!b->k) return cst(0, 1); if(a->op == E_ZEXT) { if(b->k > maskw(a->a->w)) return cst(1, 1); return bin(E_ULT, a->a, cst(b->k, a->a->w)); } if(b->k == 1) return bin(E_EQ, a, cst(0, w)); }
                if(isc(a)) { if(a->k == m) return cst(0, 1); if(b->op == E_ZEXT) { if(a->k >= maskw(b->a->w)) return cst(0, 1); return bin(E_ULT, cst(a->k, b->a->w), b->a); } if(!a->k) return notE(bin(E_EQ, b, cst(0, w))); }
                if(a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return bin(E_ULT, a->a, b->a);
                break;
            case E_ULE: return notE(bin(E_ULT, b, a));
            case E_SLT:
                if(a == b) return cst(0, 1);
                { bool pa = (a->op == E_ZEXT) || (isc(a) && sx(a->k, w) >= 0), pb = (b->op == E_ZEXT) || (isc(b) && sx(b->k, w) >= 0);
                  if(pa && pb) return bin(E_ULT, a, b);
                  if(pa && isc(b) && sx(b->k, w) < 0) return cst(0, 1);
                  if(pb && isc(a) && sx(a->k, w) < 0) return cst(1, 1); }
                if(a->op == E_SEXT && b->op == E_SEXT && a->a->w == b->a->w) return bin(E_SLT, a->a, b->a);
                break;
            case E_SLE: return notE(bin(E_SLT, b, a));
        }
        return raw(op, rw, 0, a, b);
    }
    Expr *raw_concat_zero(Expr *hi, unsigned z) {
        Expr *lo = cst(0, z);
        if(isc(hi)) return cst(hi->k << z, hi->w + z);
        return raw(E_CONCAT, hi->w + z, 0, hi, lo);
    }
};
