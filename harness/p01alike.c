#include "zharn.h"
// A value is replaced by one of the same length (and, for the solver to choose, the same checksum): the update
// is ignored exactly when every byte is the same. Lengths up to several network and file buffers.
static unsigned char k[3] = { 'k', 'e', 'y' }, v[2][70100];
static void is(const char *key, uint32_t kn, const unsigned char *w, uint32_t n) {
    int64_t l;
    z_assert(CMD(0, S("GET"), B(key, kn)), "daemon-alive"); z_assert(zr_bulk_is(w, n) && zr_end(), "get-returns-last-value");
    z_assert(CMD(0, S("LENGTH"), B(key, kn)), "daemon-alive"); z_assert(zr_int(&l) && l == n && zr_end(), "length-exact");
    z_assert(CMD(0, S("CHECK"), B(key, kn)), "daemon-alive"); z_assert(zr_int(&l) && l == 1 && zr_end(), "check-intact");
}
void zmain(void) {
    static const uint32_t small[] = { 5, 8, 9, 13, 16, 32, 33, 70, 255, 256, 257, 600 }, big[] = { 4000, 8174, 8192, 8193, 16384, 65535, 65536, 65541, 70000 };
    int b = (int) z_param("big", 0), seq = (int) z_param("seq", 0);
    env_reset();
    zh_bits = 0;
    zh_opts[0] = "--mode"; zh_opts[1] = seq ? "seq" : "user"; zh_opts[2] = NULL;
    z_assert(zh_boot(), "daemon-starts");
    zh_connect(0);
    uint32_t n = b ? big[z_choice(9, "length")] : small[z_choice(12, "length")], w = z_param("window", 5);
    uint32_t p = z_choice(3, "where"); p = p == 0 ? 0 : p == 1 ? n - w : (n - w) / 2;
    for(uint32_t i = 0; i < n; i++) v[0][i] = v[1][i] = 'A' + (i * 7 + i / 251) % 26;
    z_bytes(v[0] + p, w, "v"); z_bytes(v[1] + p, w, "w");
    char key[9]; uint32_t kn = 3; memcpy(key, k, 3);
    if(seq) { const unsigned char *q; uint32_t l; z_assert(CMD(0, S("SET"), S(""), S("1st")) && zr_bulk(&q, &l) && l == 8, "insert-returns-id"); memcpy(key, q, 8); kn = 8; }
    else z_assert(CMD(0, S("SET"), S("kez"), S("other")) && zr_bulk_is("kez", 3), "set-returns-key");
    z_assert(CMD(0, S("SET"), B(key, kn), B(v[0], n)), "daemon-alive"); z_assert(zr_bulk_is(key, kn) && zr_end(), "set-returns-key");
    is(key, kn, v[0], n);
    uint32_t wr = env.writes;
    z_assert(CMD(0, S("SET"), B(key, kn), B(v[1], n)), "daemon-alive");
    if(zr_nil()) { z_assert(memcmp(v[0], v[1], n) == 0, "only-same-value-ignored"); z_assert(env.writes == wr, "ignored-update-writes-nothing"); z_cover("ignored"); }
    else { z_assert(zr_bulk_is(key, kn) && zr_end(), "set-returns-key"); z_assert(memcmp(v[0], v[1], n) != 0, "same-value-ignored"); z_cover("replaced"); }
    is(key, kn, v[1], n);
    z_assert(CMD(0, S("HISTORY"), B(key, kn)), "daemon-alive");
    { const unsigned char *q; uint32_t l; int64_t a; z_assert(zr_array(&a) && a == 3 && (zr_nil() || zr_bulk(&q, &l)) && zr_bulk(&q, &l) && zr_bulk_is(v[1], n) && zr_end(), "history-payload"); }
    z_assert(CMD(0, S("MGET"), B(key, kn), S("absent")), "daemon-alive");
    { int64_t a; z_assert(zr_array(&a) && a == 2 && zr_bulk_is(v[1], n) && zr_nil() && zr_end(), "mget-value"); }
    z_assert(zh_boot(), "daemon-restarts"); zh_connect(0);
    is(key, kn, v[1], n);
    if(!seq) is("kez", 3, (const unsigned char *) "other", 5);
    z_cover("end");
}
