#include "model.h"
#include "files.h"
// CHECK tells an intact payload from a damaged one, whatever was damaged.
void zmain(void) {
    unsigned char v[24], w[24]; int64_t n;
    env_reset();
    zh_bits = 0;
    zh_opts[0] = "--mode"; zh_opts[1] = z_param("seq", 0) ? "seq" : "user"; zh_opts[2] = NULL;
    z_assert(zh_boot(), "daemon-starts");
    zh_connect(0);
    m_init(z_param("seq", 0));
    static const uint8_t lens[] = { 1, 4, 0, 8, 9, 17 };
    uint32_t l = lens[z_choice(z_param("lens", 6), "vlen")];
    z_bytes(v, l, "v");
    memset(w, 'w', 8);
    if(m_seq) { m_new(w, 3); m_new(v, l); } else { M[0].kn = 2; memcpy(M[0].k, "kw", 2); M[1].kn = 3; memcpy(M[1].k, "key", 3); MN = 2; m_set(0, w, 3); m_set(1, v, l); }
    if(z_choice(2, "after")) { m_set(0, w, 5); z_cover("not-last"); }
    if(z_choice(2, "restart")) { z_assert(zh_boot(), "daemon-restarts"); zh_connect(0); }
    if(z_choice(2, "jump")) z_assert(CMD(0, S("NSJUMP")) && zr_is("+OK\r\n"), "jump-ok");
    m_read(0); m_read(1);
    // find the record of the second key
    vnode_t *f = f_data("default", 0); uint32_t o = DHEAD; drec_t r; int found = 0;
    while(f_next(f, &o, &r)) if(r.idlen == M[1].kn && memcmp(r.id, M[1].k, r.idlen) == 0) { found = 1; break; }
    z_assert(found, "record-found");
    // damage: any change of one payload byte or several neighbouring ones (up to 4), or of the stored checksum
    uint32_t how = z_choice(3, "damage");
    if(how == 0) { if(!l) z_assume(0); uint32_t at = z_choice(l, "at"); uint8_t x = z_u8("x"); z_assume(x != 0); f->data[r.at + DREC + r.idlen + at] ^= x; z_cover("payload-byte"); }
    if(how == 1) {
        if(l < 4) z_assume(0);
        uint32_t at = z_choice(l - 3, "at"), any = 0;
        for(int i = 0; i < 4; i++) { uint8_t x = z_u8("x"); any |= x; f->data[r.at + DREC + r.idlen + at + i] ^= x; }
        z_assume(any != 0); z_cover("payload-burst");
    }
    if(how == 2) { uint32_t x = z_u32("x"); z_assume(x != 0); for(int i = 0; i < 4; i++) f->data[r.at + 9 + i] ^= (uint8_t) (x >> (8 * i)); z_cover("checksum"); }
    z_assert(CMD(0, S("CHECK"), B(M[1].k, M[1].kn)), "daemon-alive");
    z_assert(zr_int(&n) && zr_end() && n == 0, "damage-detected");
    z_assert(CMD(0, S("CHECK"), B(M[0].k, M[0].kn)), "daemon-alive");
    z_assert(zr_int(&n) && zr_end() && n == 1, "other-entry-still-intact");
    // the payload is cut off: the check cannot pass either
    if(l && z_choice(2, "cut")) {
        f->size = r.at + DREC + r.idlen + z_choice(l, "rest");
        z_assert(CMD(0, S("CHECK"), B(M[1].k, M[1].kn)), "daemon-alive");
        z_assert(zr_error() || zr_nil() || (zr_int(&n) && n != 1), "truncation-detected");
        z_cover("truncated");
    }
    z_cover("end");
}
