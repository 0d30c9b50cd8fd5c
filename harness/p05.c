#include "crash.h"
// Writes to the disk fail (or are cut short) from some point of an operation on: what is acknowledged took
// effect, what is refused changed nothing, and once the disk works again so does the store.
void zmain(void) {
    int ops = z_param("ops", 2), lens = z_param("vlens", 1), seq = z_param("seq", 0), keys = z_param("keys", 2), part = z_param("part", 0), jump = z_param("jump", 0);
    env_reset();
    zh_bits = z_param("bits", 0);
    zh_opts[0] = "--mode"; zh_opts[1] = seq ? "seq" : "user"; zh_opts[2] = NULL;
    z_assert(zh_boot(), "daemon-starts");
    zh_connect(0);
    m_init(seq);
    if(!seq) m_keys(keys, 0);
    for(int s = 0; s < ops; s++) {
        m_random_op(keys, lens, 0);
        if(jump && s < ops - 1 && z_choice(2, "jump")) { z_note("JUMP "); z_assert(CMD(0, S("NSJUMP")), "daemon-alive"); z_assert(zr_is("+OK\r\n"), "jump-ok"); }
    }
    env.fail_at = (int) env.writes + (int) z_choice(z_param("points", 4), "point");
    env.fail_sticky = z_param("sticky", 1) ? (int) z_choice(2, "sticky") : 0;
    if(part) env.fail_keep = 1 + (int) z_choice(part, "keep") * z_param("step", 1);
    uint32_t w0 = env.writes;
    xop_t op;
    int alive = xop_issue(&op, keys, lens, 0);
    int failed = (int) env.writes > env.fail_at && env.writes > w0;
    env.fail_at = -1; env.fail_keep = 0; env.fail_sticky = 0;
    z_assert(alive, "daemon-survives-write-errors");
    if(failed) z_cover("failed"); else z_cover("not-reached");
    if(zr_error()) z_note("REFUSED ");
    else if(op.kind == 2) {
        const unsigned char *p; uint32_t l;
        z_assert(zr_bulk(&p, &l) && l == 8 && zr_end(), "insert-returns-id");
        ment_t *f = &M[MN++];
        memset(f, 0, sizeof *f); memcpy(f->k, p, 8); f->kn = 8;
        m_push(f, op.v, op.n, (uint32_t) env.now_sec);
    }
    else if(xop_done(&op)) xop_apply(&op);
    m_verify();
    m_scan(0, 0);
    if(z_param("after", 1)) { m_random_op(keys, 1, 0); m_verify(); }
    z_assert(zh_boot(), "daemon-restarts");
    zh_connect(0);
    m_verify();
    m_scan(0, 0); m_scan(1, 0);
    z_cover("end");
}
