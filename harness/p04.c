#include "crash.h"
// The process is killed at any moment of an operation (before, inside or after any write; an append may be
// torn): after a restart every acknowledged operation is there, the interrupted one took place completely or
// not at all, and the store works on.
void zmain(void) {
    int ops = z_param("ops", 2), lens = z_param("vlens", 1), seq = z_param("seq", 0), keys = z_param("keys", 2), torn = z_param("torn", 0), jump = z_param("jump", 0);
    env_reset();
    zh_bits = z_param("bits", 0);
    zh_opts[0] = "--mode"; zh_opts[1] = seq ? "seq" : "user"; zh_opts[2] = NULL;
    z_assert(zh_boot(), "daemon-starts");
    zh_connect(0);
    m_init(seq);
    if(!seq) m_keys(keys, 0);
    for(int s = 0; s < ops; s++) {
        m_random_op(keys, lens, 0);
        if(jump && s < ops - 1 && z_choice(2, "jump")) { z_note("JUMP "); z_assert(CMD(0, S("NSJUMP")), "daemon-alive"); z_assert(zr_is("+OK\r\n"), "jump-ok"); }
    }
    env.crash_at = (int) env.writes + (int) z_choice(z_param("points", 5), "point");
    if(torn) env.crash_keep = 1 + (int) z_choice(torn, "keep") * z_param("step", 1);
    else env.crash_keep = z_choice(2, "keep") ? 100000 : 0;
    xop_t op;
    int alive = xop_issue(&op, keys, lens, jump);
    if(alive) { if(xop_done(&op)) { z_assume(op.kind != 2); xop_apply(&op); } z_note("SURVIVED "); z_cover("not-reached"); }
    else { z_assert(env.crashed, "daemon-only-stops-by-the-crash"); z_note("CRASH "); z_cover("crashed"); }
    int bc = z_param("bootcrash", 0);
    if(bc) {
        // killed again while it recovers
        zh_boot_crash((int) z_choice(bc, "boot-point"));
        if(!zh_boot()) { z_assert(env.crashed, "daemon-only-stops-by-the-crash"); z_cover("crashed-in-recovery"); }
        zh_boot_crash(-1);
    }
    z_assert(zh_boot(), "daemon-restarts");
    zh_connect(0);
    if(!alive) xop_settle(&op);
    m_verify();
    m_scan(0, 0); m_scan(1, 0);
    for(int i = 0; i < MN; i++) m_history(i);
    if(z_param("after", 1)) {
        m_random_op(keys, 1, 0);
        z_assert(zh_boot(), "daemon-restarts-again");
        zh_connect(0);
        m_verify();
        m_scan(0, 0);
    }
    z_cover("end");
}
