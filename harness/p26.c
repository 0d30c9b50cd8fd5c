#include "crash.h"
// With --sync, what was acknowledged survives a loss of power: nothing which was not forced to the disk is left.
void zmain(void) {
    int ops = z_param("ops", 2), seq = z_param("seq", 0), keys = 2, jump = z_param("jump", 0), mid = z_param("mid", 0);
    env_reset(); zh_bits = 0;
    zh_opts[0] = "--mode"; zh_opts[1] = seq ? "seq" : "user"; zh_opts[2] = "--sync"; zh_opts[3] = NULL;
    int period = z_param("period", 0); if(period) { zh_opts[2] = "--synctime"; zh_opts[3] = "30"; zh_opts[4] = NULL; }
    z_assert(zh_boot(), "daemon-starts");
    zh_connect(0); m_init(seq); if(!seq) m_keys(keys, 0);
    for(int s = 0; s < ops; s++) {
        m_random_op(keys, 1, 0);
        if(jump && z_choice(2, "jump")) { z_note("JUMP "); z_assert(CMD(0, S("NSJUMP")) && zr_is("+OK\r\n"), "jump-ok"); z_cover("jumped"); }
    }
    xop_t op; int alive = 1;
    if(mid) {
        env.crash_at = (int) env.writes + (int) z_choice(5, "point"); env.crash_keep = z_choice(2, "keep") ? 100000 : 0;
        alive = xop_issue(&op, keys, 1, 0);
        if(alive) { if(xop_done(&op)) { z_assume(op.kind != 2); xop_apply(&op); } } else { z_assert(env.crashed, "daemon-only-stops-by-the-crash"); z_cover("in-the-middle"); }
    }
    // synchronised periodically: what precedes a write made after the period is on the disk with it
    if(period) { uint32_t w = env.writes; env.now_sec += 31; m_random_op(keys, 1, 0); z_assume(env.writes > w); z_cover("period-over"); }
    vfs_crash(2); z_cover("power-lost");
    z_assert(zh_boot(), "daemon-restarts"); zh_connect(0);
    if(!alive) xop_settle(&op);
    m_verify(); m_scan(0, 0); m_scan(1, 0); for(int i = 0; i < MN; i++) m_history(i);
    uint32_t w = env.writes; env.now_sec += 31 * (period != 0);
    m_random_op(keys, 1, 0); z_assume(!period || env.writes > w);
    vfs_crash(1);
    z_assert(zh_boot(), "daemon-restarts"); zh_connect(0);
    m_verify(); m_scan(0, 0);
    z_cover("end");
}
