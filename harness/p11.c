#include "model.h"
#include "files.h"
#include "libzdb.h"
// Rotation: files are switched when the data file is full (or after some time, or on request), in step, and
// everything stays readable whichever file it lies in.
static uint32_t limit;
static int count(void) {
    int n = 0; while(f_data("default", n)) n++;
    for(int i = 0; i < n; i++) {
        vnode_t *x = f_index("default", i), *d = f_data("default", i); uint32_t id;
        z_assert(x != NULL, "index-and-data-files-in-step");
        memcpy(&id, d->data + 24, 4); z_assert(id == (uint32_t) i, "data-file-knows-its-number");
        if(!limit) continue;
        // no file starts a record whose payload would end beyond the limit, unless it is the first one
        uint32_t o = DHEAD, k = 0; drec_t r;
        while(f_next(d, &o, &r)) { if(k++ && !(r.flags & 1)) z_assert(r.at + r.datalen <= limit, "file-not-filled-beyond-the-limit"); }
    }
    z_assert(!f_index("default", n), "index-and-data-files-in-step");
    return n;
}
void zmain(void) {
    int seq = z_param("seq", 0), how = z_param("how", 0), ops = z_param("ops", 4);
    unsigned char v[8];
    env_reset();
    zh_bits = 0;
    zh_opts[0] = "--mode"; zh_opts[1] = seq ? "seq" : "user"; zh_opts[2] = NULL;
    if(how >= 2) { zh_opts[2] = "--rotate"; zh_opts[3] = "10"; zh_opts[4] = NULL; }
    z_assert(zh_boot(), "daemon-starts");
    zh_connect(0);
    m_init(seq);
    if(!seq) { MN = 2; M[0].kn = 1; M[0].k[0] = 'a'; M[1].kn = 2; memcpy(M[1].k, "ab", 2); }
    if(how == 0) {
        // by size
        limit = 60 + z_choice(3, "limit") * 13;
        zdb_settings_get()->datasize = limit;
        int files = 1;
        for(int s = 0; s < ops; s++) {
            uint32_t full = f_data("default", files - 1)->size, n = 1 + z_choice(2, "vlen") * 5;
            env.now_sec++;
            memset(v, 'v', sizeof v); v[0] = z_u8("v");
            int i = seq ? (MN < 2 ? -1 : (int) z_choice(2, "slot") - 1) : (int) z_choice(2, "slot");
            int wrote = 1;
            if(i < 0) m_new(v, n);
            else if(z_choice(2, "op") == 1) { m_del(i); wrote = 0; z_cover("deleted"); }
            else wrote = m_set(i, v, n);
            int now = count();
            z_assert(now == files || now == files + 1, "one-rotation-at-a-time");
            if(wrote) z_assert((now == files) == (full + n <= limit), "rotates-exactly-when-full");
            if(now > files) z_cover("rotated");
            files = now;
            m_verify();
        }
        m_scan(0, 0); m_scan(1, 0); for(int i = 0; i < MN; i++) m_history(i);
        z_assert(zh_boot(), "daemon-restarts"); zh_connect(0);
        zdb_settings_get()->datasize = limit;
        z_assert(count() == files, "no-file-added-by-restart");
        m_verify(); m_scan(0, 0); m_scan(1, 0);
        if(seq) m_new("z", 1); else m_set(0, "z", 1);
        count(); m_verify();
    } else if(how == 1) {
        // many files: more than 10, numbers of two digits
        int at = (int) z_choice(12, "at"), upd = (int) z_choice(13, "upd"), del = (int) z_choice(13, "del");
        z_assume(upd > at && del != at && del >= at && (del != upd));
        int a = -1;
        for(int f = 0; f < 12; f++) {
            env.now_sec++; v[0] = 'a' + f;
            if(f == at) { if(seq) a = m_new(v, 1); else { a = 0; m_set(0, v, 1); } }
            if(f == upd) m_set(a, v, 1);
            if(f == del) m_del(a);
            if(f % 5 == 3) { if(seq) { if(MN < 4) m_new(v, 1); } else m_set(1, v, 1); }
            z_assert(CMD(0, S("NSJUMP")) && zr_is("+OK\r\n"), "jump-ok");
        }
        z_assert(count() == 13, "one-file-per-rotation");
        m_verify(); m_scan(0, 0); m_scan(1, 0);
        for(int i = 0; i < MN; i++) m_history(i);
        z_assert(zh_boot(), "daemon-restarts"); zh_connect(0);
        z_assert(count() == 13, "no-file-added-by-restart");
        m_verify(); m_scan(0, 0); m_scan(1, 0);
        if(seq) m_new("z", 1); else m_set(0, "z", 1);
        z_assert(count() == 13, "no-needless-rotation");
        m_verify();
        z_cover("many-files");
    } else if(how == 3) {
        // by time, several namespaces: each one changed is rotated, and no other one
        static const char *names[] = { "default", "n1", "n2", "n3" };
        int files[4] = { 1, 1, 1, 1 }, dirty[4] = { 0, 0, 0, 0 }; int64_t since[4];
        for(int i = 1; i < 4; i++) z_assert(CMD(0, S("NSNEW"), B(names[i], strlen(names[i]))) && zr_is("+OK\r\n"), "nsnew-ok");
        for(int i = 0; i < 4; i++) since[i] = env.now_sec;
        for(int s = 0; s < 2; s++) {
            uint32_t w = z_choice(16, "written");
            for(int i = 0; i < 4; i++) if(w >> i & 1) {
                z_assert(CMD(0, S("SELECT"), B(names[i], strlen(names[i]))) && zr_is("+OK\r\n"), "select-ok");
                z_assert(CMD(0, S("SET"), B(seq ? "" : "a", !seq), B(s ? "y" : "x", 1)) && !zr_error(), "set-ok");
            }
            int due = z_choice(2, "time over");
            env.now_sec += due ? 40 : 3;
            z_assert(zh_idle(), "daemon-alive");
            for(int i = 0; i < 4; i++) {
                if(w >> i & 1) dirty[i] = 1;
                if(dirty[i] && env.now_sec - since[i] > 10) { files[i]++; dirty[i] = 0; since[i] = env.now_sec; }
                z_assert(f_data(names[i], files[i] - 1) && f_index(names[i], files[i] - 1), "rotates-exactly-after-the-time-when-written");
                z_assert(!f_data(names[i], files[i]) && !f_index(names[i], files[i]), "rotates-exactly-after-the-time-when-written");
            }
        }
        if(files[0] == 3 && files[1] == 3 && files[2] == 3 && files[3] == 3) z_cover("all-rotated");
    } else {
        // by time: only when something was written since, and only after the time is over
        int files = 1; int64_t started = env.now_sec; int dirty = 0;
        for(int s = 0; s < ops; s++) {
            uint32_t w = z_choice(3, "what"), before = env.writes; int64_t had = m_entries();
            if(w == 0) { m_random_op(2, 1, 0); if(env.writes != before && dirty < 2) dirty = m_entries() < had ? 1 : 2; }
            else {
                static const int step[] = { 1, 9, 10, 11, 300 };
                env.now_sec += step[z_choice(w == 1 ? 5 : 1, "seconds")];
                z_assert(zh_idle(), "daemon-alive");
                // a deletion alone may or may not count as a change
                int now = count(), due = env.now_sec - started > 10 && (dirty == 2 || (dirty == 1 && now > files));
                z_assert(now == files + due, "rotates-exactly-after-the-time-when-written");
                if(due) { z_cover("rotated"); started = env.now_sec; dirty = 0; }
                files = now;
            }
            m_verify();
        }
        z_assert(zh_boot(), "daemon-restarts"); zh_connect(0);
        m_verify(); m_scan(0, 0); m_scan(1, 0);
    }
    z_cover("end");
}
