#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <ftw.h>
#include <netdb.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/file.h>
#include <sys/socket.h>
#include <sys/epoll.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/uio.h>
#include <sys/types.h>
#include <signal.h>
#include <time.h>
#include "zenv.h"

env_t env;
vnode_t vfs[VFS_NODES];
conn_t conns[CONN_MAX];
#define FD_BASE 3
#define FD_MAX 40
typedef struct { int used; vnode_t *n; uint32_t pos; int flags; int locked, cloexec; } vfd_t;
static vfd_t fds[FD_MAX];
static struct addrinfo fake_ai;
static int inocnt;
static struct { int open, cloexec; } lsock;
static void fd_drop(vfd_t *f) { if(f->locked) f->n->lock = 0; f->used = f->locked = 0; f->n->refs--; }

// ---------------------------------------------------------------- file system
// absolute, with '//' , '.' and '..' resolved
static int normalise(const char *in, char *out) {
    uint32_t o = 0;
    const char *p = in;
    while(*p) {
        while(*p == '/') p++;
        if(!*p) break;
        uint32_t n = 0;
        while(p[n] && p[n] != '/') n++;
        if(n == 1 && p[0] == '.') { p += n; continue; }
        if(n == 2 && p[0] == '.' && p[1] == '.') { while(o > 0 && out[o - 1] != '/') o--; if(o > 0) o--; p += n; continue; }
        if(o + n + 2 >= VFS_PATH) return -1;
        out[o++] = '/';
        for(uint32_t i = 0; i < n; i++) out[o++] = p[i];
        p += n;
    }
    if(o == 0) out[o++] = '/';
    out[o] = 0;
    return 0;
}
static vnode_t *find_norm(const char *p) {
    for(int i = 0; i < VFS_NODES; i++) if(vfs[i].linked && strcmp(vfs[i].path, p) == 0) return &vfs[i];
    return NULL;
}
vnode_t *vfs_find(const char *path) { char p[VFS_PATH]; if(normalise(path, p)) return NULL; return find_norm(p); }
static vnode_t *parent_of(const char *p) {
    char d[VFS_PATH]; uint32_t n = strlen(p);
    while(n > 0 && p[n - 1] != '/') n--;
    if(n > 1) n--;
    memcpy(d, p, n); d[n] = 0;
    return find_norm(d);
}
static vnode_t *create_norm(const char *p, int isdir) {
    for(int i = 0; i < VFS_NODES; i++) if(!vfs[i].linked && !vfs[i].refs) {
        vnode_t *n = &vfs[i];
        n->linked = 1; n->isdir = isdir; n->lock = 0; n->size = 0; n->ssize = 0; n->ino = ++inocnt;
        strcpy(n->path, p);
        return n;
    }
    z_fail("model:vfs-nodes-exhausted");
    return NULL;
}
vnode_t *vfs_create(const char *path, int isdir) { char p[VFS_PATH]; if(normalise(path, p)) return NULL; vnode_t *n = find_norm(p); return n ? n : create_norm(p, isdir); }

static void check_escape(const char *p) {
    if(!env.allowed[0]) return;
    for(int i = 0; i < 4 && env.allowed[i]; i++) { uint32_t n = strlen(env.allowed[i]); if(strncmp(p, env.allowed[i], n) == 0 && (p[n] == '/' || p[n] == 0)) return; }
    env.escaped = 1; strcpy(env.escape_path, p);
}

static void meta_op(void) { uint32_t id = env.metas++; if(env.mcrash_at >= 0 && (int) id == env.mcrash_at) { env.crashed = 1; z_coro_yield(); } }
int ENV(open)(const char *path, int flags, ...) {
    char p[VFS_PATH];
    env.opens++;
    if(normalise(path, p)) { errno = ENAMETOOLONG; return -1; }
    vnode_t *n = find_norm(p);
    int wr = (flags & O_ACCMODE) != O_RDONLY;
    if(wr && env.readonly_open) { errno = EROFS; return -1; }
    if(!n) {
        if(!(flags & O_CREAT)) { errno = ENOENT; return -1; }
        vnode_t *d = parent_of(p);
        if(!d || !d->isdir) { errno = ENOENT; return -1; }
        check_escape(p); meta_op();
        n = create_norm(p, 0);
    } else {
        if(n->isdir && wr) { errno = EISDIR; return -1; }
        if((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
        if(wr && (flags & O_TRUNC)) { check_escape(p); n->size = 0; }
    }
    for(int i = FD_BASE; i < FD_MAX; i++) if(!fds[i].used) { fds[i].used = 1; fds[i].n = n; fds[i].pos = 0; fds[i].flags = flags; fds[i].locked = 0; fds[i].cloexec = (flags & O_CLOEXEC) != 0; n->refs++; return i; }
    z_fail("model:descriptors-exhausted");
    return -1;
}
static vfd_t *fdget(int fd) { if(fd < FD_BASE || fd >= FD_MAX || !fds[fd].used) { errno = EBADF; return NULL; } return &fds[fd]; }

ssize_t ENV(recv)(int fd, void *buf, size_t n, int flags);
ssize_t ENV(send)(int fd, const void *buf, size_t n, int flags);
ssize_t ENV(read)(int fd, void *buf, size_t n) {
    if(fd >= CONN_FD0 && fd < CONN_FD0 + CONN_MAX) return ENV(recv)(fd, buf, n, 0);
    vfd_t *f = fdget(fd);
    if(!f) return -1;
    if((f->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
    if(f->n->isdir) { errno = EISDIR; return -1; }
    if(f->pos >= f->n->size) return 0;
    if(n > f->n->size - f->pos) n = f->n->size - f->pos;
    memcpy(buf, f->n->data + f->pos, n);
    f->pos += n;
    return n;
}
ssize_t ENV(pread)(int fd, void *buf, size_t n, off_t off) {
    vfd_t *f = fdget(fd); if(!f) return -1;
    uint32_t keep = f->pos; f->pos = off; ssize_t r = ENV(read)(fd, buf, n); f->pos = keep; return r;
}
static ssize_t rawwrite(vfd_t *f, const void *buf, size_t n) {
    if(f->flags & O_APPEND) f->pos = f->n->size;
    if(f->pos + n > VFS_FILESIZE) { z_fail("model:file-size-exhausted"); }
    if(f->pos > f->n->size) memset(f->n->data + f->n->size, 0, f->pos - f->n->size);
    memcpy(f->n->data + f->pos, buf, n);
    f->pos += n; env.wrote[strncmp(f->n->path, "/db/d", 5) != 0] += n;
    if(f->pos > f->n->size) f->n->size = f->pos;
    return n;
}
ssize_t ENV(write)(int fd, const void *buf, size_t n) {
    if(fd == 1 || fd == 2) return n;
    if(fd >= CONN_FD0 && fd < CONN_FD0 + CONN_MAX) return ENV(send)(fd, buf, n, 0);
    vfd_t *f = fdget(fd);
    if(!f) return -1;
    if((f->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    check_escape(f->n->path);
    uint32_t id = env.writes++;
    if(env.crash_at >= 0 && (int) id == env.crash_at) {
        size_t k = (size_t) env.crash_keep < n ? (size_t) env.crash_keep : n;
        // only an append to existing content can be torn: small in-place writes and file headers are all or nothing
        if(k < n && (f->n->size == 0 || (!(f->flags & O_APPEND) && f->pos < f->n->size))) k = 0;
        rawwrite(f, buf, k);
        env.crashed = 1;
        z_coro_yield();
    }
    if(env.fail_at >= 0 && ((int) id == env.fail_at || (env.fail_sticky && (int) id > env.fail_at))) {
        int inplace = f->n->size == 0 || (!(f->flags & O_APPEND) && f->pos < f->n->size);
        if(env.fail_keep > 0 && !inplace && (int) id == env.fail_at && (size_t) env.fail_keep < n) return rawwrite(f, buf, env.fail_keep);
        errno = env.fail_errno ? env.fail_errno : ENOSPC;
        return -1;
    }
    return rawwrite(f, buf, n);
}
ssize_t ENV(pwrite)(int fd, const void *buf, size_t n, off_t off) {
    vfd_t *f = fdget(fd); if(!f) return -1;
    uint32_t keep = f->pos; f->pos = off; ssize_t r = ENV(write)(fd, buf, n); f->pos = keep; return r;
}
off_t ENV(lseek)(int fd, off_t off, int whence) {
    vfd_t *f = fdget(fd);
    if(!f) return -1;
    int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t) f->pos : (int64_t) f->n->size;
    if(base + off < 0) { errno = EINVAL; return -1; }
    if(base + off > 0xffffffffLL) { errno = EINVAL; return -1; }
    f->pos = (uint32_t) (base + off);
    return f->pos;
}
int ENV(close)(int fd) {
    if(fd >= CONN_FD0 && fd < CONN_FD0 + CONN_MAX) { conns[fd - CONN_FD0].closed = 1; return 0; }
    if(fd == LISTEN_FD) { lsock.open = 0; return 0; }
    if(fd == 45) return 0;
    vfd_t *f = fdget(fd);
    if(!f) return -1;
    fd_drop(f);
    return 0;
}
int ENV(fsync)(int fd) {
    vfd_t *f = fdget(fd); if(!f) return -1;
    env.fsyncs++;
    if(env.fail_fsync) { errno = EIO; return -1; }
    memcpy(f->n->sdata, f->n->data, f->n->size); f->n->ssize = f->n->size;
    return 0;
}
int ENV(fdatasync)(int fd) { return ENV(fsync)(fd); }
int ENV(ftruncate)(int fd, off_t len) {
    vfd_t *f = fdget(fd); if(!f) return -1;
    if((f->flags & O_ACCMODE) == O_RDONLY) { errno = EINVAL; return -1; }
    check_escape(f->n->path);
    if((uint32_t) len > f->n->size) memset(f->n->data + f->n->size, 0, len - f->n->size);
    f->n->size = len; return 0;
}
int ENV(fallocate)(int fd, int mode, off_t off, off_t len) { (void) mode; (void) off; (void) len; return fdget(fd) ? 0 : -1; }
static int *cloexec_of(int fd) {
    if(fd >= CONN_FD0 && fd < CONN_FD0 + CONN_MAX) return &conns[fd - CONN_FD0].cloexec;
    if(fd == LISTEN_FD) return &lsock.cloexec;
    vfd_t *f = fdget(fd); return f ? &f->cloexec : NULL;
}
int ENV(fcntl)(int fd, int cmd, ...) {
    if(cmd != F_SETFD && cmd != F_GETFD) return 0;
    int *x = cloexec_of(fd); if(!x) return fd == 45 ? 0 : -1;
    if(cmd == F_GETFD) return *x ? FD_CLOEXEC : 0;
    va_list ap; va_start(ap, cmd); int v = va_arg(ap, int); va_end(ap);
    *x = (v & FD_CLOEXEC) != 0; return 0;
}
int ENV(flock)(int fd, int op) {
    vfd_t *f = fdget(fd); if(!f) return -1;
    if(op & LOCK_UN) { if(f->locked) { f->locked = 0; f->n->lock = 0; } return 0; }
    if(!f->locked && f->n->lock) { if(!(op & LOCK_NB)) z_fail("model:waiting-for-a-lock"); errno = EWOULDBLOCK; return -1; }
    if(!(op & LOCK_EX)) return 0;       // shared locks exclude nobody among themselves
    f->locked = 1; f->n->lock = 1; return 0;
}
int env_inherited(void) {
    int r = 0;
    for(int i = FD_BASE; i < FD_MAX; i++) if(fds[i].used && fds[i].locked && !fds[i].cloexec) r |= 1;
    if(lsock.open && !lsock.cloexec) r |= 2;
    for(int i = 0; i < CONN_MAX; i++) if(conns[i].used && !conns[i].closed && !conns[i].cloexec) r |= 4;
    return r;
}
int ENV(dup2)(int a, int b) { (void) a; return b; }

static void fillstat(vnode_t *n, struct stat *st) { memset(st, 0, sizeof(*st)); st->st_mode = n->isdir ? (S_IFDIR | 0700) : (S_IFREG | 0600); st->st_size = n->isdir ? 0 : n->size; st->st_ino = n->ino; st->st_nlink = 1; }
int ENV(stat)(const char *path, struct stat *st) { vnode_t *n = vfs_find(path); if(!n) { errno = ENOENT; return -1; } fillstat(n, st); return 0; }
int ENV(lstat)(const char *path, struct stat *st) { return ENV(stat)(path, st); }
int ENV(fstat)(int fd, struct stat *st) { vfd_t *f = fdget(fd); if(!f) return -1; fillstat(f->n, st); return 0; }
int ENV(access)(const char *path, int mode) { (void) mode; if(!vfs_find(path)) { errno = ENOENT; return -1; } return 0; }
int ENV(statvfs)(const char *path, struct statvfs *v) {
    memset(v, 0, sizeof(*v)); v->f_bsize = env.fs_bsize ? env.fs_bsize : 4096; v->f_frsize = env.fs_frsize ? env.fs_frsize : 4096;
    v->f_blocks = 1000000; v->f_bavail = env.fs_bavail[strncmp(path, "/db/d", 5) != 0]; if(!v->f_bavail) v->f_bavail = 500; v->f_bfree = v->f_bavail + 100; return 0;
}
int ENV(mkdir)(const char *path, mode_t mode) {
    (void) mode; char p[VFS_PATH];
    if(normalise(path, p)) { errno = ENAMETOOLONG; return -1; }
    if(find_norm(p)) { errno = EEXIST; return -1; }
    vnode_t *d = parent_of(p); if(!d || !d->isdir) { errno = ENOENT; return -1; }
    check_escape(p); meta_op();
    create_norm(p, 1); return 0;
}
static int has_children(const char *p) { uint32_t n = strlen(p); for(int i = 0; i < VFS_NODES; i++) if(vfs[i].linked && strncmp(vfs[i].path, p, n) == 0 && vfs[i].path[n] == '/') return 1; return 0; }
int ENV(unlink)(const char *path) {
    vnode_t *n = vfs_find(path); if(!n) { errno = ENOENT; return -1; }
    if(n->isdir) { errno = EISDIR; return -1; }
    check_escape(n->path); meta_op();
    n->linked = 0; return 0;
}
int ENV(rmdir)(const char *path) {
    vnode_t *n = vfs_find(path); if(!n) { errno = ENOENT; return -1; }
    check_escape(n->path);
    if(has_children(n->path)) { errno = ENOTEMPTY; return -1; }
    meta_op();
    n->linked = 0; return 0;
}
int ENV(remove)(const char *path) { vnode_t *n = vfs_find(path); if(!n) { errno = ENOENT; return -1; } return n->isdir ? ENV(rmdir)(path) : ENV(unlink)(path); }
int ENV(rename)(const char *a, const char *b) {
    char p[VFS_PATH]; vnode_t *n = vfs_find(a); if(!n || normalise(b, p)) { errno = ENOENT; return -1; }
    vnode_t *o = find_norm(p); if(o == n) return 0; meta_op(); if(o) o->linked = 0;
    check_escape(n->path); check_escape(p);
    strcpy(n->path, p); return 0;
}
static int depth(const char *p) { int d = 0; for(; *p; p++) if(*p == '/') d++; return d; }
int ENV(nftw)(const char *path, int (*cb)(const char *, const struct stat *, int, struct FTW *), int nfd, int flags) {
    (void) nfd; char p[VFS_PATH]; struct stat st; struct FTW fw; int maxd = 0;
    vnode_t *root = vfs_find(path); if(!root) { errno = ENOENT; return -1; }
    strcpy(p, root->path); uint32_t n = strlen(p);
    uint32_t plen = strlen(path);
    for(int i = 0; i < VFS_NODES; i++) if(vfs[i].linked && depth(vfs[i].path) > maxd) maxd = depth(vfs[i].path);
    int mind = depth(p);
    for(int k = 0; k <= maxd - mind; k++) {
        int d = (flags & FTW_DEPTH) ? maxd - k : mind + k;
        for(int i = 0; i < VFS_NODES; i++) {
            vnode_t *v = &vfs[i];
            if(!v->linked || depth(v->path) != d) continue;
            if(!(strcmp(v->path, p) == 0 || (strncmp(v->path, p, n) == 0 && (v->path[n] == '/' || n == 1)))) continue;
            char full[VFS_PATH * 2]; strcpy(full, path); if(v->path[n]) strcpy(full + plen, v->path + n);
            fillstat(v, &st); fw.base = (int) (strrchr(full, 0x2f) ? strrchr(full, 0x2f) - full + 1 : 0); fw.level = d - mind;
            int r = cb(full, &st, v->isdir ? ((flags & FTW_DEPTH) ? FTW_DP : FTW_D) : FTW_F, &fw);
            if(r) return r;
        }
    }
    return 0;
}
typedef struct { int used; int pos; char path[VFS_PATH]; struct dirent de; } vdir_t;
static vdir_t dirs[4];
DIR *ENV(opendir)(const char *path) {
    vnode_t *n = vfs_find(path); if(!n || !n->isdir) { errno = n ? ENOTDIR : ENOENT; return NULL; }
    for(int i = 0; i < 4; i++) if(!dirs[i].used) { dirs[i].used = 1; dirs[i].pos = -2; strcpy(dirs[i].path, n->path); return (DIR *) &dirs[i]; }
    z_fail("model:directories-exhausted"); return NULL;
}
struct dirent *ENV(readdir)(DIR *dp) {
    vdir_t *d = (vdir_t *) dp; uint32_t n = strlen(d->path);
    if(d->pos < 0) { strcpy(d->de.d_name, d->pos == -2 ? "." : ".."); d->de.d_type = DT_DIR; d->pos++; return &d->de; }
    for(; d->pos < VFS_NODES; d->pos++) {
        vnode_t *v = &vfs[d->pos];
        if(!v->linked || strncmp(v->path, d->path, n) || v->path[n] != '/' || strchr(v->path + n + 1, '/')) continue;
        strcpy(d->de.d_name, v->path + n + 1); d->de.d_type = v->isdir ? DT_DIR : DT_REG; d->pos++;
        return &d->de;
    }
    return NULL;
}
int ENV(closedir)(DIR *dp) { ((vdir_t *) dp)->used = 0; return 0; }
char *ENV(realpath)(const char *path, char *out) { char p[VFS_PATH]; if(normalise(path, p) || !find_norm(p)) { errno = ENOENT; return NULL; } if(!out) out = malloc(4096); strcpy(out, p); return out; }

// ---------------------------------------------------------------- network
int ENV(getaddrinfo)(const char *h, const char *p, const struct addrinfo *hints, struct addrinfo **res) { (void) h; (void) p; (void) hints; fake_ai.ai_family = AF_INET; *res = &fake_ai; return 0; }
void ENV(freeaddrinfo)(struct addrinfo *ai) { (void) ai; }
int ENV(socket)(int d, int t, int p) { (void) d; (void) p; lsock.open = 1; lsock.cloexec = (t & SOCK_CLOEXEC) != 0; return LISTEN_FD; }
int ENV(setsockopt)(int fd, int l, int o, const void *v, socklen_t n) { (void) fd; (void) l; (void) o; (void) v; (void) n; return 0; }
int ENV(bind)(int fd, const struct sockaddr *a, socklen_t l) { (void) fd; (void) a; (void) l; return 0; }
int ENV(listen)(int fd, int b) { (void) fd; (void) b; return 0; }
int ENV(accept)(int fd, struct sockaddr *a, socklen_t *l) {
    (void) fd; (void) a; (void) l;
    for(int i = 0; i < CONN_MAX; i++) if(conns[i].pending) { conns[i].pending = 0; conns[i].used = 1; conns[i].cloexec = 0; return CONN_FD0 + i; }
    errno = EAGAIN; return -1;
}
int ENV(accept4)(int fd, struct sockaddr *a, socklen_t *l, int flags) { int r = ENV(accept)(fd, a, l); if(r >= 0) conns[r - CONN_FD0].cloexec = (flags & SOCK_CLOEXEC) != 0; return r; }
ssize_t ENV(recv)(int fd, void *buf, size_t n, int flags) {
    if(fd < CONN_FD0 || fd >= CONN_FD0 + CONN_MAX) { errno = EBADF; return -1; }
    conn_t *c = &conns[fd - CONN_FD0];
    if(n == 0) return 0;
    if(c->rxpos >= c->rxlen) { if(c->hup) return 0; errno = EAGAIN; return -1; }
    if(n > c->rxlen - c->rxpos) n = c->rxlen - c->rxpos;
    if(c->rxchunk && n > c->rxchunk) n = c->rxchunk;
    memcpy(buf, c->rx + c->rxpos, n); if(!(flags & MSG_PEEK)) c->rxpos += n;
    return n;
}
ssize_t ENV(send)(int fd, const void *buf, size_t n, int flags) {
    (void) flags;
    if(fd < CONN_FD0 || fd >= CONN_FD0 + CONN_MAX) { errno = EBADF; return -1; }
    conn_t *c = &conns[fd - CONN_FD0];
    if(c->hup == 2) { errno = EPIPE; return -1; }
    if(c->txlimit == 0) { errno = EAGAIN; return -1; }
    if(c->txlimit > 0 && n > (size_t) c->txlimit) n = c->txlimit;
    if(c->txlen + n > sizeof(c->tx)) z_fail("model:transmit-buffer-exhausted");
    memcpy(c->tx + c->txlen, buf, n); c->txlen += n;
    if(c->txlimit > 0) c->txlimit -= n;
    return n;
}
int ENV(epoll_create1)(int f) { (void) f; return 45; }
int ENV(epoll_ctl)(int e, int op, int fd, struct epoll_event *ev) { (void) e; (void) op; (void) fd; (void) ev; return 0; }
int ENV(epoll_wait)(int e, struct epoll_event *ev, int max, int tmo) {
    (void) e; (void) tmo; int n = 0;
    env.in_epoll = 1;
    z_coro_yield();
    env.in_epoll = 0;
    if(env.signal) { int s = env.signal; env.signal = 0; if(env.handler[s]) env.handler[s](s); }
    for(int i = 0; i < CONN_MAX && n < max; i++) if(conns[i].pending) { ev[n].events = EPOLLIN; ev[n].data.fd = LISTEN_FD; n++; break; }
    for(int i = 0; i < CONN_MAX && n < max; i++) {
        conn_t *c = &conns[i]; uint32_t m = 0;
        if(!c->used || c->closed) continue;
        if(c->in_ready) m |= EPOLLIN;
        if(c->out_ready) m |= EPOLLOUT;
        c->in_ready = c->out_ready = 0;
        if(m) { ev[n].events = m; ev[n].data.fd = CONN_FD0 + i; n++; }
    }
    return n;
}
struct servent *ENV(getservbyname)(const char *a, const char *b) { (void) a; (void) b; return NULL; }

// ---------------------------------------------------------------- clock, processes
time_t ENV(time)(time_t *t) { time_t v = env.now_sec; env.now_sec += env.tick; if(t) *t = v; return v; }
int ENV(gettimeofday)(struct timeval *tv, void *tz) { (void) tz; tv->tv_sec = env.now_sec; tv->tv_usec = env.now_usec; env.now_usec += env.utick; if(env.now_usec >= 1000000) { env.now_usec -= 1000000; env.now_sec++; } return 0; }
int ENV(clock_gettime)(clockid_t c, struct timespec *ts) { (void) c; ts->tv_sec = env.now_sec; ts->tv_nsec = env.now_usec * 1000; return 0; }
struct tm *ENV(localtime)(const time_t *t) { static struct tm tmv; (void) t; memset(&tmv, 0, sizeof tmv); return &tmv; }
size_t ENV(strftime)(char *s, size_t max, const char *f, const struct tm *tm) { (void) f; (void) tm; if(max) { strncpy(s, "date", max - 1); s[max - 1] = 0; } return 4; }
double ENV(difftime)(time_t a, time_t b) { return (double) (a - b); }
pid_t ENV(getpid)(void) { return 4242; }
pid_t ENV(fork)(void) {
    env.forks++;
    if(env.fork_fn) { int r = env.fork_fn(); if(r == -1) { errno = EAGAIN; return -1; } if(r == 0) return 0; }
    if(env.fork_result >= 0) return env.fork_result; return ++env.next_pid + 5000; }
int ENV(execv)(const char *p, char *const argv[]) { env.exec_seen++; env.exec_path = (char *) p; env.exec_argv = (char **) argv; if(env.exec_fn) env.exec_fn(p, (char **) argv); z_coro_yield(); return -1; }
pid_t ENV(waitpid)(pid_t pid, int *st, int opt) { env.waits++; if(env.wait_fn) return env.wait_fn(pid, st); if(pid > 0) { if(st) *st = env.hook_status << 8; return pid; } (void) opt; if(env.wait_pid) { int p = env.wait_pid; env.wait_pid = 0; if(st) *st = env.hook_status << 8; return p; } return 0; }
int ENV(sigaction)(int s, const struct sigaction *a, struct sigaction *o) { (void) o; if(s > 0 && s < 32) env.handler[s] = a->sa_handler; return 0; }
void (*ENV(signal)(int s, void (*h)(int)))(int) { if(s > 0 && s < 32) env.handler[s] = h; return SIG_DFL; }
int ENV(sigemptyset)(sigset_t *s) { (void) s; return 0; }
unsigned ENV(sleep)(unsigned s) { (void) s; return 0; }
int ENV(usleep)(useconds_t s) { (void) s; return 0; }
int ENV(getentropy)(void *b, size_t n) { if(env.entropy_set && n == 8) { memcpy(b, env.entropy[env.nonces++ % 4], 8); return 0; } env.nonces++; for(size_t i = 0; i < n; i++) ((unsigned char *) b)[i] = (unsigned char) (env.entropy_seed + env.nonces * 37 + i * 11); return 0; }
ssize_t ENV(getrandom)(void *b, size_t n, unsigned f) { (void) f; ENV(getentropy)(b, n); return n; }
static unsigned rand_seed;
int ENV(rand)(void) { return (int) ((77777 + rand_seed * 7919) & 0x7fffffff); }
void ENV(srand)(unsigned s) { rand_seed = s; }

// ---- the same, by other names
static char gather[VFS_FILESIZE + CONN_TX + CONN_RX];
ssize_t ENV(send)(int fd, const void *buf, size_t n, int flags);
ssize_t ENV(recv)(int fd, void *buf, size_t n, int flags);
ssize_t ENV(writev)(int fd, const struct iovec *v, int n) {
    size_t l = 0; for(int i = 0; i < n; i++) { if(l + v[i].iov_len > sizeof gather) z_fail("model:writev-size"); memcpy(gather + l, v[i].iov_base, v[i].iov_len); l += v[i].iov_len; }
    if(fd >= CONN_FD0 && fd < CONN_FD0 + CONN_MAX) return ENV(send)(fd, gather, l, 0);
    return ENV(write)(fd, gather, l);
}
ssize_t ENV(pwritev)(int fd, const struct iovec *v, int n, off_t off) { vfd_t *f = fdget(fd); if(!f) return -1; uint32_t keep = f->pos; f->pos = off; ssize_t r = ENV(writev)(fd, v, n); f->pos = keep; return r; }
static ssize_t scatter(const struct iovec *v, int n, ssize_t r) { size_t at = 0; for(int i = 0; i < n && r > 0 && at < (size_t) r; i++) { size_t k = v[i].iov_len < (size_t) r - at ? v[i].iov_len : (size_t) r - at; memcpy(v[i].iov_base, gather + at, k); at += k; } return r; }
static size_t vtotal(const struct iovec *v, int n) { size_t l = 0; for(int i = 0; i < n; i++) l += v[i].iov_len; if(l > sizeof gather) z_fail("model:readv-size"); return l; }
ssize_t ENV(readv)(int fd, const struct iovec *v, int n) { size_t l = vtotal(v, n); return scatter(v, n, fd >= CONN_FD0 && fd < CONN_FD0 + CONN_MAX ? ENV(recv)(fd, gather, l, 0) : ENV(read)(fd, gather, l)); }
ssize_t ENV(preadv)(int fd, const struct iovec *v, int n, off_t off) { size_t l = vtotal(v, n); return scatter(v, n, ENV(pread)(fd, gather, l, off)); }
ssize_t ENV(sendmsg)(int fd, const struct msghdr *m, int flags) { (void) flags; return ENV(writev)(fd, m->msg_iov, (int) m->msg_iovlen); }
ssize_t ENV(recvmsg)(int fd, struct msghdr *m, int flags) { (void) flags; return ENV(readv)(fd, m->msg_iov, (int) m->msg_iovlen); }
ssize_t ENV(sendto)(int fd, const void *b, size_t n, int flags, const struct sockaddr *a, socklen_t l) { (void) a; (void) l; return ENV(send)(fd, b, n, flags); }
ssize_t ENV(recvfrom)(int fd, void *b, size_t n, int flags, struct sockaddr *a, socklen_t *l) { (void) a; (void) l; return ENV(recv)(fd, b, n, flags); }
int ENV(openat)(int dir, const char *p, int flags, ...) { if(dir != AT_FDCWD && p[0] != '/') z_fail("model:openat"); va_list ap; va_start(ap, flags); int mode = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap); return ENV(open)(p, flags, mode); }
int ENV(creat)(const char *p, mode_t mode) { return ENV(open)(p, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int ENV(truncate)(const char *p, off_t n) { int fd = ENV(open)(p, O_WRONLY); if(fd < 0) return -1; int r = ENV(ftruncate)(fd, n); ENV(close)(fd); return r; }
int ENV(posix_fallocate)(int fd, off_t o, off_t n) { return ENV(fallocate)(fd, 0, o, n) < 0 ? errno : 0; }
int ENV(posix_fadvise)(int fd, off_t o, off_t n, int a) { (void) fd; (void) o; (void) n; (void) a; return 0; }
int ENV(fstatat)(int dir, const char *p, struct stat *st, int flags) { if(dir != AT_FDCWD && p[0] != '/') z_fail("model:fstatat"); (void) flags; return ENV(stat)(p, st); }
int ENV(faccessat)(int dir, const char *p, int m, int flags) { if(dir != AT_FDCWD && p[0] != '/') z_fail("model:faccessat"); (void) flags; return ENV(access)(p, m); }
int ENV(mkdirat)(int dir, const char *p, mode_t m) { if(dir != AT_FDCWD && p[0] != '/') z_fail("model:mkdirat"); return ENV(mkdir)(p, m); }
int ENV(unlinkat)(int dir, const char *p, int flags) { if(dir != AT_FDCWD && p[0] != '/') z_fail("model:unlinkat"); return flags & AT_REMOVEDIR ? ENV(rmdir)(p) : ENV(unlink)(p); }
int ENV(shutdown)(int fd, int how) { (void) fd; (void) how; return 0; }
int ENV(chmod)(const char *p, mode_t m) { (void) p; (void) m; return 0; }
int ENV(fchmod)(int fd, mode_t m) { (void) fd; (void) m; return 0; }
mode_t ENV(umask)(mode_t m) { (void) m; return 022; }
void ENV(sync)(void) {}
int ENV(epoll_create)(int n) { return ENV(epoll_create1)(n); }
int ENV(epoll_pwait)(int e, struct epoll_event *ev, int max, int tmo, const sigset_t *s) { (void) s; return ENV(epoll_wait)(e, ev, max, tmo); }
struct tm *ENV(localtime_r)(const time_t *t, struct tm *o) { (void) t; memset(o, 0, sizeof *o); return o; }
struct tm *ENV(gmtime)(const time_t *t) { return ENV(localtime)(t); }
struct tm *ENV(gmtime_r)(const time_t *t, struct tm *o) { return ENV(localtime_r)(t, o); }
long ENV(random)(void) { return ENV(rand)(); }
void ENV(srandom)(unsigned s) { ENV(srand)(s); }
int ENV(rand_r)(unsigned *s) { *s = *s * 1103515245u + 12345u; return (int) (*s >> 1); }
int ENV(nanosleep)(const struct timespec *a, struct timespec *b) { (void) a; (void) b; return 0; }
pid_t ENV(getppid)(void) { return 4241; }
pid_t ENV(wait)(int *st) { return ENV(waitpid)(-1, st, 0); }
int ENV(execvp)(const char *p, char *const argv[]) { return ENV(execv)(p, argv); }
int ENV(execve)(const char *p, char *const argv[], char *const e[]) { (void) e; return ENV(execv)(p, argv); }
int ENV(execl)(const char *p, const char *a, ...) { static char *argv[32]; int n = 0; va_list ap; va_start(ap, a); for(const char *x = a; x && n < 31; x = va_arg(ap, const char *)) argv[n++] = (char *) x; argv[n] = NULL; va_end(ap); return ENV(execv)(p, argv); }
int ENV(sigaddset)(sigset_t *s, int n) { (void) s; (void) n; return 0; }
int ENV(sigdelset)(sigset_t *s, int n) { (void) s; (void) n; return 0; }
int ENV(sigfillset)(sigset_t *s) { (void) s; return 0; }
int ENV(sigprocmask)(int h, const sigset_t *s, sigset_t *o) { (void) h; (void) s; (void) o; return 0; }
uid_t ENV(getuid)(void) { return 1000; }
uid_t ENV(geteuid)(void) { return 1000; }
int ENV(isatty)(int fd) { (void) fd; errno = ENOTTY; return 0; }

// the process under test ends: control returns to the harness, which decides whether that is allowed
void ENV(exit)(int code) {
    env.exited = 1; env.exit_code = code;
    if(!env.in_coro) z_fail("process-exit");
    z_coro_yield();
    z_end();
}

// ---------------------------------------------------------------- harness side
int env_descriptors(void) { int n = 0; for(int i = 0; i < FD_MAX; i++) n += fds[i].used; for(int i = 0; i < 4; i++) n += dirs[i].used; return n; }
void env_close_all(void) { for(int i = 0; i < FD_MAX; i++) if(fds[i].used) fd_drop(&fds[i]); lsock.open = 0; for(int i = 0; i < 4; i++) dirs[i].used = 0; }
void vfs_crash(int powerloss) {
    env_close_all();
    if(powerloss) for(int i = 0; i < VFS_NODES; i++) if(vfs[i].linked && !vfs[i].isdir) {
        // 2: each file independently lost what was not synced, or did not
        if(powerloss == 2) { if(vfs[i].size == vfs[i].ssize && memcmp(vfs[i].data, vfs[i].sdata, vfs[i].size) == 0) continue; if(z_choice(2, "reached-the-disk")) { memcpy(vfs[i].sdata, vfs[i].data, vfs[i].size); vfs[i].ssize = vfs[i].size; continue; } }
        memcpy(vfs[i].data, vfs[i].sdata, vfs[i].ssize); vfs[i].size = vfs[i].ssize; }
}
void env_new_process(void) {
    env_close_all();
    for(int i = 0; i < CONN_MAX; i++) { conns[i].used = conns[i].pending = conns[i].closed = conns[i].hup = 0; conns[i].rxlen = conns[i].rxpos = conns[i].txlen = conns[i].txpos = 0; conns[i].rxchunk = 0; conns[i].txlimit = -1; conns[i].in_ready = conns[i].out_ready = 0; }
    env.crashed = 0; env.finished = 0; env.exited = 0; env.in_epoll = 0; env.crash_at = -1; env.mcrash_at = -1; env.fail_at = -1;
}
void env_reset(void) {
    memset(&env, 0, sizeof env);
    env.fork_result = -1; env.now_sec = 1600000000; env.now_usec = 0; env.tick = 0;
    for(int i = 0; i < VFS_NODES; i++) { vfs[i].linked = 0; vfs[i].refs = 0; vfs[i].size = vfs[i].ssize = 0; }
    for(int i = 0; i < FD_MAX; i++) fds[i].used = 0;
    inocnt = 0;
    env_new_process();
    vfs_create("/", 1); vfs_create("/db", 1); vfs_create("/db/i", 1); vfs_create("/db/d", 1);
}
