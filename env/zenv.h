// Model of the operating system used by the harnesses: an in-memory file system with crash and fault
// injection, a network of scripted clients, a clock and a process table.
#ifndef ZENV_H
#define ZENV_H
#include "zapi.h"
#include <sys/types.h>

#ifdef ZNATIVE
    #define ENV(name) __wrap_##name
#else
    #define ENV(name) name
#endif

#ifndef VFS_NODES
#define VFS_NODES 40
#endif
#ifndef VFS_FILESIZE
#define VFS_FILESIZE 3072
#endif
#ifndef VFS_PATH
#define VFS_PATH 128
#endif

typedef struct vnode_t {
    int linked, isdir, refs, ino;
    int lock;                             // flock: 0 free, 1 held by the process under test, 2 by another one
    uint32_t size, ssize;                 // current and synced length
    char path[VFS_PATH];
    unsigned char data[VFS_FILESIZE];
    unsigned char sdata[VFS_FILESIZE];    // content as of the last fsync
} vnode_t;

typedef struct env_t {
    // faults
    uint32_t writes;                      // write() calls on files so far
    int crash_at; int crash_keep;         // at this write (0-based): keep this many bytes, then the process is gone
    uint32_t metas; int mcrash_at;        // creations, removals and renames so far; the process is gone before this one
    int fail_at; int fail_keep; int fail_errno; // at this write: accept this many bytes (0: error)
    int fail_sticky;                      // and every later write on a file fails too
    int fail_fsync;
    int readonly_open;                    // open() for writing fails
    int crashed, finished, exited, exit_code, in_coro;  // finished: main() returned
    int in_epoll;
    uint32_t fsyncs, opens;
    // destructive calls outside of the allowed prefixes are recorded
    int escaped; char escape_path[VFS_PATH];
    const char *allowed[4];
    uint64_t wrote[2];                    // bytes written below /db/d and elsewhere
    // time
    int64_t now_sec; int64_t now_usec; int tick; int utick;
    // partitions: block size, fragment size, and free space (in fragments) below /db/d and elsewhere
    uint32_t fs_bsize, fs_frsize, fs_bavail[2];
    // process
    uint32_t forks; int fork_result; int hook_status; uint32_t waits; int next_pid; int wait_pid; int exec_seen;
    char **exec_argv; char *exec_path;
    int (*fork_fn)(void);                 // decides a fork: -1 fails, 0 the path goes on as the child, -2 as usual
    void (*exec_fn)(const char *p, char **argv);
    int (*wait_fn)(int pid, int *status); // answers a waitpid
    void (*handler[32])(int); int signal; // signal delivered while the server waits for events
    int entropy_seed; uint32_t nonces; unsigned char entropy[4][8]; int entropy_set; /* the n-th nonce uses entropy[n], if set */
} env_t;

#ifndef CONN_RX
#define CONN_RX 2048
#endif
#ifndef CONN_TX
#define CONN_TX 4096
#endif
typedef struct conn_t {
    int used, pending, closed, hup;
    unsigned char rx[CONN_RX]; uint32_t rxlen, rxpos; uint32_t rxchunk;  // rxchunk: at most this many bytes per recv (0: no limit)
    unsigned char tx[CONN_TX]; uint32_t txlen, txpos;                    // txpos: already consumed by the harness
    int txlimit;                                                      // -1 unlimited, else bytes still accepted
    int in_ready, out_ready;
    int cloexec;
} conn_t;

#ifndef CONN_MAX
#define CONN_MAX 6
#endif
#define CONN_FD0 60
#define LISTEN_FD 50
extern env_t env;
extern vnode_t vfs[VFS_NODES];
extern conn_t conns[CONN_MAX];

vnode_t *vfs_find(const char *path);
vnode_t *vfs_create(const char *path, int isdir);
void vfs_crash(int powerloss);            // forget open descriptors (and unsynced data when powerloss)
void env_reset(void);                     // initial state, empty file system
void env_new_process(void);
void env_close_all(void);
int env_inherited(void);                    // a program executed now would inherit: 1 a lock, 2 a listening socket, 4 a connection
int env_descriptors(void);                  // files and directories the process holds open
int zdbd_main(int argc, char **argv);
#endif
