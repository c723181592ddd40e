/* Native replay of one recorded path: runs the same compiled harness with concrete inputs.
   usage: replay ENTRY INPUTS [PARAM...]     INPUTS: lines "pick/N HEX" or "sym HEX"
   exit: 0 finished, 10 assertion failed (VX-ASSERT id), 11 assumption failed, 12 inputs exhausted; SIGABRT: panic */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <ucontext.h>

typedef struct { int pick; uint8_t *b; size_t n; } In;
static In *ins; static size_t nin, cur; static char **params; static int nparams;
static bool expect_panic;
static void on_abort(int s) { (void)s; if (expect_panic) _exit(0); fflush(stdout); }

static In *next(int pick) {
    if (cur >= nin || ins[cur].pick != pick) { printf("VX-EXHAUSTED %zu\n", cur); fflush(stdout); _exit(12); }
    return &ins[cur++];
}
void vx_sym(uint8_t *p, size_t n) {
    In *i = next(0);
    if (i->n != n) { printf("VX-LEN\n"); fflush(stdout); _exit(12); }
    memcpy(p, i->b, n);
}
size_t vx_pick(size_t n) { In *i = next(1); if (i->b[0] >= n) { printf("VX-RANGE\n"); fflush(stdout); _exit(12);} return i->b[0]; }
void vx_assume(bool c) { if (!c) { printf("VX-ASSUME\n"); fflush(stdout); _exit(11); } }
void vx_assert(bool c, const char *p, size_t n) { if (!c) { printf("VX-ASSERT %.*s\n", (int)n, p); fflush(stdout); _exit(10); } }
void vx_cover(const char *p, size_t n) { (void)p; (void)n; }
size_t vx_param(size_t i) { return (int)i < nparams ? strtoull(params[i], 0, 10) : 0; }
void vx_out(uint64_t tag, const uint8_t *p, size_t n) {
    printf("OUT %llu ", (unsigned long long)tag);
    for (size_t i = 0; i < n; i++) printf("%02x", p[i]);
    printf("\n");
}
/* Another thread's operation inside this one's. With VX_STEP set, this process steps through its machine instructions; in front
   of each that touches shared memory, a child runs the other operation and goes on. */
static void (*race_f)(uint8_t *); static uint8_t *race_arg; static uintptr_t race_p, race_n; static int race_state; /* 1 armed 2 done */
extern char __data_start, _end;
static bool shared(uintptr_t a) { return (a >= race_p && a < race_p + race_n) || (a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end); }
static bool touches(const greg_t *g) {
    static const int R[16] = {REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI, REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15};
    const uint8_t *c = (const uint8_t *)g[REG_RIP]; int rex = 0;
    for (;; c++) if (*c == 0xf0) return true; else if (*c == 0x66 || *c == 0xf2 || *c == 0xf3 || *c == 0x64) continue; else break;
    if ((*c & 0xf0) == 0x40) rex = *c++;
    if (*c == 0x0f) { c++; if (*c == 0x38 || *c == 0x3a) c++; } else if (*c == 0x86 || *c == 0x87) return true;
    else if ((*c >= 0x50 && *c < 0x60) || (*c & 0xf0) == 0x70 || (*c & 0xf0) == 0x90 || (*c & 0xf0) == 0xb0 || *c == 0xc3 || *c == 0xe8 || *c == 0xe9 || *c == 0xeb) return false;
    uint8_t m = *++c; int mod = m >> 6, rm = m & 7; uintptr_t a = 0;
    if (mod == 3) return false;
    c++;
    if (rm == 4) {
        uint8_t s = *c++; int b = s & 7, x = (s >> 3 & 7) | (rex & 2) << 2;
        if (x != 4) a += (uintptr_t)g[R[x]] << (s >> 6);
        if (b == 5 && mod == 0) return shared(a + *(const int32_t *)c);
        a += g[R[b | (rex & 1) << 3]];
    } else if (rm == 5 && mod == 0) {
        /* relative to the next instruction: up to four bytes of immediate operand follow */
        return shared((uintptr_t)c + 4 + *(const int32_t *)c);
    } else a += g[R[rm | (rex & 1) << 3]];
    if (mod == 1) a += *(const int8_t *)c; else if (mod == 2) a += *(const int32_t *)c;
    return shared(a);
}
static void on_trap(int s, siginfo_t *i, void *u) {
    (void)s; (void)i;
    greg_t *g = ((ucontext_t *)u)->uc_mcontext.gregs;
    if (race_state != 1) { g[REG_EFL] &= ~0x100; return; }
    if (!touches(g)) return;
    pid_t c = fork();
    if (c == 0) {
        race_state = 2; g[REG_EFL] &= ~0x100;
        struct rlimit rl = {2, 2}; setrlimit(RLIMIT_CPU, &rl); alarm(3);
        race_f(race_arg);
        return;
    }
    int st = 0;
    while (waitpid(c, &st, 0) < 0) {}
    if (WIFEXITED(st) && WEXITSTATUS(st) == 10) _exit(10);
    if (WIFSIGNALED(st) && WTERMSIG(st) != SIGXCPU && WTERMSIG(st) != SIGALRM && WTERMSIG(st) != SIGKILL) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); }
}
void vx_race(size_t at, size_t max, void (*f)(uint8_t *), uint8_t *arg, uintptr_t p, size_t n) {
    race_f = f; race_arg = arg; race_p = p; race_n = n; race_state = 1;
    if (at == max || !getenv("VX_STEP")) { if (at != max) printf("VX-RACE\n"); return; }
    struct sigaction sa = {0};
    sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO;
    sigaction(SIGTRAP, &sa, 0);
    __asm__ volatile("subq $128, %%rsp; pushfq; orq $0x100, (%%rsp); popfq; addq $128, %%rsp" ::: "memory", "cc");
}
int vx_race_end(void) {
    __asm__ volatile("subq $128, %%rsp; pushfq; andq $-257, (%%rsp); popfq; addq $128, %%rsp" ::: "memory", "cc");
    int last = race_state == 1;
    race_state = 2;
    return last;
}
int vx_symbolic(void) { return 0; }
void vx_expect_panic(bool b) { expect_panic = b; }

/* the environment, as the executor models it */
typedef struct { char *path; uint8_t *d; size_t n; int err; } VF;
static VF vf[64]; static int nvf;
void vx_file(const char *p, size_t n, const uint8_t *d, size_t dn, int err) {
    VF *f = &vf[nvf++];
    f->path = strndup(p, n); f->d = malloc(dn + 1); memcpy(f->d, d, dn); f->n = dn; f->err = err;
}
static VF *vfind(const char *p) { for (int i = 0; i < nvf; i++) if (!strcmp(vf[i].path, p)) return &vf[i]; return 0; }
/* what is read of virtual files: fd -> file and position */
static struct { VF *f; size_t pos; } vfd[1024];
static int vopen(const char *p) {
    VF *f = vfind(p);
    if (!f) { errno = ENOENT; return -1; }
    if (f->err & 0xff) { errno = f->err & 0xff; return -1; }
    int fd = f->err & 0x100 ? syscall(SYS_open, "/", O_RDONLY | O_DIRECTORY) : memfd_create("vx", 0);
    if (fd < 0 || fd >= 1024) return -1;
    if (!(f->err & 0x100) && ftruncate(fd, f->err & 0x400 ? f->err >> 16 : f->n) < 0) return -1;
    vfd[fd].f = f; vfd[fd].pos = 0;
    return fd;
}
ssize_t read(int fd, void *p, size_t n) {
    VF *f = fd >= 0 && fd < 1024 ? vfd[fd].f : 0;
    if (!f) return syscall(SYS_read, fd, p, n);
    size_t k = f->n - vfd[fd].pos; if (k > n) k = n;
    if (f->err & 0x300) {
        size_t at = f->err & 0x100 ? 0 : f->err >> 16;
        size_t left = at > vfd[fd].pos ? at - vfd[fd].pos : 0;
        if (k > left) k = left;
        if (!k && n) { errno = f->err & 0x100 ? EISDIR : EIO; return -1; }
    }
    memcpy(p, f->d + vfd[fd].pos, k); vfd[fd].pos += k;
    return k;
}
int open64(const char *p, int fl, ...) { (void)fl; return vopen(p); }
int open(const char *p, int fl, ...) { (void)fl; return vopen(p); }
static int vstat(const char *p, struct stat *s) {
    VF *f = vfind(p);
    if (!f) { errno = ENOENT; return -1; }
    memset(s, 0, sizeof *s); s->st_mode = f->err & 0x100 ? S_IFDIR | 0755 : S_IFREG | 0644; s->st_size = f->err & 0x100 ? 4096 : f->err & 0x400 ? f->err >> 16 : (off_t)f->n; s->st_blksize = 4096;
    return 0;
}
int stat64(const char *p, struct stat64 *s) { return vstat(p, (struct stat *)s); }
int lstat64(const char *p, struct stat64 *s) { return vstat(p, (struct stat *)s); }
int unlink(const char *p) { printf("VX-UNLINK %s\n", p); errno = EROFS; return -1; }
int rmdir(const char *p) { printf("VX-RMDIR %s\n", p); errno = EROFS; return -1; }
int mkdir(const char *p, mode_t m) { (void)m; printf("VX-MKDIR %s\n", p); errno = EROFS; return -1; }
int rename(const char *p, const char *q) { (void)q; printf("VX-RENAME %s\n", p); errno = EROFS; return -1; }
int clock_gettime(clockid_t c, struct timespec *t) { (void)c; t->tv_sec = 1700000000; t->tv_nsec = 0; return 0; }
ssize_t getrandom(void *p, size_t n, unsigned f) { (void)f; memset(p, 7, n); return n; }

typedef struct { const char *name; void (*f)(void); } Entry;
extern const Entry vx_entries[];

static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
int main(int argc, char **argv) {
    if (argc < 3) return 3;
    struct rlimit rl = {20, 20}; setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = (rlim_t)4 << 30; setrlimit(RLIMIT_AS, &rl);
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    int fd = syscall(SYS_open, argv[2], O_RDONLY);
    FILE *f = fd < 0 ? 0 : fdopen(fd, "r");
    if (!f) return 3;
    char *line = 0; size_t cap = 0; ssize_t l;
    while ((l = getline(&line, &cap, f)) > 0) {
        char *sp = strchr(line, ' ');
        if (!sp || line[0] == '#') continue;
        ins = realloc(ins, sizeof(In) * (nin + 1));
        In *i = &ins[nin++];
        i->pick = line[0] == 'p';
        char *h = sp + 1; size_t n = strcspn(h, "\n") / 2;
        i->b = malloc(n + 1); i->n = n;
        for (size_t k = 0; k < n; k++) i->b[k] = hexv(h[2 * k]) * 16 + hexv(h[2 * k + 1]);
    }
    fclose(f);
    params = argv + 3; nparams = argc - 3;
    signal(SIGABRT, on_abort);
    for (const Entry *e = vx_entries; e->name; e++)
        if (!strcmp(e->name, argv[1])) { e->f(); printf("VX-END\n"); return 0; }
    return 3;
}
