// LD_PRELOAD stub of the simulator. Every system call the program makes (other
// than pure memory management) is trapped with seccomp and decided by the runner
// process, over a mailbox in shared memory. All threads of the program are parked
// except the one the runner has released.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/futex.h>
#include <linux/seccomp.h>
#include <pthread.h>
#include <signal.h>
#include <spawn.h>
#include <stdatomic.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

typedef int64_t i64;
typedef uint64_t u64;

// ---- shared memory layout (mirrored in runner/src/shm.rs) ----
#define MAX_SLOTS 512
#define OP_RET 1    // return `ret` to the program
#define OP_RAW 2    // run the raw system call with raw_nr/raw_args, report it
#define OP_SIG 3    // run a signal handler, then report back
#define OP_JOIN 4   // wait (really) until *addr == 0, then return 0
#define OP_EXIT 5   // leave: raw exit / exit_group
#define OP_RAWRET 6 // run the raw system call and return its value to the program

#define X_HELLO 10001
#define X_THREAD_NEW 10002
#define X_SPAWN 10003
#define X_YIELD 10004
#define X_FORK 10005
#define X_DONE 10006 // an OP_RAW / OP_SIG has finished; args[0] is the value

struct slot {
  _Atomic uint32_t resp; // set to 1 by the runner
  uint32_t pad0;
  i64 nr;
  i64 args[6];
  i64 op;
  i64 ret;
  i64 raw_nr;
  i64 raw_args[6];
  u64 sigmask;
  i64 real_tid;
  i64 mallocs; // mallocs left until a preemption point; <=0: none
  i64 pad[2];
};

struct header {
  _Atomic uint32_t event; // 1 when the running thread has posted a request
  uint32_t event_slot;
  i64 now_mono;
  i64 now_real;
  i64 pad[13];
  struct slot slots[MAX_SLOTS];
};

static struct header *H;
static __thread struct slot *me __attribute__((tls_model("initial-exec")));
static volatile int active;

i64 sim_raw(i64 nr, i64 a, i64 b, i64 c, i64 d, i64 e, i64 f);
extern char sim_raw_begin[], sim_raw_end[];
__asm__(".text\n"
        ".globl sim_raw\n.hidden sim_raw\n.hidden sim_raw_begin\n.hidden sim_raw_end\n"
        ".type sim_raw,@function\n"
        "sim_raw_begin:\nsim_raw:\n"
        "mov %rdi,%rax\nmov %rsi,%rdi\nmov %rdx,%rsi\nmov %rcx,%rdx\n"
        "mov %r8,%r10\nmov %r9,%r8\nmov 8(%rsp),%r9\nsyscall\nret\n"
        "sim_raw_end:\n");

static i64 raw6(i64 nr, const i64 *a) { return sim_raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]); }

static void die(const char *m) {
  sim_raw(SYS_write, 2, (i64)m, strlen(m), 0, 0, 0);
  sim_raw(SYS_exit_group, 199, 0, 0, 0, 0, 0);
}

static void wait_resp(struct slot *s) {
  for (;;) {
    if (atomic_load_explicit(&s->resp, memory_order_acquire)) break;
    sim_raw(SYS_futex, (i64)&s->resp, FUTEX_WAIT, 0, 0, 0, 0);
  }
  atomic_store_explicit(&s->resp, 0, memory_order_release);
}

static void post(struct slot *s) {
  H->event_slot = (uint32_t)(s - H->slots);
  atomic_store_explicit(&H->event, 1, memory_order_release);
  sim_raw(SYS_futex, (i64)&H->event, FUTEX_WAKE, 1, 0, 0, 0);
}

static u64 handlers[65];
static u64 handler_flags[65];

static i64 rpc(i64 nr, const i64 *args) {
  struct slot *s = me;
  s->nr = nr;
  for (int i = 0; i < 6; i++) s->args[i] = args[i];
  post(s);
  for (;;) {
    wait_resp(s);
    switch (s->op) {
    case OP_RET:
      return s->ret;
    case OP_RAW: {
      i64 r = raw6(s->raw_nr, s->raw_args);
      s->nr = X_DONE;
      s->args[0] = r;
      post(s);
      break;
    }
    case OP_RAWRET:
      return raw6(s->raw_nr, s->raw_args);
    case OP_SIG: {
      int sig = (int)s->ret;
      u64 h = handlers[sig];
      if (h > 1) {
        siginfo_t si;
        memset(&si, 0, sizeof si);
        si.si_signo = sig;
        ucontext_t uc;
        memset(&uc, 0, sizeof uc);
        ((void (*)(int, siginfo_t *, void *))h)(sig, &si, &uc);
      }
      s->nr = X_DONE;
      s->args[0] = 0;
      post(s);
      break;
    }
    case OP_JOIN: {
      volatile int *p = (volatile int *)s->raw_args[0];
      int v;
      while ((v = *p) != 0) sim_raw(SYS_futex, (i64)p, FUTEX_WAIT, v, 0, 0, 0);
      return 0;
    }
    case OP_EXIT:
      sim_raw(s->raw_nr, s->raw_args[0], 0, 0, 0, 0, 0);
      for (;;) sim_raw(SYS_exit_group, 0, 0, 0, 0, 0, 0);
    default:
      die("sim stub: bad op\n");
    }
  }
}

#define SYSBIT (1ull << (SIGSYS - 1))

static i64 do_sigprocmask(ucontext_t *uc, int how, u64 *set, u64 *old) {
  u64 *m = (u64 *)&uc->uc_sigmask;
  u64 shown = *m & ~SYSBIT;
  if (set) {
    u64 v = *set;
    if (how == SIG_BLOCK)
      *m |= v;
    else if (how == SIG_UNBLOCK)
      *m &= ~v;
    else if (how == SIG_SETMASK)
      *m = v;
    else
      return -EINVAL;
    *m &= ~SYSBIT;
    if (me) me->sigmask = *m;
  }
  if (old) *old = shown;
  return 0;
}

struct ksigaction {
  u64 handler, flags, restorer, mask;
};

static i64 do_sigaction(i64 *a) {
  int sig = (int)a[0];
  struct ksigaction *act = (void *)a[1], *old = (void *)a[2];
  if (sig < 1 || sig > 64) return -EINVAL;
  if (sig == SIGSEGV || sig == SIGBUS || sig == SIGILL || sig == SIGFPE || sig == SIGABRT)
    return raw6(SYS_rt_sigaction, a);
  u64 oh = handlers[sig], of = handler_flags[sig];
  if (act && sig != SIGSYS) {
    handlers[sig] = act->handler;
    handler_flags[sig] = act->flags;
    i64 args[6] = {sig, (i64)act->handler, (i64)act->flags};
    if (me) rpc(SYS_rt_sigaction, args);
  }
  if (old) {
    memset(old, 0, sizeof *old);
    old->handler = oh;
    old->flags = of;
  }
  return 0;
}

static __thread int quiet; // inside the C library's own thread creation: nothing may be scheduled

static void on_sigsys(int sig, siginfo_t *si, void *c) {
  ucontext_t *uc = c;
  greg_t *g = uc->uc_mcontext.gregs;
  i64 nr = si->si_syscall;
  i64 a[6] = {g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]};
  int e = errno;
  i64 r;
  if (nr == SYS_rt_sigprocmask)
    r = do_sigprocmask(uc, (int)a[0], (u64 *)a[1], (u64 *)a[2]);
  else if (nr == SYS_rt_sigaction && !quiet)
    r = do_sigaction(a);
  else if (!me || quiet)
    r = raw6(nr, a);
  else
    r = rpc(nr, a);
  errno = e;
  g[REG_RAX] = r;
}

// ---- threads ----
struct start {
  void *(*fn)(void *);
  void *arg;
  struct slot *slot;
  _Atomic uint32_t ready;
};
static struct start starts[MAX_SLOTS]; // no allocation in the new thread before it is scheduled

static void *thread_main(void *p) {
  struct start *st = p, s;
  s.fn = st->fn;
  s.arg = st->arg;
  s.slot = st->slot;
  s.slot->real_tid = sim_raw(SYS_gettid, 0, 0, 0, 0, 0, 0);
  s.slot->sigmask = 0;
  me = s.slot;
  atomic_store_explicit(&st->ready, 1, memory_order_release);
  sim_raw(SYS_futex, (i64)&st->ready, FUTEX_WAKE, 1, 0, 0, 0);
  wait_resp(me);
  return s.fn(s.arg);
}

int pthread_create(pthread_t *t, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
  if (!real) real = dlsym(RTLD_NEXT, "pthread_create");
  if (!active) return real(t, attr, fn, arg);
  i64 args[6] = {0};
  i64 n = rpc(X_THREAD_NEW, args);
  if (n < 0) return (int)-n;
  me->mallocs = 0; // nobody else runs until the thread is there
  quiet = 1;
  struct start *s = &starts[n];
  atomic_store(&s->ready, 0);
  s->fn = fn;
  s->arg = arg;
  s->slot = &H->slots[n];
  int r = real(t, attr, thread_main, s);
  quiet = 0;
  if (r) die("sim stub: pthread_create failed\n");
  while (!atomic_load_explicit(&s->ready, memory_order_acquire)) sim_raw(SYS_futex, (i64)&s->ready, FUTEX_WAIT, 0, 0, 0, 0);
  return 0;
}

// ---- spawning ----
struct act {
  i64 kind; // 1 close(a) 2 dup2(a,b) 3 open(a, path, oflag, mode) 4 chdir(path) 5 fchdir(a)
  i64 a, b;
  char *path;
  i64 oflag, mode;
};
struct acts {
  i64 n, cap;
  struct act *v;
};
#define ACTS(fa) (*(struct acts **)(fa))

int posix_spawn_file_actions_init(posix_spawn_file_actions_t *fa) {
  memset(fa, 0, sizeof *fa);
  ACTS(fa) = calloc(1, sizeof(struct acts));
  return 0;
}
int posix_spawn_file_actions_destroy(posix_spawn_file_actions_t *fa) {
  struct acts *s = ACTS(fa);
  if (s) {
    for (i64 i = 0; i < s->n; i++) free(s->v[i].path);
    free(s->v);
    free(s);
  }
  ACTS(fa) = 0;
  return 0;
}
static int add(posix_spawn_file_actions_t *fa, struct act a) {
  struct acts *s = ACTS(fa);
  if (s->n == s->cap) {
    s->cap = s->cap ? s->cap * 2 : 8;
    s->v = realloc(s->v, s->cap * sizeof *s->v);
  }
  s->v[s->n++] = a;
  return 0;
}
int posix_spawn_file_actions_addclose(posix_spawn_file_actions_t *fa, int fd) { return add(fa, (struct act){.kind = 1, .a = fd}); }
int posix_spawn_file_actions_adddup2(posix_spawn_file_actions_t *fa, int fd, int to) { return add(fa, (struct act){.kind = 2, .a = fd, .b = to}); }
int posix_spawn_file_actions_addopen(posix_spawn_file_actions_t *fa, int fd, const char *path, int oflag, mode_t mode) { return add(fa, (struct act){.kind = 3, .a = fd, .path = strdup(path), .oflag = oflag, .mode = mode}); }
int posix_spawn_file_actions_addchdir_np(posix_spawn_file_actions_t *fa, const char *path) { return add(fa, (struct act){.kind = 4, .path = strdup(path)}); }
int posix_spawn_file_actions_addchdir(posix_spawn_file_actions_t *fa, const char *path) { return add(fa, (struct act){.kind = 4, .path = strdup(path)}); }
int posix_spawn_file_actions_addfchdir_np(posix_spawn_file_actions_t *fa, int fd) { return add(fa, (struct act){.kind = 5, .a = fd}); }

struct attr {
  short flags;
  pid_t pgroup;
};
int posix_spawnattr_init(posix_spawnattr_t *a) { memset(a, 0, sizeof *a); return 0; }
int posix_spawnattr_destroy(posix_spawnattr_t *a) { return 0; }
int posix_spawnattr_setflags(posix_spawnattr_t *a, short f) { ((struct attr *)a)->flags = f; return 0; }
int posix_spawnattr_getflags(const posix_spawnattr_t *a, short *f) { *f = ((struct attr *)a)->flags; return 0; }
int posix_spawnattr_setpgroup(posix_spawnattr_t *a, pid_t p) { ((struct attr *)a)->pgroup = p; return 0; }
int posix_spawnattr_setsigmask(posix_spawnattr_t *a, const sigset_t *s) { return 0; }
int posix_spawnattr_setsigdefault(posix_spawnattr_t *a, const sigset_t *s) { return 0; }

static int do_spawn(pid_t *pid, const char *path, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const envp[], int search) {
  struct acts *s = fa ? ACTS(fa) : 0;
  i64 extra[4] = {search, s ? s->n : 0, at ? ((struct attr *)at)->flags : 0, at ? ((struct attr *)at)->pgroup : 0};
  i64 args[6] = {(i64)path, (i64)argv, (i64)envp, (i64)(s ? s->v : 0), (i64)extra, 0};
  i64 r = rpc(X_SPAWN, args);
  if (r < 0) return (int)-r;
  if (pid) *pid = (pid_t)r;
  return 0;
}
int posix_spawn(pid_t *pid, const char *path, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const envp[]) { return do_spawn(pid, path, fa, at, argv, envp, 0); }
int posix_spawnp(pid_t *pid, const char *path, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const envp[]) { return do_spawn(pid, path, fa, at, argv, envp, 1); }
int pidfd_spawn(int *pidfd, const char *path, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const envp[]) { return ENOSYS; }
int pidfd_spawnp(int *pidfd, const char *path, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const envp[]) { return ENOSYS; }
pid_t pidfd_getpid(int fd) { errno = ENOSYS; return -1; }

// ---- fork + exec: the child of a real fork runs under the runner as a process of
// its own until it execs ----
pid_t fork(void) {
  static pid_t (*real)(void);
  if (!real) real = dlsym(RTLD_NEXT, "fork");
  if (!active) return real();
  i64 args[6] = {0};
  i64 n = rpc(X_FORK, args); // slot of the child
  if (n < 0) { errno = (int)-n; return -1; }
  struct slot *cs = &H->slots[n];
  struct slot *mine = me;
  me = 0; // glibc's own calls inside fork go straight through
  pid_t p = real();
  if (p == 0) {
    cs->real_tid = sim_raw(SYS_gettid, 0, 0, 0, 0, 0, 0);
    cs->sigmask = 0;
    me = cs;
    wait_resp(me);
    return 0;
  }
  me = mine;
  i64 a2[6] = {p, n, 0};
  i64 r = rpc(X_FORK + 100, a2);
  if (r < 0) { errno = (int)-r; return -1; }
  return (pid_t)r;
}
pid_t vfork(void) { return fork(); }

// ---- clocks (the vDSO makes no system call) ----
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!active) {
    i64 r = sim_raw(SYS_clock_gettime, id, (i64)ts, 0, 0, 0, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    return 0;
  }
  i64 t = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI) ? H->now_real : H->now_mono;
  ts->tv_sec = t / 1000000000;
  ts->tv_nsec = t % 1000000000;
  return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
  return 0;
}
time_t time(time_t *t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
int sched_getcpu(void) { return 0; }

// ---- allocation: a preemption point now and then ----
extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
static inline void maybe_yield(void) {
  if (!active) return;
  struct slot *s = me;
  if (!s || s->mallocs <= 0) return;
  if (--s->mallocs == 0) {
    i64 args[6] = {0};
    int e = errno;
    rpc(X_YIELD, args);
    errno = e;
  }
}
// Where things come to lie in memory: with a layout seed, blocks get some room to spare.
static u64 layout;
static inline size_t roomy(size_t n) {
  if (!layout || n > 1 << 16) return n;
  layout = layout * 6364136223846793005ull + 1442695040888963407ull;
  return (layout >> 60) ? n : n + ((layout >> 40) & 63) * 16;
}
void *malloc(size_t n) { maybe_yield(); return __libc_malloc(roomy(n)); }
void *calloc(size_t a, size_t b) {
  maybe_yield();
  if (layout && a && b && a < 1 << 16 && b < 1 << 16) { b *= a; a = 1; b = roomy(b); }
  return __libc_calloc(a, b);
}
void *realloc(void *p, size_t n) { maybe_yield(); return __libc_realloc(p, n ? roomy(n) : 0); }

// ---- start ----
static void install_filter(void) {
  u64 lo = (u64)sim_raw_begin, hi = (u64)sim_raw_end;
  if ((lo >> 32) != (hi >> 32)) die("sim stub: gadget straddles\n");
#define LD(off) BPF_STMT(BPF_LD | BPF_W | BPF_ABS, off)
#define OK BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW)
#define ALLOW(n) BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, n, 0, 1), OK
  struct sock_filter f[] = {
      LD(offsetof(struct seccomp_data, instruction_pointer) + 4),
      BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)(lo >> 32), 0, 4),
      LD(offsetof(struct seccomp_data, instruction_pointer)),
      BPF_JUMP(BPF_JMP | BPF_JGE | BPF_K, (uint32_t)lo, 0, 2),
      BPF_JUMP(BPF_JMP | BPF_JGT | BPF_K, (uint32_t)hi, 1, 0),
      OK,
      LD(offsetof(struct seccomp_data, nr)),
      BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_mmap, 0, 4), // of files: not here
      LD(offsetof(struct seccomp_data, args[3])),
      BPF_JUMP(BPF_JMP | BPF_JSET | BPF_K, MAP_ANONYMOUS, 0, 1), OK,
      BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP),
      ALLOW(SYS_munmap), ALLOW(SYS_mprotect), ALLOW(SYS_brk), ALLOW(SYS_madvise), ALLOW(SYS_mremap),
      ALLOW(SYS_rt_sigreturn), ALLOW(SYS_clone), ALLOW(SYS_clone3), ALLOW(SYS_set_robust_list), ALLOW(SYS_rseq),
      ALLOW(SYS_set_tid_address), ALLOW(SYS_sigaltstack), ALLOW(SYS_arch_prctl), ALLOW(SYS_membarrier),
      BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP),
  };
  struct sock_fprog p = {sizeof f / sizeof f[0], f};
  if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) die("sim stub: no_new_privs\n");
  if (sim_raw(SYS_seccomp, SECCOMP_SET_MODE_FILTER, 0, (i64)&p, 0, 0, 0)) die("sim stub: seccomp\n");
}

__attribute__((constructor)) static void init(void) {
  const char *s = getenv("SIM_SHM_FD");
  if (!s) return;
  int fd = atoi(s);
  int slot = atoi(getenv("SIM_SLOT"));
  H = mmap(0, sizeof(struct header), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (H == MAP_FAILED) die("sim stub: mmap\n");
  close(fd);
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  const char *ly = getenv("SIM_LAYOUT");
  if (ly) {
    layout = strtoull(ly, 0, 10) | 1;
    // the heap, and what is mapped from now on
    sbrk(((layout >> 8) & 1023) * 4096 + ((layout >> 20) & 255) * 16);
    mmap(0, (1 + ((layout >> 30) & 1023)) * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    unsetenv("SIM_LAYOUT");
  }
  unsetenv("SIM_SHM_FD");
  unsetenv("SIM_SLOT");
  unsetenv("LD_PRELOAD");
  unsetenv("MALLOC_ARENA_MAX");
  // resolve now: dlsym makes system calls
  dlsym(RTLD_NEXT, "pthread_create");
  dlsym(RTLD_NEXT, "fork");
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_sigsys;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGSYS, &sa, 0);
  me = &H->slots[slot];
  me->real_tid = sim_raw(SYS_gettid, 0, 0, 0, 0, 0, 0);
  install_filter();
  active = 1;
  i64 args[6] = {getpid(), 0};
  args[0] = sim_raw(SYS_getpid, 0, 0, 0, 0, 0, 0);
  rpc(X_HELLO, args);
}
