// The seam. Linked statically with -Wl,--wrap=... in front of glibc's own
// system call stubs, so that the real stdio, libstdc++, boost and bwtc code
// run on top of a simulated file system, descriptor table and heap.
// Compiled without coverage instrumentation.
#include "sim.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <elf.h>
#include <link.h>
#include <poll.h>
#include <pthread.h>
#include <sys/auxv.h>
#include <time.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <linux/audit.h>

Shared* S; u8* FDATA[MAXF]; ProcCfg PC;
static int active = 0;

static inline long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
  long r; register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static inline long ret(long r) { if (r < 0 && r > -4096) { errno = -r; return -1; } return r; }

u64 hash_bytes(const u8* p, u64 n) {
  u64 h = 0x1234567 ^ n;
  while (n >= 8) { u64 v; memcpy(&v, p, 8); h = (h ^ v) * 0x9ddfea08eb382d69ULL; h ^= h >> 29; p += 8; n -= 8; }
  u64 v = 0; memcpy(&v, p, n); return mix64(h ^ v);
}

void sim_init_shared() {
  S = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (int i = 0; i < MAXF; ++i)
    FDATA[i] = (u8*)mmap(0, FILE_CAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}

// ---------------------------------------------------------------- end of run
static void heap_check_all();
static u64 g_steps, g_limit = ~0ull;
static __attribute__((noreturn)) void finish(int end, int code) {
  active = 0;
  Report& r = S->rep;
  r.end = end; r.code = code; r.steps = g_steps;
  if (r.faultStep) r.stepsAfterFault = g_steps - r.faultStep;
  for (;;) raw(SYS_exit_group, 0);
}

// ------------------------------------------------------------ steps, coverage
// Tasks of one simulated process: switched between any two basic blocks of the
// code under test, when the seeded scheduler says so.
struct Task { void* sp; int done; void (*fn)(void*); void* arg; u8 tls[2048]; };
static Task task[4]; static int ntask, curTask = -1; static u64 coNext = ~0ull, coRng, g_event = ~0ull; static i64 coLeft; static void* mainSp;
extern "C" void sim_ctx(void** save, void* to);
asm(".text\n.globl sim_ctx\nsim_ctx:\n push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n"
    " mov %rsp,(%rdi)\n mov %rsi,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n");
static void tr(const char* what, long a, long b, long r);
static u64 coDraw() { coRng += 0x9e3779b97f4a7c15ULL; return mix64(coRng); }
static u8 coSeen[4][8192]; static int coNovel;   // places each task has been to (one bit per hashed address)
static void coArm() {
  if (coLeft == 0 || coNovel) coNext = ~0ull;
  else { u64 r = coDraw(), m = PC.coMean ? PC.coMean : 1; coNext = g_steps + 1 + ((r & 7) == 0 ? (r >> 8) % 4 : (r >> 8) % (2 * m)); }
  g_event = coNext < g_limit ? coNext : g_limit;
}
// Thread-local storage (errno, the exceptions being handled, thread_local objects)
// is each task's own.
static u8* tlsAt; static u64 tlsLen; static u8 mainTls[2048]; static int coHold;   // coHold: inside an initialisation other tasks would wait for
static void tlsFind() {
  const ElfW(Phdr)* ph = (const ElfW(Phdr)*)getauxval(AT_PHDR); u64 n = getauxval(AT_PHNUM); u8* fs; asm("mov %%fs:0,%0" : "=r"(fs));
  for (u64 i = 0; i < n; ++i) if (ph[i].p_type == PT_TLS) { u64 a = ph[i].p_align ? ph[i].p_align : 1; tlsLen = (ph[i].p_memsz + a - 1) / a * a; tlsAt = fs - tlsLen; }
  if (tlsLen > sizeof mainTls) abort();
}
static void coGo(int to) {     // leave the current context for task `to` (-1: the main one)
  if (to == curTask) return;
  int from = curTask; void** save = from < 0 ? &mainSp : &task[from].sp; memcpy(from < 0 ? mainTls : task[from].tls, tlsAt, tlsLen);
  curTask = to; memcpy(tlsAt, to < 0 ? mainTls : task[to].tls, tlsLen);
  if (to >= 0) { coArm(); sim_ctx(save, task[to].sp); } else { g_event = g_limit; sim_ctx(save, mainSp); }
}
static int coPick(int notThis) { int c[4], n = 0; for (int i = 0; i < ntask; ++i) if (!task[i].done && i != notThis) c[n++] = i; return n ? c[coDraw() % n] : -1; }
static void coEntry() { Task& t = task[curTask]; t.fn(t.arg); t.done = 1; coGo(coPick(-1)); abort(); }
extern "C" void sim_spawn(void (*fn)(void*), void* arg) {
  if (ntask >= 4) abort();
  const u64 SZ = 8 << 20; u8* st = (u8*)raw(SYS_mmap, 0, SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  Task& t = task[ntask++]; t.fn = fn; t.arg = arg; t.done = 0; if (!tlsAt) tlsFind(); memcpy(t.tls, tlsAt, tlsLen); void** sp = (void**)(st + SZ - 64); *--sp = 0; *--sp = (void*)coEntry; for (int i = 0; i < 6; ++i) *--sp = 0; t.sp = sp;
}
extern "C" void sim_run_tasks() { coRng = mix64(PC.coSeed); coLeft = PC.coMax; coNovel = PC.coNovel; int f = coPick(-1); if (f >= 0) coGo(f); curTask = -1; }
static __attribute__((noinline)) void coPlace(u64 pc) {     // a task at a place new to it: one chance in coNovel to be interrupted there
  u64 h = (pc * 0x9E3779B1u) >> 7 & 65535; u8& b = coSeen[curTask][h >> 3]; if (b >> (h & 7) & 1) return; b |= 1 << (h & 7);
  if (coHold || coDraw() % (u64)coNovel) return;
  int to = coPick(curTask); if (to < 0) return;
  S->rep.switches++; tr("switch", g_steps, curTask, to); coGo(to);
}
static __attribute__((noinline)) void event() {
  if (g_steps >= g_limit) finish(END_HANG, 0);
  if (curTask < 0 || g_steps < coNext) { g_event = g_limit; return; }
  if (coHold) { coNext = g_steps + 16; g_event = coNext < g_limit ? coNext : g_limit; return; }
  if (coLeft > 0) --coLeft;
  int to = coPick(curTask); if (to < 0) { coNext = ~0ull; g_event = g_limit; return; }
  S->rep.switches++; tr("switch", g_steps, curTask, to); coGo(to);
}
// Locks and one-time initialisations: a task never waits inside the kernel, the
// others run instead.
extern "C" int __real___cxa_guard_acquire(i64*); extern "C" void __real___cxa_guard_release(i64*); extern "C" void __real___cxa_guard_abort(i64*);
extern "C" int __real_pthread_once(pthread_once_t*, void (*)(void)); extern "C" int __real_pthread_mutex_lock(pthread_mutex_t*);
extern "C" int __wrap___cxa_guard_acquire(i64* g) { int r = __real___cxa_guard_acquire(g); if (r) ++coHold; return r; }
extern "C" void __wrap___cxa_guard_release(i64* g) { __real___cxa_guard_release(g); --coHold; }
extern "C" void __wrap___cxa_guard_abort(i64* g) { __real___cxa_guard_abort(g); --coHold; }
extern "C" int __wrap_pthread_once(pthread_once_t* o, void (*f)(void)) { ++coHold; int r = __real_pthread_once(o, f); --coHold; return r; }
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (curTask < 0) return __real_pthread_mutex_lock(m);
  for (;;) {
    int r = pthread_mutex_trylock(m); if (r != EBUSY) return r;
    if (++g_steps >= g_limit) finish(END_HANG, 0);
    int to = coPick(curTask); if (to >= 0) coGo(to);
  }
}
static u64 g_prev; extern "C" char __executable_start[];
extern "C" void __sanitizer_cov_trace_pc(void) {
  u64 pc = (u64)__builtin_return_address(0);
  u64 i = ((pc * 0x9E3779B1u) ^ g_prev) & (COVN - 1);
  g_prev = (pc * 0x85EBCA6Bu) >> 1;
  if (__builtin_expect(!active, 0)) return;
  if (__builtin_expect(!S->cov[i], 0)) { S->cov[i] = 1; S->rep.newcov++; u64 o = pc - (u64)__executable_start; if (o < PLACEN) S->place[o] = 1; }
  if (__builtin_expect(++g_steps >= g_event, 0)) event();
  if (__builtin_expect(coNovel, 0) && curTask >= 0) coPlace(pc);
}

// ---------------------------------------------------------------------- trace
static void tr(const char* what, long a, long b, long r) {
  Report& R = S->rep;
  R.tracehash = hmix(hmix(hmix(R.tracehash, (u64)what[0] | ((u64)what[1] << 8)), (u64)a * 131 + b), r);
  if (PC.trace && R.tracelen < TRACECAP - 200) {
    char* p = R.trace + R.tracelen; int n = 0;
    auto puts_ = [&](const char* s) { while (*s) p[n++] = *s++; };
    auto putn = [&](long v) { char t[24]; int k = 0; if (v < 0) { p[n++] = '-'; v = -v; } do t[k++] = '0' + v % 10; while (v /= 10); while (k) p[n++] = t[--k]; };
    putn(R.ops); p[n++] = ' '; puts_(what); p[n++] = '('; putn(a); p[n++] = ','; putn(b); puts_(") = "); putn(r); p[n++] = '\n';
    R.tracelen += n;
  }
}

// --------------------------------------------------------------------- faults
static i64 pendErr;          // error that follows a torn write
static u64 capFail;          // failed writes because of a full disk so far
static void fired(int cls, int err) {
  Report& R = S->rep; R.fired[cls]++; if (err > 0 && err < 160) R.firedErr[err]++;
  if (!R.faultStep) { R.faultStep = g_steps + 1; R.opsAfterFault = 0; }
}
// returns errno to deliver, 0 for none; counts the operation
static int fault(int cls, i64* arg) {
  Report& R = S->rep; i64 k = R.opn[cls]++;
  for (int i = 0; i < PC.nf; ++i) {
    Fault& f = PC.f[i];
    if (f.cls != cls || k < f.nth || (f.count >= 0 && k >= f.nth + f.count)) continue;
    if (arg) *arg = (k == f.nth) ? f.arg : 0;
    return f.err;
  }
  return 0;
}
static void storage_op(i64* killPartial) {   // every storage operation passes here first
  Report& R = S->rep; i64 k = R.ops++; if (R.faultStep) R.opsAfterFault++;
  *killPartial = -1;
  for (int i = 0; i < PC.nf; ++i)
    if (PC.f[i].cls == C_KILL && PC.f[i].nth == k) { fired(C_KILL, 0); *killPartial = PC.f[i].arg; }
}
static void maybe_kill(i64 kp) { if (kp >= 0) { tr("KILL", 0, 0, 0); heap_check_all(); finish(END_KILLED, 137); } }

// ---------------------------------------------------------------- descriptors
struct Fd { int used, ino, kind, flags; u64 pos; int stderr_; int append; };
static Fd fds[64];

static u64 chunk(int mode, int arg, u64 n, u64 idx, u64 pos) {
  if (n == 0) return 0;
  u64 r = hmix(hmix(PC.ioseed, idx), mode + 1), k = n;
  switch (mode) {
    case 0: k = n; break;
    case 1: k = 1; break;
    case 2: k = 1 + r % n; break;
    case 3: k = arg > 0 ? arg : 1; break;
    case 4: k = (r & 3) ? n : 1 + (r >> 8) % 7; break;               // mostly whole, now and then tiny
    case 5: { u64 b = 65536; k = b - pos % b; if (k > 1 && (r & 1)) --k; break; } // around 64K edges
    case 6: k = (r % 100) < 50 ? 1 + (r >> 20) % 3 : 1 + (r >> 20) % n; break;
    case 7: { u64 b = arg > 0 ? arg : 4096; k = b - pos % b; break; } // aligned blocks
  }
  if (k > n) k = n; if (k == 0) k = 1;
  return k;
}

static i64 do_read(int fd, void* buf, u64 n) {
  Fd& F = fds[fd]; i64 kp;
  if (F.ino < 0) return 0;
  Inode& I = S->node[F.ino];
  int isin = I.role == 1;
  storage_op(&kp); maybe_kill(kp);
  if (isin || I.role == 0) {
    i64 a = 0; int e = fault(C_READ, &a);
    if (e) { fired(C_READ, e); tr("read", fd, n, -e); return -e; }
  }
  if (I.kind == NK_DIR) { tr("read", fd, n, -EISDIR); return -EISDIR; }
  if ((F.flags & O_ACCMODE) == O_WRONLY) return -EBADF;
  u64 left = F.pos < I.size ? I.size - F.pos : 0;
  u64 want = n < left ? n : left;
  u64 k = chunk(PC.rmode, PC.rarg, want, S->rep.opn[C_READ], F.pos);
  if (k < want) S->rep.shortR++;
  memcpy(buf, FDATA[F.ino] + F.pos, k); F.pos += k; S->rep.bytesIn += k;
  tr("read", fd, n, k); return k;
}

static void put_at(int ino, u64 pos, const void* b, u64 n) {
  Inode& I = S->node[ino];
  if (pos + n > FILE_CAP) { // runaway output: treated as a full disk
    n = pos < FILE_CAP ? FILE_CAP - pos : 0;
  }
  if (pos > I.size) memset(FDATA[ino] + I.size, 0, pos - I.size);
  memcpy(FDATA[ino] + pos, b, n);
  if (pos + n > I.size) I.size = pos + n;
  if (n) I.touched |= 1;
  I.lastWriteOp = S->rep.ops;
}

static i64 do_write(int fd, const void* buf, u64 n) {
  Fd& F = fds[fd]; i64 kp;
  if (F.stderr_) {
    Report& R = S->rep; u64 k = n; if (R.errlen + k > ERRCAP) k = ERRCAP - R.errlen;
    memcpy(R.err + R.errlen, buf, k); R.errlen += k; return n;
  }
  if (F.ino < 0) return n;
  Inode& I = S->node[F.ino];
  storage_op(&kp);
  if ((F.flags & O_ACCMODE) == O_RDONLY) return -EBADF;
  u64 pos = F.append ? I.size : F.pos;
  if (kp >= 0) { u64 k = (u64)kp < n ? kp : n; put_at(F.ino, pos, buf, k); maybe_kill(kp); }
  if (pendErr) { int e = pendErr; pendErr = 0; S->rep.opn[C_WRITE]++; fired(C_WRITE, e); tr("write", fd, n, -e); return -e; }
  i64 a = 0; int e = fault(C_WRITE, &a);
  if (e) {
    if (a > 0 && (u64)a < n) { put_at(F.ino, pos, buf, a); F.pos = pos + a; S->rep.shortW++; pendErr = e; tr("write", fd, n, a); return a; }
    fired(C_WRITE, e); tr("write", fd, n, -e); return -e;
  }
  u64 want = n;
  for (int i = 0; i < PC.nf; ++i) if (PC.f[i].cls == C_CAP && I.kind == NK_REG) {
    Fault& f = PC.f[i];
    if (f.count >= 0 && (i64)capFail >= f.count) continue;          // space was freed again
    u64 capb = f.arg; if (pos + want > capb) {
      u64 room = pos < capb ? capb - pos : 0;
      if (pos + want <= I.size) continue;                            // overwriting needs no space
      if (!room) { capFail++; fired(C_CAP, f.err); tr("write", fd, n, -f.err); return -f.err; }
      want = room;
    }
  }
  if (I.kind == NK_DEVFULL) { fired(C_CAP, ENOSPC); tr("write", fd, n, -ENOSPC); return -ENOSPC; }
  if (pos + want > FILE_CAP) { tr("write", fd, n, -EFBIG); return -EFBIG; }
  u64 k = chunk(PC.wmode, PC.warg, want, S->rep.opn[C_WRITE] + 0x1000000, pos);
  if (k < n) S->rep.shortW++;
  put_at(F.ino, pos, buf, k); F.pos = pos + k; S->rep.bytesOut += k;
  tr("write", fd, n, k); return k;
}

static int find_name(const char* p) {
  if (p[0] == '.' && p[1] == '/') p += 2;
  for (int i = 0; i < MAXF; ++i) if (S->node[i].kind && !strcmp(S->node[i].name, p)) return i;
  return -1;
}
static int new_fd(int ino, int flags) {
  for (int i = 0; i < 64; ++i) if (!fds[i].used) {
    fds[i] = Fd{1, ino, ino >= 0 ? S->node[ino].kind : 0, flags, 0, 0, (flags & O_APPEND) != 0}; return i;
  }
  return -EMFILE;
}
static i64 do_open(const char* path, int flags) {
  i64 kp; storage_op(&kp); maybe_kill(kp);
  int acc = flags & O_ACCMODE, ino = find_name(path);
  int cls = acc == O_RDONLY ? C_OPEN_IN : C_OPEN_OUT;
  int e = fault(cls, 0);
  if (e) { fired(cls, e); tr("open", cls, flags & 0xffff, -e); return -e; }
  if (ino < 0) {
    if (!(flags & O_CREAT)) { tr("open", cls, flags & 0xffff, -ENOENT); return -ENOENT; }
    for (int i = 0; i < MAXF; ++i) if (!S->node[i].kind) { ino = i; break; }
    if (ino < 0) return -ENOSPC;
    Inode& I = S->node[ino]; memset(&I, 0, sizeof I);
    strncpy(I.name, path[0] == '.' && path[1] == '/' ? path + 2 : path, sizeof I.name - 1);
    I.kind = NK_REG; I.perm = 3; I.touched = 1;
  } else if ((flags & O_CREAT) && (flags & O_EXCL)) return -EEXIST;
  Inode& I = S->node[ino];
  if (acc != O_RDONLY && I.kind == NK_DIR) { tr("open", cls, flags & 0xffff, -EISDIR); return -EISDIR; }
  if ((acc != O_WRONLY && !(I.perm & 1)) || (acc != O_RDONLY && !(I.perm & 2))) { tr("open", cls, flags & 0xffff, -EACCES); return -EACCES; }
  if ((flags & O_TRUNC) && acc != O_RDONLY && I.kind == NK_REG) { if (I.size) I.touched |= 2; I.size = 0; }
  int fd = new_fd(ino, flags);
  tr("open", cls, flags & 0xffff, fd); return fd;
}
static i64 do_close(int fd) {
  if (fd < 0 || fd >= 64 || !fds[fd].used) return -EBADF;
  Fd F = fds[fd]; fds[fd].used = 0;
  if (F.stderr_ || F.ino < 0) return 0;
  Inode& I = S->node[F.ino]; i64 kp; storage_op(&kp); maybe_kill(kp);
  int wr = (F.flags & O_ACCMODE) != O_RDONLY;
  i64 a = 0; int e = fault(wr ? C_CLOSE_OUT : C_CLOSE_IN, &a);
  if (e) {
    fired(wr ? C_CLOSE_OUT : C_CLOSE_IN, e);
    if (wr && a > 0 && I.kind == NK_REG) I.size = (u64)a < I.size ? I.size - a : 0;  // delayed write lost
    tr("close", fd, wr, -e); return -e;
  }
  tr("close", fd, wr, 0); return 0;
}
static i64 do_lseek(int fd, i64 off, int wh) {
  if (fd < 0 || fd >= 64 || !fds[fd].used) return -EBADF;
  Fd& F = fds[fd]; if (F.stderr_ || F.ino < 0) return -ESPIPE;
  Inode& I = S->node[F.ino];
  if (F.kind == NK_FIFO) { tr("seek", off, wh, -ESPIPE); return -ESPIPE; }
  int wr = (F.flags & O_ACCMODE) != O_RDONLY;
  i64 kp; storage_op(&kp); maybe_kill(kp);
  if (wr) { int e = fault(C_SEEK, 0); if (e) { fired(C_SEEK, e); tr("seek", off, wh, -e); return -e; } }
  i64 p = wh == SEEK_SET ? off : wh == SEEK_CUR ? (i64)F.pos + off : (i64)I.size + off;
  if (p < 0) return -EINVAL;
  F.pos = p; tr("seek", off, wh, p); return p;
}
static void fill_stat(int ino, int kind, struct stat* st) {
  memset(st, 0, sizeof *st);
  st->st_blksize = PC.blksize > 0 ? PC.blksize : 4096; st->st_nlink = 1; st->st_dev = 7; st->st_ino = 100 + ino;
  if (ino >= 0) { Inode& I = S->node[ino]; st->st_size = kind == NK_REG ? I.size : 0; }
  st->st_mode = 0644 | (kind == NK_REG ? S_IFREG : kind == NK_FIFO ? S_IFIFO : kind == NK_DIR ? S_IFDIR : S_IFCHR);
  if (S_ISCHR(st->st_mode)) st->st_rdev = 0x103;
}
static i64 do_fstat(int fd, struct stat* st) {
  if (fd < 0 || fd >= 64 || !fds[fd].used) return -EBADF;
  int e = fault(C_STAT, 0); if (e) { fired(C_STAT, e); return -e; }
  fill_stat(fds[fd].stderr_ ? -1 : fds[fd].ino, fds[fd].stderr_ ? NK_FIFO : fds[fd].kind, st); return 0;
}
static i64 do_stat(const char* path, struct stat* st) {
  int ino = find_name(path); if (ino < 0) return -ENOENT; fill_stat(ino, S->node[ino].kind, st); return 0;
}
static i64 do_fcntl(int fd, int cmd, long arg) {
  if (fd < 0 || fd >= 64 || !fds[fd].used) return -EBADF;
  if (cmd == F_GETFL) return fds[fd].flags;
  if (cmd == F_GETFD || cmd == F_SETFD) return 0;
  if (cmd == F_SETFL) { fds[fd].append = (arg & O_APPEND) != 0; fds[fd].flags = (fds[fd].flags & ~O_APPEND) | (arg & O_APPEND); return 0; }
  if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) { for (int i = arg; i < 64; ++i) if (!fds[i].used) { fds[i] = fds[fd]; return i; } return -EMFILE; }
  return -EINVAL;
}
static i64 do_unlink(const char* p) {
  int i = find_name(p); if (i < 0) return -ENOENT; i64 kp; storage_op(&kp); maybe_kill(kp);
  S->node[i].touched |= 4; S->node[i].name[0] = 0; tr("unlink", i, 0, 0); return 0;
}
static i64 do_rename(const char* a, const char* b) {
  int i = find_name(a); if (i < 0) return -ENOENT; i64 kp; storage_op(&kp); maybe_kill(kp);
  int j = find_name(b); int role = 0; if (j >= 0 && j != i) { S->node[j].touched |= 4; S->node[j].name[0] = 0; role = S->node[j].role; }
  S->node[i].touched |= 4; memset(S->node[i].name, 0, sizeof S->node[i].name); strncpy(S->node[i].name, b, sizeof S->node[i].name - 1);
  (void)role; tr("rename", i, j, 0); return 0;
}
static i64 do_ftruncate(int fd, i64 len) {
  if (fd < 0 || fd >= 64 || !fds[fd].used || fds[fd].ino < 0) return -EBADF;
  i64 kp; storage_op(&kp); maybe_kill(kp);
  Inode& I = S->node[fds[fd].ino]; if ((u64)len > I.size) memset(FDATA[fds[fd].ino] + I.size, 0, len - I.size);
  I.size = len; I.touched |= 3; tr("ftruncate", fd, len, 0); return 0;
}

// ------------------------------------------------------------------- wrappers
#define W(name) __wrap_##name
#define VALID(fd) ((fd) >= 0 && (fd) < 64 && fds[fd].used)
extern "C" {
static ssize_t x_read(int fd, void* b, size_t n) {
  if (!active) return ret(raw(SYS_read, fd, (long)b, n));
  if (!VALID(fd)) { errno = EBADF; return -1; } return ret(do_read(fd, b, n));
}
static ssize_t x_write(int fd, const void* b, size_t n) {
  if (!active) return ret(raw(SYS_write, fd, (long)b, n));
  if (!VALID(fd)) { errno = EBADF; return -1; } return ret(do_write(fd, b, n));
}
ssize_t W(read)(int a, void* b, size_t c) { return x_read(a, b, c); }
ssize_t W(__read)(int a, void* b, size_t c) { return x_read(a, b, c); }
ssize_t W(__libc_read)(int a, void* b, size_t c) { return x_read(a, b, c); }
ssize_t W(__read_nocancel)(int a, void* b, size_t c) { return x_read(a, b, c); }
ssize_t W(write)(int a, const void* b, size_t c) { return x_write(a, b, c); }
ssize_t W(__write)(int a, const void* b, size_t c) { return x_write(a, b, c); }
ssize_t W(__libc_write)(int a, const void* b, size_t c) { return x_write(a, b, c); }
ssize_t W(__write_nocancel)(int a, const void* b, size_t c) { return x_write(a, b, c); }
static ssize_t x_writev(int fd, const struct iovec* v, int n) {
  if (!active) return ret(raw(SYS_writev, fd, (long)v, n));
  ssize_t t = 0;
  for (int i = 0; i < n; ++i) { if (!v[i].iov_len) continue; ssize_t r = x_write(fd, v[i].iov_base, v[i].iov_len);
    if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; }
  return t;
}
ssize_t W(writev)(int a, const struct iovec* b, int c) { return x_writev(a, b, c); }
ssize_t W(__writev)(int a, const struct iovec* b, int c) { return x_writev(a, b, c); }
ssize_t W(readv)(int fd, const struct iovec* v, int n) {
  if (!active) return ret(raw(SYS_readv, fd, (long)v, n));
  return n ? x_read(fd, v[0].iov_base, v[0].iov_len) : 0;
}
static ssize_t x_pread(int fd, void* b, size_t n, off_t o) {
  if (!active) return ret(raw(SYS_pread64, fd, (long)b, n, o));
  if (!VALID(fd)) { errno = EBADF; return -1; }
  if (fds[fd].kind == NK_FIFO) { errno = ESPIPE; return -1; }
  u64 p = fds[fd].pos; fds[fd].pos = o; i64 r = do_read(fd, b, n); fds[fd].pos = p; return ret(r);
}
static ssize_t x_pwrite(int fd, const void* b, size_t n, off_t o) {
  if (!active) return ret(raw(SYS_pwrite64, fd, (long)b, n, o));
  if (!VALID(fd)) { errno = EBADF; return -1; }
  if (fds[fd].kind == NK_FIFO) { errno = ESPIPE; return -1; }
  u64 p = fds[fd].pos; fds[fd].pos = o; i64 r = do_write(fd, b, n); fds[fd].pos = p; return ret(r);
}
ssize_t W(pread)(int a, void* b, size_t c, off_t o) { return x_pread(a, b, c, o); }
ssize_t W(pread64)(int a, void* b, size_t c, off_t o) { return x_pread(a, b, c, o); }
ssize_t W(pwrite)(int a, const void* b, size_t c, off_t o) { return x_pwrite(a, b, c, o); }
ssize_t W(pwrite64)(int a, const void* b, size_t c, off_t o) { return x_pwrite(a, b, c, o); }
static int x_open(const char* p, int fl, mode_t m) {
  if (!active) return ret(raw(SYS_openat, AT_FDCWD, (long)p, fl, m)); return ret(do_open(p, fl));
}
#define OPENW(n) int W(n)(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); return x_open(p, fl, m); }
OPENW(open) OPENW(open64) OPENW(__open) OPENW(__open64) OPENW(__open_nocancel) OPENW(__open64_nocancel) OPENW(__libc_open) OPENW(__libc_open64)
#define OPENATW(n) int W(n)(int d, const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); if (!active) return ret(raw(SYS_openat, d, (long)p, fl, m)); return x_open(p, fl, m); }
OPENATW(openat) OPENATW(openat64)
int W(creat)(const char* p, mode_t m) { return x_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int W(creat64)(const char* p, mode_t m) { return x_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
static int x_close(int fd) { if (!active) return ret(raw(SYS_close, fd)); return ret(do_close(fd)); }
int W(close)(int f) { return x_close(f); }
int W(__close)(int f) { return x_close(f); }
int W(__libc_close)(int f) { return x_close(f); }
int W(__close_nocancel)(int f) { return x_close(f); }
void W(__close_nocancel_nostatus)(int f) { x_close(f); }
static off_t x_lseek(int fd, off_t o, int w) { if (!active) return ret(raw(SYS_lseek, fd, o, w)); return ret(do_lseek(fd, o, w)); }
off_t W(lseek)(int f, off_t o, int w) { return x_lseek(f, o, w); }
off_t W(lseek64)(int f, off_t o, int w) { return x_lseek(f, o, w); }
off_t W(__lseek)(int f, off_t o, int w) { return x_lseek(f, o, w); }
off_t W(__lseek64)(int f, off_t o, int w) { return x_lseek(f, o, w); }
off_t W(__libc_lseek64)(int f, off_t o, int w) { return x_lseek(f, o, w); }
static int x_fstat(int fd, struct stat* st) { if (!active) return ret(raw(SYS_fstat, fd, (long)st)); return ret(do_fstat(fd, st)); }
int W(fstat)(int f, struct stat* s) { return x_fstat(f, s); }
int W(fstat64)(int f, struct stat* s) { return x_fstat(f, s); }
int W(__fstat64)(int f, struct stat* s) { return x_fstat(f, s); }
int W(__fstat64_time64)(int f, struct stat* s) { return x_fstat(f, s); }
static int x_stat(const char* p, struct stat* st) { if (!active) return ret(raw(SYS_stat, (long)p, (long)st)); return ret(do_stat(p, st)); }
int W(stat)(const char* p, struct stat* s) { return x_stat(p, s); }
int W(stat64)(const char* p, struct stat* s) { return x_stat(p, s); }
int W(lstat)(const char* p, struct stat* s) { return x_stat(p, s); }
int W(lstat64)(const char* p, struct stat* s) { return x_stat(p, s); }
int W(access)(const char* p, int m) { if (!active) return ret(raw(SYS_access, (long)p, m)); struct stat st; (void)m; return x_stat(p, &st); }
static int x_fcntl(int fd, int cmd, long a) { if (!active) return ret(raw(SYS_fcntl, fd, cmd, a)); return ret(do_fcntl(fd, cmd, a)); }
#define FCNTLW(n) int W(n)(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long x = va_arg(a, long); va_end(a); return x_fcntl(fd, cmd, x); }
FCNTLW(fcntl) FCNTLW(fcntl64) FCNTLW(__fcntl) FCNTLW(__fcntl64) FCNTLW(__libc_fcntl64) FCNTLW(__fcntl64_nocancel)
int W(ioctl)(int fd, unsigned long r, ...) { va_list a; va_start(a, r); long x = va_arg(a, long); va_end(a); if (!active) return ret(raw(SYS_ioctl, fd, r, x)); errno = ENOTTY; return -1; }
int W(__ioctl)(int fd, unsigned long r, ...) { va_list a; va_start(a, r); long x = va_arg(a, long); va_end(a); if (!active) return ret(raw(SYS_ioctl, fd, r, x)); errno = ENOTTY; return -1; }
int W(isatty)(int) { errno = ENOTTY; return 0; }
int W(__isatty)(int) { errno = ENOTTY; return 0; }
static int x_dup(int fd) { if (!active) return ret(raw(SYS_dup, fd)); return ret(do_fcntl(fd, F_DUPFD, 0)); }
int W(dup)(int f) { return x_dup(f); }
int W(__dup)(int f) { return x_dup(f); }
int W(dup2)(int a, int b) { if (!active) return ret(raw(SYS_dup2, a, b)); if (!VALID(a) || b < 0 || b >= 64) { errno = EBADF; return -1; } fds[b] = fds[a]; return b; }
int W(poll)(struct pollfd* p, nfds_t n, int t) { if (!active) return ret(raw(SYS_poll, (long)p, n, t)); for (nfds_t i = 0; i < n; ++i) p[i].revents = p[i].events; return n; }
int W(fsync)(int fd) { if (!active) return ret(raw(SYS_fsync, fd)); return 0; }
int W(fdatasync)(int fd) { if (!active) return ret(raw(SYS_fdatasync, fd)); return 0; }
int W(ftruncate)(int f, off_t l) { if (!active) return ret(raw(SYS_ftruncate, f, l)); return ret(do_ftruncate(f, l)); }
int W(ftruncate64)(int f, off_t l) { if (!active) return ret(raw(SYS_ftruncate, f, l)); return ret(do_ftruncate(f, l)); }
int W(unlink)(const char* p) { if (!active) return ret(raw(SYS_unlink, (long)p)); return ret(do_unlink(p)); }
int W(__unlink)(const char* p) { if (!active) return ret(raw(SYS_unlink, (long)p)); return ret(do_unlink(p)); }
int W(remove)(const char* p) { if (!active) return ret(raw(SYS_unlink, (long)p)); return ret(do_unlink(p)); }
int W(rename)(const char* a, const char* b) { if (!active) return ret(raw(SYS_rename, (long)a, (long)b)); return ret(do_rename(a, b)); }
// clocks, randomness, identity: constants of the simulated world, advancing with steps
time_t W(time)(time_t* t) { time_t v = active ? 1000000000 + g_steps / 1000000000 : raw(SYS_time, 0); if (t) *t = v; return v; }
int W(clock_gettime)(clockid_t c, struct timespec* ts) {
  if (!active) return ret(raw(SYS_clock_gettime, c, (long)ts)); ts->tv_sec = 1000000000 + g_steps / 1000000000; ts->tv_nsec = g_steps % 1000000000; return 0; }
int W(gettimeofday)(struct timeval* tv, void*) { struct timespec ts; W(clock_gettime)(0, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
pid_t W(getpid)(void) { return active ? 4242 : raw(SYS_getpid); }
ssize_t W(getrandom)(void* b, size_t n, unsigned f) { if (!active) return ret(raw(SYS_getrandom, (long)b, n, f)); for (size_t i = 0; i < n; ++i) ((u8*)b)[i] = mix64(i); return n; }
unsigned W(sleep)(unsigned s) { if (active) g_steps += (u64)s * 1000000000; return 0; }
int W(usleep)(useconds_t s) { if (active) g_steps += (u64)s * 1000; return 0; }
// the kernel closes what is still open; nobody sees the error then
void W(_exit)(int c) { if (active) { heap_check_all(); for (int fd = 3; fd < 64; ++fd) if (fds[fd].used) do_close(fd); finish(END_EXIT, c & 255); } for (;;) raw(SYS_exit_group, c); }
void W(_Exit)(int c) { W(_exit)(c); }

// ----------------------------------------------------------------------- heap
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
}
struct Hdr { u32 magic; u32 state; u64 size; u64 blk; u32 cls; u32 seq; Hdr* next; Hdr* prev; u64 guard[2]; };
static const u32 MAGIC = 0xB17C0DE5, LIVE = 0xA11E, DEAD = 0xDEAD;
static const u64 G1 = 0xF00DFACE12345678ULL, G2 = 0x8BADF00DCAFEBABEULL;
static u8 *arena, *aend, *atop; static const u64 ARENA = 4ull << 30;
static Hdr liveHead; static Hdr* freeL[512]; static Hdr* freeT[512]; static u32 freeN[512]; static u32 hseq;
// a freed block is reused at once, or (by the plan's heap) only after others of its size were freed too
static bool quarantine() { return PC.heapseed & 1; }
static u32 keepFree(u32 c) { return !quarantine() ? 0 : c <= 17 ? 64 : c <= 20 + 16 * 8 ? 16 : 3; }
// freed blocks are poisoned, or keep their content as most allocators do (so that what is done with
// them goes on: a second free is met, not only a wild pointer); either way a change is noticed
static bool keepsContent() { return PC.heapseed == 2 || PC.heapseed % 7 == 3; }
static u64 fillState;

static void viol(int code, u64 a, u64 b, u64 c) {
  Report& R = S->rep; if (R.heapViol) return; R.heapViol = code; R.heapInfo[0] = a; R.heapInfo[1] = b; R.heapInfo[2] = c; R.heapInfo[3] = g_steps;
}
static void fill(u8* p, u64 n) {
  u64 seed = PC.heapseed; if (n > (1u << 18)) { fill(p + n - 4096, 4096); n = 1u << 18; }
  if (seed == 0) { memset(p, 0, n); return; } if (seed == 1) { memset(p, 0xFF, n); return; }
  if (seed == 2) { memset(p, 0x01, n); return; }
  u64 s = fillState; u64 i = 0;
  for (; i + 8 <= n; i += 8) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; memcpy(p + i, &s, 8); }
  s ^= s << 13; s ^= s >> 7; s ^= s << 17; for (; i < n; ++i) p[i] = s >> ((i & 7) * 8);
  fillState = s;
}
static u32 size_class(u64 n, u64* cap) {
  if (n <= 1024) { u32 c = (n + 63) / 64; *cap = (u64)c * 64; return c; }
  u32 lg = 63 - __builtin_clzll(n); u64 step = 1ull << (lg - 2); u64 up = (n + step - 1) / step; *cap = up * step;
  return 20 + lg * 8 + (u32)(up & 7);
}
static inline u64* tail_guard(Hdr* h) { return (u64*)((u8*)(h + 1) + ((h->size + 15) & ~15ull)); }
static void set_guards(Hdr* h) {
  h->guard[0] = G1; h->guard[1] = G2; u64* t = tail_guard(h); t[0] = G2; t[1] = G1;
  u8* p = (u8*)(h + 1); for (u64 i = h->size; i < ((h->size + 15) & ~15ull); ++i) p[i] = 0xC3;
}
static bool good(Hdr* h) {
  if (h->guard[0] != G1 || h->guard[1] != G2) return false; u64* t = tail_guard(h);
  if (t[0] != G2 || t[1] != G1) return false;
  u8* p = (u8*)(h + 1); for (u64 i = h->size; i < ((h->size + 15) & ~15ull); ++i) if (p[i] != 0xC3) return false;
  return true;
}
static u64 freedLen(Hdr* h) { return h->size < 4096 ? h->size : 4096; }
static u64 freedHash(Hdr* h) { const u64* q = (const u64*)(h + 1); u64 s = 1, n = freedLen(h) / 8; for (u64 i = 0; i < n; ++i) s = (s ^ q[i]) * 0x9E3779B97F4A7C15ULL, s ^= s >> 29; const u8* t = (const u8*)(q + n); for (u64 i = n * 8; i < freedLen(h); ++i) s = (s ^ *t++) * 0x9E3779B97F4A7C15ULL; return s; }
static bool freedSame(Hdr* h, u64* at) {
  *at = 0; if (keepsContent()) return h->guard[0] == freedHash(h);
  const u8* q = (const u8*)(h + 1); u64 m = freedLen(h); for (u64 i = 0; i < m; ++i) if (q[i] != 0xDD) { *at = i; return false; } return true;
}
static void heap_check_all() {
  u64 n = 0;
  for (Hdr* h = liveHead.next; h && h != &liveHead && n < 1000000; h = h->next, ++n) {
    if ((u8*)h < arena || (u8*)h >= aend || h->magic != MAGIC || h->state != LIVE) { viol(1, 0, 0, 0); return; }
    if (!good(h)) { viol(2, h->size, h->seq, 0); return; }
  }
  n = 0;
  for (int c = 0; c < 512; ++c) { Hdr* h = freeL[c]; for (u32 k = freeN[c]; k && n < 20000; --k, ++n, h = h->next) {
    if (!h || h->magic != MAGIC || h->state != DEAD) { viol(3, 0, 0, 0); return; }
    u64 at; if (!freedSame(h, &at)) { viol(4, h->size, h->seq, at); return; }
  } }
}
extern "C" char etext[];
static __attribute__((noinline)) void allocSite(u64 k) {
  Report& R = S->rep; u64* sp = (u64*)__builtin_frame_address(0); u64 id = g_prev; int found = 0;
  for (int i = 2; i < 60 && found < 5; ++i) if (sp[i] > (u64)__executable_start && sp[i] < (u64)etext) { id = (id ^ sp[i]) * 0x9E3779B97F4A7C15ULL; ++found; }
  if (!id) id = 1;
  for (u64 h = id >> 40, t = 0; t < 16; ++t) { u64 i = (h + t) & (SITES - 1);
    if (R.siteId[i] == id) { R.siteLast[i] = k; return; }
    if (!R.siteId[i]) { R.siteId[i] = id; R.siteFirst[i] = R.siteLast[i] = k; ++R.nsites; return; } }
}
static void* h_alloc(u64 n, u64 align, bool zero) {
  Report& R = S->rep; allocSite(R.opn[C_ALLOC]);
  int e = fault(C_ALLOC, 0); R.allocs++;
  if (e) { fired(C_ALLOC, e); tr("alloc", 0, 0, -1); errno = ENOMEM; return 0; }
  if (n > R.maxalloc) R.maxalloc = n;
  if (n > ARENA / 2 || R.live + n > PC.cap) { errno = ENOMEM; return 0; }
  u64 extra = align > 16 ? align : 0, cap; u64 tot = sizeof(Hdr) + ((n + 15) & ~15ull) + 16 + extra;
  u32 c = size_class(tot, &cap);
  u8* blk; 
  if (freeN[c] > keepFree(c)) {
    Hdr* f = freeL[c]; freeL[c] = f->next; --freeN[c];
    u64 at;
    if (f->magic != MAGIC || f->state != DEAD) viol(3, f->size, f->seq, 0);
    else if (!freedSame(f, &at)) viol(4, f->size, f->seq, at);
    blk = (u8*)f->blk;
  } else {
    if ((u64)(aend - atop) < cap) { errno = ENOMEM; return 0; }
    blk = atop; atop += cap;
  }
  u64 u = (u64)blk + sizeof(Hdr); if (extra) u = (u + align - 1) / align * align;
  Hdr* h = (Hdr*)u - 1; h->magic = MAGIC; h->state = LIVE; h->size = n; h->blk = (u64)blk; h->cls = c; h->seq = ++hseq;
  h->next = liveHead.next; h->prev = &liveHead; liveHead.next->prev = h; liveHead.next = h;
  set_guards(h);
  if (zero) memset(h + 1, 0, n); else fill((u8*)(h + 1), n);
  R.live += n; if (R.live > R.peak) R.peak = R.live;
  return h + 1;
}
static bool in_arena(void* p) { return (u8*)p >= arena && (u8*)p < aend; }
static Hdr* h_check(void* p, const char*) {
  Hdr* h = (Hdr*)p - 1;
  if (((u64)p & 15) || (u8*)h < arena || (u8*)p > atop) { viol(5, (u64)p, 0, 0); return 0; }
  if (h->magic != MAGIC || (h->state != LIVE && h->state != DEAD)) { viol(5, (u64)p, 0, 0); return 0; }
  if (h->state == DEAD) { viol(6, h->size, h->seq, 0); return 0; }
  if (!good(h)) viol(2, h->size, h->seq, 1);
  return h;
}
static void h_free(void* p) {
  if (!p || !in_arena(p)) return;       // memory of the driver's own start-up
  Hdr* h = h_check(p, "free"); if (!h) return;
  Report& R = S->rep; R.frees++; R.live -= h->size;
  h->prev->next = h->next; h->next->prev = h->prev;
  h->state = DEAD; if (keepsContent()) h->guard[0] = freedHash(h); else memset(h + 1, 0xDD, freedLen(h));
  if (h->size > (1u << 20)) { // give pages back but keep the first ones
    u64 a = ((u64)(h + 1) + 8192) & ~4095ull, b = ((u64)(h + 1) + h->size) & ~4095ull; if (b > a) raw(SYS_madvise, a, b - a, MADV_DONTNEED);
  }
  u32 c = h->cls; ++freeN[c];
  if (quarantine() && freeN[c] > 1) { h->next = 0; freeT[c]->next = h; freeT[c] = h; }
  else { h->next = freeN[c] > 1 ? freeL[c] : 0; if (freeN[c] == 1) freeT[c] = h; freeL[c] = h; }
}
extern "C" {
void* W(malloc)(size_t n) { return active ? h_alloc(n, 16, false) : __libc_malloc(n); }
void W(free)(void* p) { if (!active) { if (arena && in_arena(p)) return; __libc_free(p); return; } h_free(p); }
void* W(calloc)(size_t a, size_t b) { if (!active) return __libc_calloc(a, b); if (b && a > ~0ull / b) { errno = ENOMEM; return 0; } return h_alloc(a * b, 16, true); }
void* W(realloc)(void* p, size_t n) {
  if (!active) return __libc_realloc(p, n);
  if (!p) return h_alloc(n, 16, false);
  if (!in_arena(p)) { // grown from start-up memory: size unknown, copy conservatively through libc
    void* q = __libc_realloc(p, n); return q; }
  Hdr* h = h_check(p, "realloc"); if (!h) return 0;
  if (n == 0) { h_free(p); return 0; }
  Report& R = S->rep; u64 old = h->size, pk = R.peak; R.live -= old;
  void* q = h_alloc(n, 16, false); u64 pk2 = R.peak; (void)pk; R.live += old;
  if (!q) return 0;
  R.peak = pk2; memcpy(q, p, old < n ? old : n); h_free(p); return q;
}
void* W(memalign)(size_t a, size_t n) { return active ? h_alloc(n, a, false) : __libc_memalign(a, n); }
void* W(aligned_alloc)(size_t a, size_t n) { return active ? h_alloc(n, a, false) : __libc_memalign(a, n); }
int W(posix_memalign)(void** o, size_t a, size_t n) { void* p = active ? h_alloc(n, a, false) : __libc_memalign(a, n); if (!p) return ENOMEM; *o = p; return 0; }
void W(cfree)(void* p) { W(free)(p); }

void sim_note(u64 v) { Report& R = S->rep; if (R.nnotes < NOTES) R.notes[R.nnotes++] = v; }
u64 sim_file_hash(int ino, u64* size) { if (size) *size = S->node[ino].size; return hash_bytes(FDATA[ino], S->node[ino].size); }

int compress_main(int, char**); int uncompress_main(int, char**); int preprocess_main(int, char**); int postprocess_main(int, char**);
int lib_main(int, char**); int stream_main(int, char**); int conc_main(int, char**);
}

// --------------------------------------------------------------------- signals
static void on_sig(int s, siginfo_t* si, void* uc) {
  if (s == SIGSYS) {
    S->rep.escapes++; S->rep.escapeNr = si->si_syscall;
    ((ucontext_t*)uc)->uc_mcontext.gregs[REG_RAX] = -ENOSYS; return;
  }
  S->rep.sig = s; S->rep.faultaddr = (u64)si->si_addr;
  if (s == SIGABRT) heap_check_all();
  if (s == SIGSEGV || s == SIGBUS) S->rep.wildWrite = (((ucontext_t*)uc)->uc_mcontext.gregs[REG_ERR] & 2) != 0;
  finish(s == SIGXCPU ? END_HANG : END_SIGNAL, 128 + s);
}
static void seccomp() {
#define ALLOW(nr) BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, nr, 0, 1), BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW)
  struct sock_filter f[] = {
    BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)),
    ALLOW(SYS_exit_group), ALLOW(SYS_exit), ALLOW(SYS_madvise), ALLOW(SYS_rt_sigreturn), ALLOW(SYS_rt_sigprocmask),
    ALLOW(SYS_rt_sigaction), ALLOW(SYS_gettid), ALLOW(SYS_getpid), ALLOW(SYS_tgkill), ALLOW(SYS_futex),
    ALLOW(SYS_mmap), ALLOW(SYS_munmap), ALLOW(SYS_brk), ALLOW(SYS_mprotect), ALLOW(SYS_sigaltstack),
    BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP) };
  struct sock_fprog p = { sizeof f / sizeof f[0], f };
  prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0);
  raw(SYS_prctl, PR_SET_SECCOMP, SECCOMP_MODE_FILTER, (long)&p);
}
static __attribute__((noinline)) void paint_stack(u64 seed) {
  volatile u64 b[24576]; u64 s = seed * 0x9E3779B97F4A7C15ULL + 1;
  for (u64 i = 0; i < 24576; ++i) { if (seed > 2) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; } else s = seed == 1 ? ~0ull : 0; b[i] = s; }
}
static u8 altstack[65536];
void sim_child() {
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  int sg[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGSYS, SIGXCPU }; for (int s : sg) sigaction(s, &sa, 0);
  signal(SIGINT, SIG_DFL);
  struct rlimit rl = { 100, 110 }; setrlimit(RLIMIT_CPU, &rl); rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
  arena = (u8*)mmap((void*)0x200000000000ull, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (arena == MAP_FAILED) for (;;) raw(SYS_exit_group, 98);
  aend = arena + ARENA; atop = arena; liveHead.next = liveHead.prev = &liveHead;
  fillState = mix64(PC.heapseed) | 1; g_limit = g_event = PC.steps; g_steps = 0; g_prev = 0;
  memset(fds, 0, sizeof fds);
  fds[0] = Fd{1, PC.in.ino, PC.in.kind, O_RDONLY, PC.in.off, 0, 0};
  fds[1] = Fd{1, PC.out.ino, PC.out.kind, O_WRONLY | (PC.out.flags & 1 ? O_APPEND : 0), PC.out.off, 0, PC.out.flags & 1};
  fds[2] = Fd{1, -1, NK_FIFO, O_WRONLY, 0, 1, 0};
  seccomp();
  static char* av[65]; for (int i = 0; i < PC.argc; ++i) av[i] = PC.argbuf + PC.argoff[i]; av[PC.argc] = 0;
  typedef int (*Main)(int, char**);
  static const Main mains[NPROG] = { compress_main, uncompress_main, preprocess_main, postprocess_main, lib_main, stream_main, conc_main };
  paint_stack(PC.heapseed);
  errno = 0; active = 1;
  int r = mains[PC.prog](PC.argc, av);
  exit(r);
}
