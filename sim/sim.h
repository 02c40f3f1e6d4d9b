// Shared definitions of the bwtc simulator: what the driver (parent) tells a
// simulated process (forked child) and what the child reports back.
#ifndef SIM_H
#define SIM_H
#include <stdint.h>
#include <stddef.h>

typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef int64_t i64;

static inline u64 mix64(u64 x) {
  x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31);
}
static inline u64 hmix(u64 h, u64 v) { return mix64(h ^ (v * 0x9ddfea08eb382d69ULL)); }

enum { SITES = 512, MAXF = 20, NOTES = 1 << 16, ERRCAP = 1 << 15, COVBITS = 18, PLACEN = 1 << 23, COVN = 1 << COVBITS,
       TRACECAP = 1 << 15 };
static const u64 FILE_CAP = 192ull << 20;      // virtual room of one simulated file

// ---- simulated storage -----------------------------------------------------
enum NodeKind { NK_NONE = 0, NK_REG, NK_FIFO, NK_DIR, NK_DEVFULL };
struct Inode {
  char name[32];
  int kind;
  int role;          // 0 bystander, 1 input, 2 target
  u64 size;
  int perm;          // 0 none, 1 r, 2 w, 3 rw
  int touched;       // bit0 modified, bit1 truncated, bit2 unlinked/renamed
  u64 lastWriteOp;
};

// ---- operation classes (what a fault can be attached to) --------------------
enum Cls { C_OPEN_IN = 0, C_READ, C_CLOSE_IN, C_OPEN_OUT, C_WRITE, C_SEEK, C_CLOSE_OUT,
           C_STAT, C_ALLOC, C_CAP, C_KILL, C_OTHER, NCLS };

struct Fault {
  int cls; i64 nth;    // nth (0-based) operation of that class; C_KILL: nth storage operation
  int err;             // errno to deliver
  i64 count;           // how many consecutive operations of the class fail (-1: for ever)
  i64 arg;             // C_WRITE/C_KILL: bytes transferred before; C_CAP: capacity in bytes;
                       // C_CLOSE_OUT: bytes of the tail that get lost
};

enum Prog { P_COMPRESS = 0, P_UNCOMPRESS, P_PREPROCESS, P_POSTPROCESS, P_LIB, P_STREAM, P_CONC, NPROG };

struct StdFd { int ino; int kind; u64 off; int flags; };  // kind: NK_*; flags 1 = append

struct ProcCfg {
  int prog; int argc; char argbuf[4096]; int argoff[64];
  StdFd in, out;
  int rmode, rarg, wmode, warg; u64 ioseed; int blksize;
  u64 heapseed; u64 steps; u64 cap;           // cap: heap limit in bytes
  int nf; Fault f[8];
  int trace;
  u64 coSeed, coMean; i64 coMax; int coNovel;  // interleaving of tasks: seed, mean quantum, switches; or one chance in coNovel at each new place
};

enum EndKind { END_NONE = 0, END_EXIT, END_KILLED, END_HANG, END_SIGNAL, END_LOST };

struct Report {
  int end, code, sig; u64 faultaddr;
  u64 steps, ops, opn[NCLS], fired[NCLS], firedErr[160], shortR, shortW;
  u64 bytesIn, bytesOut, tracehash;
  u64 live, peak, allocs, frees, maxalloc;
  int heapViol; u64 heapInfo[4];
  int escapes; int escapeNr;
  u64 newcov;
  u64 switches;          // preemptive task switches
  u64 opsAfterFault;     // storage operations after the first fault fired
  u64 stepsAfterFault, faultStep;
  int wildWrite;         // SIGSEGV/SIGBUS was a write
  u64 siteId[SITES]; u32 siteFirst[SITES], siteLast[SITES]; int nsites;   // places of the code that allocate, by the last block executed and the callers
  int nnotes, errlen, tracelen;
  u64 notes[NOTES];      // everything from here on is not cleared between runs
  char err[ERRCAP];
  char trace[TRACECAP];
};

struct Shared { Report rep; Inode node[MAXF]; u8 cov[COVN]; u8 place[PLACEN]; };

extern Shared* S;
extern u8* FDATA[MAXF];
extern ProcCfg PC;

extern "C" {
void sim_spawn(void (*fn)(void*), void* arg);  // a task of the simulated process
void sim_run_tasks(void);             // runs them all, interleaved by the seeded scheduler
void sim_note(u64 v);                 // a library node reports a value
u64 sim_file_hash(int ino, u64* size);// hash of a simulated file as a reader sees it now
void sim_init_shared(void);
void sim_child(void) __attribute__((noreturn));
}
u64 hash_bytes(const u8* p, u64 n);
#endif
