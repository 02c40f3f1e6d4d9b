#include <functional>
// Seeded exploration, oracles, minimisation and replay. Plain parent process;
// each simulated process is a forked child that enters sim_child().
// No stdio and no global destructors here: the children inherit this image.
#include "sim.h"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
using std::string; using std::vector;
typedef vector<u8> Bytes; typedef uint16_t u16;

static string fmt(const char* f, ...) { char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static void out(const string& s) { size_t o = 0; while (o < s.size()) { ssize_t r = write(1, s.data() + o, s.size() - o); if (r <= 0) break; o += r; } }
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Rng {
  u64 s; explicit Rng(u64 x) : s(mix64(x)) {}
  u64 next() { s += 0x9e3779b97f4a7c15ULL; return mix64(s); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  i64 range(i64 a, i64 b) { return a + (i64)below(b - a + 1); }
  bool chance(int pct) { return (int)below(100) < pct; }
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
};

// ------------------------------------------------------------------ workloads
struct Seg { int t; u64 len, seed; i64 p1, p2; };
enum { SG_RAND, SG_RUN, SG_PERIOD, SG_WORDS, SG_FIB, SG_TM, SG_CYCLE, SG_SKEW, SG_PAIRS, SG_RUNS2, SG_LIT, SG_SORTED, SG_COPY, SG_BITS, SG_FIBCNT, SG_PAIRTREE, SG_NEST, SG_RANKED, SG_ZIG, SG_REP, NSG, SG_GROW = 40, SG_RING };

static void genSeg(const Seg& g, Bytes& o) {
  Rng r(g.seed * 1000003 + g.t); u64 n = g.len; u64 base = o.size();
  o.reserve(base + n);
  switch (g.t) {
    case SG_RAND: { int a = g.p1 < 1 ? 1 : g.p1 > 256 ? 256 : g.p1; u8 al[256]; for (int i = 0; i < 256; ++i) al[i] = i;
      for (int i = 0; i < a; ++i) std::swap(al[i], al[i + r.below(256 - i)]);
      for (u64 i = 0; i < n; ++i) o.push_back(al[r.below(a)]); break; }
    case SG_RUN: o.insert(o.end(), n, (u8)g.p1); break;
    case SG_PERIOD: { u64 p = g.p1 < 1 ? 1 : g.p1; Bytes b; for (u64 i = 0; i < p; ++i) b.push_back(g.p2 > 0 ? 'a' + r.below(g.p2) : r.next());
      for (u64 i = 0; i < n; ++i) o.push_back(b[i % p]); break; }
    case SG_WORDS: { int k = g.p1 < 1 ? 1 : g.p1; vector<string> w; for (int i = 0; i < k; ++i) { string s; int l = 1 + r.below(9); for (int j = 0; j < l; ++j) s += "etaoinshrdlucmfwypvbgkqjxz"[std::min(r.below(26), r.below(26))]; w.push_back(s); }
      while (o.size() < base + n) { u64 i = r.below(k); i = std::min(i, r.below(k)); for (char c : w[i]) o.push_back(c); o.push_back(r.chance(5) ? '\n' : ' '); } break; }
    case SG_FIB: { Bytes a(1, (u8)(g.p1)), b(1, (u8)(g.p1 + 1)); while (b.size() < n) { Bytes c = b; c.insert(c.end(), a.begin(), a.end()); a.swap(b); b.swap(c); } o.insert(o.end(), b.begin(), b.begin() + std::min<u64>(n, b.size())); break; }
    case SG_TM: for (u64 i = 0; i < n; ++i) o.push_back((u8)(g.p1 + (__builtin_popcountll(i) & 1))); break;
    case SG_CYCLE: for (u64 i = 0; i < n; ++i) o.push_back((u8)(g.p1 + (g.p2 ? g.p2 : 1) * i)); break;
    case SG_SKEW: { int k = g.p1 < 2 ? 2 : g.p1 > 256 ? 256 : g.p1; for (u64 i = 0; i < n; ++i) { int s = 0; while (s < k - 1 && (r.next() % 1000) < 382) ++s; o.push_back((u8)(s * 7 + g.p2)); } break; }
    case SG_PAIRS: { int k = g.p1 < 1 ? 1 : g.p1; vector<std::pair<u8, u8>> d; for (int i = 0; i < k; ++i) { u8 a = r.next(), b = r.next(); d.push_back({a, b}); }
      while (o.size() < base + n) { if ((i64)r.below(1000) < g.p2) o.push_back(r.next()); else { auto& p = d[std::min(r.below(k), r.below(k))]; o.push_back(p.first); o.push_back(p.second); } } break; }
    case SG_RUNS2: { while (o.size() < base + n) { u64 e = r.below(g.p1 > 0 ? g.p1 : 12); u64 l = (1ull << e) + r.below(3); l = l > 1 ? l - 1 : 1; u8 c = r.below(g.p2 > 0 ? g.p2 : 4) + 'a'; while (l-- && o.size() < base + n) o.push_back(c); } break; }
    case SG_LIT: for (u64 i = 0; i < n; ++i) o.push_back(i < 8 ? (u8)(g.seed >> (8 * i)) : i < 16 ? (u8)((u64)g.p1 >> (8 * (i - 8))) : (u8)i); break;
    case SG_SORTED: { u64 k = g.p1 < 1 ? 1 : g.p1; for (u64 i = 0; i < n; ++i) o.push_back((u8)(g.p2 + i / k)); break; }
    case SG_COPY: { u64 d = g.p1 < 1 ? 1 : g.p1; for (u64 i = 0; i < n; ++i) o.push_back(o.size() >= d ? o[o.size() - d] : (u8)r.next()); break; }
    case SG_BITS: { u8 c = g.p2; int pct = g.p1; for (u64 i = 0; i < n; ++i) { if (r.chance(pct)) c ^= 1 << r.below(8); o.push_back(c); } break; }
    case SG_FIBCNT: { Bytes t; u64 a = 1, b = 1; int s = 0; while (t.size() < n && s < 256) { for (u64 i = 0; i < a && t.size() < n; ++i) t.push_back((u8)(s * 3 + g.p1)); u64 c = a + b; a = b; b = c; ++s; }
      if (g.p2) for (u64 i = t.size(); i > 1; --i) std::swap(t[i - 1], t[r.below(i)]); o.insert(o.end(), t.begin(), t.end()); break; }
    case SG_PAIRTREE: { // nested pairs: rules built from rules
      vector<Bytes> d; int k = g.p1 < 2 ? 2 : g.p1; for (int i = 0; i < k; ++i) d.push_back(Bytes(1, (u8)(g.p2 + i)));
      for (int i = 0; i < k; ++i) { Bytes x = d[r.below(d.size())], y = d[r.below(d.size())]; x.insert(x.end(), y.begin(), y.end()); if (x.size() < 64) d.push_back(x); }
      while (o.size() < base + n) { Bytes& x = d[k + r.below(d.size() - k ? d.size() - k : 1) < d.size() ? k + r.below(d.size() - k ? d.size() - k : 1) : 0]; o.insert(o.end(), x.begin(), x.end()); if (r.chance(2)) o.push_back(r.next()); } break; }
  }
  if (g.t == SG_NEST) { // p1 words of 2^(p2%8) bytes, repeated often: rules upon rules over several rounds; p2/8 permille of noise
    int k = g.p1 < 1 ? 1 : g.p1; int d = 1 + (int)(g.p2 & 7) % 4; vector<Bytes> w; vector<Bytes> lev; for (int i = 0; i < 256; ++i) lev.push_back(Bytes(1, (u8)i));
    for (int l = 0; l < d; ++l) { vector<Bytes> nx; int m = l + 1 == d ? k : k + (int)r.below(k + 1); for (int i = 0; i < m; ++i) { Bytes x = lev[r.below(lev.size())], y = lev[r.below(lev.size())]; x.insert(x.end(), y.begin(), y.end()); nx.push_back(x); } lev.swap(nx); }
    while (o.size() < base + n) { if ((i64)r.below(1000) < g.p2 / 8) o.push_back(r.next()); else { Bytes& x = lev[r.below(lev.size())]; o.insert(o.end(), x.begin(), x.end()); } }
  }
  if (g.t == SG_ZIG) { // low and high bytes in turn: as many substrings to sort as there can be
    i64 lo = g.p1 < 1 ? 1 : g.p1 > 120 ? 120 : g.p1, hi = g.p2 < 1 ? 1 : g.p2 > 120 ? 120 : g.p2; u64 per = 0;
    for (u64 i = 0; i < n; ++i) o.push_back(i & 1 ? 130 + r.below(hi) : r.below(lo));
    if (r.chance(30)) { for (per = 1 + r.below(50); per; --per) if (n > 40) { u64 l = 1 + r.below(n / 20), f = base + r.below(n - l), t = base + r.below(n - l); for (u64 i = 0; i < l; ++i) o[t + i] = o[f + i]; } }
  }
  if (g.t == SG_REP) { // repeats of repeats (exhausts the sorter's budget once in some hundred seeds)
    u64 x = g.seed * 0x9E3779B97F4A7C15ULL + 1; auto rn = [&]() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x * 0x2545F4914F6CDD1DULL >> 11; }; auto rb = [&](u64 k) { return k ? rn() % k : 0; };
    for (int i = 0; i < 10; ++i) rn(); rb(12); Bytes t; u64 a = 1 + rb(4), mode = rb(4), u0 = 1 + rb(1 + rb(200)); for (u64 i = 0; i < u0; ++i) t.push_back(rb(a));
    while (t.size() < n) switch (rb(mode ? 8 : 3)) {
      case 0: { u64 l = 1 + rb(t.size()), p = rb(t.size() - l + 1), k = 1 + rb(1 + rb(20)); Bytes d(t.begin() + p, t.begin() + p + l); while (k-- && t.size() < n) t.insert(t.end(), d.begin(), d.end()); break; }
      case 1: { u64 l = 1 + rb(1 + rb(100)); l = std::min<u64>(l, t.size()); Bytes d(t.end() - l, t.end()); u64 k = 1 + rb(1 + rb(300)); while (k-- && t.size() < n) t.insert(t.end(), d.begin(), d.end()); break; }
      case 2: t.push_back(rb(a + 1)); break;
      case 3: { u64 l = rb(1 + rb(500)); t.insert(t.end(), l, (u8)rb(a)); break; }
      case 4: { u64 i = rb(a + 1); t[rb(t.size())] = i; break; }
      case 5: { Bytes d = t; t.insert(t.end(), d.begin(), d.end()); t.push_back(rb(a + 1)); break; }
      case 6: { Bytes d = t; t.insert(t.end(), d.begin(), d.end()); break; }
      case 7: { if (t.size() > 3) t.resize(t.size() - rb(t.size() / 2)); t.push_back(rb(a)); break; }
    }
    for (u64 i = 0; i < n; ++i) o.push_back((u8)(t[n - 1 - i] + g.p1)); // blocks are sorted backwards
  }
  if (g.t == SG_RANKED) { // every byte value is in use, each a different number of times; the last byte is one of the rare ones
    u8 al[256]; for (int i = 0; i < 256; ++i) al[i] = i; for (int i = 255; i > 0; --i) std::swap(al[i], al[r.below(i + 1)]);
    Bytes t; for (int i = 0; i < 256 && t.size() < n; ++i) for (i64 j = 0; j < 1 + g.p1 + (g.p2 * i) / 16 && t.size() < n; ++j) t.push_back(al[i]);
    for (u64 i = t.size(); i > 1; --i) std::swap(t[i - 1], t[r.below(i)]);
    if (t.size()) { u8 want = al[2 + r.below(r.pick<u64>({4, 30, 60}))]; for (u64 i = 0; i < t.size(); ++i) if (t[i] == want) { std::swap(t[i], t.back()); break; } }
    while (o.size() + t.size() < base + n) o.push_back(al[255]); o.insert(o.end(), t.begin(), t.end());
  }
  if (g.t == SG_GROW) { // values p1 times each but two; runs of odd length of two of them: counting overlapping occurrences makes replacing look useful
    u64 f = g.p1 < 1 ? 1 : g.p1; int L = 3 + 2 * ((g.p2 >> 1) % 3), reps = (L - 1) / 2; u64 k = (f + 1003) / (reps + 1) + 20 + (g.p2 >> 4); u8 al[256]; for (int i = 0; i < 256; ++i) al[i] = i; for (int i = 255; i > 0; --i) std::swap(al[i], al[r.below(i + 1)]);
    Bytes t, body; for (int i = 2; i < 254; ++i) t.insert(t.end(), f, al[i]); for (u64 i = t.size(); i > 1; --i) std::swap(t[i - 1], t[r.below(i)]); t.push_back(al[0]); t.push_back(al[1]); if (t.size() & 1) t.push_back(al[9]);
    for (u64 i = 0; i < 2 * k; ++i) { body.insert(body.end(), L, al[254 + (i & 1)]); body.push_back(al[2 + (i & 1)]); }
    if (g.p2 & 1) { o.insert(o.end(), body.begin(), body.end()); o.insert(o.end(), t.begin(), t.end()); } else { o.insert(o.end(), t.begin(), t.end()); o.insert(o.end(), body.begin(), body.end()); }
  }
  if (g.t == SG_RING) { // many values that are freed (and grow to two bytes) stand in front of all the pairs that get replaced
    u64 f = g.p1 < 1 ? 1 : g.p1; u8 al[256]; for (int i = 0; i < 256; ++i) al[i] = i; for (int i = 255; i > 0; --i) std::swap(al[i], al[r.below(i + 1)]);
    Bytes t; t.push_back(al[0]); t.push_back(al[1]); for (int v = 2; v < 215; ++v) t.insert(t.end(), f, al[v]); for (u64 i = t.size(); i > 1; --i) std::swap(t[i - 1], t[r.below(i)]);
    vector<u16> ps; for (int i = 0; i < 210; ++i) ps.insert(ps.end(), f + 1010 + g.p2, (u16)(al[215 + i % 20] << 8 | al[235 + i % 21])); for (u64 i = ps.size(); i > 1; --i) std::swap(ps[i - 1], ps[r.below(i)]);
    o.insert(o.end(), t.begin(), t.end()); for (u16 x : ps) { o.push_back(x >> 8); o.push_back(x & 255); }
  }
  if (o.size() > base + n) o.resize(base + n);
}

struct Io { int ink = 0, outk = 0, rmode = 0, rarg = 0, wmode = 0, warg = 0, blk = 4096, verb = 0; u64 ioseed = 0, heap = 0, astyle = 0; vector<Fault> f; };
struct SOp { u32 k, a; u64 b; };
struct Plan {
  string prop, variant; int fam = 0, side = 0;    // fam 0 compress/uncompress, 1 preprocess/postprocess, 2 library
  int prepr = 0; char enc = 'B', bwt = 'a'; int starts = 8; u64 mem = 1;
  vector<Seg> segs; Io a, b; i64 x[8] = {0, 0, 0, 0, 0, 0, 0, 0}; vector<SOp> ops; vector<string> extra;
};

static Bytes makeInput(const Plan& p) { Bytes o; for (auto& g : p.segs) genSeg(g, o); return o; }

// ------------------------------------------------------------ plan <-> text
static string ioText(const char* tag, const Io& i) {
  string s = fmt("%s in=%d out=%d rmode=%d rarg=%d wmode=%d warg=%d blk=%d verb=%d ioseed=%llu heap=%llu astyle=%llu\n", tag, i.ink, i.outk, i.rmode, i.rarg, i.wmode, i.warg, i.blk, i.verb, (unsigned long long)i.ioseed, (unsigned long long)i.heap, (unsigned long long)i.astyle);
  for (auto& f : i.f) s += fmt("fault %s cls=%d nth=%lld err=%d count=%lld arg=%lld\n", tag, f.cls, (long long)f.nth, f.err, (long long)f.count, (long long)f.arg);
  return s;
}
static string planText(const Plan& p) {
  string s = "prop " + p.prop + "\nvariant " + p.variant + "\n";
  s += fmt("opts fam=%d side=%d prepr=%d enc=%c bwt=%c starts=%d mem=%llu\n", p.fam, p.side, p.prepr, p.enc, p.bwt, p.starts, (unsigned long long)p.mem);
  for (auto& g : p.segs) s += fmt("seg t=%d len=%llu seed=%llu p1=%lld p2=%lld\n", g.t, (unsigned long long)g.len, (unsigned long long)g.seed, (long long)g.p1, (long long)g.p2);
  s += ioText("A", p.a) + ioText("B", p.b);
  s += "x"; for (int i = 0; i < 8; ++i) s += fmt(" %lld", (long long)p.x[i]); s += "\n";
  for (auto& o : p.ops) s += fmt("op %u %u %llu\n", o.k, o.a, (unsigned long long)o.b);
  for (auto& e : p.extra) s += "arg " + e + "\n";
  return s;
}
static bool parsePlan(const string& t, Plan& p, string& cls) {
  size_t i = 0; p = Plan(); p.segs.clear();
  while (i < t.size()) {
    size_t e = t.find('\n', i); if (e == string::npos) e = t.size(); string l = t.substr(i, e - i); i = e + 1;
    const char* c = l.c_str(); unsigned long long A, B; long long C, D, E;
    if (!l.compare(0, 5, "prop ")) p.prop = l.substr(5);
    else if (!l.compare(0, 8, "variant ")) p.variant = l.substr(8);
    else if (!l.compare(0, 6, "class ")) cls = l.substr(6);
    else if (!l.compare(0, 5, "opts ")) { if (sscanf(c, "opts fam=%d side=%d prepr=%d enc=%c bwt=%c starts=%d mem=%llu", &p.fam, &p.side, &p.prepr, &p.enc, &p.bwt, &p.starts, &A) != 7) return false; p.mem = A; }
    else if (!l.compare(0, 4, "seg ")) { Seg g; if (sscanf(c, "seg t=%d len=%llu seed=%llu p1=%lld p2=%lld", &g.t, &A, &B, &C, &D) != 5) return false; g.len = A; g.seed = B; g.p1 = C; g.p2 = D; p.segs.push_back(g); }
    else if (!l.compare(0, 2, "A ") || !l.compare(0, 2, "B ")) { Io& o = l[0] == 'A' ? p.a : p.b; vector<Fault> keep = o.f;
      unsigned long long Z; if (sscanf(c + 2, "in=%d out=%d rmode=%d rarg=%d wmode=%d warg=%d blk=%d verb=%d ioseed=%llu heap=%llu astyle=%llu", &o.ink, &o.outk, &o.rmode, &o.rarg, &o.wmode, &o.warg, &o.blk, &o.verb, &A, &B, &Z) != 11) return false; o.ioseed = A; o.heap = B; o.astyle = Z; }
    else if (!l.compare(0, 6, "fault ")) { Fault f; char w; if (sscanf(c, "fault %c cls=%d nth=%lld err=%d count=%lld arg=%lld", &w, &f.cls, &C, &f.err, &D, &E) != 6) return false; f.nth = C; f.count = D; f.arg = E; (w == 'A' ? p.a : p.b).f.push_back(f); }
    else if (!l.compare(0, 2, "x ")) { long long v[8]; if (sscanf(c, "x %lld %lld %lld %lld %lld %lld %lld %lld", v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6, v + 7) != 8) return false; for (int k = 0; k < 8; ++k) p.x[k] = v[k]; }
    else if (!l.compare(0, 3, "op ")) { SOp o; if (sscanf(c, "op %u %u %llu", &o.k, &o.a, &A) != 3) return false; o.b = A; p.ops.push_back(o); }
    else if (!l.compare(0, 4, "arg ")) p.extra.push_back(l.substr(4));
    else if (l.empty() || l[0] == '#') {}
    else return false;
  }
  return !p.prop.empty();
}

// ------------------------------------------------------------------ running
struct Stats {
  u64 directed = 0, plans = 0, procs = 0, steps = 0, nontrivial = 0, skipped = 0, exits0 = 0, exitsN = 0, signals = 0, killed = 0, hangs = 0, escapes = 0;
  u64 fired[NCLS] = {0}, firedErr[160] = {0}, shortR = 0, shortW = 0, bytesIn = 0, bytesOut = 0, ops = 0, allocs = 0;
  u64 switches = 0, byProg[NPROG] = {0}, inK[8] = {0}, outK[8] = {0};
  std::unordered_set<u64>*traces, *plansSeen; vector<string>* samples; std::map<string, u64>* probes;
};
static Stats* ST;
static void probe(const string& k) { (*ST->probes)[k]++; }

struct Run { int end, code, sig; u64 steps, ops, opn[NCLS], fired[NCLS], peak, allocs, trace, newcov, opsAfter, stepsAfter, maxalloc; int heapViol; u64 hinfo[4]; int wildWrite; u64 faultaddr; vector<u64> notes; vector<std::pair<u32, u32>> sites; string err, tr; u64 nfired;
  bool ok() const { return end == END_EXIT && code == 0; } };
static u64 lastNewCov;
static int g_trace = 0;
static string g_traceText;

static void fsClear() { for (int i = 0; i < MAXF; ++i) { S->node[i].kind = 0; S->node[i].size = 0; S->node[i].touched = 0; S->node[i].role = 0; S->node[i].name[0] = 0; } }
static void fsPut(int i, const char* name, int kind, int role, const Bytes& b) {
  Inode& I = S->node[i]; memset(&I, 0, sizeof I); strncpy(I.name, name, sizeof I.name - 1); I.kind = kind; I.role = role; I.perm = 3;
  if (b.size() > FILE_CAP) abort(); if (b.size()) memcpy(FDATA[i], b.data(), b.size()); I.size = b.size();
}
static Bytes fsGet(int i) { return Bytes(FDATA[i], FDATA[i] + S->node[i].size); }

static const char* endName(const Run& r) {
  static char b[64]; if (r.end == END_EXIT) snprintf(b, sizeof b, "exit %d", r.code); else if (r.end == END_KILLED) snprintf(b, sizeof b, "killed");
  else if (r.end == END_HANG) snprintf(b, sizeof b, "hang"); else if (r.end == END_SIGNAL) snprintf(b, sizeof b, "signal %d", r.sig); else snprintf(b, sizeof b, "lost"); return b;
}

static u64 g_coSeed, g_coMean; static i64 g_coMax; static int g_coNovel;
static Run exec(int prog, const vector<string>& args, const StdFd& in, const StdFd& ou, const Io& io, u64 budget) {
  PC.prog = prog; PC.argc = 0; int o = 0;
  static const char* names[NPROG] = {"compress", "uncompress", "preprocess", "postprocess", "lib", "stream", "tasks"};
  auto add = [&](const string& s) { if (o + s.size() + 1 > sizeof PC.argbuf || PC.argc >= 63) return; PC.argoff[PC.argc++] = o; memcpy(PC.argbuf + o, s.c_str(), s.size() + 1); o += s.size() + 1; };
  add(names[prog]); for (auto& a : args) add(a);
  PC.in = in; PC.out = ou; PC.rmode = io.rmode; PC.rarg = io.rarg; PC.wmode = io.wmode; PC.warg = io.warg; PC.ioseed = io.ioseed; PC.blksize = io.blk;
  PC.heapseed = io.heap; PC.steps = budget; PC.cap = 3ull << 30; PC.nf = std::min<size_t>(8, io.f.size()); for (int i = 0; i < PC.nf; ++i) PC.f[i] = io.f[i];
  PC.trace = g_trace; PC.coSeed = g_coSeed; PC.coMean = g_coMean; PC.coMax = g_coMax; PC.coNovel = g_coNovel;
  memset(&S->rep, 0, offsetof(Report, notes));
  pid_t p = fork();
  if (p == 0) sim_child();
  if (p < 0) { out("fork failed\n"); _exit(3); }
  int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  Report& R = S->rep; Run r; r.end = R.end; r.code = R.code; r.sig = R.sig;
  if (R.end == END_NONE) { if (WIFSIGNALED(st)) { int sg = WTERMSIG(st); r.end = sg == SIGXCPU ? END_HANG : sg == SIGKILL ? END_LOST : END_SIGNAL; r.sig = sg; } else r.end = END_LOST; }
  if (r.end == END_LOST) { out(fmt("simulated process lost, status %x\n", st)); _exit(3); }
  r.steps = R.steps; r.ops = R.ops; memcpy(r.opn, R.opn, sizeof r.opn); memcpy(r.fired, R.fired, sizeof r.fired); r.peak = R.peak; r.allocs = R.allocs; r.trace = hmix(R.tracehash, ((u64)r.end << 32) | r.code);
  r.newcov = R.newcov; r.heapViol = R.heapViol; memcpy(r.hinfo, R.heapInfo, sizeof r.hinfo); r.wildWrite = R.wildWrite; r.faultaddr = R.faultaddr; r.opsAfter = R.opsAfterFault; r.stepsAfter = R.stepsAfterFault; r.maxalloc = R.maxalloc;
  for (int i = 0; i < SITES; ++i) if (R.siteId[i]) r.sites.push_back({R.siteFirst[i], R.siteLast[i]});
  r.notes.assign(R.notes, R.notes + R.nnotes); r.err.assign(R.err, R.errlen); if (g_trace) { r.tr.assign(R.trace, R.tracelen);
    g_traceText += string("--- ") + names[prog]; for (auto& a : args) g_traceText += " '" + a + "'"; g_traceText += fmt("  -> %s, %llu steps, %llu storage ops, peak heap %llu\n", endName(r), (unsigned long long)r.steps, (unsigned long long)r.ops, (unsigned long long)r.peak) + r.tr; if (r.err.size()) g_traceText += "stderr: " + r.err.substr(0, 500) + "\n"; }
  lastNewCov += r.newcov; r.nfired = 0; for (int i = 0; i < NCLS; ++i) r.nfired += R.fired[i];
  ST->procs++; ST->steps += r.steps; ST->ops += r.ops; ST->allocs += R.allocs; for (int i = 0; i < NCLS; ++i) ST->fired[i] += R.fired[i]; for (int i = 0; i < 160; ++i) ST->firedErr[i] += R.firedErr[i];
  ST->shortR += R.shortR; ST->shortW += R.shortW; ST->bytesIn += R.bytesIn; ST->bytesOut += R.bytesOut; ST->byProg[prog]++; ST->switches += R.switches; ST->escapes += R.escapes;
  if (r.end == END_EXIT) (r.code ? ST->exitsN : ST->exits0)++; else if (r.end == END_SIGNAL) ST->signals++; else if (r.end == END_KILLED) ST->killed++; else if (r.end == END_HANG) ST->hangs++;
  if (ST->traces->size() < 4000000) ST->traces->insert(hmix(r.trace, prog));
  return r;
}

// junk that was there before, and a bystander
static Bytes junk(u64 n, u64 seed) { Bytes b(n); for (u64 i = 0; i < n; ++i) b[i] = (u8)mix64(seed * 77 + i); return b; }
static const u64 JUNKLEN = 777;
struct Got { Run r; Bytes out; bool prefixOk, inputOk, otherOk; bool targetTouched; };
// The same request can be written in many ways: options in any order and before or behind the names, long or
// short, with '=' or joined, defaults left out, names as positions or options, standard streams implied.
static vector<string> cmdLine(const Plan& p, int side, const Io& io, bool sin, bool sout) {
  struct Opt { const char *lo, *sh; string v, def; }; vector<Opt> o; auto num = [](u64 v) { return fmt("%llu", (unsigned long long)v); };
  if (side == 0) {
    if (p.fam == 0) o = {{"mem", "m", num(p.mem), "100"}, {"enc", "e", string(1, p.enc), "B"}, {"bwt", 0, string(1, p.bwt), "a"}, {"starts", "s", num(p.starts), "8"}};
    else o = {{"block", "b", num(p.mem), "100000"}};
    if (p.prepr) o.push_back({"prepr", 0, string(p.prepr, 'p'), ""});
  }
  if (io.verb) o.push_back({"verb", "v", num(io.verb), "0"});
  vector<string> a;
  if (!io.astyle) {
    for (auto& x : o) { a.push_back(x.sh ? string("-") + x.sh : string("--") + x.lo); a.push_back(x.v); }
    if (sin) a.push_back("-i"); else a.push_back("in");
    if (sout) a.push_back("-c"); else if (sin) { a.push_back("--output-file"); a.push_back("out"); } else a.push_back("out");
    return a;
  }
  Rng r(hmix(io.astyle, 4711)); vector<vector<string>> g; if (p.fam == 1 && side == 0 && r.chance(30)) o.push_back({"escape", 0, r.pick<const char*>({"1", "0", "true"}), "1"});
  for (auto& x : o) {
    string v = x.v; if (v == x.def && r.chance(60)) continue; if (v == "1" && (!strcmp(x.lo, "mem") || !strcmp(x.lo, "block")) && r.chance(20)) v = "0";
    switch (r.below(x.sh ? 4 : 2)) { case 0: g.push_back({string("--") + x.lo, v}); break; case 1: g.push_back({string("--") + x.lo + "=" + v}); break; case 2: g.push_back({string("-") + x.sh, v}); break; case 3: g.push_back({string("-") + x.sh + v}); break; }
  }
  bool inPos = !sin && (sout || r.chance(70)) && r.chance(80), outPos = inPos && !sout && r.chance(85);
  if (sin && (!sout || r.chance(70))) g.push_back({r.pick<const char*>({"-i", "--stdin"})}); else if (!sin && !inPos) g.push_back({"--input-file", "in"});
  if (sout && r.chance(60)) g.push_back({r.pick<const char*>({"-c", "--stdout"})}); else if (!sout && !outPos) g.push_back({r.chance(50) ? "--output-file=out" : "--output-file", "out"});
  for (auto& x : g) if (x[0] == "--output-file=out") x.resize(1);
  for (size_t i = g.size(); i > 1; --i) std::swap(g[i - 1], g[r.below(i)]);
  if (outPos) g.insert(g.begin() + r.below(g.size() + 1), {"out"});
  if (inPos) { size_t at = 0; while (at < g.size() && !(g[at].size() == 1 && g[at][0] == "out")) ++at; g.insert(g.begin() + r.below(at + 1), {"in"}); }
  for (auto& x : g) a.insert(a.end(), x.begin(), x.end());
  return a;
}

// One program run from input bytes to output bytes through the given delivery.
// leftover: what lies at a named target before (null: depends on outk)
static double g_hardEnd; static std::function<void()> g_giveUp; // see main
static Got run1(const Plan& p, int side, const Bytes& input, const Io& io, u64 budget, const Bytes* leftover = 0, const vector<string>* rawArgs = 0) {
  if (g_hardEnd && now() > g_hardEnd) g_giveUp();
  fsClear();
  Bytes dec = junk(99, 5); u64 off = 0, inoff = 0;
  StdFd si = {-1, NK_NONE, 0, 0}, so = {-1, NK_NONE, 0, 0};
  if (io.ink == 4) { Bytes b = junk(333, 9); inoff = b.size(); b.insert(b.end(), input.begin(), input.end()); fsPut(0, "in", NK_REG, 1, b); }
  else fsPut(0, "in", io.ink == 3 || io.ink == 2 ? NK_FIFO : NK_REG, 1, input);
  if (io.ink == 1 || io.ink == 4) si = StdFd{0, NK_REG, inoff, 0}; if (io.ink == 2) si = StdFd{0, NK_FIFO, 0, 0};
  switch (io.outk) {
    case 0: if (leftover) fsPut(1, "out", NK_REG, 2, *leftover); break;
    case 1: fsPut(1, "out", NK_REG, 2, leftover ? *leftover : junk(input.size() * 2 + 5000, 3)); break;
    case 2: fsPut(1, "out", NK_REG, 2, Bytes()); so = StdFd{1, NK_REG, 0, 0}; break;
    case 3: fsPut(1, "out", NK_FIFO, 2, Bytes()); so = StdFd{1, NK_FIFO, 0, 0}; break;
    case 4: fsPut(1, "out", NK_REG, 2, junk(JUNKLEN, 4)); off = JUNKLEN; so = StdFd{1, NK_REG, 0, 1}; break;
    case 5: fsPut(1, "out", NK_REG, 2, junk(JUNKLEN, 4)); off = JUNKLEN; so = StdFd{1, NK_REG, JUNKLEN, 0}; break;
    case 6: fsPut(1, "out", NK_FIFO, 2, Bytes()); break;
  }
  fsPut(2, "keep", NK_REG, 0, dec);
  bool sin = io.ink == 1 || io.ink == 2 || io.ink == 4, sout = io.outk >= 2 && io.outk <= 5;
  vector<string> a; int prog;
  bool own = p.fam == 2 && io.ink == 5;      // the caller's own streams
  if (own && !S->node[1].kind) fsPut(1, "out", NK_REG, 2, Bytes());
  if (p.fam == 2) {
    prog = P_LIB; if (io.verb) { a.push_back("V"); a.push_back(fmt("%d", io.verb)); }
    string fi = own ? "0" : sin ? "" : "in", fo = own ? "1" : sout ? "" : "out";
    if (side == 0) { a.insert(a.end(), {own ? "c" : "C", fi, fo, string(p.prepr, 'p'), fmt("%llu", (unsigned long long)p.mem), string(1, p.enc), string(1, p.bwt), fmt("%d", p.starts)}); }
    else a.insert(a.end(), {own ? "d" : "D", fi, fo});
  } else {
    prog = (p.fam == 0 ? P_COMPRESS : P_PREPROCESS) + side; a = cmdLine(p, side, io, sin, sout);
  }
  if (rawArgs) a = *rawArgs;
  Got g; g.r = exec(prog, a, si, so, io, budget);
  ST->inK[io.ink]++; ST->outK[io.outk]++;
  int oi = -1; for (int i = 0; i < MAXF; ++i) if (S->node[i].kind && !strcmp(S->node[i].name, "out")) oi = i;
  if (sout) oi = 1;
  g.prefixOk = true; g.targetTouched = false;
  if (oi >= 0) { g.out = fsGet(oi); g.targetTouched = S->node[oi].touched != 0;
    if (off) { Bytes j = junk(JUNKLEN, 4); g.prefixOk = g.out.size() >= off && !memcmp(g.out.data(), j.data(), off); g.out.erase(g.out.begin(), g.out.begin() + std::min<u64>(off, g.out.size())); } }
  g.inputOk = S->node[0].touched == 0;
  g.otherOk = S->node[2].touched == 0; for (int i = 3; i < MAXF; ++i) if (S->node[i].kind && i != oi) g.otherOk = false;
  return g;
}

// ------------------------------------------------- canonical undisturbed runs
struct Canon { bool ok = false; Bytes input, fwd; u64 fsteps = 0, bsteps = 0; Run fr, br; };
static std::pair<u64, Canon>* canonCache;   // last one
// Steps allowed when no fault is injected: generous (an undisturbed run needs a few hundred per
// byte, tens of millions per block with pair replacement), only there to tell an endless loop.
static u64 blocksOf(const Plan& p, u64 n) { u64 m1 = std::max<u64>(1, p.mem), bs = p.fam == 1 ? m1 * 1024 : (u64)((p.fam == 0 ? m1 * 1000000 : p.mem) * (p.prepr ? 0.74 : 0.185)); return n / (bs ? bs : 1) + 1; }
static u64 baseBudget(const Plan& p, u64 n) { return 300000000ull + n * 6000ull + blocksOf(p, n) * (p.prepr ? p.prepr * 200000000ull : 50000000ull); }
static u64 canonKey(const Plan& p) { Plan q; q.prop = p.prop == "C13" ? p.prop : string(); q.fam = p.fam; q.prepr = p.prepr; q.enc = p.enc; q.bwt = p.bwt; q.starts = p.starts; q.mem = p.mem; q.segs = p.segs; string t = planText(q); return hash_bytes((const u8*)t.data(), t.size()); }
static Canon& canon(const Plan& p) {
  u64 k = canonKey(p); if (canonCache->first == k) return canonCache->second;
  Canon c; c.input = makeInput(p); Io io; io.heap = p.prop == "C13"; u64 B = baseBudget(p, c.input.size());
  Got f = run1(p, 0, c.input, io, B); c.fr = f.r; c.fsteps = f.r.steps;
  if (f.r.ok()) { c.fwd = f.out; Got b = run1(p, 1, c.fwd, io, B); c.br = b.r; c.bsteps = b.r.steps; c.ok = b.r.ok() && b.out == c.input; }
  canonCache->first = k; canonCache->second = c; return canonCache->second;
}
static u64 budgetOf(u64 steps) { return steps * 20 + 50000000ull; }

struct Verdict { string cls, detail; bool bad() const { return !cls.empty(); } };
static Verdict V(const string& c, const string& d) { Verdict v; v.cls = c; v.detail = d; for (char& x : v.detail) if ((u8)x < 32) x = ' '; return v; }
static const Verdict GOOD;
static string diffText(const Bytes& got, const Bytes& want) {
  size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
  return fmt("got %zu bytes, expected %zu, first difference at %zu", got.size(), want.size(), i);
}
static const char* pname(const Plan& p, int side) { static const char* n[3][2] = {{"compress", "uncompress"}, {"preprocess", "postprocess"}, {"Compressor", "Decompressor"}}; return n[p.fam][side]; }
static bool faultFree(const Io& io) { return io.f.empty(); }

// ---- archive walker (the documented framing), used for C10, C12 and cut points
struct Walk { bool ok = true; string why; vector<u64> pbPos; vector<u64> slicePos; vector<u64> orig, slices; u64 sumOrig = 0; u64 end = 0; };
struct Rd { const Bytes& b; u64 p; bool bad = false; u64 byte() { if (p >= b.size()) { bad = true; return 0; } return b[p++]; }
  u64 packed() { u64 r = 0; int sh = 0; for (;;) { u64 c = byte(); if (bad) return 0; r |= (c & 0x7f) << sh; sh += 7; if (!(c & 0x80)) return r; if (sh > 56) { bad = true; return 0; } } }
  void skip(u64 n) { if (p + n > b.size()) { bad = true; p = b.size(); } else p += n; } };
static bool walkGrammar(Rd& r, u64* nrules) {
  u64 rules = r.packed(); *nrules = rules; if (r.bad || !rules) return !r.bad; if (rules > 100000) return false;
  u64 sp = r.byte(); r.skip(sp); u64 bits = (rules + 7) / 8; vector<bool> lg; for (u64 i = 0; i < bits; ++i) { u64 c = r.byte(); for (int k = 7; k >= 0; --k) lg.push_back((c >> k) & 1); }
  for (u64 i = 0; i < rules; ++i) r.skip(lg[i] ? 2 : 1);
  u64 fr = r.byte(); r.skip(fr); u64 rl = 0, left = rules; for (u64 i = 0; i < (rules + 3) / 4; ++i) { u64 c = r.byte(); for (int j = 0; j < 4 && left; ++j, --left) rl += 2 + ((c >> (6 - 2 * j)) & 3); }
  r.skip(rl); return !r.bad;
}
static Walk walkArchive(const Bytes& b) {
  Walk w; Rd r{b, 0}; r.byte();
  auto bad = [&](const string& s) { w.ok = false; w.why = s; };
  for (;;) {
    u64 at = r.p; u64 orig = r.packed(); if (r.bad) { bad("no end marker"); return w; }
    if (!orig) { w.end = at; if (r.p != b.size()) bad(fmt("%llu bytes after the end marker", (unsigned long long)(b.size() - r.p))); return w; }
    w.pbPos.push_back(at); w.orig.push_back(orig); w.sumOrig += orig;
    u64 sl = r.packed(); w.slices.push_back(sl); u64 rules = 0; if (r.bad || !walkGrammar(r, &rules)) { bad("block header cut or malformed"); return w; }
    if (sl == 0) { bad("a block with no transformed block"); return w; }
    u64 sum = 0;
    for (u64 s = 0; s < sl; ++s) {
      w.slicePos.push_back(r.p); u64 len = 0; for (int i = 0; i < 6; ++i) len = len << 8 | r.byte(); u64 body = r.p;
      if (r.bad || body + len > b.size()) { bad(fmt("length %llu of a transformed block points past the end", (unsigned long long)len)); return w; }
      u64 lf = r.byte() + 1; r.skip((lf * 31 + 7) / 8); u64 sec = r.byte(); if (!sec) sec = 256; for (u64 i = 0; i < sec; ++i) sum += r.packed();
      if (r.bad || r.p > body + len) { bad("transformed block header longer than its length"); return w; }
      r.p = body + len;
    }
    if (rules == 0 && sum != orig) { bad(fmt("declared original size %llu but the transformed blocks hold %llu", (unsigned long long)orig, (unsigned long long)sum)); return w; }
  }
}

// ==================================================================== oracles
static Verdict judgeOutput(const Plan& p, int side, const Got& g, const Canon& c, const char* tag) {
  // exit 0 must mean: the target holds the complete, correct output
  if (!g.r.ok()) return GOOD;
  if (!g.prefixOk) return V(string(tag) + ":earlier-content-lost:" + pname(p, side), "bytes that were in the target before were changed");
  if (side == 1) { if (g.out == c.input) return GOOD; return V(string(tag) + ":false-success:" + pname(p, 1), "exit 0 but output wrong: " + diffText(g.out, c.input)); }
  if (g.out == c.fwd) return GOOD;
  Io io; Got b = run1(p, 1, g.out, io, budgetOf(c.bsteps));
  if (b.r.ok() && b.out == c.input) { probe("different-but-decodable"); return GOOD; }
  return V(string(tag) + ":false-success:" + pname(p, 0), "exit 0 but the target does not decode to the input: " + diffText(g.out, c.fwd) + "; decoder: " + endName(b.r));
}

static Verdict roundTrip(const Plan& p) {
  Bytes in = makeInput(p); u64 B = baseBudget(p, in.size());
  Got f = run1(p, 0, in, p.a, B); string n0 = pname(p, 0), n1 = pname(p, 1);
  if (f.r.end == END_HANG) return V("hang:" + n0, fmt("no end within %llu steps", (unsigned long long)B));
  if (!f.r.ok()) return V("fails:" + n0, string("no fault injected, ended with ") + endName(f.r) + " " + f.r.err.substr(0, 160));
  if (!f.prefixOk) return V("earlier-content-lost:" + n0, "bytes that were in the target before were changed");
  Plan q = p; if (p.x[7] && p.fam != 1 && p.b.ink != 5) { q.fam = 2 - p.fam; n1 = pname(q, 1); }     // decoded by the other front end
  Got b = run1(q, 1, f.out, p.b, B);
  if (b.r.end == END_HANG) return V("hang:" + n1, fmt("no end within %llu steps", (unsigned long long)B));
  if (!b.r.ok()) return V("fails:" + n1, string("no fault injected, ended with ") + endName(b.r) + " " + b.r.err.substr(0, 160));
  if (!b.prefixOk) return V("earlier-content-lost:" + n1, "bytes that were in the target before were changed");
  if (b.out != in) return V("mismatch:" + n0, "restored data differ: " + diffText(b.out, in));
  return GOOD;
}

static Verdict faulted(const Plan& p, const char* tag) {   // C03, C04, C08, C15
  Canon& c = canon(p); if (!c.ok) { ST->skipped++; return GOOD; }
  const Bytes* in = p.side ? &c.fwd : &c.input; const Io& io = p.side ? p.b : p.a; Bytes cut;
  if (p.prop == "C15" && p.side && p.x[0] > 0 && (u64)p.x[0] <= in->size()) { cut.assign(in->begin(), in->begin() + (p.x[0] - 1)); in = &cut; }   // the input ends early
  Got g = run1(p, p.side, *in, io, budgetOf(p.side ? c.bsteps : c.fsteps));
  if (g.r.nfired || in == &cut) ST->nontrivial++;
  if (p.prop == "C15") { if (g.r.end == END_HANG) return V(string("C15:endless:") + pname(p, p.side), fmt("still running after %llu steps (undisturbed: %llu), %llu storage operations since the fault", (unsigned long long)g.r.steps, (unsigned long long)(p.side ? c.bsteps : c.fsteps), (unsigned long long)g.r.opsAfter)); return GOOD; }
  return judgeOutput(p, p.side, g, c, tag);
}

static Verdict truncated(const Plan& p) {                  // C05
  Canon& c = canon(p); if (!c.ok) { ST->skipped++; return GOOD; }
  u64 cut = p.x[0]; if (cut >= c.fwd.size()) cut = c.fwd.size() - 1;
  Bytes pre(c.fwd.begin(), c.fwd.begin() + cut); ST->nontrivial++;
  Got g = run1(p, 1, pre, p.b, budgetOf(c.bsteps)); string n = pname(p, 1);
  if (g.r.end == END_HANG) return V("C05:hang:" + n, fmt("prefix of %llu of %zu bytes: still running after %llu steps (whole file: %llu)", (unsigned long long)cut, c.fwd.size(), (unsigned long long)g.r.steps, (unsigned long long)c.bsteps));
  if (g.r.ok()) return V("C05:accepted:" + n, fmt("prefix of %llu of %zu bytes accepted with status 0, output %zu of %zu bytes", (unsigned long long)cut, c.fwd.size(), g.out.size(), c.input.size()));
  if (g.r.end == END_SIGNAL) return V("C05:crash:" + n, fmt("prefix of %llu of %zu bytes: ended by signal %d", (unsigned long long)cut, c.fwd.size(), g.r.sig));
  if (g.out.size() > c.input.size() || memcmp(g.out.data(), c.input.data(), g.out.size())) return V("C05:garbage:" + n, fmt("prefix of %llu of %zu bytes: output is not a prefix of the original; ", (unsigned long long)cut, c.fwd.size()) + diffText(g.out, c.input));
  return GOOD;
}

// C06: x1 further disturbed runs before the one of the plan (derived from x2), x3: the target held a
// complete file made from other data before the first run.
static Verdict crashed(const Plan& p) {
  Canon& c = canon(p); if (!c.ok) { ST->skipped++; return GOOD; }
  const Bytes& in = p.side ? c.fwd : c.input; const Io& io = p.side ? p.b : p.a; u64 B = budgetOf(p.side ? c.bsteps : c.fsteps), fresh0 = 0; string n = pname(p, p.side); (void)fresh0;
  Io fresh; Bytes left, old; bool have = false, touched = false;
  if (p.x[3] && io.outk <= 1) {
    if (p.side == 0) { Bytes o(c.input.rbegin(), c.input.rend()); u64 k = o.size(); for (u64 i = 0; i < k && p.x[3] > 1; ++i) o.push_back(o[i]); o.push_back('o'); Got g = run1(p, 0, o, fresh, baseBudget(p, o.size())); if (!g.r.ok()) { ST->skipped++; return GOOD; } old = g.out; }
    else { old = Bytes(c.input.rbegin(), c.input.rend()); old.insert(old.end(), c.input.begin(), c.input.end()); old.push_back('o'); }
    left = old; have = true;
  }
  Got g; int runs = 1 + (io.outk <= 1 ? (int)std::max<i64>(0, std::min<i64>(3, p.x[1])) : 0);
  for (int i = 0; i < runs; ++i) {
    Io q = io;
    if (i + 1 < runs) { Rng r(hmix(p.x[2], i)); q.f.clear(); Fault f = {C_KILL, (i64)r.below(40), 0, 1, r.chance(50) ? 0 : (i64)r.below(2000)}; if (r.chance(40)) { f.cls = r.pick<int>({C_WRITE, C_WRITE, C_READ}); f.nth = r.below(20); f.err = EIO; f.count = -1; f.arg = r.below(300); } q.f.push_back(f); }
    if (have) q.outk = 1;
    g = run1(p, p.side, in, q, B, have ? &left : 0);
    if (g.r.end == END_HANG) return GOOD;
    if (g.r.nfired && i + 1 == runs) ST->nontrivial++;
    left = g.out; if (io.outk <= 1) have = true; touched = touched || g.targetTouched;
    if (p.side == 0 && g.prefixOk && (touched || !p.x[3])) {
      Got d = run1(p, 1, left, fresh, budgetOf(c.bsteps));
      if (d.r.end == END_HANG) return V("C06:leftover-hangs-decoder:" + n, fmt("%zu bytes left behind (%s)", left.size(), endName(g.r)));
      if (d.r.ok() && d.out != c.input) return V("C06:leftover-accepted:" + n, fmt("%zu bytes (complete: %zu) left behind (%s) decode with status 0 to something else: ", left.size(), c.fwd.size(), endName(g.r)) + diffText(d.out, c.input));
      if (!d.r.ok()) probe("leftover-rejected"); else probe("leftover-complete");
    }
  }
  if (io.outk <= 1) {
    Io again = io; again.f.clear(); again.outk = 1;
    Got r = run1(p, p.side, in, again, B, &left);
    const Bytes& want = p.side ? c.input : c.fwd;
    if (!r.r.ok()) return V("C06:rerun-fails:" + n, string("after a disturbed run the same command ended with ") + endName(r.r));
    if (r.out != want) return V("C06:rerun-differs:" + n, "re-run over the leftovers: " + diffText(r.out, want));
  }
  return GOOD;
}

static Verdict sameBytes(const Plan& p) {                  // C07
  Canon& c = canon(p); if (!c.ok) { ST->skipped++; return GOOD; }
  ST->nontrivial++;
  if (p.fam == 2 && p.x[0] > 0) {   // earlier uses in the same process
    fsClear(); fsPut(0, "in", NK_REG, 1, c.input); fsPut(2, "keep", NK_REG, 0, junk(99, 5));
    Bytes other; Seg g{SG_WORDS, (u64)p.x[1], (u64)p.x[0], 40, 0}; genSeg(g, other); fsPut(3, "in2", NK_REG, 1, other);
    vector<string> a; const char* encs = "HmMubB";
    for (int i = 0; i < p.x[2]; ++i) { a.insert(a.end(), {"C", "in2", "o2", string(p.x[3], 'p'), fmt("%llu", (unsigned long long)std::max<i64>(100, p.x[4])), string(1, encs[(p.x[5] + i) % 6]), "a", "8"}); if (i & 1) a.insert(a.end(), {"D", "o2", "o3"}); }
    a.insert(a.end(), {"C", "in", "out", string(p.prepr, 'p'), fmt("%llu", (unsigned long long)p.mem), string(1, p.enc), string(1, p.bwt), fmt("%d", p.starts), "D", "out", "back"});
    Run r = exec(P_LIB, a, StdFd{-1, 0, 0, 0}, StdFd{-1, 0, 0, 0}, p.a, baseBudget(p, c.input.size()) + 8 * baseBudget(p, other.size()) + 2000000000ull * (1 + p.x[3]));
    if (!r.ok()) { if (r.nfired) return GOOD; return V("C07:history-fails:Compressor", string("ended with ") + endName(r)); }
    int o = -1, bk = -1; for (int i = 0; i < MAXF; ++i) { if (!strcmp(S->node[i].name, "out")) o = i; if (!strcmp(S->node[i].name, "back")) bk = i; }
    if (o < 0 || fsGet(o) != c.fwd) return V("C07:history-differs:Compressor", "after earlier uses in the same process: " + (o < 0 ? string("no output") : diffText(fsGet(o), c.fwd)));
    if (bk < 0 || fsGet(bk) != c.input) return V("C07:history-differs:Decompressor", "after earlier uses in the same process the output differs");
    return GOOD;
  }
  for (int side = 0; side < 2; ++side) {
    const Io& io = side ? p.b : p.a; const Bytes& in = side ? c.fwd : c.input; const Bytes& want = side ? c.input : c.fwd;
    Got g = run1(p, side, in, io, budgetOf(side ? c.bsteps : c.fsteps));
    if (!g.r.ok()) return V(string("C07:fails:") + pname(p, side), string("same input and options, other delivery: ended with ") + endName(g.r) + " " + g.r.err.substr(0, 100));
    if (g.out != want) return V(string("C07:differs:") + pname(p, side), "same input and options, other delivery or memory content: " + diffText(g.out, want));
  }
  return GOOD;
}

static Verdict streams(const Plan& p) {                    // C09
  fsClear(); ST->nontrivial++;
  const Io& io = p.a; int n = p.ops.size(); Bytes script((const u8*)p.ops.data(), (const u8*)p.ops.data() + n * sizeof(SOp));
  StdFd si = {-1, 0, 0, 0}, so = {-1, 0, 0, 0}; u64 B = 2000000000ull;
  if (p.side == 0) {
    u64 off = 0; bool named = io.outk <= 1;
    if (io.outk == 1) fsPut(1, "out", NK_REG, 2, junk(5000, 3)); else if (io.outk == 2) { fsPut(1, "out", NK_REG, 2, Bytes()); so = StdFd{1, NK_REG, 0, 0}; }
    else if (io.outk == 5) { fsPut(1, "out", NK_REG, 2, junk(JUNKLEN, 4)); off = JUNKLEN; so = StdFd{1, NK_REG, off, 0}; }
    else fsPut(1, "out", NK_REG, 2, Bytes());
    fsPut(10, "script", NK_REG, 0, script);
    Run r = exec(P_STREAM, {"W", named ? "out" : "", "1", "10", fmt("%d", n)}, si, so, io, B);
    if (!r.ok()) return V("C09:writer-fails", string("ended with ") + endName(r));
    Bytes m; if (off) m = junk(off, 4); vector<u64> pos, notes;
    for (auto& o : p.ops) switch (o.k) {
      case 0: m.push_back((u8)o.a); break;
      case 1: for (u32 j = 0; j < o.a; ++j) m.push_back((u8)mix64(o.b + j)); break;
      case 2: pos.push_back(m.size()); notes.push_back(m.size()); break;
      case 3: if (o.a < pos.size()) for (int j = 0; j < 6; ++j) if (pos[o.a] + j < m.size()) m[pos[o.a] + j] = (u8)(o.b >> (8 * (5 - j))); break;
      case 4: notes.push_back(m.size()); notes.push_back(hash_bytes(m.data(), m.size())); break;
    }
    size_t i = 0; for (; i < notes.size() && i < r.notes.size(); ++i) if (notes[i] != r.notes[i]) break;
    if (notes != r.notes) return V("C09:writer-reports", fmt("reported value %zu is %llu, expected %llu", i, i < r.notes.size() ? (unsigned long long)r.notes[i] : 0ull, i < notes.size() ? (unsigned long long)notes[i] : 0ull));
    Bytes got = fsGet(1); if (got != m) return V("C09:writer-bytes", diffText(got, m));
    return GOOD;
  }
  Bytes in = makeInput(p); u64 off = 0; bool named = io.ink == 0 || io.ink == 3; Bytes file = in;
  if (io.ink == 4) { file = junk(333, 9); off = 333; file.insert(file.end(), in.begin(), in.end()); }
  fsPut(0, "in", io.ink == 2 || io.ink == 3 ? NK_FIFO : NK_REG, 1, file); fsPut(10, "script", NK_REG, 0, script);
  if (!named) si = StdFd{0, S->node[0].kind, off, 0};
  Run r = exec(P_STREAM, {"R", named ? "in" : "", "0", "10", fmt("%d", n)}, si, so, io, B);
  if (!r.ok()) return V("C09:reader-fails", string("ended with ") + endName(r) + " " + r.err.substr(0, 100));
  // model: a bit position in the file; notes with ~0 are "either answer"
  u64 bp = 0; vector<u64> notes; const u64 ANY = ~0ull; vector<u64> lim;
  auto bit = [&](u64 q) { return (u64)(in[q >> 3] >> (7 - (q & 7)) & 1); };
  for (auto& o : p.ops) switch (o.k) {
    case 0: { u64 v = 0; for (int j = 0; j < 8; ++j) v = v << 1 | bit(bp++); notes.push_back(v); break; }
    case 1: { u64 at = bp >> 3, k = std::min<u64>(o.a, in.size() - at); Bytes e(o.a + 1, 0x5A); if (k) memcpy(e.data(), in.data() + at, k); bp += 8 * k; notes.push_back(k); notes.push_back(hash_bytes(e.data(), e.size())); break; }
    case 2: notes.push_back(bit(bp++)); break;
    case 3: { u64 v = 0; for (int j = 0; j < 48; ++j) v = v << 1 | bit(bp++); notes.push_back(v); break; }
    case 4: bp = (bp + 7) & ~7ull; break;
    case 5: { u64 left = in.size() - ((bp + 7) >> 3); notes.push_back(left == 0 ? 1 : left == 1 ? ANY : 0); break; }
  }
  if (notes.size() != r.notes.size()) return V("C09:reader-reports", "number of answers");
  for (size_t i = 0; i < notes.size(); ++i) if (notes[i] != ANY && notes[i] != r.notes[i]) return V("C09:reader-values", fmt("answer %zu is %llu, expected %llu", i, (unsigned long long)r.notes[i], (unsigned long long)notes[i]));
  return GOOD;
}

// numbers in a report; the one behind `key` first
static vector<u64> reported(const string& e, const char* key) {
  vector<u64> o; auto scan = [&](size_t i, size_t end, bool one) { while (i < end) { if (isdigit((u8)e[i])) { size_t j = i; while (j < end && isdigit((u8)e[j])) ++j; o.push_back(strtoull(e.substr(i, j - i).c_str(), 0, 10)); i = j; if (one) return; } else ++i; } };
  size_t k = e.rfind(key); if (k != string::npos) scan(k, e.size(), true); if (o.empty()) scan(0, e.size(), false); return o;
}
static bool holds(const vector<u64>& v, u64 x) { return std::find(v.begin(), v.end(), x) != v.end(); }
static Verdict framingPre(const Plan& p) {
  Bytes in = makeInput(p); u64 B = baseBudget(p, in.size()); Io io = p.a, jo = p.b; io.verb = jo.verb = 1;
  Got f = run1(p, 0, in, io, B); if (!f.r.ok()) { ST->skipped++; return GOOD; }
  ST->nontrivial++; Rd r{f.out, 0}; u64 blocks = 0, rules = 0, raw = 0; bool plain = true;
  for (;;) {
    u64 len = r.packed(); if (r.bad) return V("C10:framing:preprocess", "no end marker"); if (!len) break;
    ++blocks; if (!walkGrammar(r, &rules)) return V("C10:framing:preprocess", "block header cut or malformed"); if (rules) plain = false; r.skip(len); raw += len; if (r.bad) return V("C10:framing:preprocess", "a block is longer than the file");
  }
  if (r.p != f.out.size()) return V("C10:framing:preprocess", fmt("%llu bytes after the end marker", (unsigned long long)(f.out.size() - r.p)));
  if (plain && raw != in.size()) return V("C10:sizes:preprocess", fmt("declared sizes add up to %llu, input has %zu", (unsigned long long)raw, in.size()));
  if (!holds(reported(f.r.err, "Read"), blocks)) return V("C10:reported-blocks:preprocess", fmt("wrote %llu blocks: ", (unsigned long long)blocks) + f.r.err.substr(0, 120));
  if (!holds(reported(f.r.err, "otal size"), in.size())) return V("C10:reported-size:preprocess", fmt("input has %zu bytes: ", in.size()) + f.r.err.substr(0, 120));
  Got g = run1(p, 1, f.out, jo, B); if (!g.r.ok()) return GOOD;
  if (!holds(reported(g.r.err, "Read"), blocks)) return V("C10:reported-blocks:postprocess", fmt("read %llu blocks: ", (unsigned long long)blocks) + g.r.err.substr(0, 120));
  return GOOD;
}
static Verdict framing(const Plan& p) {                    // C10
  if (p.fam == 1) return framingPre(p);
  Bytes in = makeInput(p); u64 B = baseBudget(p, in.size()); Io io = p.a; if (p.fam == 0) io.verb = 1;
  Got f = run1(p, 0, in, io, B); if (!f.r.ok() || f.out.empty()) { if (f.r.ok()) return V("C10:empty:" + string(pname(p, 0)), "completed with an empty archive"); ST->skipped++; return GOOD; }
  ST->nontrivial++; string n = pname(p, 0);
  Walk w = walkArchive(f.out);
  if (!w.ok) return V("C10:framing:" + n, w.why);
  if (w.sumOrig != in.size()) return V("C10:sizes:" + n, fmt("declared sizes add up to %llu, input has %zu", (unsigned long long)w.sumOrig, in.size()));
  if (p.fam == 2) { if (f.r.notes.empty()) return GOOD; if (f.r.notes[0] != f.out.size()) return V("C10:reported-size:" + n, fmt("reported %llu, wrote %zu bytes", (unsigned long long)f.r.notes[0], f.out.size())); }
  else { vector<u64> e = reported(f.r.err, "ompressed size"); if (e.empty()) return V("C10:report-missing:" + n, "no size reported"); if (!holds(e, f.out.size())) return V("C10:reported-size:" + n, fmt("reported %llu, wrote %zu bytes", (unsigned long long)e[0], f.out.size())); }
  if (p.fam == 2) { Got b = run1(p, 1, f.out, p.b, B); if (b.r.ok() && !b.r.notes.empty() && b.r.notes[0] != b.out.size()) return V("C10:returned-size:Decompressor", fmt("returned %llu, restored %zu bytes", (unsigned long long)b.r.notes[0], b.out.size())); }
  return GOOD;
}

static Verdict onlyTarget(const Plan& p) {                 // C11
  Canon& c = canon(p); if (!c.ok) { ST->skipped++; return GOOD; }
  const Bytes& in = p.side ? c.fwd : c.input; const Io& io = p.side ? p.b : p.a; string n = pname(p, p.side);
  u64 B = budgetOf(p.side ? c.bsteps : c.fsteps); ST->nontrivial++;
  if (p.x[0] == 0) {          // any run, with or without faults
    Got g = run1(p, p.side, in, io, B);
    if (!g.inputOk) return V("C11:input-modified:" + n, endName(g.r));
    if (!g.otherOk) return V("C11:other-file-modified:" + n, endName(g.r));
    return GOOD;
  }
  Bytes old = junk(1234, 8); Io q = io; q.outk = 1; vector<string> args = p.extra; vector<string>* ra = args.empty() ? 0 : &args;
  Plan pp = p; if (p.x[0] == 2) { q.f.clear(); Fault f = {C_OPEN_IN, 0, (int)p.x[1], -1, 0}; q.f.push_back(f); q.ink = 0; }
  Got g = run1(pp, p.side, in, q, B, &old, ra);
  if (g.r.end == END_EXIT && g.r.code == 0) return V("C11:success-without-start:" + n, p.x[0] == 2 ? "input cannot be opened, status 0" : "invalid options, status 0");
  if (g.r.end != END_EXIT) return V("C11:crash-at-start:" + n, endName(g.r));
  if (g.targetTouched || g.out != old) return V("C11:target-damaged:" + n, p.x[0] == 2 ? "input cannot be opened, target changed" : "invalid options, target changed");
  if (!g.inputOk || !g.otherOk) return V("C11:other-file-modified:" + n, endName(g.r));
  return GOOD;
}

static Verdict independent(const Plan& p);               // C12, below

static Verdict memorySafe(const Plan& p) {                 // C13
  Canon& c = canon(p); string n = pname(p, p.side); static const char* hv[] = {"", "heap structure overwritten", "write outside an allocated block", "freed block overwritten", "write to freed memory", "invalid free", "double free"};
  auto chk = [&](const Run& r, bool faults, const char* nm) -> Verdict {
    if (r.heapViol) return V(fmt("C13:heap%d:%s", r.heapViol, nm), fmt("%s (block of %llu bytes, allocation %llu)", hv[r.heapViol], (unsigned long long)r.hinfo[0], (unsigned long long)r.hinfo[1]));
    if (r.end == END_SIGNAL && !faults) return V(fmt("C13:signal%d:%s", r.sig, nm), string("no fault injected: ") + endName(r) + " " + r.err.substr(0, 200));
    if (r.end == END_SIGNAL && r.wildWrite) return V(fmt("C13:wild-write:%s", nm), fmt("signal %d writing at %llx", r.sig, (unsigned long long)r.faultaddr));
    if (r.end == END_SIGNAL && r.sig != SIGABRT) return V(fmt("C13:crash:%s", nm), fmt("signal %d, accessing %llx, after a fault", r.sig, (unsigned long long)r.faultaddr));
    if (r.end == END_SIGNAL && r.sig == SIGABRT && r.err.find("Assertion") != string::npos) probe("assertion-under-fault");
    return GOOD; };
  Verdict v = chk(c.fr, false, pname(p, 0)); if (v.bad()) return v;
  if (c.fr.ok()) { v = chk(c.br, false, pname(p, 1)); if (v.bad()) return v; }
  if (!c.fr.ok()) { ST->skipped++; return GOOD; }
  const Io& io = p.side ? p.b : p.a; ST->nontrivial++;
  Got g = run1(p, p.side, p.side ? c.fwd : c.input, io, budgetOf(p.side ? c.bsteps : c.fsteps));
  return chk(g.r, !io.f.empty(), pname(p, p.side));
}

static Verdict memoryBound(const Plan& p) {                // C14
  // x0: blocks in the short input, x1: blocks in the long one, same block repeated
  Bytes blk = makeInput(p), a, b; for (i64 i = 0; i < p.x[0]; ++i) a.insert(a.end(), blk.begin(), blk.end()); for (i64 i = 0; i < p.x[1]; ++i) b.insert(b.end(), blk.begin(), blk.end());
  Io io; u64 B = baseBudget(p, b.size()), lim = p.fam == 0 ? p.mem * 1000000 : p.fam == 1 ? p.mem * 1024 : p.mem, FIX = 4u << 20;
  Got s = run1(p, 0, a, io, B), l = run1(p, 0, b, io, B); if (!s.r.ok() || !l.r.ok()) { ST->skipped++; return GOOD; }
  ST->nontrivial++; u64 slack = s.r.peak / 50 + 20000, tight = 1024 + 4 * (p.x[1] - p.x[0]);
  if (l.r.peak > s.r.peak + tight) return V(string("C14:grows:") + pname(p, 0), fmt("peak heap %llu for %zu bytes, %llu for %zu", (unsigned long long)s.r.peak, a.size(), (unsigned long long)l.r.peak, b.size()));
  u64 top = (p.fam == 1 ? 2 * lim : lim + lim / 2) + FIX; if (s.r.peak > top) return V(string("C14:limit:") + pname(p, 0), fmt("peak heap %llu with a limit of %llu", (unsigned long long)s.r.peak, (unsigned long long)lim));
  Got d = run1(p, 0, b, p.a, B); u64 per = l.out.size() / p.x[1] + 1;
  if (d.r.ok() && d.r.peak > s.r.peak + slack + 3 * per) return V(string("C14:delivery:") + pname(p, 0), fmt("peak heap %llu through files, %llu through the given delivery of the long input", (unsigned long long)s.r.peak, (unsigned long long)d.r.peak));
  Got us = run1(p, 1, s.out, io, B), uf = run1(p, 1, l.out, io, B), ul = run1(p, 1, l.out, p.b, B); if (!us.r.ok() || !ul.r.ok() || !uf.r.ok()) { ST->skipped++; return GOOD; }
  if (uf.r.peak > us.r.peak + tight) return V(string("C14:grows:") + pname(p, 1), fmt("peak heap %llu for %zu bytes, %llu for %zu", (unsigned long long)us.r.peak, a.size(), (unsigned long long)uf.r.peak, b.size()));
  if (ul.r.peak > us.r.peak + us.r.peak / 50 + 20000) return V(string("C14:delivery:") + pname(p, 1), fmt("peak heap %llu for %zu bytes, %llu for %zu in another delivery", (unsigned long long)us.r.peak, a.size(), (unsigned long long)ul.r.peak, b.size()));
  if (us.r.peak > 2 * lim + FIX) return V(string("C14:limit:") + pname(p, 1), fmt("peak heap %llu, limit when the file was written %llu", (unsigned long long)us.r.peak, (unsigned long long)lim));
  return GOOD;
}

static Verdict runPlan(const Plan& p) {
  ST->plans++;
  if (p.prop == "C01" || p.prop == "C02") { ST->nontrivial++; return roundTrip(p); }
  if (p.prop == "C03") return faulted(p, "C03");
  if (p.prop == "C04") return faulted(p, "C04");
  if (p.prop == "C05") return truncated(p);
  if (p.prop == "C06") return crashed(p);
  if (p.prop == "C07") return sameBytes(p);
  if (p.prop == "C08") return faulted(p, "C08");
  if (p.prop == "C09") return streams(p);
  if (p.prop == "C10") return framing(p);
  if (p.prop == "C11") return onlyTarget(p);
  if (p.prop == "C12") return independent(p);
  if (p.prop == "C13") return memorySafe(p);
  if (p.prop == "C14") return memoryBound(p);
  if (p.prop == "C15") return faulted(p, "C15");
  out("unknown property\n"); _exit(3);
}

#include "gen.inc"

// C12: several library operations in one process, interleaved between any two
// basic blocks; each must give what it gives alone.
static Verdict independent(const Plan& p) {
  int n = std::max<i64>(2, std::min<i64>(3, p.x[0])); vector<Plan> sub; for (int i = 0; i < n; ++i) sub.push_back(subPlan(p, i));
  vector<Bytes> in(n), fwd(n); vector<u64> want; Io io; u64 Btot = 0, total = 0, allocs = 0; const u64 FAILED = ~(u64)0; bool noMem = (p.x[5] >> 6) & 1;
  auto fails = [&](int i) { return (p.x[5] >> (3 + i)) & 1; };   // operation i comes after one that failed
  for (int i = 0; i < n; ++i) { in[i] = makeInput(sub[i]); u64 B = baseBudget(sub[i], in[i].size()); Got f = run1(sub[i], 0, in[i], io, B); if (!f.r.ok()) { ST->skipped++; return GOOD; } fwd[i] = f.out; Got b = run1(sub[i], 1, fwd[i], io, B); if (!b.r.ok() || b.out != in[i]) { ST->skipped++; return GOOD; } Btot += 3 * B; allocs += f.r.allocs + b.r.allocs; if (fails(i)) want.push_back(FAILED); { int k = (p.x[4] >> (2 * i)) & 3; total += (k != 1 ? f.r.steps : 0) + (k != 0 ? b.r.steps : 0); }
    int k = (p.x[4] >> (2 * i)) & 3; if (k == 0 || k == 2) want.push_back(f.r.notes.empty() ? 0 : f.r.notes[0]); if (k != 0) want.push_back(b.r.notes.empty() ? 0 : b.r.notes[0]); if (k == 3) want.push_back(f.r.notes.empty() ? 0 : f.r.notes[0]); }
  ST->nontrivial++; fsClear(); vector<string> a;
  for (int i = 0; i < n; ++i) {
    const Plan& q = sub[i]; int k = (p.x[4] >> (2 * i)) & 3; fsPut(i * 4, fmt("i%d", i).c_str(), NK_REG, 1, in[i]); fsPut(i * 4 + 1, fmt("a%d", i).c_str(), NK_REG, 1, fwd[i]); fsPut(i * 4 + 2, fmt("o%d", i).c_str(), NK_REG, 2, Bytes()); fsPut(i * 4 + 3, fmt("b%d", i).c_str(), NK_REG, 2, Bytes());
    if (i) a.push_back("|");
    bool own = (p.x[5] >> i) & 1; auto nm = [&](char c) { return own ? fmt("%d", i * 4 + (c == 'i' ? 0 : c == 'a' ? 1 : c == 'o' ? 2 : 3)) : fmt("%c%d", c, i); };
    vector<string> C = {own ? "c" : "C", nm('i'), nm('o'), string(q.prepr, 'p'), fmt("%llu", (unsigned long long)q.mem), string(1, q.enc), string(1, q.bwt), fmt("%d", q.starts)}, D = {own ? "d" : "D", k == 2 ? nm('o') : nm('a'), nm('b')};
    if (fails(i)) { Rng r(hmix((u64)p.x[6] + 77, i)); bool dec = k == 1 || (k && r.chance(50)), src = r.chance(60); u64 li = (dec ? fwd[i] : in[i]).size(), lo = (dec ? in[i] : fwd[i]).size(); if (src && !li) src = false; if (!src && !lo) src = true;
      string fi = fmt("%d", i * 4 + dec), fo = fmt("%d", i * 4 + 2 + dec); (src ? fi : fo) += fmt("@%llu", (unsigned long long)r.below(src ? li : lo)); vector<string>& o = dec ? D : C; vector<string> w = o; w[0] = dec ? "d" : "c"; w[1] = fi; w[2] = fo; a.insert(a.end(), w.begin(), w.end()); }
    if (k == 0 || k == 2) a.insert(a.end(), C.begin(), C.end()); if (k != 0) a.insert(a.end(), D.begin(), D.end()); if (k == 3) a.insert(a.end(), C.begin(), C.end());
  }
  g_coSeed = p.x[2]; g_coMean = p.x[1] < 0 ? 1 + total / (u64)(-p.x[1]) : p.x[1]; g_coMax = p.x[3]; if (p.x[1] == 0) { g_coNovel = std::max<i64>(1, p.x[3]); g_coMax = -1; }
  Io cio = p.a; if (noMem) cio.f.push_back(Fault{C_ALLOC, (i64)(hmix((u64)p.x[6] + 78, 0) % (allocs + 1)), ENOMEM, 1, 0});
  Run r = exec(P_CONC, a, StdFd{-1, 0, 0, 0}, StdFd{-1, 0, 0, 0}, cio, Btot * 2);
  g_coSeed = g_coMean = 0; g_coMax = 0; g_coNovel = 0;
  if (!r.ok() && noMem && r.nfired) return GOOD;   // the one that ran out of memory may end the process
  if (!r.ok()) return V("C12:fails", fmt("%d operations interleaved: ended with %s %s", n, endName(r), r.err.substr(0, 120).c_str()));
  size_t at = 0; if (r.notes.size() != want.size()) return V("C12:returned-size", "an operation returned nothing");
  bool oneFailed = false; for (size_t i = 0; i < want.size(); ++i) if (want[i] == FAILED) probe("after-a-failed-operation");
  for (int i = 0; i < n; ++i) { int k = (p.x[4] >> (2 * i)) & 3; Bytes o = fsGet(i * 4 + 2), b = fsGet(i * 4 + 3);
    size_t m = fails(i) + (k == 0 || k == 1 ? 1 : 2); bool bad = false; for (size_t j = fails(i); j < m; ++j) if (noMem && r.nfired && r.notes[at + j] == FAILED && !oneFailed) bad = true;
    if (bad) { oneFailed = true; for (size_t j = 0; j < m; ++j) want[at + j] = r.notes[at + j]; probe("one-caller-out-of-memory"); at += m; continue; } at += m;
    if (k != 1 && o != fwd[i]) return V("C12:compressor-differs", fmt("operation %d of %d gives other bytes than alone: ", i, n) + diffText(o, fwd[i]));
    if (k != 0 && b != in[i]) return V("C12:decompressor-differs", fmt("operation %d of %d gives other bytes than alone: ", i, n) + diffText(b, in[i])); 
    if (fsGet(i * 4) != in[i] || fsGet(i * 4 + 1) != fwd[i]) return V("C12:input-modified", "an input file changed"); }
  if (r.notes != want) return V("C12:returned-size", "an operation returned another size than alone");
  return GOOD;
}
