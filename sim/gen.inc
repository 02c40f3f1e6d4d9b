// ---------------------------------------------------------------- generation
static u64 edgeLen(Rng& r, u64 maxLen) {
  static const u64 e[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 9998, 9999, 10000, 10001, 10002, 16383, 16384, 16385, 19999, 20000, 20001, 30000, 32767, 32768, 32769, 65535, 65536, 65537, 100000, 131071, 131072, 131073, 184999, 185000, 185001, 262143, 262144, 262145, 370000, 555001, 740000, 740001};
  int n = 0; while (n < (int)(sizeof e / sizeof *e) && e[n] <= maxLen) ++n;
  if (r.chance(45)) return e[r.below(n)];
  if (r.chance(50)) return r.below(std::min<u64>(maxLen, 400) + 1);
  u64 m = maxLen; for (int i = r.below(4); i > 0; --i) m = m / 3 + 1;
  return r.below(m + 1);
}
static Seg genSegR(Rng& r, u64 len) {
  Seg g; g.t = r.below(NSG); g.len = len; g.seed = r.next() >> 20; g.p1 = 0; g.p2 = 0;
  switch (g.t) {
    case SG_RAND: g.p1 = r.pick<i64>({1, 2, 2, 3, 4, 5, 16, 26, 64, 128, 255, 256, 256, 256}); break;
    case SG_RUN: g.p1 = r.pick<i64>({0, 1, 97, 127, 128, 254, 255}); break;
    case SG_PERIOD: g.p1 = r.pick<i64>({1, 2, 3, 4, 5, 7, 16, 100, 255, 256, 257, 1000}); g.p2 = r.pick<i64>({0, 1, 2, 3, 4}); break;
    case SG_WORDS: g.p1 = r.pick<i64>({1, 2, 5, 20, 100, 500}); break;
    case SG_FIB: case SG_TM: g.p1 = r.pick<i64>({0, 65, 97, 254, 255}); break;
    case SG_CYCLE: g.p1 = r.below(256); g.p2 = r.pick<i64>({1, 1, 3, 5, 127, 255}); break;
    case SG_SKEW: g.p1 = r.pick<i64>({2, 3, 8, 16, 30, 60, 256}); g.p2 = r.below(256); break;
    case SG_PAIRS: g.p1 = r.pick<i64>({1, 2, 3, 5, 10, 30, 100}); g.p2 = r.pick<i64>({0, 1, 10, 100, 300}); break;
    case SG_RUNS2: g.p1 = r.pick<i64>({2, 5, 8, 10, 13, 16, 18}); g.p2 = r.pick<i64>({1, 2, 3, 4, 10, 100}); break;
    case SG_LIT: g.p1 = r.next() >> 1; g.len = std::min<u64>(len, 16); break;
    case SG_SORTED: g.p1 = r.pick<i64>({1, 2, 3, 10, 39, 40, 100, 256, 1000}); g.p2 = r.below(256); break;
    case SG_COPY: g.p1 = 1 + r.below(r.pick<u64>({3, 20, 300, 5000})); break;
    case SG_BITS: g.p1 = r.pick<i64>({0, 1, 2, 5, 20, 50}); g.p2 = r.below(256); break;
    case SG_FIBCNT: g.p1 = r.below(256); g.p2 = r.below(2); break;
    case SG_NEST: g.p1 = r.pick<i64>({1, 2, 4, 8, 12, 20, 40}); g.p2 = r.below(4) + 8 * r.pick<i64>({0, 0, 5, 50, 200}); break;
    case SG_RANKED: g.p1 = r.pick<i64>({0, 0, 1, 5}); g.p2 = r.pick<i64>({0, 1, 4, 16, 32}); break;
    case SG_ZIG: g.p1 = r.pick<i64>({1, 2, 2, 3, 4, 16, 100}); g.p2 = r.pick<i64>({1, 2, 2, 3, 4, 16, 100}); break;
    case SG_REP: g.p1 = r.pick<i64>({0, 97, 250}); break;
    case SG_PAIRTREE: g.p1 = r.pick<i64>({2, 3, 5, 10, 30, 100, 200}); g.p2 = r.below(256); break;
  }
  return g;
}
static u64 planLen(const Plan& p) { u64 n = 0; for (auto& g : p.segs) n += g.len; return n; }
static void genSegs(Rng& r, Plan& p, u64 maxLen) {
  p.segs.clear(); int k = r.chance(45) ? 1 : 1 + r.below(5); u64 left = maxLen;
  for (int i = 0; i < k; ++i) { u64 l = edgeLen(r, left); p.segs.push_back(genSegR(r, l)); u64 n = planLen(p); left = n < maxLen ? maxLen - n : 0; if (!left) break; }
  if (r.chance(25)) { // make the total an edge value
    u64 n = planLen(p), want = edgeLen(r, maxLen);
    while (n > want) { Seg& g = p.segs.back(); u64 cut = std::min(g.len, n - want); g.len -= cut; n -= cut; if (!g.len && p.segs.size() > 1) p.segs.pop_back(); else if (!g.len) break; }
    if (n < want) { Seg g = genSegR(r, want - n); if (g.t == SG_LIT) { g.t = SG_RAND; g.p1 = 256; g.len = want - n; } p.segs.push_back(g); }
  }
  // rules upon rules need every byte value in use and many pairs that occur more than a thousand times
  if (p.prepr && maxLen >= 3000 && r.chance(p.prop == "C12" ? 60 : p.prop == "C02" ? 30 : p.prop == "C01" ? 15 : 3)) {
    p.segs.clear(); p.segs.push_back(Seg{SG_CYCLE, 256 * r.pick<u64>({0, 1, 3, 20, 60, 120}), 0, 0, 1}); if (r.chance(50)) { i64 q = r.pick<i64>({0, 1, 4, 16}); p.segs[0] = Seg{SG_RANKED, (u64)(256 + 2050 * q), r.next() >> 20, 0, q}; } int k = 1 + r.below(3); p.prepr = r.pick<int>({1, 2, 3, 3, 4, 5, 6}); if (p.prop == "C12") { k = 1; p.prepr = r.pick<int>({1, 2, 2}); p.segs[0] = Seg{SG_CYCLE, 256 * r.pick<u64>({0, 1, 3}), 0, 0, 1}; }
    for (int i = 0; i < k; ++i) { Seg g{SG_NEST, 1, r.next() >> 20, r.pick<i64>({2, 4, 8, 12, 20, 30}), (i64)r.below(4)}; g.p2 += 8 * r.pick<i64>({0, 0, 5, 50}); int d = 1 + (g.p2 & 7) % 4; if (p.prop == "C12") { g.p1 = 2 + r.below(6); g.p2 = r.below(2); d = 1 + g.p2; } g.len = std::min<u64>(160000, (u64)g.p1 * (1u << d) * (1100 + r.below(900))); p.segs.push_back(g); }
    if (r.chance(50)) std::swap(p.segs[0], p.segs.back()); return;
  }
  // p needs a pair to occur often: now and then make sure of it
  if (p.prepr && maxLen >= 3000 && r.chance(50)) { Seg g = genSegR(r, std::min<u64>(maxLen, 3000 + r.below(12000))); g.t = r.pick<int>({SG_PAIRS, SG_PAIRS, SG_PERIOD, SG_WORDS, SG_PAIRTREE, SG_PAIRTREE, SG_RUN, SG_CYCLE}); if (g.t == SG_PAIRS || g.t == SG_PAIRTREE) { g.p1 = r.pick<i64>({2, 3, 5, 10, 20}); g.p2 = r.pick<i64>({0, 1, 20, 100}); } if (g.t == SG_WORDS) g.p1 = 30; if (g.t == SG_PERIOD) g.p1 = 1 + r.below(9); p.segs.push_back(g);
    if (r.chance(40)) { Seg c = genSegR(r, 256 * (1 + r.below(3))); c.t = SG_CYCLE; c.p2 = 1; p.segs.insert(p.segs.begin() + r.below(p.segs.size() + 1), c); } }
}
// 'M' and pair replacement cost tens of millions of steps per block whatever its size: drawn less often.
static void genOpts(Rng& r, Plan& p) {
  p.enc = r.pick<char>({'H', 'H', 'H', 'H', 'm', 'm', 'm', 'u', 'u', 'u', 'b', 'b', 'b', 'B', 'B', 'B', 'B', 'B', 'B', 'M'}); p.bwt = r.pick<char>({'a', 'd', 's'});
  p.starts = r.chance(50) ? r.pick<int>({1, 2, 3, 4, 7, 8, 9, 16, 64, 128, 200, 255, 256}) : 1 + r.below(256);
  bool rt = p.prop == "C01" || p.prop == "C02";
  p.prepr = !r.chance(rt ? 40 : 18) ? 0 : r.pick<int>({1, 1, 1, 1, 1, 2, 2, 3, 3, 5});
}
static void genMem(Rng& r, Plan& p) {
  u64 n = planLen(p);
  if (p.fam == 0) p.mem = r.pick<u64>({1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 3, 3, 100, 100, 0, 2000});
  else if (p.fam == 1) p.mem = r.pick<u64>({1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 4, 4, 5, 5, 8, 8, 10, 10, 64, 64, 100, 100, 100000, 100000, 0, 1000000});
  else {
    u64 blocks = r.pick<u64>({1, 1, 1, 2, 2, 3, 4, 5, 8, 13, 30}); double share = p.prepr ? 0.74 : 0.185; u64 bs = n / blocks + r.pick<u64>({0, 0, 1, 1, 2, 5}); if (r.chance(10) && n < 3000) bs = 18 + r.below(20);
    p.mem = (u64)(bs / share) + r.below(3); if (p.mem < 100) p.mem = 100 + r.below(30); if (r.chance(10)) p.mem = 1000000;
  }
}
static void genIo(Rng& r, Io& io, u64 n, bool fwd) {
  if (r.chance(40)) { io.ink = r.below(5); } if (r.chance(45)) io.outk = r.below(7);
  if (r.chance(60)) { io.rmode = r.below(8); io.rarg = r.pick<int>({1, 2, 3, 7, 64, 100, 511, 512, 4096, 65535, 65536, 65537}); if ((io.rmode == 1 || (io.rmode == 3 && io.rarg < 8)) && n > 60000) { io.rmode = 3; io.rarg = 1000 + r.below(3000); } }
  if (r.chance(60)) { io.wmode = r.below(8); io.warg = r.pick<int>({1, 2, 3, 5, 6, 7, 64, 100, 512, 4096}); if ((io.wmode == 1 || (io.wmode == 3 && io.warg < 8)) && n > 60000) { io.wmode = 3; io.warg = 1000 + r.below(3000); } }
  io.blk = r.pick<int>({4096, 4096, 512, 1024, 64, 65536, 16}); io.ioseed = r.next() >> 16; io.heap = r.pick<u64>({0, 1, 2, 3}); if (io.heap == 3) io.heap = 3 + (r.next() >> 24);
  if (r.chance(35)) io.astyle = 1 + (r.next() >> 24);
  if (r.chance(20)) io.verb = r.pick<int>({1, 2, 2, 3, 3, 4, 5, 8, 9});
}
// size profile: heavy tail, mostly small
static u64 profile(Rng& r, int heavy) {
  int d = r.below(1000);
  if (heavy == 2) return d < 380 ? 400 : d < 640 ? 3000 : d < 880 ? 30000 : d < 985 ? 220000 : d < 997 ? 800000 : 3000000;
  if (heavy == 1) return d < 450 ? 400 : d < 750 ? 3000 : d < 930 ? 30000 : d < 998 ? 220000 : 800000;
  return d < 550 ? 400 : d < 850 ? 3000 : d < 970 ? 30000 : 220000;
}
static const char* PROPS[] = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15"};

static vector<string> badArgs(Rng& r, int fam, int side) {
  vector<vector<string>> c;
  if (side == 0 && fam == 0) c = {{"-e", "x", "in", "out"}, {"-e", "h", "in", "out"}, {"--bwt", "q", "in", "out"}, {"--bwt", "D", "in", "out"}, {"-s", "0", "in", "out"}, {"-s", "257", "in", "out"}, {"-s", "100000", "in", "out"}, {"--prepr", "z", "in", "out"}, {"--prepr", "px", "in", "out"}, {"--prepr", "P", "in", "out"}, {"-m", "abc", "in", "out"}, {"-m", "", "in", "out"}, {"--enc", "HH", "in", "out"}, {"-s", "x", "in", "out"}};
  else if (side == 0) c = {{"--prepr", "z", "in", "out"}, {"--prepr", "pq", "in", "out"}, {"-b", "abc", "in", "out"}, {"--escape", "maybe", "in", "out"}, {"--prepr", "pP", "in", "out"}};
  c.push_back({"--nonsense", "in", "out"}); c.push_back({"in", "out", "third"}); c.push_back({"-v", "x", "in", "out"}); c.push_back({"-Z", "in", "out"}); c.push_back({"-v", "in", "out"}); c.push_back({"in", "out", "-v"});
  return c[r.below(c.size())];
}

static void genStreamOps(Rng& r, Plan& p, bool tiny) {
  u64 K = tiny ? 13 : 65536; int n = 1 + r.below(r.pick<u64>({4, 12, 40, 120})); p.ops.clear();
  auto blen = [&]() -> u32 { u64 v = r.pick<u64>({0, 1, 2, 5, 6, 7, K / 2, K - 2, K - 1, K, K + 1, 2 * K - 1, 2 * K, 2 * K + 1, 3 * K, 4095, 4096, 4097}); if (r.chance(40)) v = r.below(r.pick<u64>({4, 30, 300, 3000})); if (n > 40 && v > 9000) v %= 9000; return v; };
  if (p.side == 0) {
    int pos = 0; u64 len = 0; vector<u64> at; bool need = false; u64 needTo = 0;
    for (int i = 0; i < n; ++i) {
      int k = r.pick<int>({0, 0, 0, 1, 1, 1, 2, 3, 3, 4}); SOp o = {0, 0, 0};
      if (k == 3) { vector<int> okp; for (int j = 0; j < pos; ++j) if (at[j] + 6 <= len) okp.push_back(j); if (okp.empty()) k = 1; else { o.k = 3; o.a = okp[r.below(okp.size())]; o.b = r.pick<u64>({0, 1, 255, 256, 65535, 65536, (1ull << 32) - 1, 1ull << 32, (1ull << 48) - 1, (1ull << 40) + 5}); if (r.chance(50)) o.b = r.next() >> 16; p.ops.push_back(o); continue; } }
      if (k == 0) { o.k = 0; o.a = r.below(256); int rep = r.chance(70) ? 1 : 1 + r.below(tiny ? 40 : 200); for (int j = 0; j < rep; ++j) { o.a = r.below(256); p.ops.push_back(o); ++len; } continue; }
      if (k == 1) { o.k = 1; o.a = blen(); o.b = r.next() >> 8; len += o.a; p.ops.push_back(o); continue; }
      if (k == 2) { o.k = 2; p.ops.push_back(o); at.push_back(len); ++pos; if (r.chance(70)) { for (int j = 0; j < 6; ++j) { SOp z = {0, 0, 0}; p.ops.push_back(z); ++len; } } continue; }
      o.k = 4; p.ops.push_back(o);
    }
    return;
  }
  u64 want = r.pick<u64>({0, 1, 2, 5, 6, 7, K - 1, K, K + 1, 2 * K - 1, 2 * K, 2 * K + 1, 3 * K + 1, 100, 1000}); p.segs.clear(); p.segs.push_back(Seg{SG_RAND, want, r.next() >> 20, 256, 0});
  u64 bp = 0, bits = want * 8;
  for (int i = 0; i < n; ++i) {
    int k = r.pick<int>({0, 0, 1, 1, 2, 2, 2, 2, 3, 4, 5, 5}); SOp o = {(u32)k, 0, 0};
    if (k == 0 && bp + 8 > bits) k = 1; if (k == 2 && bp >= bits) k = 5;
    if (k == 1 || k == 3) if (bp & 7) { SOp f = {4, 0, 0}; p.ops.push_back(f); bp = (bp + 7) & ~7ull; }
    if (k == 3 && bp + 48 > bits) k = 1;
    if (k == 2) { int rep = 1 + r.below(10); for (int j = 0; j < rep && bp < bits; ++j) { SOp t = {2, 0, 0}; p.ops.push_back(t); ++bp; } continue; }
    if (k == 4) bp = (bp + 7) & ~7ull;
    o.k = k; if (k == 0) bp += 8; if (k == 3) bp += 48; if (k == 1) { o.a = blen(); bp += 8 * std::min<u64>(o.a, (bits - bp) / 8); }
    p.ops.push_back(o);
    if (r.chance(15)) { // jump close to the end or to a buffer edge
      u64 at = (bp + 7) >> 3; u64 to = r.chance(50) ? (want > 3 ? want - r.below(4) : want) : (at / K + 1) * K - r.below(3); if (to > at && to <= want) { if (bp & 7) { SOp f = {4, 0, 0}; p.ops.push_back(f); } SOp b = {1, (u32)(to - at), 0}; p.ops.push_back(b); bp = to * 8; } }
  }
}
static bool validOps(const Plan& p) {
  if (p.prop != "C09") return true;
  if (p.side == 0) { u64 len = 0; vector<u64> at; for (auto& o : p.ops) { if (o.k == 0) ++len; else if (o.k == 1) len += o.a; else if (o.k == 2) at.push_back(len); else if (o.k == 3 && (o.a >= at.size() || at[o.a] + 6 > len)) return false; } return true; }
  u64 bits = planLen(p) * 8, bp = 0;
  for (auto& o : p.ops) { if ((o.k == 1 || o.k == 3) && (bp & 7)) return false; if (o.k == 0) bp += 8; if (o.k == 2) ++bp; if (o.k == 3) bp += 48; if (o.k == 4) bp = (bp + 7) & ~7ull; if (o.k == 1) bp += 8 * std::min<u64>(o.a, (bits - bp) / 8); if (bp > bits) return false; }
  return true;
}

// Pair replacement costs tens of millions of steps per block and round: keep their number small.
static void capCost(Plan& p) { if (!p.prepr) return; u64 n = planLen(p); if (p.prop == "C14") { if (p.prepr > 2) p.prepr = 2; while (p.x[1] > p.x[0] + 3 && p.x[1] * p.prepr > 24) --p.x[1]; return; } while (blocksOf(p, n) * p.prepr > 10) p.mem = std::max<u64>(1, p.mem) * 2; }
static Plan genBase(const string& prop, const string& variant, Rng& r) {
  Plan p; p.prop = prop; p.variant = variant; genOpts(r, p);
  p.fam = r.pick<int>({0, 0, 0, 1, 1, 2, 2}); int heavy = 0;
  if (prop == "C01") { p.fam = r.pick<int>({0, 0, 2, 2, 2}); heavy = 2; }
  if (prop == "C02") { p.fam = 1; heavy = 2; if (r.chance(60) && !p.prepr) p.prepr = 1 + r.below(3); }
  if (prop == "C07") heavy = 1; if (prop == "C10") { p.fam = r.pick<int>({0, 0, 2, 2, 2, 1}); heavy = 1; }
  if (prop == "C03" || prop == "C04" || prop == "C06" || prop == "C13" || prop == "C15") heavy = 1;
  if (prop == "C12") { p.fam = 2; if (p.prepr && !r.chance(60)) p.prepr = 0; if (p.prepr > 2) p.prepr = 2; }
  if (prop == "C11" && p.fam == 2) p.fam = r.below(2);
  u64 mx = profile(r, heavy); if (p.prepr && r.chance(40) && mx < 30000) mx = 30000;
  if (variant == "tiny" && mx > 30000 && r.chance(70)) mx = 30000;
  if (prop == "C12") mx = p.prepr ? 30000 : std::min<u64>(mx, 30000);
  genSegs(r, p, mx); genMem(r, p);
  if (prop == "C12") { p.x[0] = r.pick<i64>({2, 2, 3}); p.x[1] = r.pick<i64>({1, 3, 10, 40, 200, 1000, 5000, 30000, 200000}); p.x[2] = r.next() >> 30; p.x[3] = r.pick<i64>({1, 1, 2, 3, 5, 10, 100, 3000, 20000}); if (p.x[3] < 11) p.x[1] = -r.pick<i64>({2, 3, 4, 6, 10, 20, 50}); else if (r.chance(50)) p.x[1] = -r.pick<i64>({50, 300, 3000}); if (p.prepr) { p.mem = 1000000; p.x[0] = 2; if (r.chance(60)) p.x[1] = -r.pick<i64>({50, 300, 3000}), p.x[3] = 20000; } if (p.enc == 'M' && (p.prepr || r.chance(50))) p.enc = 'B'; if (r.chance(40)) { p.x[1] = 0; p.x[3] = r.pick<i64>({1, 2, 3, 5, 10, 30, 100, 300}); } p.x[4] = r.below(64); p.x[5] = r.chance(70) ? 0 : r.below(8); if (r.chance(30)) p.x[5] |= (1 + r.below(7)) << 3; if (r.chance(10)) p.x[5] |= 64; p.x[6] = r.next() >> 30; p.x[7] = r.chance(60) ? 1 : 0; }
  u64 n = planLen(p); p.side = r.chance(60) ? 0 : 1;
  genIo(r, p.a, n, true); genIo(r, p.b, n, false);
  if (p.fam == 2 && (prop == "C01" || prop == "C07" || prop == "C10") && r.chance(20)) { (r.chance(50) ? p.a : p.b).ink = 5; if (r.chance(50)) p.a.ink = p.b.ink = 5; if (p.a.ink == 5) p.a.outk = 0; if (p.b.ink == 5) p.b.outk = 0; }
  if (prop == "C09") { p.side = r.below(2); p.prepr = 0; genStreamOps(r, p, variant == "tiny"); p.a.outk = r.pick<int>({0, 0, 1, 2, 5}); p.a.verb = 0; if (variant != "tiny" && p.a.rmode == 1) p.a.rmode = 2; if (variant != "tiny" && p.a.wmode == 1) p.a.wmode = 2; }
  if (prop == "C07" && p.fam == 2 && r.chance(40)) { p.x[0] = 1 + r.below(1000000); p.x[1] = edgeLen(r, 5000); p.x[2] = 1 + r.below(4); p.x[3] = r.below(3); p.x[4] = 100 + r.below(20000); p.x[5] = r.below(6); }
  if (prop == "C01" && r.chance(20)) p.x[7] = 1;
  if (prop == "C14") {
    p.segs.clear(); u64 bs;
    if (p.fam == 0) { p.mem = 1; bs = p.prepr ? 740000 : 185000; if (p.prepr && r.chance(70)) { p.fam = 2; } }
    if (p.fam == 1) { p.mem = r.pick<u64>({1, 4, 16, 40}); bs = p.mem * 1024; }
    if (p.fam == 2) { p.mem = 2000 + r.below(r.pick<u64>({20000, 200000})); bs = (u64)(p.mem * (p.prepr ? 0.74 : 0.185)); }
    bool rules = p.prepr && r.chance(65); if (rules && bs < 20000) { if (p.fam == 1) p.mem = r.pick<u64>({20, 30, 40}), bs = p.mem * 1024; else p.mem = 30000 + r.below(40000), bs = (u64)(p.mem * 0.74); }
    Seg g = genSegR(r, bs); if (rules) { g.t = r.pick<int>({SG_RUN, SG_PERIOD, SG_PAIRS, SG_WORDS, SG_PAIRTREE}); g.p1 = g.t == SG_WORDS ? 20 : 2 + r.below(5); g.p2 = r.below(30); g.len = bs; } if (g.t == SG_LIT || g.t == SG_FIBCNT) { g.t = SG_RAND; g.p1 = 256; g.len = bs; } p.segs.push_back(g);
    p.x[0] = 3; p.x[1] = 3 + r.below(p.fam == 0 ? 5 : 20) + 2; if (bs < 4096) p.x[1] += 100 + r.below(200);
    p.a.verb = p.b.verb = 0; p.a.heap = p.b.heap = 0;
  }
  if (prop == "C11") { p.x[0] = r.pick<i64>({0, 0, 1, 1, 2}); if (p.x[0] == 1) p.extra = badArgs(r, p.fam, p.side); if (p.x[0] == 2) p.x[1] = r.pick<int>({ENOENT, EACCES, EIO, EMFILE}); p.a.verb = p.b.verb = 0; }
  capCost(p); return p;
}
// Plans laid out by hand rather than drawn: sizes and shapes at which the code changes its behaviour
// (one byte blocks, as many starting points as bytes, sections of 10000 symbols, 256 sections, buffers of
// 64 KiB, more blocks than one, slices, long runs, long codes). k-th of them; false: no more.
static bool directed(const string& prop, const string& variant, u64 k, u64 seed, Plan& p) {
  Rng r(hmix(hmix(seed, 77), k)); Plan b; b.prop = prop; b.variant = variant; b.starts = 8; b.mem = 1; b.enc = 'B';
  if (prop == "C14") { // limits well above the fixed costs
    if (k % 3 || k >= 6) return false;
    u64 j = k / 3 + seed; b.fam = r.pick<int>({0, 0, 2, 1}); b.mem = b.fam == 0 ? 6 + r.below(6) : b.fam == 2 ? 6000000 + r.below(6000000) : 6000 + r.below(6000); b.enc = "BHmu"[j % 4]; b.prepr = j % 3 == 1; b.starts = r.pick<int>({1, 8, 256});
    u64 lim = b.fam == 0 ? b.mem * 1000000 : b.mem, bs = b.fam == 1 ? b.mem * 1024 : (u64)(lim * (b.prepr ? 0.74 : 0.185)); Seg g = j % 4 >= 2 ? r.pick<Seg>({{SG_RUN, bs, 1, 97, 0}, {SG_PERIOD, bs, 4, 2, 2}}) : r.pick<Seg>({{SG_RUN, bs, 1, 97, 0}, {SG_RAND, bs, 2, 256, 0}, {SG_WORDS, bs, 3, 300, 0}, {SG_PERIOD, bs, 4, 2, 2}, {SG_RAND, bs, 5, 2, 0}}); b.segs.push_back(g); b.x[0] = 2; b.x[1] = 3; p = b; return true; }
  if (prop == "C09" || prop == "C11" || prop == "C12") return false;
  bool rt = prop == "C01" || prop == "C02" || prop == "C07" || prop == "C10"; static const char encs[] = "HBmubM"; bool pre = prop == "C02";
  auto seg = [&](int t, u64 len, i64 p1, i64 p2) { b.segs.push_back(Seg{t, len, r.next() >> 20, p1, p2}); };
  auto fin = [&]() { if (pre) b.fam = 1; else if (prop == "C10" || prop == "C01" || prop == "C07") { if (b.fam == 1) b.fam = 2; } b.side = r.below(2); u64 n = planLen(b); if (r.chance(50)) genIo(r, b.a, n, true); if (r.chance(50)) genIo(r, b.b, n, false); b.a.verb = b.b.verb = 0; p = b; return true; };
  // 1. every length up to 40, by coder
  if (k < 41) { b.fam = pre ? 1 : rt ? r.pick<int>({0, 2}) : r.pick<int>({0, 1, 1, 2}); b.enc = encs[k % 5]; b.prepr = pre ? 1 + k % 2 : (k % 7 == 3); if (b.fam == 2) b.mem = 100 + r.below(200); b.starts = r.pick<int>({1, 8, 256}); seg(r.pick<int>({SG_RAND, SG_RUN, SG_CYCLE}), k, r.pick<i64>({1, 2, 256}), 1); return fin(); }
  k -= 41;
  // 1b. replaced pairs that make the block grow before or after it shrinks
  { u64 nb = prop == "C02" ? 12 : prop == "C13" || prop == "C01" ? 6 : prop == "C07" ? 2 : 0;
    if (k < nb) { b.fam = 1; b.mem = 100000; b.prepr = 1; u64 j = (k + seed) % 6; bool rg = prop == "C02" && k % 3 == 2; if (prop == "C13" && k == 5) rg = true;
      if (rg) { i64 f = 2100 + 900 * (i64)(k / 3 % 2); seg(SG_RING, 20000000, f, r.below(300)); }
      else if (j % 2) { i64 f = r.pick<i64>({1100, 1400, 2500}); seg(SG_GROW, 20000000, f, (i64)r.below(6) + 16 * (i64)r.below(60)); }
      else { i64 q = r.pick<i64>({0, 1, 4, 16}); b.prepr = r.pick<int>({2, 3, 4}); Seg w{SG_NEST, 150000, r.next() >> 20, r.pick<i64>({4, 8, 12, 16}), 3}, a{SG_RANKED, (u64)(256 + 2050 * q), r.next() >> 20, 0, q}; b.segs.push_back(w); b.segs.push_back(a); }
      for (auto& g : b.segs) { Bytes t; genSeg(g, t); g.len = t.size(); }
      if (prop == "C01" || prop == "C07") { b.fam = 0; b.mem = 30; b.enc = 'H'; } fin(); if (rg) p.a.rmode = p.b.rmode = p.a.wmode = p.b.wmode = 0; p.b.f.clear(); if (prop == "C13") p.side = 0; return true; }
    k -= nb; }
  // 1c. blocks longer than 2^24 bytes
  { u64 nc = prop == "C01" ? 3 : prop == "C02" || prop == "C10" ? 1 : 0;
    if (k < nc) { b.fam = 0; b.mem = 100; b.enc = "BH"[(k + seed) % 2]; if (prop == "C10") b.enc = 'H'; b.starts = r.pick<int>({1, 8, 256});
      if (prop == "C02") { b.mem = 20000; b.prepr = 1 + r.below(2); }
      if (prop == "C01" && k == 2) { b.enc = 'H'; seg(SG_FIBCNT, 9000000 + r.below(3000000), r.below(256), 1); } else
      if (b.enc == 'B') seg(SG_RUN, (1 << 24) + 1 + r.below(70000), r.below(256), 0); else seg(SG_WORDS, (1 << 24) + 1 + r.below(70000), 300, 0);
      if (r.chance(50)) seg(SG_RAND, 300, 256, 0); fin(); p.a.rmode = p.b.rmode = p.a.wmode = p.b.wmode = 0; return true; }
    k -= nc; }
  // 1d. hard cases of the suffix sorters: merging in place, deep recursion, exhausted budgets
  // and inputs on which the range of the arithmetic coder narrows to two or three values
  { static const struct { int t; u64 len, seed; i64 p1, p2; char enc; } hard[] = {
      {SG_REP, 800, 3022241, 97, 0}, {SG_ZIG, 20000, 3, 2, 2}, {SG_REP, 1600, 1000813, 0, 0}, {SG_ZIG, 100000, 5, 16, 16}, {SG_REP, 3200, 2000203, 97, 0}, {SG_ZIG, 150000, 9, 1, 2}, {SG_REP, 6400, 2003365, 0, 0}, {SG_ZIG, 30000, 4, 2, 1},
      {SG_REP, 12800, 27264, 97, 0}, {SG_REP, 1600, 3024276, 250, 0}, {SG_REP, 6400, 2019128, 0, 0}, {SG_REP, 3200, 2010057, 0, 0}, {SG_REP, 25600, 22547, 0, 0}, {SG_ZIG, 180000, 6, 100, 100}, {SG_REP, 51200, 1018807, 0, 0}, {SG_ZIG, 1000000, 7, 2, 2}, {SG_REP, 102400, 1024300, 0, 0}, {SG_ZIG, 800000, 8, 1, 2},
      {SG_SKEW, 10472, 7486422357689, 5, 0, 'm'}, {SG_BITS, 28129, 227369398974, 3, 145, 'b'}, {SG_RANKED, 27440, 3509944069118, 0, 4, 'M'}, {SG_FIBCNT, 27405, 3454995485180, 252, 1, 'M'}, {SG_SKEW, 20175, 2676396817835, 5, 1, 'M'}, {SG_SKEW, 13718, 9219746650672, 5, 0, 'u'} };
    const u64 NH = sizeof hard / sizeof *hard;
    u64 nh = prop == "C01" ? 2 * NH : prop == "C07" || prop == "C10" ? 8 : prop == "C13" ? 16 : 0;
    if (k < nh) { auto& h = hard[k % NH]; b.fam = k % 3 == 2 && h.len < 60000 ? 2 : 0; b.mem = b.fam == 2 ? h.len * 8 : h.len > 170000 ? 8 : 1; b.enc = h.len > 170000 ? 'H' : encs[r.below(5)]; b.starts = r.pick<int>({1, 1, 8, 256}); b.bwt = h.t == SG_ZIG && (h.p1 > 4 || r.chance(40)) ? 's' : r.pick<char>({'a', 'd'}); if (h.enc) { b.enc = h.enc; b.fam = 0; b.mem = 1; b.starts = 1; }
      b.segs.push_back(Seg{h.t, k < NH ? h.len : h.len - r.below(h.len / 50 + 2), k < NH ? h.seed : r.next() >> 20, h.p1, h.p2}); return fin(); }
    k -= nh; }
  // 2. shapes
  struct Sh { int t; u64 len; i64 p1, p2; char enc; int prepr, fam; u64 mem; int starts; };
  static const Sh sh[] = {
    {SG_RAND, 255, 256, 0, 'H', 0, 0, 1, 256}, {SG_RAND, 256, 256, 0, 'B', 0, 0, 1, 256}, {SG_RAND, 257, 256, 0, 'm', 0, 0, 1, 256}, {SG_RAND, 258, 4, 0, 'u', 0, 0, 1, 256},
    {SG_CYCLE, 256, 0, 1, 'H', 0, 0, 1, 8}, {SG_CYCLE, 512, 0, 1, 'B', 0, 0, 1, 8}, {SG_CYCLE, 5120, 0, 1, 'b', 1, 0, 1, 8}, {SG_CYCLE, 40000, 0, 1, 'H', 2, 0, 1, 8},
    {SG_RUN, 9999, 97, 0, 'H', 0, 0, 1, 8}, {SG_RUN, 10000, 97, 0, 'B', 0, 0, 1, 8}, {SG_RUN, 20001, 255, 0, 'm', 0, 0, 1, 255}, {SG_RUN, 66000, 0, 0, 'u', 0, 0, 1, 3}, {SG_RUN, 70000, 255, 0, 'H', 0, 0, 1, 3}, {SG_RUN, 184999, 1, 0, 'b', 0, 0, 1, 256}, {SG_RUN, 500000, 254, 0, 'B', 0, 0, 4, 8}, {SG_RUN, 140000, 65, 0, 'B', 0, 0, 1, 8},
    {SG_RUN, 30000, 97, 0, 'H', 1, 0, 1, 8}, {SG_RUN, 60000, 255, 0, 'B', 3, 0, 1, 8},
    {SG_RAND, 65530, 256, 0, 'H', 0, 0, 1, 8}, {SG_RAND, 66200, 256, 0, 'B', 0, 0, 1, 8}, {SG_RAND, 131100, 256, 0, 'H', 0, 0, 1, 8}, {SG_RAND, 65536, 256, 0, 'H', 0, 1, 64, 8}, {SG_RAND, 65537, 256, 0, 'H', 0, 1, 100, 8}, {SG_RAND, 200000, 256, 0, 'H', 0, 1, 10, 8},
    {SG_WORDS, 185000, 100, 0, 'H', 0, 0, 1, 8}, {SG_WORDS, 185001, 100, 0, 'B', 0, 0, 1, 8}, {SG_WORDS, 370001, 300, 0, 'H', 0, 0, 1, 30}, {SG_WORDS, 120000, 300, 0, 'm', 0, 0, 1, 200}, {SG_WORDS, 90000, 300, 0, 'u', 0, 0, 1, 9}, {SG_WORDS, 90000, 30, 0, 'b', 0, 0, 1, 16}, {SG_WORDS, 60000, 20, 0, 'M', 0, 0, 1, 8},
    {SG_WORDS, 400000, 200, 0, 'H', 1, 0, 1, 8}, {SG_WORDS, 740001, 200, 0, 'H', 1, 0, 1, 8}, {SG_RAND, 740000, 256, 0, 'H', 1, 0, 1, 8}, {SG_RAND, 190000, 255, 0, 'H', 1, 0, 1, 8}, {SG_PAIRS, 300000, 5, 100, 'H', 2, 0, 1, 8},
    {SG_FIBCNT, 200000, 0, 1, 'H', 0, 0, 2, 8}, {SG_FIBCNT, 300000, 5, 1, 'B', 0, 0, 2, 8}, {SG_FIBCNT, 100000, 5, 0, 'H', 0, 0, 1, 8},
    {SG_CYCLE, 2600000, 0, 1, 'H', 0, 0, 16, 8}, {SG_RAND, 2700000, 256, 0, 'H', 0, 0, 16, 8}, {SG_CYCLE, 2561024, 0, 3, 'H', 0, 0, 16, 256},
    {SG_RAND, 2700000, 256, 0, 'B', 0, 0, 16, 8}, {SG_CYCLE, 2700000, 5, 1, 'u', 0, 0, 16, 8}, {SG_FIBCNT, 3000000, 9, 1, 'H', 0, 0, 20, 8}, {SG_FIBCNT, 1500000, 77, 1, 'B', 0, 0, 20, 30},
    {SG_PAIRTREE, 60000, 10, 0, 'H', 2, 0, 1, 8}, {SG_PAIRTREE, 60000, 100, 50, 'B', 3, 0, 1, 8}, {SG_PAIRTREE, 100000, 200, 0, 'H', 2, 0, 1, 8}, {SG_PAIRS, 60000, 3, 10, 'b', 3, 0, 1, 8}, {SG_PAIRS, 60000, 100, 0, 'H', 5, 0, 1, 8}, {SG_PERIOD, 50000, 2, 0, 'H', 2, 0, 1, 8}, {SG_PERIOD, 50000, 3, 3, 'm', 2, 0, 1, 8}, {SG_TM, 40000, 255, 0, 'H', 3, 0, 1, 8}, {SG_FIB, 40000, 254, 0, 'B', 3, 0, 1, 8},
    {SG_WORDS, 5500, 20, 0, 'H', 0, 2, 100, 8}, {SG_WORDS, 6000, 20, 0, 'B', 0, 2, 1000, 8}, {SG_RAND, 4000, 2, 0, 'u', 0, 2, 101, 256}, {SG_RAND, 60000, 256, 0, 'H', 0, 2, 1500, 256}, {SG_WORDS, 80000, 60, 0, 'm', 0, 2, 110000, 128},
    {SG_WORDS, 40000, 100, 0, 'H', 1, 2, 7000, 8}, {SG_WORDS, 60000, 100, 0, 'B', 1, 2, 20000, 8}, {SG_RUNS2, 150000, 17, 3, 'B', 0, 0, 1, 8}, {SG_RUNS2, 170000, 18, 2, 'H', 0, 0, 1, 8}, {SG_RUNS2, 100000, 10, 100, 'u', 0, 0, 1, 8}, {SG_SKEW, 100000, 60, 3, 'B', 0, 0, 1, 8}, {SG_SKEW, 150000, 256, 3, 'H', 0, 0, 1, 8}, {SG_SORTED, 100000, 391, 0, 'B', 0, 0, 1, 8}, {SG_BITS, 60000, 1, 7, 'm', 0, 0, 1, 8}, {SG_BITS, 100000, 2, 200, 'H', 0, 0, 1, 64},
  };
  u64 ns = sizeof sh / sizeof *sh, rep = rt ? 2 : 1;
  if (k >= ns * rep) return false;
  const Sh& q = sh[(k + seed * 7) % ns]; if (!rt && q.len > 200000) return directed(prop, variant, k % 41, seed + k, p);
  if (k >= ns && (q.len > 400000 || q.enc == 'M')) return directed(prop, variant, k % 41, seed + k, p);
  b.fam = q.fam; b.mem = q.mem; b.enc = k >= ns && q.len < 100000 ? r.pick<char>({'H', 'B', 'm', 'u', 'b'}) : q.enc; b.prepr = q.prepr; b.starts = q.starts; b.bwt = r.pick<char>({'a', 'd', 's'});
  u64 n = q.len; if (k >= ns) n = n - 2 + r.below(5); seg(q.t, n, q.p1, q.p2);
  if (b.fam == 1 && !pre) { b.fam = 0; b.mem = 1; }
  if (pre) { b.mem = q.fam == 1 ? q.mem : r.pick<u64>({1, 8, 64, 100, 1000}); if (!b.prepr && r.chance(50)) b.prepr = 1; b.fam = 1; if (n > 1000000) { b.segs[0].len = 800000; b.mem = 1000; } capCost(b); }
  return fin();
}
// The other operations of a C12 plan, derived from x6; x7: all with the same options.
static Plan subPlan(const Plan& p, int i) {
  Plan q = p; q.prop = "C12"; q.fam = 2; q.a = q.b = Io(); if (i == 0) return q;
  Rng r(hmix((u64)p.x[6], i)); if (!p.x[7]) { genOpts(r, q); if (!p.prepr && r.chance(80)) q.prepr = 0; } else q.starts = r.pick<int>({p.starts, 1, 8, 256}); genSegs(r, q, q.prepr ? 30000 : std::max<u64>(300, std::min<u64>(30000, 2 * planLen(p)))); genMem(r, q); if (q.prepr) q.mem = 1000000; capCost(q); return q;
}
// A mutated plan must stay within what its property quantifies over.
static Plan normalise(Plan p, Rng& r) {
  if (p.prop == "C09" && (!validOps(p) || (p.side && (p.segs.size() != 1 || p.segs[0].t != SG_RAND)))) genStreamOps(r, p, p.variant == "tiny");
  if (p.prop == "C09") { if (p.a.outk != 0 && p.a.outk != 1 && p.a.outk != 2 && p.a.outk != 5) p.a.outk = 0; if (p.a.ink > 4) p.a.ink = 0; p.a.verb = 0; }
  if (p.prop == "C11" || p.prop == "C14") p.a.verb = p.b.verb = 0;
  if (p.prop == "C14") { Plan q = genBase("C14", p.variant, r); q.enc = p.enc; q.bwt = p.bwt; q.starts = p.starts; q.a = p.a; q.b = p.b; q.a.heap = q.b.heap = 0; p = q; }
  if (p.fam != 2) { if (p.a.ink == 5) p.a.ink = 0; if (p.b.ink == 5) p.b.ink = 0; }
  if (p.a.ink == 5) p.a.outk = 0; if (p.b.ink == 5) p.b.outk = 0;
  if (p.fam == 2 && p.mem < 100) p.mem = 100;
  capCost(p);
  return p;
}
static Plan mutate(const Plan& b, Rng& r) {
  Plan p = b; int k = 1 + r.below(3);
  while (k--) switch (r.below(10)) {
    case 0: if (!p.segs.empty()) { Seg& g = p.segs[r.below(p.segs.size())]; i64 d = r.pick<i64>({-1, 1, -2, 2, 7, -16, 100}); if ((i64)g.len + d >= 0) g.len += d; } break;
    case 1: if (!p.segs.empty()) p.segs[r.below(p.segs.size())].seed = r.next() >> 20; break;
    case 2: if (p.segs.size() < 8 && planLen(p) < 60000 && !p.segs.empty()) { Seg g = p.segs[r.below(p.segs.size())]; p.segs.push_back(g); } break;
    case 3: if (p.segs.size() < 8) p.segs.insert(p.segs.begin() + r.below(p.segs.size() + 1), genSegR(r, edgeLen(r, 3000))); break;
    case 4: if (p.segs.size() > 1) p.segs.erase(p.segs.begin() + r.below(p.segs.size())); break;
    case 5: { int pr = p.prepr; genOpts(r, p); if (r.chance(60)) p.prepr = pr; break; }
    case 6: genMem(r, p); break;
    case 7: { Io io; genIo(r, io, planLen(p), true); (r.chance(50) ? p.a : p.b) = io; break; }
    case 8: if (!p.segs.empty()) { Seg& g = p.segs[r.below(p.segs.size())]; g.p1 += r.range(-2, 2); g.p2 += r.range(-2, 2); } break;
    case 9: if (!p.segs.empty()) { Seg& g = p.segs[r.below(p.segs.size())]; g.len = edgeLen(r, std::max<u64>(g.len * 2, 300)); if (g.t == SG_LIT) g.len = std::min<u64>(16, g.len); } break;
  }
  return p;
}

// Faults are placed inside the operations the undisturbed run really makes.
static vector<Plan> expand(const Plan& base, Rng& r, int K) {
  vector<Plan> v; const string& pr = base.prop;
  if (pr == "C03" || pr == "C04" || pr == "C06" || pr == "C08" || pr == "C13" || pr == "C15" || pr == "C11") {
    if (pr == "C11" && base.x[0] != 0) { v.push_back(base); return v; }
    Canon& c = canon(base); if (!c.ok && pr != "C13") { v.push_back(base); return v; }
    if (!c.fr.ok()) { v.push_back(base); return v; }
    Plan b = base; Io& io0 = b.side ? b.b : b.a; io0.f.clear();
    if (pr == "C06" && r.chance(60)) { io0.outk = r.below(2); }
    Got g = run1(b, b.side, b.side ? c.fwd : c.input, io0, budgetOf(b.side ? c.bsteps : c.fsteps));
    if (pr == "C13") v.push_back(b);
    const Run& R = g.r; u64 outSize = g.out.size();
    static const int werr[] = {ENOSPC, EIO, EDQUOT, EPIPE, EFBIG, EINTR, EAGAIN}; static const int rerr[] = {EIO, EINTR, EAGAIN, EISDIR, ESTALE};
    vector<Fault> fs;
    bool wr = pr == "C03" || pr == "C06" || pr == "C13" || pr == "C15" || pr == "C11", rd = pr == "C04" || pr == "C13" || pr == "C15" || pr == "C06" || pr == "C11", al = pr == "C08" || pr == "C13" || pr == "C15" || pr == "C06" || pr == "C11", kl = pr == "C06" || pr == "C11";
    auto spread = [&](u64 n, int lim, std::vector<u64>& o) { if ((int)n <= lim) for (u64 i = 0; i < n; ++i) o.push_back(i); else { for (int i = 0; i < lim; ++i) { u64 d = r.below(10); o.push_back(d < 2 ? r.below(std::min<u64>(n, 4)) : d < 5 ? n - 1 - r.below(std::min<u64>(n, 6)) : r.below(n)); } } };
    auto cnt = [&]() -> i64 { return r.pick<i64>({1, 1, 1, -1, -1, 2, 5}); };
    if (wr) {
      vector<u64> o; spread(R.opn[C_WRITE], K, o); for (u64 k : o) { Fault f = {C_WRITE, (i64)k, werr[r.below(7)], cnt(), r.chance(40) ? (i64)(1 + r.below(40)) : 0}; fs.push_back(f); }
      o.clear(); spread(R.opn[C_SEEK], K / 3 + 1, o); for (u64 k : o) { Fault f = {C_SEEK, (i64)k, EIO, cnt(), 0}; fs.push_back(f); }
      o.clear(); spread(R.opn[C_CLOSE_OUT], 4, o); for (u64 k : o) { Fault f = {C_CLOSE_OUT, (i64)k, r.pick<int>({EIO, ENOSPC, EDQUOT}), 1, (i64)r.below(3 + outSize)}; fs.push_back(f); }
      if (io0.outk != 3 && io0.outk != 6 && outSize) { int m = std::min<u64>(outSize, K / 2 + 1); for (int i = 0; i < m; ++i) { u64 cap = r.chance(30) ? outSize - 1 - r.below(std::min<u64>(outSize, 8)) : r.below(outSize); if (io0.outk == 4 || io0.outk == 5) cap += JUNKLEN; Fault f = {C_CAP, 0, r.chance(70) ? ENOSPC : EDQUOT, r.chance(60) ? -1 : (i64)(1 + r.below(3)), (i64)cap}; fs.push_back(f); } }
      if (R.opn[C_OPEN_OUT]) { Fault f = {C_OPEN_OUT, 0, r.pick<int>({EACCES, ENOSPC, EMFILE, EROFS}), -1, 0}; fs.push_back(f); }
      if (r.chance(20)) { Fault f = {C_STAT, (i64)r.below(R.opn[C_STAT] + 1), EIO, 1, 0}; fs.push_back(f); }
    }
    if (rd) { vector<u64> o; spread(R.opn[C_READ], pr == "C04" ? K : K / 3 + 1, o); for (u64 k : o) { Fault f = {C_READ, (i64)k, rerr[r.below(5)], cnt(), 0}; fs.push_back(f); }
      if (R.opn[C_OPEN_IN] && r.chance(20)) { Fault f = {C_OPEN_IN, 0, r.pick<int>({EACCES, ENOENT, EMFILE}), -1, 0}; fs.push_back(f); }
      if (pr == "C04" && R.opn[C_CLOSE_IN]) { Fault f = {C_CLOSE_IN, 0, EIO, 1, 0}; fs.push_back(f); } }
    if (al) { vector<u64> o; bool few = pr == "C06" || pr == "C11"; spread(R.opn[C_ALLOC], pr == "C08" ? K * 2 : few ? 4 : K / 2 + 1, o); 
      if (R.opn[C_ALLOC] > 40 && !few) for (int i = 0; i < K / 2; ++i) o.push_back(R.opn[C_ALLOC] - 1 - r.below(std::min<u64>(R.opn[C_ALLOC], 60)));
      if (!few) for (int i = 0; i < K && !R.sites.empty(); ++i) { auto& st = R.sites[r.below(R.sites.size())]; u64 w = r.below(3); o.push_back(w == 0 ? st.first : w == 1 ? st.second : st.first + r.below(st.second - st.first + 1)); }
      for (u64 k : o) { Fault f = {C_ALLOC, (i64)k, ENOMEM, r.pick<i64>({1, 1, 1, -1, 2}), 0}; fs.push_back(f); } }
    if (kl) { vector<u64> o; spread(R.ops, K, o); for (u64 k : o) { Fault f = {C_KILL, (i64)k, 0, 1, r.chance(50) ? 0 : (i64)r.below(r.pick<u64>({8, 200, 70000}))}; fs.push_back(f); } }
    if (pr == "C15") for (auto& f : fs) if (f.err == EINTR || f.err == EAGAIN) f.count = std::min<i64>(std::max<i64>(f.count, 1), 3);
    for (size_t i = fs.size(); i > 1; --i) std::swap(fs[i - 1], fs[r.below(i)]);
    int lim = std::min<int>(fs.size(), pr == "C08" ? 2 * K : K);
    if (pr == "C15" && b.side == 1 && !c.fwd.empty() && r.chance(60)) for (int i = 0; i < K / 3; ++i) { Plan q = b; u64 n = c.fwd.size(); q.x[0] = 1 + (i64)r.pick<u64>({r.below(n), r.below(std::min<u64>(n, 40)), n - 1 - r.below(std::min<u64>(n, 12))}); v.push_back(q); }
    for (int i = 0; i < lim; ++i) { Plan q = b; Io& io = q.side ? q.b : q.a; io.f.push_back(fs[i]); if (r.chance(12) && fs.size() > 1) { Fault g2 = fs[r.below(fs.size())]; if (pr != "C15" || g2.cls != C_KILL) io.f.push_back(g2); } if (pr == "C06" && io.outk <= 1) { if (r.chance(25)) { q.x[1] = 1 + r.below(2); q.x[2] = r.next() >> 30; } if (r.chance(25)) q.x[3] = 1 + r.below(2); } v.push_back(q); }
    return v;
  }
  if (pr == "C05") {
    Canon& c = canon(base); if (!c.ok || c.fwd.empty()) { v.push_back(base); return v; }
    u64 n = c.fwd.size(); std::set<u64> cuts;
    if (n <= (u64)K * 2) for (u64 i = 0; i < n; ++i) cuts.insert(i);
    else {
      for (int i = 0; i < K / 3; ++i) cuts.insert(r.below(n)); cuts.insert(0); cuts.insert(1); cuts.insert(n - 1); cuts.insert(n - 2); cuts.insert(n - 1 - r.below(12));
      for (int i = 0; i < K / 4; ++i) cuts.insert(r.below(std::min<u64>(n, 40)));
      if (base.fam != 1) { Walk w = walkArchive(c.fwd); vector<u64> ps = w.pbPos; ps.insert(ps.end(), w.slicePos.begin(), w.slicePos.end()); for (int i = 0; i < K / 3 && !ps.empty(); ++i) { i64 q = (i64)ps[r.below(ps.size())] + r.range(-3, 12); if (q >= 0 && (u64)q < n) cuts.insert(q); } for (int i = 0; i < 3 && !ps.empty(); ++i) cuts.insert(ps[r.below(ps.size())]); }
      if (n > 65536) for (i64 d = -1; d <= 1; ++d) cuts.insert(65536 + d < (i64)n ? 65536 + d : 0);
    }
    for (u64 cu : cuts) { Plan q = base; q.side = 1; q.x[0] = cu; v.push_back(q); }
    return v;
  }
  v.push_back(base); return v;
}

// ------------------------------------------------------------- minimisation
static double g_deadline;
static bool keeps(const Plan& p, const string& cls) { if (!validOps(p)) return false; return runPlan(p).cls == cls; }
static Plan minimise(Plan p, const string& cls) {
  bool again = true; int rounds = 0;
  auto tryit = [&](const Plan& q) { if (now() > g_deadline) return false; if (keeps(q, cls)) { p = q; again = true; return true; } return false; };
  while (again && rounds++ < 12 && now() < g_deadline) {
    again = false;
    for (size_t step = p.ops.size() / 2; step >= 1 && now() < g_deadline; step /= 2) for (size_t i = 0; i + step <= p.ops.size();) { Plan q = p; q.ops.erase(q.ops.begin() + i, q.ops.begin() + i + step); if (!tryit(q)) i += step; }
    for (size_t i = 0; i < p.segs.size() && p.segs.size() > 1;) { Plan q = p; q.segs.erase(q.segs.begin() + i); if (!tryit(q)) ++i; }
    for (size_t i = 0; i < p.segs.size(); ++i) {
      for (u64 d = p.segs[i].len / 2; d >= 1 && now() < g_deadline; d /= 2) while (p.segs[i].len >= d) { Plan q = p; q.segs[i].len -= d; if (!tryit(q)) break; }
      if (p.segs[i].t != SG_RUN) { Plan q = p; q.segs[i].t = SG_RUN; q.segs[i].p1 = 97; q.segs[i].p2 = 0; q.segs[i].seed = 0; tryit(q); }
    }
    for (int s = 0; s < 2; ++s) {
      auto IO = [&](Plan& q) -> Io& { return s ? q.b : q.a; };
      for (size_t i = 0; i < IO(p).f.size();) { Plan q = p; IO(q).f.erase(IO(q).f.begin() + i); if (!tryit(q)) ++i; }
      for (size_t i = 0; i < IO(p).f.size(); ++i) {
        { Plan q = p; if (IO(q).f[i].count != 1) { IO(q).f[i].count = 1; tryit(q); } } { Plan q = p; if (IO(q).f[i].arg && IO(q).f[i].cls != C_CAP) { IO(q).f[i].arg = 0; tryit(q); } }
        for (i64 d = std::max<i64>(1, IO(p).f[i].nth / 2); d >= 1; d /= 2) while (IO(p).f[i].nth >= d) { Plan q = p; IO(q).f[i].nth -= d; if (!tryit(q)) break; }
      }
      Io z; Plan q;
#define RST(fld) q = p; if (IO(q).fld != z.fld) { IO(q).fld = z.fld; tryit(q); }
      RST(ink) RST(outk) RST(rmode) RST(wmode) RST(blk) RST(verb) RST(heap) RST(ioseed) RST(astyle)
    }
    Plan q = p; if (q.prepr) { q.prepr = 0; if (!tryit(q)) { q = p; if (q.prepr > 1) { q.prepr = 1; tryit(q); } } }
    q = p; if (q.enc != 'H') { q.enc = 'H'; tryit(q); } q = p; if (q.starts != 1) { q.starts = 1; tryit(q); } q = p; if (q.bwt != 'a') { q.bwt = 'a'; tryit(q); }
    for (int k = 0; k < 8; ++k) for (i64 d = p.x[k] / 2; d >= 1 && now() < g_deadline; d /= 2) while (p.x[k] > d || (p.x[k] == d && p.prop == "C05")) { q = p; q.x[k] -= d; if (!tryit(q)) break; }
  }
  return p;
}

// --------------------------------------------------------------------- main
static string esc(const string& s) { string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((u8)c < 32 || (u8)c > 126) o += fmt("\\u%04x", (u8)c); else o += c; } return o; }
static void writeFile(const string& path, const string& s) { int fd = open(path.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644); if (fd < 0) { out("cannot write " + path + "\n"); _exit(3); } size_t o = 0; while (o < s.size()) { ssize_t r = write(fd, s.data() + o, s.size() - o); if (r <= 0) break; o += r; } close(fd); }
static string readFile(const string& path) { string s; int fd = open(path.c_str(), O_RDONLY); if (fd < 0) { out("cannot read " + path + "\n"); _exit(3); } char b[65536]; ssize_t r; while ((r = read(fd, b, sizeof b)) > 0) s.append(b, r); close(fd); return s; }
static const char* clsName[NCLS] = {"open_in", "read", "close_in", "open_out", "write", "seek", "close_out", "fstat", "alloc", "disk_full", "kill", "other"};
static string statsJson(double wall, u64 corpus, u64 bases) {
  string s = "{"; Stats& t = *ST; u64 edges = 0; for (int i = 0; i < COVN; ++i) edges += S->cov[i] != 0;
  s += fmt("\"directed\":%llu,\"plans\":%llu,\"procs\":%llu,\"steps\":%llu,\"nontrivial\":%llu,\"skipped\":%llu,\"exit0\":%llu,\"exit_nonzero\":%llu,\"signals\":%llu,\"killed\":%llu,\"hangs\":%llu,\"escapes\":%llu,", (unsigned long long)t.directed, (unsigned long long)t.plans, (unsigned long long)t.procs, (unsigned long long)t.steps, (unsigned long long)t.nontrivial, (unsigned long long)t.skipped, (unsigned long long)t.exits0, (unsigned long long)t.exitsN, (unsigned long long)t.signals, (unsigned long long)t.killed, (unsigned long long)t.hangs, (unsigned long long)t.escapes);
  s += fmt("\"task_switches\":%llu,\"short_reads\":%llu,\"short_writes\":%llu,\"bytes_in\":%llu,\"bytes_out\":%llu,\"storage_ops\":%llu,\"allocs\":%llu,\"edges\":%llu,\"corpus\":%llu,\"bases\":%llu,\"distinct_traces\":%zu,\"distinct_plans\":%zu,\"wall\":%.2f,", (unsigned long long)t.switches, (unsigned long long)t.shortR, (unsigned long long)t.shortW, (unsigned long long)t.bytesIn, (unsigned long long)t.bytesOut, (unsigned long long)t.ops, (unsigned long long)t.allocs, (unsigned long long)edges, (unsigned long long)corpus, (unsigned long long)bases, t.traces->size(), t.plansSeen->size(), wall);
  s += "\"fired\":{"; for (int i = 0; i < NCLS; ++i) s += fmt("%s\"%s\":%llu", i ? "," : "", clsName[i], (unsigned long long)t.fired[i]); s += "},\"errno\":{"; bool f = true; for (int i = 0; i < 160; ++i) if (t.firedErr[i]) { s += fmt("%s\"%s\":%llu", f ? "" : ",", strerrorname_np(i), (unsigned long long)t.firedErr[i]); f = false; }
  s += "},\"in_kinds\":["; for (int i = 0; i < 6; ++i) s += fmt("%s%llu", i ? "," : "", (unsigned long long)t.inK[i]); s += "],\"out_kinds\":["; for (int i = 0; i < 7; ++i) s += fmt("%s%llu", i ? "," : "", (unsigned long long)t.outK[i]); s += "],\"by_prog\":["; for (int i = 0; i < NPROG; ++i) s += fmt("%s%llu", i ? "," : "", (unsigned long long)t.byProg[i]);
  s += "],\"probes\":{"; f = true; for (auto& k : *t.probes) { s += fmt("%s\"%s\":%llu", f ? "" : ",", esc(k.first).c_str(), (unsigned long long)k.second); f = false; } s += "},\"samples\":["; f = true; for (auto& k : *t.samples) { s += string(f ? "" : ",") + "\"" + esc(k) + "\""; f = false; } s += "]}\n"; return s;
}
// offsets of the places of the code under test that were executed, for the evidence
static void writePlaces(const string& path) { string s; for (u32 i = 0; i < PLACEN; ++i) if (S->place[i]) s.append((const char*)&i, 4); writeFile(path, s); }
static void onTerm(int) { _exit(4); }

int main(int argc, char** argv) {
  if (argc < 2) { out("usage: sim explore|replay|hash ...\n"); return 3; }
  signal(SIGTERM, onTerm); signal(SIGPIPE, SIG_IGN);
  sim_init_shared(); ST = new Stats(); ST->traces = new std::unordered_set<u64>(); ST->plansSeen = new std::unordered_set<u64>(); ST->samples = new vector<string>(); ST->probes = new std::map<string, u64>(); canonCache = new std::pair<u64, Canon>(); canonCache->first = 0;
  string mode = argv[1];
  if (mode == "replay") {
    Plan p; string cls, t = readFile(argv[2]); if (!parsePlan(t, p, cls)) { out("malformed replay file\n"); return 3; }
    g_trace = argc > 3; Verdict v = runPlan(p);
    if (g_trace) { out(g_traceText); }
    if (v.bad()) { out("class " + v.cls + "\ndetail " + v.detail + "\n"); return 1; }
    out("property held\n"); return 0;
  }
  if (mode == "directed") { Plan p; if (!directed(argv[2], argv[3], strtoull(argv[4], 0, 10), strtoull(argv[5], 0, 10), p)) { out("none\n"); return 3; } out(planText(p)); return 0; }
  // explore prop variant seed worker seconds outprefix maxbases [K]
  string prop = argv[2], variant = argv[3]; u64 seed = strtoull(argv[4], 0, 10); int worker = atoi(argv[5]); double secs = atof(argv[6]); string pre = argv[7]; u64 maxb = strtoull(argv[8], 0, 10); int K = argc > 9 ? atoi(argv[9]) : 16;
  double slowest = 0; string slowPlan; double t0 = now(); u64 ph = hash_bytes((const u8*)prop.data(), prop.size()); vector<Plan>* corpus = new vector<Plan>(); u64 bases = 0; string log;
  bool hashMode = mode == "hash"; u64 H = 0, dirEnd = 0;
  auto finish = [&]() { writePlaces(pre + ".places"); if (getenv("SIM_SLOWEST")) out(fmt("slowest plan %.1f s\n", slowest) + slowPlan); writeFile(pre + ".json", statsJson(now() - t0, corpus->size(), bases)); };
  // a plan that is still running long after the time is up is given up (no verdict, counted as skipped)
  if (!hashMode) { g_hardEnd = t0 + secs * 1.3 + 30; g_giveUp = [&]() { ST->skipped++; finish(); _exit(0); }; }
  for (; bases < maxb && now() - t0 < secs; ++bases) {
    Rng r(hmix(hmix(hmix(seed, ph), worker), bases));
    // every worker takes the short lengths, the other directed plans are shared; later they come back with other details
    Plan b; u64 h2 = bases / 2; bool dir = false;
    if (bases % 2 == 0) {
      if (h2 < 41) dir = directed(prop, variant, h2, seed * 8 + worker, b);
      else if (!dirEnd) { dir = directed(prop, variant, 41 + (u64)worker + 8 * (h2 - 41), seed, b); if (!dir) dirEnd = 41 + (u64)worker + 8 * (h2 - 41); }
      else if (dirEnd > 49 && r.chance(40)) { dir = directed(prop, variant, r.below(dirEnd), seed + 1 + r.below(1000), b); if (dir && planLen(b) > 3500000) dir = false; }
    }
    if (dir) ++ST->directed;
    else b = (!hashMode && corpus->size() && r.chance(25)) ? normalise(mutate((*corpus)[r.below(corpus->size())], r), r) : genBase(prop, variant, r);
    lastNewCov = 0; canonCache->first = 0;
    vector<Plan> v = expand(b, r, K); bool more = false;
    for (auto& p : v) {
      string t = planText(p); u64 h = hash_bytes((const u8*)t.data(), t.size()); ST->plansSeen->insert(h);
      double tp = now(); Verdict vd = runPlan(p); tp = now() - tp; if (tp > slowest) { slowest = tp; slowPlan = t; }
      if (hashMode) { H = hmix(hmix(H, h), S->rep.tracehash ^ S->rep.steps ^ (S->rep.peak << 20) ^ ((u64)S->rep.end << 50)); H = hmix(H, vd.cls.size()); if (bases % 10 == 0) {} continue; }
      if (ST->samples->size() < 3 && ST->nontrivial > 5 && r.chance(10)) ST->samples->push_back(t);
      if (vd.bad()) {
        g_hardEnd = 0;
        // gate: the same plan must give the same verdict and the same trace again
        canonCache->first = 0; Verdict v1 = runPlan(p); u64 h1 = S->rep.tracehash; canonCache->first = 0; Verdict v2 = runPlan(p); u64 h2 = S->rep.tracehash;
        if (v1.cls != vd.cls || v2.cls != vd.cls || h1 != h2) { out("NONDETERMINISTIC " + vd.cls + " / " + v1.cls + " / " + v2.cls + "\n" + t); writeFile(pre + ".json", statsJson(now() - t0, corpus->size(), bases)); return 3; }
        double tFound = now() - t0; g_deadline = now() + 25; Plan m = minimise(p, vd.cls); canonCache->first = 0; Verdict vm = runPlan(m);
        writeFile(pre + ".replay", "# " + vm.detail + "\n# seed " + fmt("%llu worker %d base %llu, found after %.1f s", (unsigned long long)seed, worker, (unsigned long long)bases, tFound) + "\nclass " + vm.cls + "\n" + planText(m));
        writeFile(pre + ".json", statsJson(now() - t0, corpus->size(), bases));
        out("FOUND " + vm.cls + " " + vm.detail + "\n"); return 1;
      }
      if (now() - t0 > secs * 1.5 + 20) break;
    }
    if (lastNewCov && corpus->size() < 400) { b.a.f.clear(); b.b.f.clear(); corpus->push_back(b); }
  }
  if (hashMode) { out(fmt("%016llx %llu\n", (unsigned long long)H, (unsigned long long)ST->procs)); return 0; }
  finish(); return 0;
}
