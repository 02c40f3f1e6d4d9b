// Library-level simulated processes: callers of the Compressor/Decompressor
// classes and of the stream classes, through their public interfaces only.
#define MAIN
#include "globaldefs.hpp"
#include "Compressor.hpp"
#include "Decompressor.hpp"
#include "Streams.hpp"
#include "sim.h"
#include <cstdlib>
#include <cstring>
#include <new>
#include <stdexcept>
#include <string>
#include <vector>

// A caller's own streams (the library accepts any InStream/OutStream). Given "N@K" they are
// those of file N and give up, by an exception, at byte K.
namespace {
static size_t limitOf(const char* a) { const char* c = strchr(a, '@'); return c ? strtoull(c + 1, 0, 10) : ~(size_t)0; }
class VecIn : public bwtc::InStream {
  const u8* d; size_t n, p, lim; int bit;
 public:
  explicit VecIn(const char* a) : d(FDATA[atoi(a)]), n(S->node[atoi(a)].size), p(0), lim(limitOf(a)), bit(0) {}
  void over() { exit(9); }
  size_t readBlock(bwtc::byte* to, size_t m) { flushBuffer(); size_t k = m < n - p ? m : n - p; if (p + k > lim) throw std::runtime_error("source"); memcpy(to, d + p, k); p += k; return k; }
  bool readBit() { if (p >= lim) throw std::runtime_error("source"); if (p >= n) over(); bool b = (d[p] >> (7 - bit)) & 1; if (++bit == 8) { bit = 0; ++p; } return b; }
  bwtc::byte readByte() { unsigned v = 0; for (int i = 0; i < 8; ++i) v = v << 1 | readBit(); return v; }
  void flushBuffer() { if (bit) { bit = 0; ++p; } }
  u64 read48bits() { u64 v = 0; for (int i = 0; i < 6; ++i) v = v << 8 | readByte(); return v; }
  bool compressedDataEnding() { return p >= n; }
};
class VecOut : public bwtc::OutStream {
  int ino; std::vector<bwtc::byte> v; size_t lim;
  void room() { if (v.size() > lim) throw std::runtime_error("target"); }
 public:
  explicit VecOut(const char* a) : ino(atoi(a)), lim(limitOf(a)) {}
  ~VecOut() { if (v.size()) memcpy(FDATA[ino], &v[0], v.size()); S->node[ino].size = v.size(); S->node[ino].touched |= 1; }
  void writeByte(bwtc::byte b) { v.push_back(b); room(); }
  void writeBlock(const bwtc::byte* b, const bwtc::byte* e) { v.insert(v.end(), b, e); room(); }
  long int getPos() { return v.size(); }
  void write48bits(u64 x, long int p) { if (p < 0 || (size_t)p + 6 > v.size()) exit(9); for (int i = 0; i < 6; ++i) v[p + i] = x >> (8 * (5 - i)); }
  void flush() {}
};
}

// argv: { C in out prepr mem enc bwt starts | D in out | V verbosity } ...
// c, d: the same with the caller's own streams, in and out being inode numbers
static int lib_op(int argc, char** argv, u64* notes, int* nnotes) {
#define NOTE(x) do { u64 v_ = (x); if (notes) notes[(*nnotes)++] = v_; else sim_note(v_); } while (0)
  for (int i = 0; i < argc;) {
    if (!strcmp(argv[i], "C")) {
      bwtc::Compressor c(argv[i + 1], argv[i + 2], argv[i + 3], strtoull(argv[i + 4], 0, 10), argv[i + 5][0]);
      c.initializeBwtAlgorithm(argv[i + 6][0], atoi(argv[i + 7]));
      NOTE(c.compress(1));
      i += 8;
    } else if (!strcmp(argv[i], "D")) {
      bwtc::Decompressor d(argv[i + 1], argv[i + 2]);
      NOTE(d.decompress(1));
      i += 3;
    } else if (!strcmp(argv[i], "V")) { bwtc::verbosity = atoi(argv[i + 1]); i += 2; }
    else if (!strcmp(argv[i], "c")) {
      bwtc::Compressor c(new VecIn(argv[i + 1]), new VecOut(argv[i + 2]), argv[i + 3], strtoull(argv[i + 4], 0, 10), argv[i + 5][0]);
      c.initializeBwtAlgorithm(argv[i + 6][0], atoi(argv[i + 7]));
      NOTE(c.compress(1));
      i += 8;
    } else if (!strcmp(argv[i], "d")) {
      bwtc::Decompressor d(new VecIn(argv[i + 1]), new VecOut(argv[i + 2]));
      NOTE(d.decompress(1));
      i += 3;
    } else return 2;
  }
  return 0;
}
extern "C" int lib_main(int argc, char** argv) { bwtc::verbosity = 0; try { return lib_op(argc - 1, argv + 1, 0, 0); } catch (const std::exception&) { return 7; } }
// One operation after the other; one that fails by an exception is noted and the next one goes on.
static int lib_ops(int argc, char** argv, u64* notes, int* nnotes) {
  for (int i = 0; i < argc;) {
    int n = argv[i][0] == 'C' || argv[i][0] == 'c' ? 8 : 3, rc = 0;
    try { rc = lib_op(n, argv + i, notes, nnotes); } catch (const std::exception&) { notes[(*nnotes)++] = ~(u64)0; }
    if (rc) return rc; i += n;
  }
  return 0;
}

// Several callers in one process: argv is "ops of task 0 | ops of task 1 | ...".
struct Caller { int argc; char** argv; u64 notes[16]; int nnotes, rc; };
static void caller(void* p) { Caller* c = (Caller*)p; c->rc = lib_ops(c->argc, c->argv, c->notes, &c->nnotes); }
extern "C" int conc_main(int argc, char** argv) {
  bwtc::verbosity = 0; Caller c[4]; int n = 0, from = 1;
  for (int i = 1; i <= argc && n < 4; ++i) if (i == argc || !strcmp(argv[i], "|")) { c[n].argc = i - from; c[n].argv = argv + from; c[n].nnotes = 0; c[n].rc = 0; ++n; from = i + 1; }
  for (int i = 0; i < n; ++i) sim_spawn(caller, &c[i]);
  sim_run_tasks();
  for (int i = 0; i < n; ++i) { if (c[i].rc) return c[i].rc; for (int k = 0; k < c[i].nnotes; ++k) sim_note(c[i].notes[k]); }
  return 0;
}

// argv: stream W|R name ino scriptino nops ; the script lies in a simulated file as
// {u32 op, u32 a, u64 b} records, the payload of block writes comes from a hash.
struct SOp { u32 k, a; u64 b; };
extern "C" int stream_main(int, char** argv) {
  const SOp* op = (const SOp*)FDATA[atoi(argv[4])]; int n = atoi(argv[5]); int ino = atoi(argv[3]);
  if (argv[1][0] == 'W') {
    bwtc::RawOutStream out(argv[2]);
    std::vector<long> pos; std::vector<bwtc::byte> buf;
    for (int i = 0; i < n; ++i) switch (op[i].k) {
      case 0: out.writeByte((bwtc::byte)op[i].a); break;
      case 1: buf.resize(op[i].a + 1); for (u32 j = 0; j < op[i].a; ++j) buf[j] = (u8)mix64(op[i].b + j);
              out.writeBlock(&buf[0], &buf[0] + op[i].a); break;
      case 2: pos.push_back(out.getPos()); sim_note(pos.back()); break;
      case 3: out.write48bits(op[i].b, pos[op[i].a]); break;
      case 4: { out.flush(); u64 sz, h = sim_file_hash(ino, &sz); sim_note(sz); sim_note(h); break; }
    }
  } else {
    bwtc::RawInStream in(argv[2]); std::vector<bwtc::byte> buf;
    for (int i = 0; i < n; ++i) switch (op[i].k) {
      case 0: sim_note(in.readByte()); break;
      case 1: { buf.assign(op[i].a + 1, 0x5A); size_t r = in.readBlock(&buf[0], op[i].a); sim_note(r);
                sim_note(hash_bytes(&buf[0], op[i].a + 1)); break; }
      case 2: sim_note(in.readBit()); break;
      case 3: sim_note(in.read48bits()); break;
      case 4: in.flushBuffer(); break;
      case 5: sim_note(in.compressedDataEnding()); break;
    }
  }
  return 0;
}
