#pragma once
#include "expr.h"
#include "ir.h"
#include <array>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

struct V {
  uint64_t c = 0;
  E e = nullptr;
  V() {}
  V(uint64_t x) : c(x), e(nullptr) {}
  V(uint64_t x, E y) : c(x), e(y) {}
  static V of(E e) { return isC(e) ? V(e->k) : V(0, e); }
  bool sym() const { return e != nullptr; }
  bool operator==(const V &o) const { return e == o.e && (e || c == o.c); }
};
inline E toE(const V &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

const unsigned CH = 256; // bytes per memory chunk
struct SB { E e; uint8_t i; }; // e==null,i==255: uninitialised; e==null: concrete
struct Chunk {
  uint8_t b[CH];
  std::unique_ptr<SB[]> s;
  Chunk() { memset(b, 0, CH); }
  Chunk(const Chunk &o)
  {
    memcpy(b, o.b, CH);
    if (o.s) { s.reset(new SB[CH]); memcpy(s.get(), o.s.get(), sizeof(SB) * CH); }
  }
};
typedef std::shared_ptr<Chunk> ChunkP;
struct ObjData { std::vector<ChunkP> ch; };
enum ObjKind : uint8_t { K_NONE, K_GLOBAL, K_HEAP, K_STACK, K_REDIR };
struct Obj {
  uint64_t size = 0;
  std::shared_ptr<ObjData> d;
  ObjKind kind = K_NONE;
  bool freed = false, ro = false;
  uint8_t how = 0; // 1 malloc 2 new 3 new[]
  uint32_t redirect = 0;
  uint32_t loc = 0;
};
const unsigned PG = 64;
struct Page { Obj o[PG]; };

struct LoopIt { uint32_t header, it; };
struct Frame {
  Func *f = nullptr;
  uint32_t blk = 0, ip = 0;
  std::vector<V> regs;
  std::vector<uint32_t> allocas;
  std::vector<LoopIt> loops;
};
typedef std::shared_ptr<Frame> FrameP;
struct Thread {
  std::vector<FrameP> fr;
  V lp0, lp1;            // landingpad values
  std::vector<std::pair<uint64_t, uint64_t>> caught; // (obj, ti)
};
struct Out { std::string name; E e; };
// happens-before race detection (option --race)
const unsigned RT = 8; // threads tracked
struct RCell { uint16_t w = 0, r[RT] = {0}; uint8_t wt = 0; uint32_t wl = 0, rl = 0; };
struct RChunk { RCell u; std::vector<RCell> c; }; // c empty: every byte of the chunk is like u
struct RShadow { std::vector<std::shared_ptr<RChunk>> ch; };
typedef std::array<uint16_t, RT> VC;
struct State {
  uint32_t id = 0;
  std::vector<E> pc;
  ModelP model;
  std::vector<std::shared_ptr<Page>> pages;
  uint32_t nextId = 0;
  std::vector<Thread> th;
  int cur = 0;
  uint64_t steps = 0;
  std::map<std::string, uint32_t> symCount;
  std::vector<Out> outs;
  std::vector<uint32_t> key;
  std::map<uint64_t, uint64_t> excTi;
  std::vector<uint32_t> reached;
  std::array<VC, RT> vc{};
  std::map<uint64_t, VC> sync;
  std::map<uint32_t, std::shared_ptr<RShadow>> shadow;
};
