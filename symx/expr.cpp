#include "expr.h"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <unordered_set>
#include <z3.h>

std::vector<VarInfo> g_vars;
SolverStats g_stats;
unsigned g_queryTimeoutMs = 60000;
const char *g_dumpDir = nullptr;

// ---------------------------------------------------------------- var sets
static std::vector<std::vector<uint32_t>> g_vsets{{}};
static std::map<std::vector<uint32_t>, uint32_t> g_vsetIdx{{{}, 0}};
static std::unordered_map<uint64_t, uint32_t> g_vsetUnion;
const std::vector<uint32_t> &varsOf(uint32_t s) { return g_vsets[s]; }
static uint32_t internSet(std::vector<uint32_t> &&v)
{
  auto it = g_vsetIdx.find(v);
  if (it != g_vsetIdx.end()) return it->second;
  uint32_t id = g_vsets.size();
  g_vsets.push_back(v);
  g_vsetIdx.emplace(std::move(v), id);
  return id;
}
static uint32_t unionSet(uint32_t a, uint32_t b)
{
  if (a == b || b == 0) return a;
  if (a == 0) return b;
  if (a > b) std::swap(a, b);
  uint64_t key = ((uint64_t)a << 32) | b;
  auto it = g_vsetUnion.find(key);
  if (it != g_vsetUnion.end()) return it->second;
  std::vector<uint32_t> r;
  std::set_union(g_vsets[a].begin(), g_vsets[a].end(), g_vsets[b].begin(), g_vsets[b].end(), std::back_inserter(r));
  uint32_t id = internSet(std::move(r));
  g_vsetUnion[key] = id;
  return id;
}

// ---------------------------------------------------------------- concrete
static inline float f32(uint64_t b) { uint32_t u = (uint32_t)b; float f; memcpy(&f, &u, 4); return f; }
static inline double f64(uint64_t b) { double f; memcpy(&f, &b, 8); return f; }
static inline uint64_t bf(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static inline uint64_t bd(double f) { uint64_t u; memcpy(&u, &f, 8); return u; }

uint64_t evalOp2(Op op, unsigned w, uint64_t a, uint64_t b)
{
  uint64_t m = maskw(w);
  switch (op) {
    case O_ADD: return (a + b) & m;
    case O_SUB: return (a - b) & m;
    case O_MUL: return (a * b) & m;
    case O_UDIV: return b == 0 ? m : (a / b) & m;
    case O_UREM: return b == 0 ? a : (a % b) & m;
    case O_SDIV: {
      int64_t x = sx(a, w), y = sx(b, w);
      if (y == 0) return x < 0 ? 1 : m;
      if (y == -1) return (uint64_t)(0 - (uint64_t)x) & m;
      return (uint64_t)(x / y) & m;
    }
    case O_SREM: {
      int64_t x = sx(a, w), y = sx(b, w);
      if (y == 0) return a;
      if (y == -1) return 0;
      return (uint64_t)(x % y) & m;
    }
    case O_AND: return a & b;
    case O_OR: return a | b;
    case O_XOR: return a ^ b;
    case O_SHL: return b >= w ? 0 : (a << b) & m;
    case O_LSHR: return b >= w ? 0 : (a >> b);
    case O_ASHR: return (uint64_t)(sx(a, w) >> (b >= w ? w - 1 : b)) & m;
    case O_EQ: return a == b;
    case O_ULT: return a < b;
    case O_ULE: return a <= b;
    case O_SLT: return sx(a, w) < sx(b, w);
    case O_SLE: return sx(a, w) <= sx(b, w);
    case O_FADD: return w == 32 ? bf(f32(a) + f32(b)) : bd(f64(a) + f64(b));
    case O_FSUB: return w == 32 ? bf(f32(a) - f32(b)) : bd(f64(a) - f64(b));
    case O_FMUL: return w == 32 ? bf(f32(a) * f32(b)) : bd(f64(a) * f64(b));
    case O_FDIV: return w == 32 ? bf(f32(a) / f32(b)) : bd(f64(a) / f64(b));
    case O_FREM: return w == 32 ? bf(fmodf(f32(a), f32(b))) : bd(fmod(f64(a), f64(b)));
    case O_FLT: return w == 32 ? f32(a) < f32(b) : f64(a) < f64(b);
    case O_FLE: return w == 32 ? f32(a) <= f32(b) : f64(a) <= f64(b);
    case O_FEQ: return w == 32 ? f32(a) == f32(b) : f64(a) == f64(b);
    case O_FUNO: return w == 32 ? (std::isnan(f32(a)) || std::isnan(f32(b))) : (std::isnan(f64(a)) || std::isnan(f64(b)));
    default: abort();
  }
}
uint64_t evalFUn(Op op, unsigned w, uint64_t a)
{
  if (op == O_FNEG) return a ^ (1ull << (w - 1));
  if (op == O_FABS) return a & ~(1ull << (w - 1));
  if (w == 32) {
    float f = f32(a);
    switch (op) {
      case O_FSQRT: return bf(sqrtf(f));
      case O_FCEIL: return bf(ceilf(f));
      case O_FFLOOR: return bf(floorf(f));
      case O_FTRUNC: return bf(truncf(f));
      case O_FROUND: return bf(roundf(f));
      case O_FRINT: return bf(rintf(f));
      default: abort();
    }
  }
  double f = f64(a);
  switch (op) {
    case O_FSQRT: return bd(sqrt(f));
    case O_FCEIL: return bd(ceil(f));
    case O_FFLOOR: return bd(floor(f));
    case O_FTRUNC: return bd(trunc(f));
    case O_FROUND: return bd(round(f));
    case O_FRINT: return bd(rint(f));
    default: abort();
  }
}
uint64_t evalSItoFP(uint64_t a, unsigned wa, unsigned w)
{
  int64_t v = sx(a, wa);
  return w == 32 ? bf((float)v) : bd((double)v);
}
uint64_t evalUItoFP(uint64_t a, unsigned wa, unsigned w)
{
  a &= maskw(wa);
  return w == 32 ? bf((float)a) : bd((double)a);
}
uint64_t evalFPtoSI(uint64_t a, unsigned wa, unsigned w)
{
  double d = wa == 32 ? (double)f32(a) : f64(a);
  double lim = w == 32 ? 2147483648.0 : 9223372036854775808.0;
  double t = trunc(d);
  if (!(t >= -lim && t < lim)) return 1ull << (w - 1);
  return (uint64_t)(int64_t)t & maskw(w);
}
uint64_t evalFPExt(uint64_t a) { return bd((double)f32(a)); }
uint64_t evalFPTrunc(uint64_t a) { return bf((float)f64(a)); }

// ---------------------------------------------------------------- interning
struct Key {
  Op op; uint8_t w; uint64_t k; E a, b, c;
  bool operator==(const Key &o) const { return op == o.op && w == o.w && k == o.k && a == o.a && b == o.b && c == o.c; }
};
struct KeyH {
  size_t operator()(const Key &x) const
  {
    uint64_t h = x.op * 0x9E3779B97F4A7C15ull + x.w;
    auto mix = [&](uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
    mix(x.k); mix((uint64_t)x.a); mix((uint64_t)x.b); mix((uint64_t)x.c);
    return h;
  }
};
static std::unordered_map<Key, E, KeyH> g_tab;
static uint32_t g_nextId = 0;
static std::vector<Expr *> g_chunks;
static size_t g_chunkPos = 0;
static const size_t CH = 16384;

static void computeRange(Expr *e);

static E intern(Op op, unsigned w, uint64_t k, E a, E b, E c)
{
  Key key{op, (uint8_t)w, k, a, b, c};
  auto it = g_tab.find(key);
  if (it != g_tab.end()) return it->second;
  if (g_chunks.empty() || g_chunkPos == CH) {
    g_chunks.push_back((Expr *)malloc(sizeof(Expr) * CH));
    g_chunkPos = 0;
  }
  Expr *e = &g_chunks.back()[g_chunkPos++];
  e->op = op; e->w = w; e->k = k; e->a = a; e->b = b; e->c = c; e->id = g_nextId++;
  if (op == O_VAR) {
    e->vset = internSet({(uint32_t)k});
  } else {
    uint32_t vs = 0;
    if (a) vs = a->vset;
    if (b) vs = unionSet(vs, b->vset);
    if (c) vs = unionSet(vs, c->vset);
    e->vset = vs;
  }
  computeRange(e);
  g_tab.emplace(key, e);
  return e;
}

static inline int64_t sminw(unsigned w) { return w >= 64 ? INT64_MIN : -(1ll << (w - 1)); }
static inline int64_t smaxw(unsigned w) { return w >= 64 ? INT64_MAX : (1ll << (w - 1)) - 1; }

static void computeRange(Expr *e)
{
  unsigned w = e->w;
  e->umin = 0; e->umax = maskw(w); e->smin = sminw(w); e->smax = smaxw(w);
  bool us = false, ss = false; // which were set
  E a = e->a, b = e->b;
  typedef __int128 I;
  switch (e->op) {
    case O_CONST: e->umin = e->umax = e->k; e->smin = e->smax = sx(e->k, w); return;
    case O_ADD: {
      unsigned __int128 hi = (unsigned __int128)a->umax + b->umax;
      if (hi <= maskw(w)) { e->umin = a->umin + b->umin; e->umax = (uint64_t)hi; us = true; }
      I lo = (I)a->smin + b->smin, h2 = (I)a->smax + b->smax;
      if (lo >= sminw(w) && h2 <= smaxw(w)) { e->smin = (int64_t)lo; e->smax = (int64_t)h2; ss = true; }
      break;
    }
    case O_SUB: {
      if (a->umin >= b->umax) { e->umin = a->umin - b->umax; e->umax = a->umax - b->umin; us = true; }
      I lo = (I)a->smin - b->smax, h2 = (I)a->smax - b->smin;
      if (lo >= sminw(w) && h2 <= smaxw(w)) { e->smin = (int64_t)lo; e->smax = (int64_t)h2; ss = true; }
      break;
    }
    case O_MUL: {
      unsigned __int128 hi = (unsigned __int128)a->umax * b->umax;
      if (hi <= maskw(w)) { e->umin = a->umin * b->umin; e->umax = (uint64_t)hi; us = true; }
      I p[4] = {(I)a->smin * b->smin, (I)a->smin * b->smax, (I)a->smax * b->smin, (I)a->smax * b->smax};
      I lo = *std::min_element(p, p + 4), h2 = *std::max_element(p, p + 4);
      if (lo >= sminw(w) && h2 <= smaxw(w)) { e->smin = a == b && lo < 0 ? 0 : (int64_t)lo; e->smax = (int64_t)h2; ss = true; }
      break;
    }
    case O_UDIV: if (b->umin > 0) { e->umin = a->umin / b->umax; e->umax = a->umax / b->umin; us = true; } break;
    case O_UREM: if (b->umin > 0) { e->umax = std::min(a->umax, b->umax - 1); us = true; } else { e->umax = a->umax > b->umax ? a->umax : std::max(a->umax, b->umax); us = true; } break;
    case O_SDIV: if (a->smin >= 0 && b->smin > 0) { e->smin = a->smin / b->smax; e->smax = a->smax / b->smin; ss = true; } break;
    case O_SREM: if (b->smin > 0) { int64_t m = b->smax - 1; e->smin = a->smin >= 0 ? 0 : -m; e->smax = a->smax <= 0 ? 0 : std::min(m, a->smax); ss = true; } break;
    case O_AND: e->umax = std::min(a->umax, b->umax); us = true; break;
    case O_OR: {
      uint64_t m = a->umax | b->umax; int n = m ? 64 - __builtin_clzll(m) : 0;
      e->umax = n >= 64 ? ~0ull : ((1ull << n) - 1); e->umin = std::max(a->umin, b->umin); us = true; break;
    }
    case O_XOR: {
      uint64_t m = a->umax | b->umax; int n = m ? 64 - __builtin_clzll(m) : 0;
      e->umax = n >= 64 ? ~0ull : ((1ull << n) - 1); us = true; break;
    }
    case O_SHL: if (isC(b) && b->k < w) { unsigned __int128 hi = (unsigned __int128)a->umax << b->k; if (hi <= maskw(w)) { e->umin = a->umin << b->k; e->umax = (uint64_t)hi; us = true; } } break;
    case O_LSHR: if (isC(b) && b->k < w) { e->umin = a->umin >> b->k; e->umax = a->umax >> b->k; us = true; } else { e->umax = a->umax; us = true; } break;
    case O_ASHR: if (isC(b)) { unsigned s = b->k >= w ? w - 1 : b->k; e->smin = a->smin >> s; e->smax = a->smax >> s; ss = true; } break;
    case O_ITE:
      e->umin = std::min(b->umin, e->c->umin); e->umax = std::max(b->umax, e->c->umax);
      e->smin = std::min(b->smin, e->c->smin); e->smax = std::max(b->smax, e->c->smax);
      return;
    case O_ZEXT: e->umin = a->umin; e->umax = a->umax; us = true; break;
    case O_SEXT: e->smin = a->smin; e->smax = a->smax; ss = true; break;
    case O_EXTRACT: if (e->k == 0) {
        if (a->umax <= maskw(w)) { e->umin = a->umin; e->umax = a->umax; us = true; }
        if (a->smin >= sminw(w) && a->smax <= smaxw(w)) { e->smin = a->smin; e->smax = a->smax; ss = true; }
      } else { uint64_t hi = a->umax >> e->k; if (hi <= maskw(w)) { e->umin = a->umin >> e->k; e->umax = hi; us = true; } }
      break;
    case O_CONCAT: e->umin = (a->umin << b->w) | b->umin; e->umax = (a->umax << b->w) | b->umax; us = true; break;
    default: break;
  }
  // cross-derive
  if (us && e->umax <= (uint64_t)smaxw(w)) {
    e->smin = std::max(e->smin, (int64_t)e->umin); e->smax = std::min(e->smax, (int64_t)e->umax);
  }
  if (us && w < 64 && e->umin > (uint64_t)smaxw(w)) {
    e->smin = std::max(e->smin, sx(e->umin, w)); e->smax = std::min(e->smax, sx(e->umax, w));
  }
  if (ss && e->smin >= 0) {
    e->umin = std::max(e->umin, (uint64_t)e->smin); e->umax = std::min(e->umax, (uint64_t)e->smax);
  }
}

// ---------------------------------------------------------------- builders
E mkVar(const std::string &name, unsigned w)
{
  // an input is the same variable on every path that reads it (each path reads it once)
  static std::unordered_map<std::string, E> byName;
  if (name.compare(0, 6, "uninit") == 0) {
    g_vars.push_back({name, w});
    return intern(O_VAR, w, g_vars.size() - 1, nullptr, nullptr, nullptr);
  }
  E &v = byName[name + ":" + std::to_string(w)];
  if (!v) {
    g_vars.push_back({name, w});
    v = intern(O_VAR, w, g_vars.size() - 1, nullptr, nullptr, nullptr);
  }
  return v;
}
E mkConst(uint64_t v, unsigned w) { return intern(O_CONST, w, v & maskw(w), nullptr, nullptr, nullptr); }
static inline bool isTrue(E e) { return isC(e) && e->w == 1 && e->k == 1; }
static inline bool isFalse(E e) { return isC(e) && e->w == 1 && e->k == 0; }

E mkNot(E a)
{
  if (isC(a)) return mkConst(a->k ^ 1, 1);
  if (a->op == O_XOR && isC(a->b) && a->b->k == 1) return a->a;
  // not (a<b) = b<=a
  if (a->op == O_ULT) return intern(O_ULE, 1, 0, a->b, a->a, nullptr);
  if (a->op == O_ULE) return intern(O_ULT, 1, 0, a->b, a->a, nullptr);
  if (a->op == O_SLT) return intern(O_SLE, 1, 0, a->b, a->a, nullptr);
  if (a->op == O_SLE) return intern(O_SLT, 1, 0, a->b, a->a, nullptr);
  return intern(O_XOR, 1, 0, a, mkConst(1, 1), nullptr);
}
static bool isNotOf(E x, E y) // x == !y
{
  if (x->op == O_XOR && x->w == 1 && isC(x->b) && x->a == y) return true;
  if (y->op == O_XOR && y->w == 1 && isC(y->b) && y->a == x) return true;
  if ((x->op == O_ULT && y->op == O_ULE) || (x->op == O_ULE && y->op == O_ULT) || (x->op == O_SLT && y->op == O_SLE) || (x->op == O_SLE && y->op == O_SLT))
    return x->a == y->b && x->b == y->a;
  return false;
}
E mkAnd(E a, E b) { return mkBin(O_AND, a, b); }
E mkOr(E a, E b) { return mkBin(O_OR, a, b); }

static E narrow(E e);
E mkBin(Op op, E a, E b)
{
  unsigned w = a->w;
  if (op >= O_EQ && op <= O_SLE) return mkCmp(op, a, b);
  if (isC(a) && isC(b)) return mkConst(evalOp2(op, w, a->k, b->k), w);
  bool comm = op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR;
  if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  switch (op) {
    case O_ADD:
      if (isC(b)) {
        if (b->k == 0) return a;
        if (a->op == O_ADD && isC(a->b)) return mkBin(O_ADD, a->a, mkConst(a->b->k + b->k, w));
        if (a->op == O_ITE && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkBin(O_ADD, a->b, b), mkBin(O_ADD, a->c, b));
        if (a->op == O_SUB && isC(a->a)) return mkBin(O_SUB, mkConst(a->a->k + b->k, w), a->b);
      } else {
        if (a->op == O_SUB && isC(a->a) && a->a->k == 0) return mkBin(O_SUB, b, a->b);
        if (b->op == O_SUB && isC(b->a) && b->a->k == 0) return mkBin(O_SUB, a, b->b);
        // pull constants outward
        if (b->op == O_ADD && isC(b->b)) return mkBin(O_ADD, mkBin(O_ADD, a, b->a), b->b);
        if (a->op == O_ADD && isC(a->b)) return mkBin(O_ADD, mkBin(O_ADD, a->a, b), a->b);
        if (b->op == O_SUB && b->b == a) return b->a;
        if (a->op == O_SUB && a->b == b) return a->a;
        if (w == 64 && (a->op == O_SEXT || a->op == O_ZEXT) && (b->op == O_SEXT || b->op == O_ZEXT)) {
          __int128 lo = (__int128)a->smin + b->smin, hi = (__int128)a->smax + b->smax;
          if (lo >= sminw(32) && hi <= smaxw(32) && a->smin >= sminw(32) && a->smax <= smaxw(32) && b->smin >= sminw(32) && b->smax <= smaxw(32))
            return mkSext(mkBin(O_ADD, mkExtract(a, 0, 32), mkExtract(b, 0, 32)), 64);
        }
      }
      break;
    case O_SUB:
      if (isC(b)) return mkBin(O_ADD, a, mkConst(0 - b->k, w));
      if (a == b) return mkConst(0, w);
      if (isC(a) && b->op == O_ITE && (isC(b->b) || isC(b->c))) return mkIte(b->a, mkBin(O_SUB, a, b->b), mkBin(O_SUB, a, b->c));
      if (isC(a) && b->op == O_ADD && isC(b->b)) return mkBin(O_SUB, mkConst(a->k - b->b->k, w), b->a);
      if (isC(a) && b->op == O_SUB && isC(b->a)) return mkBin(O_ADD, b->b, mkConst(a->k - b->a->k, w));
      if (a->op == O_ADD) {
        if (a->a == b) return a->b;
        if (a->b == b) return a->a;
        if (isC(a->b)) {
          if (b->op == O_ADD && isC(b->b)) return mkBin(O_ADD, mkBin(O_SUB, a->a, b->a), mkConst(a->b->k - b->b->k, w));
          return mkBin(O_ADD, mkBin(O_SUB, a->a, b), a->b);
        }
      }
      if (b->op == O_ADD && isC(b->b)) return mkBin(O_ADD, mkBin(O_SUB, a, b->a), mkConst(0 - b->b->k, w));
      break;
    case O_MUL:
      // powers of two outside, so that products of the same factors are the same term
      if (!isC(b) && b->op == O_SHL && isC(b->b)) return mkBin(O_SHL, mkBin(O_MUL, a, b->a), b->b);
      if (!isC(b) && a->op == O_SHL && isC(a->b)) return mkBin(O_SHL, mkBin(O_MUL, a->a, b), a->b);
      if (isC(b)) {
        if (b->k == 0) return b;
        if (b->k == 1) return a;
        if (b->k == maskw(w) && w > 1) return mkBin(O_SUB, mkConst(0, w), a);
        if ((b->k & (b->k - 1)) == 0) return mkBin(O_SHL, a, mkConst(__builtin_ctzll(b->k), w));
        if (a->op == O_MUL && isC(a->b)) return mkBin(O_MUL, a->a, mkConst(a->b->k * b->k, w));
        if (a->op == O_ADD && isC(a->b)) return mkBin(O_ADD, mkBin(O_MUL, a->a, b), mkConst(a->b->k * b->k, w));
        if (a->op == O_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkConst(a->b->k * b->k, w), mkConst(a->c->k * b->k, w));
      } else if (w == 64) {
        // canonical: at the width the product needs
        __int128 p[4] = {(__int128)a->smin * b->smin, (__int128)a->smin * b->smax, (__int128)a->smax * b->smin, (__int128)a->smax * b->smax};
        __int128 lo = *std::min_element(p, p + 4), hi = *std::max_element(p, p + 4);
        if (lo >= sminw(32) && hi <= smaxw(32)) {
          E x = narrow(a), y = narrow(b);
          if (x->w <= 32 && y->w <= 32) return mkSext(mkBin(O_MUL, mkSext(x, 32), mkSext(y, 32)), 64);
        }
      }
      break;
    case O_UDIV: case O_SDIV:
      if (isC(b) && b->k == 1) return a;
      if (op == O_SDIV && a->smin >= 0 && b->smin >= 0) return mkBin(O_UDIV, a, b);
      if (op == O_UDIV && isC(b) && b->k && (b->k & (b->k - 1)) == 0) return mkBin(O_LSHR, a, mkConst(__builtin_ctzll(b->k), w));
      if (op == O_UDIV && b->umin > 0 && a->umax < b->umin) return mkConst(0, w);
      break;
    case O_UREM: case O_SREM:
      if (op == O_SREM && a->smin >= 0 && b->smin >= 0) return mkBin(O_UREM, a, b);
      if (isC(b) && b->k == 1) return mkConst(0, w);
      if (op == O_UREM && isC(b) && b->k && (b->k & (b->k - 1)) == 0) return mkBin(O_AND, a, mkConst(b->k - 1, w));
      if (op == O_UREM && b->umin > 0 && a->umax < b->umin) return a;
      break;
    case O_AND:
      if (a == b) return a;
      if (isC(b)) {
        if (b->k == 0) return b;
        if (b->k == maskw(w)) return a;
        if (((b->k + 1) & b->k) == 0) { // low mask
          unsigned n = __builtin_popcountll(b->k);
          if (a->umax <= b->k) return a;
          return mkZext(mkExtract(a, 0, n), w);
        }
        if (a->op == O_AND && isC(a->b)) return mkBin(O_AND, a->a, mkConst(a->b->k & b->k, w));
      }
      if (w == 1) {
        if (isNotOf(a, b)) return mkConst(0, 1);
        if (a->op == O_AND && (a->a == b || a->b == b)) return a;
        if (b->op == O_AND && (b->a == a || b->b == a)) return b;
        if (a->op == O_OR && (a->a == b || a->b == b)) return b;
        if (b->op == O_OR && (b->a == a || b->b == a)) return a;
      }
      break;
    case O_OR:
      if (a == b) return a;
      if (isC(b)) {
        if (b->k == 0) return a;
        if (b->k == maskw(w)) return b;
      }
      if (w == 1) {
        if (isNotOf(a, b)) return mkConst(1, 1);
        if (a->op == O_OR && (a->a == b || a->b == b)) return a;
        if (b->op == O_OR && (b->a == a || b->b == a)) return b;
        // (p & q) | (p & !q) = p
        if (a->op == O_AND && b->op == O_AND) {
          if (a->a == b->a && isNotOf(a->b, b->b)) return a->a;
          if (a->b == b->b && isNotOf(a->a, b->a)) return a->b;
          if (a->a == b->b && isNotOf(a->b, b->a)) return a->a;
          if (a->b == b->a && isNotOf(a->a, b->b)) return a->b;
        }
        // p | (!p & q) = p | q
        if (b->op == O_AND) { if (isNotOf(a, b->a)) return mkOr(a, b->b); if (isNotOf(a, b->b)) return mkOr(a, b->a); }
        if (a->op == O_AND) { if (isNotOf(b, a->a)) return mkOr(b, a->b); if (isNotOf(b, a->b)) return mkOr(b, a->a); }
      } else {
        // (x << n) | zext(y)  with y fitting in n bits -> concat
        for (int t = 0; t < 2; t++) {
          E hi = t ? b : a, lo = t ? a : b;
          if (hi->op == O_SHL && isC(hi->b)) {
            unsigned n = hi->b->k;
            if (n < w && n > 0 && lo->umax <= maskw(n))
              return mkConcat(mkExtract(hi->a, 0, w - n), mkExtract(lo, 0, n));
          }
          if (hi->op == O_CONCAT && isC(hi->b) && hi->b->k == 0 && lo->umax <= maskw(hi->b->w))
            return mkConcat(hi->a, mkExtract(lo, 0, hi->b->w));
        }
      }
      break;
    case O_XOR:
      if (a == b) return mkConst(0, w);
      if (isC(b)) {
        if (b->k == 0) return a;
        if (w == 1) return mkNot(a);
        if (a->op == O_XOR && isC(a->b)) return mkBin(O_XOR, a->a, mkConst(a->b->k ^ b->k, w));
      }
      break;
    case O_SHL:
      if (isC(b)) {
        if (b->k == 0) return a;
        if (b->k >= w) return mkConst(0, w);
      }
      break;
    case O_LSHR:
      if (isC(b)) {
        if (b->k == 0) return a;
        if (b->k >= w) return mkConst(0, w);
        return mkZext(mkExtract(a, b->k, w - b->k), w);
      }
      break;
    case O_ASHR:
      if (isC(b)) {
        if (b->k == 0) return a;
        unsigned s = b->k >= w ? w - 1 : b->k;
        if (a->smin >= 0) return mkBin(O_LSHR, a, mkConst(s, w));
        return mkSext(mkExtract(a, s, w - s), w);
      }
      break;
    default: break;
  }
  return intern(op, w, 0, a, b, nullptr);
}

static bool leafConstIte(E e, int d)
{
  if (isC(e)) return true;
  if (d == 0 || e->op != O_ITE) return false;
  return leafConstIte(e->b, d - 1) && leafConstIte(e->c, d - 1);
}

E mkCmp(Op op, E a, E b)
{
  unsigned w = a->w;
  if (isC(a) && isC(b)) return mkConst(evalOp2(op, w, a->k, b->k), 1);
  if (op == O_EQ) {
    if (a == b) return mkConst(1, 1);
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
    if (a->umax < b->umin || b->umax < a->umin || a->smax < b->smin || b->smax < a->smin) return mkConst(0, 1);
    if (w == 1) {
      if (isC(b)) return b->k ? a : mkNot(a);
      return mkNot(mkBin(O_XOR, a, b));
    }
    if (isC(b)) {
      if (a->op == O_ZEXT) return mkCmp(O_EQ, a->a, mkConst(b->k, a->a->w)); // range checked above
      if (a->op == O_SEXT) {
        if (sx(b->k, w) < sminw(a->a->w) || sx(b->k, w) > smaxw(a->a->w)) return mkConst(0, 1);
        return mkCmp(O_EQ, a->a, mkConst(b->k, a->a->w));
      }
      if (a->op == O_ADD && isC(a->b)) return mkCmp(O_EQ, a->a, mkConst(b->k - a->b->k, w));
      if (a->op == O_CONCAT) return mkAnd(mkCmp(O_EQ, a->a, mkConst(b->k >> a->b->w, a->a->w)), mkCmp(O_EQ, a->b, mkConst(b->k, a->b->w)));
      if (a->op == O_ITE && leafConstIte(a, 24)) return mkIte(a->a, mkCmp(O_EQ, a->b, b), mkCmp(O_EQ, a->c, b));
      if (a->op == O_SHL && isC(a->b)) {
        if (b->k & maskw(a->b->k)) return mkConst(0, 1);
        if (a->umax == ((a->a->umax << a->b->k) & maskw(w)) && a->a->umax <= (maskw(w) >> a->b->k)) return mkCmp(O_EQ, a->a, mkConst(b->k >> a->b->k, w));
      }
    } else {
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkCmp(O_EQ, a->a, b->a);
      if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mkCmp(O_EQ, a->a, b->a);
      if (a->op == O_ADD && isC(a->b) && b->op == O_ADD && isC(b->b) && a->b == b->b) return mkCmp(O_EQ, a->a, b->a);
      if (a->op == O_ADD && (a->a == b)) return mkCmp(O_EQ, a->b, mkConst(0, w));
      if (a->op == O_ADD && (a->b == b)) return mkCmp(O_EQ, a->a, mkConst(0, w));
      if (b->op == O_ADD && (b->a == a)) return mkCmp(O_EQ, b->b, mkConst(0, w));
      if (b->op == O_ADD && (b->b == a)) return mkCmp(O_EQ, b->a, mkConst(0, w));
    }
    return intern(O_EQ, 1, 0, a, b, nullptr);
  }
  if (a == b) return mkConst(op == O_ULE || op == O_SLE, 1);
  switch (op) {
    case O_ULT: if (a->umax < b->umin) return mkConst(1, 1); if (a->umin >= b->umax) return mkConst(0, 1); break;
    case O_ULE: if (a->umax <= b->umin) return mkConst(1, 1); if (a->umin > b->umax) return mkConst(0, 1); break;
    case O_SLT: if (a->smax < b->smin) return mkConst(1, 1); if (a->smin >= b->smax) return mkConst(0, 1); break;
    case O_SLE: if (a->smax <= b->smin) return mkConst(1, 1); if (a->smin > b->smax) return mkConst(0, 1); break;
    default: break;
  }
  // signed compare of non-negatives -> unsigned
  if ((op == O_SLT || op == O_SLE) && a->smin >= 0 && b->smin >= 0) return mkCmp(op == O_SLT ? O_ULT : O_ULE, a, b);
  // strip common extensions
  if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkCmp(op == O_SLT ? O_ULT : op == O_SLE ? O_ULE : op, a->a, b->a);
  if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w && (op == O_SLT || op == O_SLE)) return mkCmp(op, a->a, b->a);
  if ((op == O_ULT || op == O_ULE)) {
    if (a->op == O_ZEXT && isC(b) && b->k <= maskw(a->a->w)) return mkCmp(op, a->a, mkConst(b->k, a->a->w));
    if (b->op == O_ZEXT && isC(a) && a->k <= maskw(b->a->w)) return mkCmp(op, mkConst(a->k, b->a->w), b->a);
    // canonical: x <= c  ->  x < c+1 ; c <= x -> c-1 < x
    if (op == O_ULE && isC(b) && b->k != maskw(w)) return mkCmp(O_ULT, a, mkConst(b->k + 1, w));
    if (op == O_ULT && isC(a)) return mkCmp(O_ULE, mkConst(a->k + 1, w), b); // a->k == max is decided above
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w != b->a->w) {
      unsigned m = std::max(a->a->w, b->a->w);
      if (m < w) return mkCmp(op, mkZext(a->a, m), mkZext(b->a, m));
    }
  }
  if ((op == O_SLT || op == O_SLE)) {
    if (a->op == O_SEXT && isC(b) && sx(b->k, w) >= sminw(a->a->w) && sx(b->k, w) <= smaxw(a->a->w)) return mkCmp(op, a->a, mkConst(b->k, a->a->w));
    if (b->op == O_SEXT && isC(a) && sx(a->k, w) >= sminw(b->a->w) && sx(a->k, w) <= smaxw(b->a->w)) return mkCmp(op, mkConst(a->k, b->a->w), b->a);
    // the sign of a concatenation is the sign of its high part
    if (a->op == O_CONCAT && isC(b) && b->k == 0 && op == O_SLT) return mkCmp(op, a->a, mkConst(0, a->a->w));
    if (b->op == O_CONCAT && isC(a) && a->k == 0 && op == O_SLE) return mkCmp(op, mkConst(a->k, b->a->w), b->a);
    // x + c <s k with no overflow
    auto offs = [&](E p, E k, int64_t &r) {
      if (p->op != O_ADD || !isC(p->b) || !isC(k)) return false;
      __int128 cc = sx(p->b->k, w), lo = (__int128)p->a->smin + cc, hi = (__int128)p->a->smax + cc, t = (__int128)sx(k->k, w) - cc;
      if (lo < sminw(w) || hi > smaxw(w) || t < sminw(w) || t > smaxw(w)) return false;
      r = (int64_t)t;
      return true;
    };
    int64_t t_;
    if (offs(a, b, t_)) return mkCmp(op, a->a, mkConst((uint64_t)t_, w));
    if (offs(b, a, t_)) return mkCmp(op, mkConst((uint64_t)t_, w), b->a);
    if (op == O_SLE && isC(b) && sx(b->k, w) != smaxw(w)) return mkCmp(O_SLT, a, mkConst(b->k + 1, w));
    if (op == O_SLT && isC(a)) return mkCmp(O_SLE, mkConst(a->k + 1, w), b);
  }
  if (a->op == O_ITE && isC(b) && leafConstIte(a, 24)) return mkIte(a->a, mkCmp(op, a->b, b), mkCmp(op, a->c, b));
  if (b->op == O_ITE && isC(a) && leafConstIte(b, 24)) return mkIte(b->a, mkCmp(op, a, b->b), mkCmp(op, a, b->c));
  return intern(op, 1, 0, a, b, nullptr);
}

static E asScaled(E f, unsigned &k);
static E mkScaled(E x, unsigned k, unsigned w);
static bool shiftable(E x, unsigned k);
static bool intLim(unsigned fw, int64_t lo, int64_t hi);
E mkIte(E c, E a, E b)
{
  if (isC(c)) return c->k ? a : b;
  if (a == b) return a;
  if (a->w == 1) {
    if (isTrue(a) && isFalse(b)) return c;
    if (isFalse(a) && isTrue(b)) return mkNot(c);
    if (isTrue(a)) return mkOr(c, b);
    if (isFalse(a)) return mkAnd(mkNot(c), b);
    if (isTrue(b)) return mkOr(mkNot(c), a);
    if (isFalse(b)) return mkAnd(c, a);
  }
  if (c->op == O_XOR && c->w == 1 && isC(c->b)) return mkIte(c->a, b, a);
  if ((c->op == O_ULE || c->op == O_SLE) && isC(c->a)) return mkIte(mkNot(c), b, a);
  if (a->op == O_ITE && a->a == c) return mkIte(c, a->b, b);
  if (b->op == O_ITE && b->a == c) return mkIte(c, a, b->c);
  if (b->op == O_ITE && b->b == a) return mkIte(mkOr(c, b->a), a, b->c);
  // x == k ? k : x  -> x
  if (c->op == O_EQ && c->a == b && c->b == a) return b;
  // factor ite(c, SITOFP(x), SITOFP(y)) for exact conversions
  if (a->op == O_SITOFP && b->op == O_SITOFP && a->a->w == b->a->w) return mkSItoFP(mkIte(c, a->a, b->a), a->w);
  auto fl = [](E e) { return e->op == O_SITOFP || (e->op == O_FMUL && (isC(e->a) || isC(e->b))); };
  if ((fl(a) && (fl(b) || isC(b))) || (fl(b) && isC(a))) {
    unsigned ka, kb, w = a->w;
    E x = asScaled(a, ka), y = x ? asScaled(b, kb) : nullptr;
    if (x && y) {
      unsigned k = std::max(ka, kb);
      if (shiftable(x, k - ka) && shiftable(y, k - kb)) {
        E xs = k > ka ? mkBin(O_SHL, x, mkConst(k - ka, 64)) : x, ys = k > kb ? mkBin(O_SHL, y, mkConst(k - kb, 64)) : y;
        E r = mkIte(c, xs, ys);
        if (intLim(w, r->smin, r->smax)) return mkScaled(r, k, w);
      }
    }
  }
  if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkZext(mkIte(c, a->a, b->a), a->w);
  if (a->op == O_ZEXT && isC(b) && b->k <= maskw(a->a->w) && a->a->w > 1) return mkZext(mkIte(c, a->a, mkConst(b->k, a->a->w)), a->w);
  if (b->op == O_ZEXT && isC(a) && a->k <= maskw(b->a->w) && b->a->w > 1) return mkZext(mkIte(c, mkConst(a->k, b->a->w), b->a), b->w);
  return intern(O_ITE, a->w, 0, c, a, b);
}
E mkZext(E a, unsigned w)
{
  if (a->w == w) return a;
  if (isC(a)) return mkConst(a->k, w);
  if (a->op == O_ZEXT) return mkZext(a->a, w);
  if (a->op == O_ITE && leafConstIte(a, 24)) return mkIte(a->a, mkZext(a->b, w), mkZext(a->c, w));
  return intern(O_ZEXT, w, 0, a, nullptr, nullptr);
}
E mkSext(E a, unsigned w)
{
  if (a->w == w) return a;
  if (isC(a)) return mkConst((uint64_t)sx(a->k, a->w), w);
  if (a->smin >= 0) return mkZext(a, w);
  if (a->op == O_SEXT) return mkSext(a->a, w);
  if (a->op == O_ITE && leafConstIte(a, 24)) return mkIte(a->a, mkSext(a->b, w), mkSext(a->c, w));
  return intern(O_SEXT, w, 0, a, nullptr, nullptr);
}
// provable trailing zero bits of sums of constants, shifts and constant multiples
static unsigned lowZeros(E e)
{
  switch (e->op) {
    case O_CONST: return e->k ? __builtin_ctzll(e->k) : e->w;
    case O_SHL: return isC(e->b) ? (unsigned)std::min<uint64_t>(e->b->k, e->w) : 0;
    case O_MUL: return isC(e->b) && e->b->k ? __builtin_ctzll(e->b->k) : 0;
    case O_ADD: case O_SUB: return std::min(lowZeros(e->a), lowZeros(e->b));
    case O_CONCAT: return isC(e->b) && e->b->k == 0 ? e->b->w : 0;
    default: return 0;
  }
}
E mkExtract(E a, unsigned off, unsigned w)
{
  if (off == 0 && a->w == w) return a;
  if (isC(a)) return mkConst(a->k >> off, w);
  if (off < 64 && a->umax < (1ull << off)) return mkConst(0, w);
  switch (a->op) {
    case O_EXTRACT: return mkExtract(a->a, off + a->k, w);
    case O_ZEXT:
      if (off >= a->a->w) return mkConst(0, w);
      if (off + w <= a->a->w) return mkExtract(a->a, off, w);
      if (off == 0) return mkZext(a->a, w);
      return mkZext(mkExtract(a->a, off, a->a->w - off), w);
    case O_SEXT:
      if (off + w <= a->a->w) return mkExtract(a->a, off, w);
      if (off == 0) return mkSext(a->a, w);
      break;
    case O_CONCAT:
      if (off >= a->b->w) return mkExtract(a->a, off - a->b->w, w);
      if (off + w <= a->b->w) return mkExtract(a->b, off, w);
      return mkConcat(mkExtract(a->a, 0, off + w - a->b->w), mkExtract(a->b, off, a->b->w - off));
    case O_ITE:
      if (leafConstIte(a, 24) || isC(a->b) || isC(a->c)) return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->c, off, w));
      break;
    case O_AND: case O_OR: case O_XOR:
      return mkBin(a->op, mkExtract(a->a, off, w), mkExtract(a->b, off, w));
    case O_ADD: case O_SUB: case O_MUL:
      // high part of a sum of multiples of 2^off
      if (off && off + w == a->w && lowZeros(a) >= off) {
        if (a->op == O_MUL) {
          if (isC(a->b)) return mkBin(O_MUL, mkExtract(a->a, 0, w), mkConst(a->b->k >> off, w));
        } else return mkBin(a->op, mkExtract(a->a, off, w), mkExtract(a->b, off, w));
      }
      if (off == 0) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
      break;
    case O_SHL:
      if (isC(a->b) && a->b->k > 0 && a->b->k <= off) return mkExtract(a->a, off - a->b->k, w);
      if (off == 0 && isC(a->b)) { if (a->b->k >= w) return mkConst(0, w); return mkBin(O_SHL, mkExtract(a->a, 0, w), mkConst(a->b->k, w)); }
      break;
    default: break;
  }
  return intern(O_EXTRACT, w, off, a, nullptr, nullptr);
}
E mkConcat(E hi, E lo)
{
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkConst((hi->k << lo->w) | lo->k, w);
  if (isC(hi) && hi->k == 0) return mkZext(lo, w);
  if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a == lo->a && hi->k == lo->k + lo->w) return mkExtract(hi->a, lo->k, w);
  if (hi->op == O_EXTRACT && hi->a == lo && hi->k == lo->w) { }
  if (hi->op == O_ZEXT && hi->a->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a->a == lo->a && hi->a->k == lo->k + lo->w)
    return mkZext(mkConcat(hi->a, lo), w);
  if (hi->op == O_EXTRACT && lo->op == O_CONCAT && lo->a->op == O_EXTRACT && lo->a->a == hi->a && hi->k == lo->a->k + lo->a->w)
    return mkConcat(mkExtract(hi->a, lo->a->k, hi->w + lo->a->w), lo->b);
  return intern(O_CONCAT, w, 0, hi, lo, nullptr);
}

// ---- floats. An "exact integer" float is SITOFP(e) with |e| < 2^prec.
static bool intLim(unsigned fw, int64_t lo, int64_t hi)
{
  int64_t lim = fw == 32 ? (1ll << 24) : (1ll << 53);
  return lo >= -lim && hi <= lim;
}
// if f is provably the image of an integer expression, return it (sext'd 64 bit)
static E asInt(E f)
{
  if (f->op == O_SITOFP && intLim(f->w, f->a->smin, f->a->smax)) return mkSext(f->a, 64);
  if (isC(f)) {
    double d = f->w == 32 ? (double)f32(f->k) : f64(f->k);
    if (d == std::trunc(d) && std::fabs(d) <= (f->w == 32 ? 16777216.0 : 9007199254740992.0) && !(d == 0 && std::signbit(d)))
      return mkConst((uint64_t)(int64_t)d, 64);
  }
  return nullptr;
}
static E narrow(E e) // shrink a 64-bit signed expr to the smallest standard width holding its range
{
  for (unsigned w : {8u, 16u, 32u})
    if (e->w > w && e->smin >= sminw(w) && e->smax <= smaxw(w)) return mkExtract(e, 0, w);
  return e;
}
E mkSItoFP(E a, unsigned w)
{
  if (isC(a)) return mkConst(evalSItoFP(a->k, a->w, w), w);
  E x = narrow(mkSext(a, 64));
  if (!intLim(w, x->smin, x->smax)) x = a;
  return intern(O_SITOFP, w, 0, x, nullptr, nullptr);
}
E mkUItoFP(E a, unsigned w)
{
  if (isC(a)) return mkConst(evalUItoFP(a->k, a->w, w), w);
  if (a->umax <= (1ull << 62)) return mkSItoFP(a->w < 64 ? mkZext(a, 64) : a, w);
  return intern(O_UITOFP, w, 0, a, nullptr, nullptr);
}
// scaled integers: f == x * 2^-k exactly, k <= 20 (SITOFP(x), SITOFP(x) * 2^-k, or a dyadic constant)
static E asScaled(E f, unsigned &k)
{
  k = 0;
  if (E x = asInt(f)) return x;
  if (isC(f)) {
    double d = f->w == 32 ? (double)f32(f->k) : f64(f->k);
    for (unsigned t = 1; t <= 20; ++t) {
      double m = std::ldexp(d, (int)t);
      if (m == std::trunc(m) && std::fabs(m) <= (f->w == 32 ? 16777216.0 : 9007199254740992.0) && m != 0) { k = t; return mkConst((uint64_t)(int64_t)m, 64); }
    }
    return nullptr;
  }
  if (f->op == O_FMUL) {
    E c = isC(f->a) ? f->a : isC(f->b) ? f->b : nullptr, o = c == f->a ? f->b : f->a;
    if (!c) return nullptr;
    E x = o->op == O_SITOFP ? asInt(o) : nullptr;
    if (!x) return nullptr;
    double d = c->w == 32 ? (double)f32(c->k) : f64(c->k);
    for (unsigned t = 1; t <= 20; ++t) if (d == std::ldexp(1.0, -(int)t)) { k = t; return x; }
  }
  return nullptr;
}
static E mkScaled(E x, unsigned k, unsigned w)
{
  E f = mkSItoFP(narrow(x), w);
  if (!k) return f;
  E c;
  double d = std::ldexp(1.0, -(int)k);
  if (w == 32) { float q = (float)d; uint32_t u; memcpy(&u, &q, 4); c = mkConst(u, 32); }
  else { uint64_t u; memcpy(&u, &d, 8); c = mkConst(u, 64); }
  if (isC(f)) return mkConst(evalOp2(O_FMUL, w, f->k, c->k), w);
  if (f->id > c->id) std::swap(f, c);
  return intern(O_FMUL, w, 0, f, c, nullptr);
}
static bool shiftable(E x, unsigned k)
{
  int64_t lim = (int64_t)1 << (62 - k);
  return x->smin > -lim && x->smax < lim;
}
E mkFBin(Op op, E a, E b)
{
  unsigned w = a->w;
  if (isC(a) && isC(b)) return mkConst(evalOp2(op, w, a->k, b->k), w);
  if (op == O_FADD || op == O_FSUB || op == O_FMUL) {
    unsigned ka, kb;
    E x = asScaled(a, ka), y = x ? asScaled(b, kb) : nullptr;
    if (x && y && (ka || kb) && !(op == O_FMUL && ka + kb > 20)) {
      E r = nullptr;
      unsigned k = 0;
      if (op == O_FMUL) {
        bool xn = x->smin < 0, yn = y->smin < 0, xz = x->smin <= 0 && x->smax >= 0, yz = y->smin <= 0 && y->smax >= 0;
        if (x == y || !((xn && yz) || (yn && xz))) { r = mkBin(O_MUL, x, y); k = ka + kb; }
      } else {
        k = std::max(ka, kb);
        if (shiftable(x, k - ka) && shiftable(y, k - kb)) {
          E xs = k > ka ? mkBin(O_SHL, x, mkConst(k - ka, 64)) : x, ys = k > kb ? mkBin(O_SHL, y, mkConst(k - kb, 64)) : y;
          r = mkBin(op == O_FADD ? O_ADD : O_SUB, xs, ys);
        }
      }
      if (r && intLim(w, r->smin, r->smax) && r->smin != INT64_MIN) return mkScaled(r, k, w);
    }
  }
  if (op == O_FADD || op == O_FSUB || op == O_FMUL) {
    E x = asInt(a), y = asInt(b);
    if (x && y) {
      E r = mkBin(op == O_FADD ? O_ADD : op == O_FSUB ? O_SUB : O_MUL, x, y);
      bool ok = intLim(w, r->smin, r->smax) && r->smin != INT64_MIN;
      // -0.0 can only arise from a product of zero and a negative number
      if (ok && op == O_FMUL) {
        bool xn = x->smin < 0, yn = y->smin < 0, xz = x->smin <= 0 && x->smax >= 0, yz = y->smin <= 0 && y->smax >= 0;
        if (x != y && ((xn && yz) || (yn && xz))) ok = false;
      }
      if (ok) return mkSItoFP(narrow(r), w);
    }
  }
  if (op == O_FADD && a->id > b->id) std::swap(a, b);
  if (op == O_FMUL && a->id > b->id) std::swap(a, b);
  if (op == O_FDIV && isC(b)) {
    double d = w == 32 ? (double)f32(b->k) : f64(b->k);
    if (d == 1.0) return a;
    for (int t = 1; t <= 20; ++t) if (d == std::ldexp(1.0, t)) {
      double q = std::ldexp(1.0, -t);
      uint64_t u; memcpy(&u, &q, 8);
      float qf = (float)q; uint32_t uf; memcpy(&uf, &qf, 4);
      return mkFBin(O_FMUL, a, w == 32 ? mkConst(uf, 32) : mkConst(u, 64));
    }
  }
  if (op == O_FMUL) {
    for (int t = 0; t < 2; t++) {
      E kx = t ? a : b, o = t ? b : a;
      if (isC(kx)) { double d = w == 32 ? (double)f32(kx->k) : f64(kx->k); if (d == 1.0) return o; }
    }
  }
  return intern(op, w, 0, a, b, nullptr);
}
E mkFUn(Op op, E a)
{
  if (isC(a)) return mkConst(evalFUn(op, a->w, a->k), a->w);
  E x = asInt(a);
  if (x && (op == O_FCEIL || op == O_FFLOOR || op == O_FTRUNC || op == O_FROUND || op == O_FRINT)) return a;
  if (x && op == O_FABS) {
    if (x->smin >= 0) return a;
    return mkSItoFP(narrow(mkIte(mkCmp(O_SLT, x, mkConst(0, 64)), mkBin(O_SUB, mkConst(0, 64), x), x)), a->w);
  }
  if (!x) {
    unsigned k;
    E y = asScaled(a, k);
    if (y && k && y->smin > INT64_MIN / 4 && y->smax < INT64_MAX / 4) {
      E neg = mkBin(O_SUB, mkConst(0, 64), y), fl = mkBin(O_ASHR, y, mkConst(k, 64));
      E ce = mkBin(O_SUB, mkConst(0, 64), mkBin(O_ASHR, neg, mkConst(k, 64)));
      E isn = mkCmp(O_SLT, y, mkConst(0, 64));
      // a negative value that rounds to zero gives -0.0: only where the value is not negative
      if (op == O_FFLOOR) return mkSItoFP(narrow(fl), a->w);
      if (op == O_FTRUNC && y->smin >= 0) return mkSItoFP(narrow(fl), a->w);
      if (op == O_FCEIL && y->smin >= 0) return mkSItoFP(narrow(ce), a->w);
      if (op == O_FABS) return y->smin >= 0 ? a : mkScaled(mkIte(isn, neg, y), k, a->w);
      if (op == O_FNEG && (y->smin > 0 || y->smax < 0)) return mkScaled(neg, k, a->w);
    }
  }
  if (x && op == O_FNEG && (x->smin > 0 || x->smax < 0)) return mkSItoFP(narrow(mkBin(O_SUB, mkConst(0, 64), x)), a->w);
  return intern(op, a->w, 0, a, nullptr, nullptr);
}
// conservative real interval of a float expression (finite, never NaN) if known
struct FR { bool ok; double lo, hi; };
static std::unordered_map<uint32_t, FR> g_fr;
static FR frange(E e, int depth = 0)
{
  FR no{false, 0, 0};
  if (e->w != 32 && e->w != 64) return no;
  if (isC(e)) {
    double d = e->w == 32 ? (double)f32(e->k) : f64(e->k);
    if (!std::isfinite(d)) return no;
    return {true, d, d};
  }
  auto it = g_fr.find(e->id);
  if (it != g_fr.end()) return it->second;
  if (depth > 200) return no;
  FR r = no;
  bool widen = true;
  switch (e->op) {
    case O_SITOFP: r = {true, (double)e->a->smin, (double)e->a->smax}; break;
    case O_UITOFP: r = {true, (double)e->a->umin, (double)e->a->umax}; break;
    case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: {
      FR x = frange(e->a, depth + 1), y = x.ok ? frange(e->b, depth + 1) : no;
      if (!x.ok || !y.ok) break;
      if (e->op == O_FADD) r = {true, x.lo + y.lo, x.hi + y.hi};
      else if (e->op == O_FSUB) r = {true, x.lo - y.hi, x.hi - y.lo};
      else {
        if (e->op == O_FDIV && !(y.lo > 1e-30 || y.hi < -1e-30)) break;
        double v[4];
        if (e->op == O_FMUL) { v[0] = x.lo * y.lo; v[1] = x.lo * y.hi; v[2] = x.hi * y.lo; v[3] = x.hi * y.hi; }
        else { v[0] = x.lo / y.lo; v[1] = x.lo / y.hi; v[2] = x.hi / y.lo; v[3] = x.hi / y.hi; }
        r = {true, *std::min_element(v, v + 4), *std::max_element(v, v + 4)};
      }
      break;
    }
    case O_FNEG: { FR x = frange(e->a, depth + 1); if (x.ok) r = {true, -x.hi, -x.lo}; widen = false; break; }
    case O_FABS: { FR x = frange(e->a, depth + 1); if (x.ok) r = {true, x.lo > 0 ? x.lo : x.hi < 0 ? -x.hi : 0, std::max(std::fabs(x.lo), std::fabs(x.hi))}; widen = false; break; }
    case O_FSQRT: { FR x = frange(e->a, depth + 1); if (x.ok && x.lo >= 0) r = {true, std::sqrt(x.lo), std::sqrt(x.hi)}; break; }
    case O_FPEXT: r = frange(e->a, depth + 1); widen = false; break;
    case O_FPTRUNC: r = frange(e->a, depth + 1); break;
    case O_FCEIL: case O_FFLOOR: case O_FTRUNC: case O_FROUND: case O_FRINT: { FR x = frange(e->a, depth + 1); if (x.ok) r = {true, std::floor(x.lo), std::ceil(x.hi)}; widen = false; break; }
    case O_ITE: {
      FR x = frange(e->b, depth + 1), y = x.ok ? frange(e->c, depth + 1) : no;
      if (x.ok && y.ok) r = {true, std::min(x.lo, y.lo), std::max(x.hi, y.hi)};
      widen = false;
      break;
    }
    default: break;
  }
  if (r.ok && widen) {
    double rel = e->w == 32 ? 1e-6 : 1e-14;
    r.lo -= std::fabs(r.lo) * rel + 1e-300; r.hi += std::fabs(r.hi) * rel + 1e-300;
    if (e->w == 32) { r.lo -= 1e-40; r.hi += 1e-40; }
  }
  double lim = e->w == 32 ? 3e38 : 1e300;
  if (r.ok && !(r.lo > -lim && r.hi < lim)) r = no;
  g_fr[e->id] = r;
  return r;
}
E mkFCmp(Op op, E a, E b)
{
  unsigned w = a->w;
  if (!(isC(a) && isC(b))) {
    FR x = frange(a), y = x.ok || op == O_FUNO ? frange(b) : FR{false, 0, 0};
    if (x.ok && y.ok) {
      if (op == O_FUNO) return mkConst(0, 1);
      if (op == O_FLT) { if (x.hi < y.lo) return mkConst(1, 1); if (x.lo >= y.hi) return mkConst(0, 1); }
      if (op == O_FLE) { if (x.hi <= y.lo) return mkConst(1, 1); if (x.lo > y.hi) return mkConst(0, 1); }
      if (op == O_FEQ && (x.hi < y.lo || y.hi < x.lo)) return mkConst(0, 1);
      if (op == O_FEQ && a == b) return mkConst(1, 1);
      if (op == O_FLE && a == b) return mkConst(1, 1);
      if (op == O_FLE && !asInt(a) && !asInt(b)) return mkNot(mkFCmp(O_FLT, b, a)); // no NaN: one canonical form
      if (op == O_FLT && a == b) return mkConst(0, 1);
    } else if (op != O_FUNO && x.ok && isC(b)) {
      double d = w == 32 ? (double)f32(b->k) : f64(b->k);
      if (std::isinf(d)) return mkConst(op == O_FEQ ? 0 : d > 0, 1);
    }
  }
  if (isC(a) && isC(b)) return mkConst(evalOp2(op, w, a->k, b->k), 1);
  // ITE of small depth: distribute over constants
  bool ia = (a->op == O_SITOFP || a->op == O_UITOFP), ib = (b->op == O_SITOFP || b->op == O_UITOFP);
  if (op == O_FUNO) {
    bool an = ia || (isC(a) && !std::isnan(w == 32 ? f32(a->k) : f64(a->k)));
    bool bn = ib || (isC(b) && !std::isnan(w == 32 ? f32(b->k) : f64(b->k)));
    if (an && bn) return mkConst(0, 1);
    if (b == a && ia) return mkConst(0, 1);
    unsigned k_;
    if ((an || asScaled(a, k_)) && (bn || asScaled(b, k_))) return mkConst(0, 1);
    return intern(op, 1, 0, a, b, nullptr);
  }
  E x = asInt(a), y = asInt(b);
  if (x && y) return mkCmp(op == O_FLT ? O_SLT : op == O_FLE ? O_SLE : O_EQ, x, y);
  {
    unsigned ka, kb;
    E p = asScaled(a, ka), q = p ? asScaled(b, kb) : nullptr;
    if (p && q) {
      unsigned k = std::max(ka, kb);
      if (shiftable(p, k - ka) && shiftable(q, k - kb)) {
        E ps = k > ka ? mkBin(O_SHL, p, mkConst(k - ka, 64)) : p, qs = k > kb ? mkBin(O_SHL, q, mkConst(k - kb, 64)) : q;
        return mkCmp(op == O_FLT ? O_SLT : op == O_FLE ? O_SLE : O_EQ, ps, qs);
      }
    }
  }
  // integer-valued against arbitrary constant
  if (x && isC(b)) {
    double d = w == 32 ? (double)f32(b->k) : f64(b->k);
    if (std::isnan(d)) return mkConst(0, 1);
    if (d == 0) return mkCmp(op == O_FLT ? O_SLT : op == O_FLE ? O_SLE : O_EQ, x, mkConst(0, 64));
    if (d > 4e18) return mkConst(op != O_FEQ, 1);
    if (d < -4e18) return mkConst(0, 1);
    if (op == O_FEQ) { if (d != std::trunc(d)) return mkConst(0, 1); return mkCmp(O_EQ, x, mkConst((uint64_t)(int64_t)d, 64)); }
    if (op == O_FLT) return mkCmp(O_SLT, x, mkConst((uint64_t)(int64_t)std::ceil(d), 64));
    return mkCmp(O_SLE, x, mkConst((uint64_t)(int64_t)std::floor(d), 64));
  }
  if (y && isC(a)) {
    double d = w == 32 ? (double)f32(a->k) : f64(a->k);
    if (std::isnan(d)) return mkConst(0, 1);
    if (op == O_FEQ) return mkFCmp(O_FEQ, b, a);
    if (d == 0) return mkCmp(op == O_FLT ? O_SLT : O_SLE, mkConst(0, 64), y);
    if (d > 4e18) return mkConst(0, 1);
    if (d < -4e18) return mkConst(1, 1);
    if (op == O_FLT) return mkCmp(O_SLT, mkConst((uint64_t)(int64_t)std::floor(d), 64), y);
    return mkCmp(O_SLE, mkConst((uint64_t)(int64_t)std::ceil(d), 64), y);
  }
  // scaled integer against arbitrary constant
  for (int t = 0; t < 2; ++t) {
    E c = t ? a : b, o = t ? b : a;
    unsigned k;
    if (!isC(c)) continue;
    E p = asScaled(o, k);
    if (!p || !k) continue;
    double d = w == 32 ? (double)f32(c->k) : f64(c->k);
    if (std::isnan(d)) return mkConst(0, 1);
    d = std::ldexp(d, (int)k);
    if (std::isinf(d) || std::fabs(d) > 4e18 || (d != 0 && std::fabs(d) < 1e-290)) continue;
    if (op == O_FEQ) { if (d != std::trunc(d)) return mkConst(0, 1); return mkCmp(O_EQ, p, mkConst((uint64_t)(int64_t)d, 64)); }
    int64_t fl = (int64_t)std::floor(d), ce = (int64_t)std::ceil(d);
    if (!t) return op == O_FLT ? mkCmp(O_SLT, p, mkConst(ce, 64)) : mkCmp(O_SLE, p, mkConst(fl, 64));
    return op == O_FLT ? mkCmp(O_SLT, mkConst(fl, 64), p) : mkCmp(O_SLE, mkConst(ce, 64), p);
  }
  if (op == O_FEQ && a->id > b->id) std::swap(a, b);
  return intern(op, 1, 0, a, b, nullptr);
}
bool fpScaled(E f, E &x) { unsigned k; x = asScaled(f, k); return x; }
E mkFPtoSI(E a, unsigned w)
{
  if (isC(a)) return mkConst(evalFPtoSI(a->k, a->w, w), w);
  if (E x = asInt(a)) {
    if (x->smin >= sminw(w) && x->smax <= smaxw(w)) return w == 64 ? x : mkExtract(x, 0, w);
  }
  {
    unsigned k;
    E y = asScaled(a, k);
    if (y && k && y->smin > INT64_MIN / 4 && y->smax < INT64_MAX / 4) {
      E fl = mkBin(O_ASHR, y, mkConst(k, 64)), x = fl;
      if (y->smin < 0) x = mkIte(mkCmp(O_SLT, y, mkConst(0, 64)), mkBin(O_SUB, mkConst(0, 64), mkBin(O_ASHR, mkBin(O_SUB, mkConst(0, 64), y), mkConst(k, 64))), fl);
      if (x->smin >= sminw(w) && x->smax <= smaxw(w)) return w == 64 ? x : mkExtract(x, 0, w);
    }
  }
  return intern(O_FPTOSI, w, 0, a, nullptr, nullptr);
}
static E asScaled(E f, unsigned &k);
static E mkScaled(E x, unsigned k, unsigned w);
E mkFPExt(E a)
{
  if (isC(a)) return mkConst(evalFPExt(a->k), 64);
  if (a->op == O_SITOFP && intLim(32, a->a->smin, a->a->smax)) return mkSItoFP(a->a, 64);
  if (a->op == O_ITE && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkFPExt(a->b), mkFPExt(a->c));
  { unsigned k; E x = asScaled(a, k); if (x && k) return mkScaled(x, k, 64); }
  return intern(O_FPEXT, 64, 0, a, nullptr, nullptr);
}
E mkFPTrunc(E a)
{
  if (isC(a)) return mkConst(evalFPTrunc(a->k), 32);
  if (a->op == O_FPEXT) return a->a;
  if (a->op == O_SITOFP && intLim(32, a->a->smin, a->a->smax)) return mkSItoFP(a->a, 32);
  return intern(O_FPTRUNC, 32, 0, a, nullptr, nullptr);
}

// ---------------------------------------------------------------- model eval
uint64_t evalModel(const Model &m, E root)
{
  if (isC(root)) return root->k;
  if (m.have.size() < g_nextId) { m.have.resize(g_nextId + 4096, 0); m.cache.resize(g_nextId + 4096, 0); }
  if (m.have[root->id]) return m.cache[root->id];
  std::vector<E> st{root};
  auto got = [&](E e) { return !e || isC(e) || m.have[e->id]; };
  auto val = [&](E e) -> uint64_t { return isC(e) ? e->k : m.cache[e->id]; };
  while (!st.empty()) {
    E e = st.back();
    if (m.have[e->id]) { st.pop_back(); continue; }
    if (e->op == O_VAR) {
      m.cache[e->id] = (e->k < m.v.size() ? m.v[e->k] : 0) & maskw(e->w);
      m.have[e->id] = 1; st.pop_back(); continue;
    }
    if (e->op == O_ITE) {
      if (!got(e->a)) { st.push_back(e->a); continue; }
      E t = val(e->a) ? e->b : e->c;
      if (!got(t)) { st.push_back(t); continue; }
      m.cache[e->id] = val(t); m.have[e->id] = 1; st.pop_back(); continue;
    }
    bool ok = true;
    if (!got(e->a)) { st.push_back(e->a); ok = false; }
    if (!got(e->b)) { st.push_back(e->b); ok = false; }
    if (!ok) continue;
    uint64_t a = e->a ? val(e->a) : 0, b = e->b ? val(e->b) : 0, r;
    switch (e->op) {
      case O_ZEXT: r = a; break;
      case O_SEXT: r = (uint64_t)sx(a, e->a->w) & maskw(e->w); break;
      case O_EXTRACT: r = (a >> e->k) & maskw(e->w); break;
      case O_CONCAT: r = (a << e->b->w) | b; break;
      case O_FNEG: case O_FABS: case O_FSQRT: case O_FCEIL: case O_FFLOOR: case O_FTRUNC: case O_FROUND: case O_FRINT:
        r = evalFUn(e->op, e->w, a); break;
      case O_SITOFP: r = evalSItoFP(a, e->a->w, e->w); break;
      case O_UITOFP: r = evalUItoFP(a, e->a->w, e->w); break;
      case O_FPTOSI: r = evalFPtoSI(a, e->a->w, e->w); break;
      case O_FPEXT: r = evalFPExt(a); break;
      case O_FPTRUNC: r = evalFPTrunc(a); break;
      case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE:
      case O_FLT: case O_FLE: case O_FEQ: case O_FUNO:
        r = evalOp2(e->op, e->a->w, a, b); break;
      default: r = evalOp2(e->op, e->w, a, b); break;
    }
    m.cache[e->id] = r; m.have[e->id] = 1; st.pop_back();
  }
  return m.cache[root->id];
}

// ---------------------------------------------------------------- Z3
static Z3_context ctx;
static Z3_ast rne, rtz;
static std::unordered_map<uint32_t, Z3_ast> lowBm[2], lowF, lowPm[2];
// g_uf: float operations become uninterpreted functions over their IEEE bits.
// An unsat answer then holds for the real operations too; sat is inconclusive.
static bool g_uf = false;
#define lowB lowBm[g_uf]
#define lowP lowPm[g_uf]
static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); exit(3); }
static Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(ctx, w); }
static Z3_sort fps(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(ctx) : Z3_mk_fpa_sort_64(ctx); }
static void initZ3()
{
  if (ctx) return;
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg); // asts live as long as the context
  Z3_set_error_handler(ctx, z3err);
  Z3_set_ast_print_mode(ctx, Z3_PRINT_SMTLIB2_COMPLIANT);
  rne = Z3_mk_fpa_rne(ctx); rtz = Z3_mk_fpa_rtz(ctx);
}
static bool usesFP(E root)
{
  static std::unordered_map<uint32_t, bool> memo;
  auto it = memo.find(root->id);
  if (it != memo.end()) return it->second;
  std::vector<E> st{root};
  while (!st.empty()) {
    E e = st.back();
    if (memo.count(e->id)) { st.pop_back(); continue; }
    bool need = false, r = e->op >= O_FADD;
    for (E s : {e->a, e->b, e->c}) if (s) {
      auto j = memo.find(s->id);
      if (j == memo.end()) { st.push_back(s); need = true; } else r |= j->second;
    }
    if (need) continue;
    memo[e->id] = r; st.pop_back();
  }
  return memo[root->id];
}
static Z3_ast b2bv(Z3_ast p) { return Z3_mk_ite(ctx, p, Z3_mk_unsigned_int64(ctx, 1, bvs(1)), Z3_mk_unsigned_int64(ctx, 0, bvs(1))); }
static Z3_ast LB(E e);
static Z3_ast LF(E e);
static Z3_ast LP(E e);
static bool isFloatOp(E e) { return (e->op >= O_FADD && e->op <= O_FRINT) || e->op == O_SITOFP || e->op == O_UITOFP || e->op == O_FPEXT || e->op == O_FPTRUNC; }
static Z3_ast keep(Z3_ast a) { return a; }

static Z3_ast LB(E e);
static Z3_ast LF(E e);
static Z3_ast ufApp(E e, Z3_sort rs)
{
  Z3_sort d[3]; Z3_ast a[3]; unsigned n = 0;
  std::string nm = "f" + std::to_string((int)e->op) + "_" + std::to_string(e->w);
  for (E x : {e->a, e->b, e->c}) if (x) { d[n] = bvs(x->w); a[n++] = LB(x); nm += "_" + std::to_string(x->w); }
  return Z3_mk_app(ctx, Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, nm.c_str()), n, d, rs), n, a);
}
static Z3_ast LP(E e)
{
  auto it = lowP.find(e->id);
  if (it != lowP.end()) return it->second;
  Z3_ast r;
  switch (e->op) {
    case O_CONST: r = e->k ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case O_EQ: r = Z3_mk_eq(ctx, LB(e->a), LB(e->b)); break;
    case O_ULT: r = Z3_mk_bvult(ctx, LB(e->a), LB(e->b)); break;
    case O_ULE: r = Z3_mk_bvule(ctx, LB(e->a), LB(e->b)); break;
    case O_SLT: r = Z3_mk_bvslt(ctx, LB(e->a), LB(e->b)); break;
    case O_SLE: r = Z3_mk_bvsle(ctx, LB(e->a), LB(e->b)); break;
    case O_FLT: case O_FLE: case O_FEQ: case O_FUNO:
      if (g_uf) {
        // facts kept: equal non-NaN bits compare equal, equal bits are never less
        r = ufApp(e, Z3_mk_bool_sort(ctx));
        Z3_ast same = Z3_mk_eq(ctx, LB(e->a), LB(e->b));
        if (e->op == O_FLT) { Z3_ast x[2] = {r, Z3_mk_not(ctx, same)}; r = Z3_mk_and(ctx, 2, x); }
        else if ((e->op == O_FEQ || e->op == O_FLE) && frange(e->a).ok && frange(e->b).ok) { Z3_ast x[2] = {r, same}; r = Z3_mk_or(ctx, 2, x); }
        break;
      }
      if (e->op == O_FLT) r = Z3_mk_fpa_lt(ctx, LF(e->a), LF(e->b));
      else if (e->op == O_FLE) r = Z3_mk_fpa_leq(ctx, LF(e->a), LF(e->b));
      else if (e->op == O_FEQ) r = Z3_mk_fpa_eq(ctx, LF(e->a), LF(e->b));
      else { Z3_ast x[2] = {Z3_mk_fpa_is_nan(ctx, LF(e->a)), Z3_mk_fpa_is_nan(ctx, LF(e->b))}; r = Z3_mk_or(ctx, 2, x); }
      break;
    case O_AND: { Z3_ast x[2] = {LP(e->a), LP(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
    case O_OR: { Z3_ast x[2] = {LP(e->a), LP(e->b)}; r = Z3_mk_or(ctx, 2, x); break; }
    case O_XOR: if (isC(e->b) && e->b->k == 1) r = Z3_mk_not(ctx, LP(e->a)); else r = Z3_mk_xor(ctx, LP(e->a), LP(e->b)); break;
    case O_ITE: r = Z3_mk_ite(ctx, LP(e->a), LP(e->b), LP(e->c)); break;
    default: r = Z3_mk_eq(ctx, LB(e), Z3_mk_unsigned_int64(ctx, 1, bvs(1))); break;
  }
  return lowP[e->id] = keep(r);
}
static Z3_ast LB(E e)
{
  auto it = lowB.find(e->id);
  if (it != lowB.end()) return it->second;
  Z3_ast r = nullptr;
  switch (e->op) {
    case O_VAR: {
      char nm[64]; snprintf(nm, sizeof nm, "v%u", (unsigned)e->k);
      r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), bvs(e->w)); break;
    }
    case O_CONST: r = Z3_mk_unsigned_int64(ctx, e->k, bvs(e->w)); break;
    case O_ADD: r = Z3_mk_bvadd(ctx, LB(e->a), LB(e->b)); break;
    case O_SUB: r = Z3_mk_bvsub(ctx, LB(e->a), LB(e->b)); break;
    case O_MUL: r = Z3_mk_bvmul(ctx, LB(e->a), LB(e->b)); break;
    case O_UDIV: r = Z3_mk_bvudiv(ctx, LB(e->a), LB(e->b)); break;
    case O_SDIV: r = Z3_mk_bvsdiv(ctx, LB(e->a), LB(e->b)); break;
    case O_UREM: r = Z3_mk_bvurem(ctx, LB(e->a), LB(e->b)); break;
    case O_SREM: r = Z3_mk_bvsrem(ctx, LB(e->a), LB(e->b)); break;
    case O_SHL: r = Z3_mk_bvshl(ctx, LB(e->a), LB(e->b)); break;
    case O_LSHR: r = Z3_mk_bvlshr(ctx, LB(e->a), LB(e->b)); break;
    case O_ASHR: r = Z3_mk_bvashr(ctx, LB(e->a), LB(e->b)); break;
    case O_AND: if (e->w == 1) { r = b2bv(LP(e)); break; } r = Z3_mk_bvand(ctx, LB(e->a), LB(e->b)); break;
    case O_OR: if (e->w == 1) { r = b2bv(LP(e)); break; } r = Z3_mk_bvor(ctx, LB(e->a), LB(e->b)); break;
    case O_XOR: if (e->w == 1) { r = b2bv(LP(e)); break; } r = Z3_mk_bvxor(ctx, LB(e->a), LB(e->b)); break;
    case O_ITE: if (e->w == 1) { r = b2bv(LP(e)); break; } r = Z3_mk_ite(ctx, LP(e->a), LB(e->b), LB(e->c)); break;
    case O_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, LB(e->a)); break;
    case O_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, LB(e->a)); break;
    case O_EXTRACT: r = Z3_mk_extract(ctx, e->k + e->w - 1, e->k, LB(e->a)); break;
    case O_CONCAT: r = Z3_mk_concat(ctx, LB(e->a), LB(e->b)); break;
    case O_FPTOSI: {
      if (g_uf) { r = ufApp(e, bvs(e->w)); break; }
      // x86: out of range / NaN -> INT_MIN
      unsigned w = e->w; Z3_ast f = LF(e->a); Z3_sort s = fps(e->a->w);
      double lim = w == 32 ? 2147483648.0 : 9223372036854775808.0;
      Z3_ast t = Z3_mk_fpa_round_to_integral(ctx, rtz, f);
      Z3_ast lo = Z3_mk_fpa_numeral_double(ctx, -lim, s), hi = Z3_mk_fpa_numeral_double(ctx, lim, s);
      Z3_ast c[2] = {Z3_mk_fpa_geq(ctx, t, lo), Z3_mk_fpa_lt(ctx, t, hi)};
      r = Z3_mk_ite(ctx, Z3_mk_and(ctx, 2, c), Z3_mk_fpa_to_sbv(ctx, rtz, f, w), Z3_mk_unsigned_int64(ctx, 1ull << (w - 1), bvs(w)));
      break;
    }
    default:
      if (isFloatOp(e)) r = g_uf ? ufApp(e, bvs(e->w)) : Z3_mk_fpa_to_ieee_bv(ctx, LF(e));
      else r = b2bv(LP(e));
  }
  return lowB[e->id] = keep(r);
}
static Z3_ast LF(E e)
{
  auto it = lowF.find(e->id);
  if (it != lowF.end()) return it->second;
  Z3_ast r;
  switch (e->op) {
    case O_FADD: r = Z3_mk_fpa_add(ctx, rne, LF(e->a), LF(e->b)); break;
    case O_FSUB: r = Z3_mk_fpa_sub(ctx, rne, LF(e->a), LF(e->b)); break;
    case O_FMUL: r = Z3_mk_fpa_mul(ctx, rne, LF(e->a), LF(e->b)); break;
    case O_FDIV: r = Z3_mk_fpa_div(ctx, rne, LF(e->a), LF(e->b)); break;
    case O_FNEG: r = Z3_mk_fpa_neg(ctx, LF(e->a)); break;
    case O_FABS: r = Z3_mk_fpa_abs(ctx, LF(e->a)); break;
    case O_FSQRT: r = Z3_mk_fpa_sqrt(ctx, rne, LF(e->a)); break;
    case O_FCEIL: r = Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtp(ctx), LF(e->a)); break;
    case O_FFLOOR: r = Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtn(ctx), LF(e->a)); break;
    case O_FTRUNC: r = Z3_mk_fpa_round_to_integral(ctx, rtz, LF(e->a)); break;
    case O_FROUND: r = Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rna(ctx), LF(e->a)); break;
    case O_FRINT: r = Z3_mk_fpa_round_to_integral(ctx, rne, LF(e->a)); break;
    case O_SITOFP: r = Z3_mk_fpa_to_fp_signed(ctx, rne, LB(e->a), fps(e->w)); break;
    case O_UITOFP: r = Z3_mk_fpa_to_fp_unsigned(ctx, rne, LB(e->a), fps(e->w)); break;
    case O_FPEXT: case O_FPTRUNC: r = Z3_mk_fpa_to_fp_float(ctx, rne, LF(e->a), fps(e->w)); break;
    case O_ITE: r = Z3_mk_ite(ctx, LP(e->a), LF(e->b), LF(e->c)); break;
    default: r = Z3_mk_fpa_to_fp_bv(ctx, LB(e), fps(e->w)); break;
  }
  return lowF[e->id] = keep(r);
}
// iterative pre-lowering to avoid deep recursion
static void lowerAll(E root)
{
  std::vector<E> st{root};
  std::unordered_set<uint32_t> done;
  while (!st.empty()) {
    E e = st.back();
    bool need = false;
    for (E s : {e->a, e->b, e->c})
      if (s && !done.count(s->id) && !(s->w == 1 ? lowP.count(s->id) : (lowB.count(s->id) || (!g_uf && lowF.count(s->id))))) { st.push_back(s); need = true; }
    if (need) continue;
    if (!done.count(e->id)) {
      if (e->w == 1) LP(e);
      else if (isFloatOp(e) && !g_uf) LF(e);
      else LB(e);
      done.insert(e->id);
    }
    st.pop_back();
  }
}

struct VecH { size_t operator()(const std::vector<uint32_t> &v) const { size_t h = v.size(); for (auto x : v) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); } return h; } };
struct CacheEnt { SatRes r; std::vector<std::pair<uint32_t, uint64_t>> vals; };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VecH> g_qcache;

SatRes solve(const std::vector<E> &pc, E extra, const ModelP &base, ModelP *out)
{
  if (isC(extra)) {
    if (!extra->k) return UNSAT;
    if (out) *out = base;
    return SAT;
  }
  // independence slicing
  std::vector<char> used(pc.size(), 0);
  std::vector<E> sel{extra};
  std::unordered_set<uint32_t> vs(varsOf(extra->vset).begin(), varsOf(extra->vset).end());
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++) {
      if (used[i]) continue;
      bool hit = false;
      for (uint32_t v : varsOf(pc[i]->vset)) if (vs.count(v)) { hit = true; break; }
      if (hit) {
        used[i] = 1; ch = true; sel.push_back(pc[i]);
        for (uint32_t v : varsOf(pc[i]->vset)) vs.insert(v);
      }
    }
  }
  std::vector<uint32_t> key;
  for (E e : sel) key.push_back(e->id);
  std::sort(key.begin(), key.end());
  key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = g_qcache.find(key);
  static std::vector<ModelP> recent;
  static size_t recentAt = 0;
  const size_t RECENT = 24;
  if (it == g_qcache.end()) {
    // an earlier solver model that happens to satisfy the query settles it
    for (size_t i = 0; i < recent.size(); i++) {
      const ModelP &m = recent[(recentAt + recent.size() - 1 - i) % recent.size()];
      bool ok = true;
      for (E e : sel) if (!evalModel(*m, e)) { ok = false; break; }
      if (!ok) continue;
      CacheEnt ce;
      ce.r = SAT;
      for (uint32_t v : vs) ce.vals.push_back({v, v < m->v.size() ? m->v[v] : 0});
      g_stats.modelHits++;
      it = g_qcache.emplace(key, std::move(ce)).first;
      break;
    }
  }
  if (it == g_qcache.end()) {
    initZ3();
    auto t0 = std::chrono::steady_clock::now();
    bool fp = false;
    for (E e : sel) fp |= usesFP(e);
    Z3_solver s = nullptr;
    Z3_lbool lb = Z3_L_UNDEF;
    for (int uf = fp ? 1 : 0; uf >= 0; --uf) {
      g_uf = uf != 0;
      s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, uf ? "QF_UFBV" : fp ? "QF_FPBV" : "QF_BV"));
      Z3_solver_inc_ref(ctx, s);
      Z3_params p = Z3_mk_params(ctx);
      Z3_params_inc_ref(ctx, p);
      Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), uf ? std::min(g_queryTimeoutMs, 5000u) : g_queryTimeoutMs);
      Z3_solver_set_params(ctx, s, p);
      Z3_params_dec_ref(ctx, p);
      for (E e : sel) { lowerAll(e); Z3_solver_assert(ctx, s, LP(e)); }
      g_uf = false;
      if (g_dumpDir && !uf) {
        char fn[512]; snprintf(fn, sizeof fn, "%s/q%llu.smt2", g_dumpDir, (unsigned long long)g_stats.queries);
        FILE *f = fopen(fn, "w");
        if (f) { fprintf(f, "(set-logic %s)\n%s\n(check-sat)\n", fp ? "QF_BVFP" : "QF_BV", Z3_solver_to_string(ctx, s)); fclose(f); }
      }
      lb = Z3_solver_check(ctx, s);
      if (uf && lb == Z3_L_FALSE) { g_stats.ufUnsat++; break; }
      if (uf) Z3_solver_dec_ref(ctx, s);
    }
    CacheEnt ce;
    g_stats.queries++;
    if (lb == Z3_L_TRUE) {
      ce.r = SAT; g_stats.sat++;
      Z3_model m = Z3_solver_get_model(ctx, s);
      Z3_model_inc_ref(ctx, m);
      for (uint32_t v : vs) {
        Z3_ast c, r;
        char nm[64]; snprintf(nm, sizeof nm, "v%u", v);
        c = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), bvs(g_vars[v].w));
        if (Z3_model_eval(ctx, m, c, true, &r)) {
          uint64_t val = 0;
          Z3_get_numeral_uint64(ctx, r, &val);
          ce.vals.push_back({v, val});
        }
      }
      Z3_model_dec_ref(ctx, m);
    } else if (lb == Z3_L_FALSE) { ce.r = UNSAT; g_stats.unsat++; }
    else { ce.r = UNKNOWN; g_stats.unknown++; }
    if (g_dumpDir) {
      char fn[512]; snprintf(fn, sizeof fn, "%s/q%llu.res", g_dumpDir, (unsigned long long)g_stats.queries - 1);
      FILE *f = fopen(fn, "w");
      if (f) { fputs(ce.r == SAT ? "sat\n" : ce.r == UNSAT ? "unsat\n" : "unknown\n", f); fclose(f); }
    }
    Z3_solver_dec_ref(ctx, s);
    g_stats.seconds += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    it = g_qcache.emplace(std::move(key), std::move(ce)).first;
  } else
    g_stats.cacheHits++;
  const CacheEnt &ce = it->second;
  if (ce.r == SAT && out) {
    auto m = std::make_shared<Model>();
    if (base) m->v = base->v;
    if (m->v.size() < g_vars.size()) m->v.resize(g_vars.size(), 0);
    for (auto &pr : ce.vals) m->v[pr.first] = pr.second;
    // the model must satisfy what was asked: guards against encoding bugs
    for (E e : sel)
      if (!evalModel(*m, e)) {
        fprintf(stderr, "symx: model check failed (encoding mismatch) on %s\n", exprStr(e, 8).c_str());
        g_stats.unknown++;
        return UNKNOWN;
      }
    *out = m;
    bool known = false;
    for (auto &r : recent) if (r == m) known = true;
    if (!known) {
      if (recent.size() < RECENT) { recent.push_back(m); recentAt = recent.size() % RECENT; }
      else { recent[recentAt] = m; recentAt = (recentAt + 1) % RECENT; }
    }
  }
  return ce.r;
}

std::string exprStr(E e, int d)
{
  static const char *nm[] = {"var","const","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","zext","sext","extract","concat","fadd","fsub","fmul","fdiv","frem","fneg","fabs","fsqrt","fceil","ffloor","ftrunc","fround","frint","flt","fle","feq","funo","sitofp","uitofp","fptosi","fpext","fptrunc"};
  if (!e) return "";
  if (e->op == O_CONST) return std::to_string(e->k) + ":" + std::to_string(e->w);
  if (e->op == O_VAR) return g_vars[e->k].name;
  if (d == 0) return "..";
  std::string s = std::string("(") + nm[e->op];
  if (e->op == O_EXTRACT) s += "@" + std::to_string(e->k);
  s += ":" + std::to_string(e->w);
  for (E x : {e->a, e->b, e->c}) if (x) s += " " + exprStr(x, d - 1);
  return s + ")";
}
