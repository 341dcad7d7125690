// Differential test of symx's expression layer (not a property check): random
// terms are built through the simplifying constructors and compared, on random
// assignments, with direct evaluation; intervals must contain every value.
#include "../symx/expr.h"
#include <cstdio>
#include <cstdlib>
#include <cmath>
static uint64_t S = 88172645463325252ull;
static uint64_t rnd() { S ^= S << 13; S ^= S >> 7; S ^= S << 17; return S >> 3; }
static const int K = 6;
struct N { E e; uint64_t v[K]; };
static Model M[K];
static bool isnanw(uint64_t v, unsigned w) { if (w == 32) { float f; uint32_t u = v; memcpy(&f, &u, 4); return std::isnan(f); } double d; memcpy(&d, &v, 8); return std::isnan(d); }
int main(int argc, char **argv)
{
  if (argc > 1) S += atoll(argv[1]) * 7919;
  long bad = 0, total = 0;
  int rounds = argc > 2 ? atoi(argv[2]) : 3000;
  std::vector<E> vars;
  unsigned vw[] = {1, 8, 8, 16, 16, 32, 32, 64, 64, 13, 5, 12};
  for (int i = 0; i < 12; ++i) vars.push_back(mkVar("v" + std::to_string(i), vw[i]));
  for (int r = 0; r < rounds; ++r) {
    std::vector<N> pool;
    for (int k = 0; k < K; ++k) { M[k].v.clear(); M[k].have.clear(); M[k].cache.clear(); }
    for (size_t i = 0; i < vars.size(); ++i) {
      N n; n.e = vars[i];
      for (int k = 0; k < K; ++k) {
        uint64_t v = rnd();
        int m = rnd() % 4;
        if (m == 0) v &= 7; else if (m == 1) v = ~(v & 7); else if (m == 2) v = (1ull << (rnd() % 64)) + (rnd() % 3) - 1;
        n.v[k] = v & maskw(vw[i]); M[k].v.push_back(n.v[k]);
      }
      pool.push_back(n);
    }
    auto pick = [&](unsigned w, bool fp = false) -> N {
      if (rnd() % 4 == 0 || fp && rnd() % 3 == 0) {
        N n; uint64_t c = rnd(); int m = rnd() % 4;
        if (m == 0) c &= 7; else if (m == 1) c = ~(c & 7); else if (m == 2) c = 1ull << (rnd() % 64);
        if (fp) {
          double d = (double)(int64_t)(rnd() % 64) - 20; if (rnd() % 3 == 0) d /= 1 << (rnd() % 5); if (rnd() % 9 == 0) d = d * 0.1;
          if (w == 64) memcpy(&c, &d, 8); else { float f = d; uint32_t u; memcpy(&u, &f, 4); c = u; }
        }
        n.e = mkConst(c, w);
        for (int k = 0; k < K; ++k) n.v[k] = c & maskw(w);
        return n;
      }
      std::vector<int> c;
      for (size_t i = 0; i < pool.size(); ++i) if (pool[i].e->w == w) c.push_back(i);
      if (!c.empty() && rnd() % 5) return pool[c[rnd() % c.size()]];
      N a = pool[rnd() % pool.size()], n;
      if (a.e->w == w) return a;
      if (a.e->w < w) { bool z = rnd() & 1; n.e = z ? mkZext(a.e, w) : mkSext(a.e, w); for (int k = 0; k < K; ++k) n.v[k] = (z ? a.v[k] : (uint64_t)sx(a.v[k], a.e->w)) & maskw(w); }
      else { unsigned o = rnd() % 3 ? 0 : rnd() % (a.e->w - w + 1); n.e = mkExtract(a.e, o, w); for (int k = 0; k < K; ++k) n.v[k] = (a.v[k] >> o) & maskw(w); }
      return n;
    };
    auto fpick = [&](unsigned w) -> N {
      if (rnd() % 3 == 0) {
        for (int t = 0; t < 40; ++t) { N a = pool[rnd() % pool.size()]; if (a.e->w == w && (a.e->op >= O_FADD && a.e->op <= O_FRINT || a.e->op == O_SITOFP || a.e->op == O_FPEXT)) return a; }
      }
      if (rnd() % 4 == 0) return pick(w, true);
      static unsigned iw[] = {8, 16, 32, 13};
      N a = pick(iw[rnd() % 4]), n;
      bool u = rnd() & 1;
      n.e = u ? mkUItoFP(a.e, w) : mkSItoFP(a.e, w);
      for (int k = 0; k < K; ++k) n.v[k] = u ? evalUItoFP(a.v[k], a.e->w, w) : evalSItoFP(a.v[k], a.e->w, w);
      return n;
    };
    for (int s = 0; s < 60; ++s) {
      static unsigned ws[] = {1, 8, 16, 32, 64};
      unsigned w = ws[rnd() % 5];
      N n, a, b, c;
      int op = rnd() % 26;
      bool fp = false;
      if (op < 13) { // O_ADD..O_ASHR
        if (w == 1) w = 8;
        a = pick(w); b = pick(w);
        Op o = (Op)(O_ADD + op);
        if (rnd() % 8 == 0) b = a;
        n.e = mkBin(o, a.e, b.e);
        for (int k = 0; k < K; ++k) n.v[k] = evalOp2(o, w, a.v[k], b.v[k]);
      } else if (op < 18) {
        Op o = (Op)(O_EQ + op - 13);
        a = pick(w); b = pick(w);
        n.e = w == 1 && o != O_EQ ? mkAnd(a.e, b.e) : mkCmp(o, a.e, b.e);
        for (int k = 0; k < K; ++k) n.v[k] = w == 1 && o != O_EQ ? a.v[k] & b.v[k] : evalOp2(o, w, a.v[k], b.v[k]);
      } else if (op == 18) {
        c = pick(1); a = pick(w); b = pick(w);
        n.e = mkIte(c.e, a.e, b.e);
        for (int k = 0; k < K; ++k) n.v[k] = c.v[k] ? a.v[k] : b.v[k];
      } else if (op == 19) {
        unsigned h = w == 64 ? 32 : w == 32 ? 16 : 8, l = w == 64 ? 32 : w == 32 ? 16 : 8;
        a = pick(h); b = pick(l);
        n.e = mkConcat(a.e, b.e);
        for (int k = 0; k < K; ++k) n.v[k] = (a.v[k] << l) | b.v[k];
      } else if (op == 20) { n = pick(w); }
      else if (op == 21) { a = pick(1); b = pick(1); n.e = mkOr(a.e, b.e); for (int k = 0; k < K; ++k) n.v[k] = a.v[k] | b.v[k]; }
      else if (op == 22 || op == 25) {
        w = rnd() & 1 ? 32 : 64;
        a = fpick(w); b = fpick(w); fp = true;
        Op o = (Op)(O_FADD + rnd() % 4);
        n.e = mkFBin(o, a.e, b.e);
        for (int k = 0; k < K; ++k) n.v[k] = evalOp2(o, w, a.v[k], b.v[k]);
      } else if (op == 23) {
        w = rnd() & 1 ? 32 : 64;
        a = fpick(w); b = fpick(w);
        Op o = (Op)(O_FLT + rnd() % 4);
        n.e = mkFCmp(o, a.e, b.e);
        for (int k = 0; k < K; ++k) n.v[k] = evalOp2(o, w, a.v[k], b.v[k]);
      } else {
        w = rnd() & 1 ? 32 : 64;
        a = fpick(w);
        int q = rnd() % 4;
        if (q == 0) { unsigned t = rnd() & 1 ? 32 : 64; n.e = mkFPtoSI(a.e, t); for (int k = 0; k < K; ++k) n.v[k] = evalFPtoSI(a.v[k], w, t); }
        else if (q == 1 && w == 32) { n.e = mkFPExt(a.e); fp = true; for (int k = 0; k < K; ++k) n.v[k] = evalFPExt(a.v[k]); }
        else if (q == 1) { n.e = mkFPTrunc(a.e); fp = true; for (int k = 0; k < K; ++k) n.v[k] = evalFPTrunc(a.v[k]); }
        else { Op o = (Op)(O_FNEG + rnd() % 7); if (o == O_FSQRT) o = O_FABS; n.e = mkFUn(o, a.e); fp = true; for (int k = 0; k < K; ++k) n.v[k] = evalFUn(o, w, a.v[k]); }
      }
      bool nan = false; // NaN payloads are not modelled
      if (fp) for (int k = 0; k < K; ++k) nan |= isnanw(n.v[k], n.e->w);
      if (nan) continue;
      for (int k = 0; k < K; ++k) {
        total++;
        uint64_t g = evalModel(M[k], n.e);
        bool ok = g == n.v[k] || fp && isnanw(g, n.e->w) && isnanw(n.v[k], n.e->w);
        bool iv = n.v[k] >= n.e->umin && n.v[k] <= n.e->umax && sx(n.v[k], n.e->w) >= n.e->smin && sx(n.v[k], n.e->w) <= n.e->smax;
        if (fp && isnanw(n.v[k], n.e->w)) iv = true;
        if (!ok || !iv) {
          if (bad++ < 5) printf("BAD op=%d w=%u got %llx want %llx interval=%d: %s\n  a=%s\n  b=%s\n", op, n.e->w, (unsigned long long)g, (unsigned long long)n.v[k], iv, exprStr(n.e, 5).c_str(), a.e ? exprStr(a.e, 4).c_str() : "", b.e ? exprStr(b.e, 4).c_str() : "");
          break;
        }
      }
      pool.push_back(n);
    }
  }
  printf("%ld evaluations, %ld mismatches\n", total, bad);
  return bad != 0;
}
