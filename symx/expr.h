// Hash-consed bit-vector / IEEE-float expression DAG with simplification,
// interval analysis, concrete evaluation under a model, and lowering to Z3.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

enum Op : uint8_t {
  O_VAR, O_CONST,
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
  O_ITE, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT,
  // floats (width 32/64; operands are the IEEE bits)
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FNEG, O_FABS, O_FSQRT,
  O_FCEIL, O_FFLOOR, O_FTRUNC, O_FROUND, O_FRINT,
  O_FLT, O_FLE, O_FEQ, O_FUNO,
  O_SITOFP, O_UITOFP, O_FPTOSI, O_FPEXT, O_FPTRUNC,
};

struct Expr {
  Op op;
  uint8_t w;       // width in bits (1..64)
  uint32_t id;
  uint64_t k;      // const value / var index / extract offset
  const Expr *a, *b, *c;
  uint64_t umin, umax;
  int64_t smin, smax;
  uint32_t vset;   // interned variable set id
};
typedef const Expr *E;

struct VarInfo {
  std::string name;
  unsigned w;
};
extern std::vector<VarInfo> g_vars;

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sx(uint64_t v, unsigned w)
{
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ull << (w - 1);
  return (int64_t)(((v & maskw(w)) ^ m) - m);
}

E mkVar(const std::string &name, unsigned w);
E mkConst(uint64_t v, unsigned w);
E mkBin(Op op, E a, E b);
E mkCmp(Op op, E a, E b);
E mkIte(E c, E a, E b);
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);
E mkExtract(E a, unsigned off, unsigned w);
E mkConcat(E hi, E lo);
E mkNot(E a); // width 1
E mkAnd(E a, E b);
E mkOr(E a, E b);
E mkFBin(Op op, E a, E b);
E mkFUn(Op op, E a);
E mkFCmp(Op op, E a, E b);
E mkSItoFP(E a, unsigned w);
E mkUItoFP(E a, unsigned w);
bool fpScaled(E f, E &x); // f is exactly x * 2^-k
E mkFPtoSI(E a, unsigned w); // x86 cvtt semantics at 32/64 bits
E mkFPExt(E a);
E mkFPTrunc(E a);

inline bool isC(E e) { return e->op == O_CONST; }

// concrete semantics (shared with the interpreter's fast path)
uint64_t evalOp2(Op op, unsigned w, uint64_t a, uint64_t b);
uint64_t evalFUn(Op op, unsigned w, uint64_t a);
uint64_t evalSItoFP(uint64_t a, unsigned wa, unsigned w);
uint64_t evalUItoFP(uint64_t a, unsigned wa, unsigned w);
uint64_t evalFPtoSI(uint64_t a, unsigned wa, unsigned w);
uint64_t evalFPExt(uint64_t a);
uint64_t evalFPTrunc(uint64_t a);

// variable sets
const std::vector<uint32_t> &varsOf(uint32_t vset);

struct Model {
  std::vector<uint64_t> v;              // by variable index (default 0)
  mutable std::vector<uint64_t> cache;  // by expr id
  mutable std::vector<uint8_t> have;
};
typedef std::shared_ptr<Model> ModelP;
uint64_t evalModel(const Model &m, E e);

enum SatRes { SAT, UNSAT, UNKNOWN };
struct SolverStats {
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, ufUnsat = 0;
  double seconds = 0;
};
extern SolverStats g_stats;
extern unsigned g_queryTimeoutMs;
extern const char *g_dumpDir;
// is  (conjunction of pc) && extra  satisfiable?  base is a model of pc.
SatRes solve(const std::vector<E> &pc, E extra, const ModelP &base, ModelP *out);
std::string exprStr(E e, int depth = 6);
