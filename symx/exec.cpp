// Symbolic interpreter for ir.h modules.
#include "exec.h"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <unistd.h>
#include <sys/resource.h>

static Module *M;
static std::string g_entry = "sx_main";
static std::string g_outFile;
static uint64_t g_maxSteps = 400000000ull, g_maxStates = 2000000, g_maxConcretize = 4096;
static double g_timeLimit = 1e9;
static bool g_merge = true, g_mergeInts = true, g_verbose = false;
static uint64_t g_maxViol = 1;

struct Violation {
  std::string kind, msg, where, stack;
  std::vector<std::pair<std::string, uint64_t>> inputs;
  std::vector<std::pair<std::string, uint64_t>> outs;
};
static std::vector<Violation> g_viol;
static std::set<std::string> g_violKeys;
static std::vector<std::vector<std::pair<std::string, uint64_t>>> g_samples, g_sampleOuts;
static std::map<std::string, uint64_t> g_incomplete;
static std::vector<std::string> g_reachNames;
static std::map<std::string, uint32_t> g_reachIdx;
static std::set<uint32_t> g_reachedDone;
static std::map<std::string, uint64_t> g_asserts; // message -> discharged
static uint64_t n_instr, n_forks, n_merges, n_mergeFail, n_paths, n_states = 1, n_assumeKills, n_assertQ, n_uninit;
static std::set<const Func *> g_funcsRun;
static std::chrono::steady_clock::time_point g_t0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - g_t0).count(); }

struct Reexec {};            // re-execute the current instruction
struct PathEnd {};           // drop this state
struct Switched {};          // control has moved: refetch frame

// ---------------------------------------------------------------- memory
static Obj *objRO(State &s, uint32_t id)
{
  uint32_t p = id / PG;
  if (p >= s.pages.size() || !s.pages[p]) return nullptr;
  return &s.pages[p]->o[id % PG];
}
static Obj *objRW(State &s, uint32_t id)
{
  uint32_t p = id / PG;
  if (p >= s.pages.size()) s.pages.resize(p + 1);
  auto &pp = s.pages[p];
  if (!pp) pp = std::make_shared<Page>();
  else if (pp.use_count() > 1) pp = std::make_shared<Page>(*pp);
  return &pp->o[id % PG];
}
static ObjData *dataRW(Obj *o)
{
  if (!o->d) o->d = std::make_shared<ObjData>();
  else if (o->d.use_count() > 1) o->d = std::make_shared<ObjData>(*o->d);
  return o->d.get();
}
static ChunkP g_uninitChunk, g_zeroChunk;
static Chunk *chunkRW(Obj *o, uint64_t off)
{
  ObjData *d = dataRW(o);
  auto &c = d->ch[off / CH];
  if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
  return c.get();
}
static uint32_t newObj(State &s, uint64_t size, ObjKind kind, bool zero, uint32_t loc)
{
  uint32_t id = s.nextId;
  s.nextId += 1 + (uint32_t)((size + OBJ_OFF) >> OBJ_SHIFT);
  for (uint32_t k = id + 1; k < s.nextId; ++k) { Obj *r = objRW(s, k); r->kind = K_REDIR; r->redirect = id; }
  Obj *o = objRW(s, id);
  o->size = size; o->kind = kind; o->freed = false; o->ro = false; o->loc = loc; o->how = 0;
  o->d = std::make_shared<ObjData>();
  o->d->ch.assign((size + CH - 1) / CH, zero ? g_zeroChunk : g_uninitChunk);
  return id;
}

// ---------------------------------------------------------------- reporting
static std::string locStr(uint32_t l)
{
  if (l >= M->locs.size()) return "?";
  return M->locs[l].first + ":" + std::to_string(M->locs[l].second);
}
static FrameP &topP(State &s) { return s.th[s.cur].fr.back(); }
static Frame *top(State &s)
{
  FrameP &p = topP(s);
  if (p.use_count() > 1) p = std::make_shared<Frame>(*p);
  return p.get();
}
static uint32_t curLoc(State &s)
{
  auto &fr = s.th[s.cur].fr;
  if (fr.empty()) return 0;
  Frame &f = *fr.back();
  auto &ins = f.f->blocks[f.blk].ins;
  return f.ip < ins.size() ? ins[f.ip].loc : 0;
}
static std::string stackStr(State &s)
{
  std::string r;
  auto &fr = s.th[s.cur].fr;
  for (size_t i = fr.size(); i-- > 0 && fr.size() - i < 14;) {
    Frame &f = *fr[i];
    auto &ins = f.f->blocks[f.blk].ins;
    r += (r.empty() ? "" : " <- ") + f.f->name + "@" + (f.ip < ins.size() ? locStr(ins[f.ip].loc) : "?");
  }
  return r;
}
// innermost location inside the repository (or the harness)
static std::string whereStr(State &s)
{
  auto &fr = s.th[s.cur].fr;
  for (size_t i = fr.size(); i-- > 0;) {
    Frame &f = *fr[i];
    auto &ins = f.f->blocks[f.blk].ins;
    std::string l = f.ip < ins.size() ? locStr(ins[f.ip].loc) : "?";
    if (l.find("/repo/") != std::string::npos) return l;
  }
  return locStr(curLoc(s));
}
static std::vector<std::pair<std::string, uint64_t>> inputsOf(const Model &m)
{
  std::vector<std::pair<std::string, uint64_t>> r;
  for (size_t i = 0; i < g_vars.size(); ++i)
    if (g_vars[i].name.compare(0, 6, "uninit") != 0)
      r.push_back({g_vars[i].name, i < m.v.size() ? m.v[i] & maskw(g_vars[i].w) : 0});
  return r;
}
static std::vector<std::pair<std::string, uint64_t>> outsOf(State &s, const Model &m)
{
  std::vector<std::pair<std::string, uint64_t>> r;
  for (auto &o : s.outs) r.push_back({o.name, evalModel(m, o.e)});
  return r;
}
// a less uniform model of the same path, for the sample runs
static ModelP spread(State &s)
{
  static uint64_t seed = 88172645463325252ull;
  ModelP best = s.model;
  if (s.pc.size() > 300) return best;
  size_t n = 0;
  for (size_t i = 0; i < g_vars.size() && n < 150; ++i) {
    if (g_vars[i].name.compare(0, 6, "uninit") == 0) continue;
    n++;
    seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17;
    uint64_t r = seed >> 5;
    for (int k = 0; k < 2; ++k, r &= 15) {
      auto m = std::make_shared<Model>();
      m->v = best->v;
      m->v.resize(g_vars.size(), 0);
      m->v[i] = r & maskw(g_vars[i].w);
      bool ok = true;
      for (E e : s.pc) if (!(evalModel(*m, e) & 1)) { ok = false; break; }
      if (ok) { best = m; break; }
    }
  }
  return best;
}
static void report(State &s, const std::string &kind, const std::string &msg, const Model &m)
{
  std::string w = whereStr(s);
  std::string key = kind + "|" + msg + "|" + (kind == "assert" ? "" : w);
  if (!g_violKeys.insert(key).second) return;
  Violation v;
  v.kind = kind; v.msg = msg; v.where = w; v.stack = stackStr(s);
  v.inputs = inputsOf(m);
  v.outs = outsOf(s, m);
  g_viol.push_back(v);
  if (g_verbose) fprintf(stderr, "VIOL %s %s at %s\n  %s\n", kind.c_str(), msg.c_str(), w.c_str(), v.stack.c_str());
}
[[noreturn]] static void violate(State &s, const std::string &kind, const std::string &msg)
{
  report(s, kind, msg, *s.model);
  throw PathEnd();
}
[[noreturn]] static void incomplete(State &s, const std::string &why)
{
  g_incomplete[why + " at " + locStr(curLoc(s))]++;
  if (g_verbose) fprintf(stderr, "INCOMPLETE %s  %s\n", why.c_str(), stackStr(s).c_str());
  throw PathEnd();
}

// ---------------------------------------------------------------- queue, fork
struct KeyLess {
  bool operator()(const std::vector<uint32_t> &a, const std::vector<uint32_t> &b) const { return a < b; }
};
static std::multimap<std::vector<uint32_t>, State *, KeyLess> g_queue; // single-threaded states
static std::vector<State *> g_stack;                                   // multi-threaded states (DFS)

static void computeKey(State &s)
{
  s.key.clear();
  for (auto &fp : s.th[0].fr) {
    Frame &f = *fp;
    for (auto &l : f.loops) { s.key.push_back(l.header); s.key.push_back(l.it); }
    s.key.push_back(f.blk);
    s.key.push_back(f.ip);
  }
}
static bool multi(State &s)
{
  return s.th.size() > 1;
}
static bool mergeInto(State &a, State &b); // a absorbs b
static void enqueue(State *s, bool tryMerge = true)
{
  if (multi(*s)) { g_stack.push_back(s); return; }
  computeKey(*s);
  if (g_merge && tryMerge) {
    auto r = g_queue.equal_range(s->key);
    int lim = 64;
    for (auto it = r.first; it != r.second && lim-- > 0; ++it)
      if (mergeInto(*it->second, *s)) { delete s; return; }
  }
  g_queue.emplace(s->key, s);
}
static std::map<std::string, uint64_t> g_forkLoc;
static State *forkState(State &s)
{
  if (g_verbose) g_forkLoc[locStr(curLoc(s))]++;
  State *n = new State(s);
  // the running instruction holds a raw pointer to s's top frame: never share it
  auto &fr = n->th[n->cur].fr;
  if (!fr.empty()) fr.back() = std::make_shared<Frame>(*fr.back());
  n->id = n_states++;
  n_forks++;
  return n;
}
static SatRes q(State &s, E extra, ModelP *m)
{
  SatRes r = solve(s.pc, extra, s.model, m);
  if (r == UNKNOWN) g_incomplete["solver unknown/timeout at " + locStr(curLoc(s))]++;
  return r;
}
// evaluate a boolean under the path's model
static bool mval(State &s, E c) { return evalModel(*s.model, c) & 1; }

// Concretize: forks the alternatives; the alternative re-executes the current instruction.
static std::map<uint32_t, uint64_t> g_concCount;
static uint64_t concretize(State &s, V &v, unsigned w, const char *what)
{
  if (!v.sym()) return v.c;
  uint64_t val = evalModel(*s.model, v.e);
  E eq = mkCmp(O_EQ, v.e, mkConst(val, w));
  ModelP m2;
  if (!isC(eq)) {
    SatRes r = q(s, mkNot(eq), &m2);
    if (r == SAT) {
      if (++g_concCount[curLoc(s)] > g_maxConcretize * 16) incomplete(s, std::string("too many concretizations of ") + what);
      State *o = forkState(s);
      o->pc.push_back(mkNot(eq));
      o->model = m2;
      enqueue(o, false);
      s.pc.push_back(eq);
    } else if (r == UNKNOWN) s.pc.push_back(eq);
  }
  v = V(val);
  return val;
}
// decide a condition inside an instruction (re-execution style fork)
static bool decide(State &s, E c)
{
  if (isC(c)) return c->k;
  bool v = mval(s, c);
  E here = v ? c : mkNot(c), there = v ? mkNot(c) : c;
  ModelP m2;
  if (q(s, there, &m2) == SAT) {
    State *o = forkState(s);
    o->pc.push_back(there);
    o->model = m2;
    enqueue(o, false);
    s.pc.push_back(here);
  }
  return v;
}

// ---------------------------------------------------------------- address resolution
static unsigned tz(E e, int d = 0)
{
  if (isC(e)) return e->k ? __builtin_ctzll(e->k) : e->w;
  if (d > 12) return 0;
  switch (e->op) {
    case O_MUL: return std::min<unsigned>(e->w, tz(e->a, d + 1) + tz(e->b, d + 1));
    case O_SHL: return isC(e->b) ? std::min<unsigned>(e->w, tz(e->a, d + 1) + e->b->k) : 0;
    case O_ADD: case O_SUB: case O_OR: return std::min(tz(e->a, d + 1), tz(e->b, d + 1));
    case O_ITE: return std::min(tz(e->b, d + 1), tz(e->c, d + 1));
    case O_ZEXT: case O_SEXT: return tz(e->a, d + 1);
    case O_CONCAT: { unsigned t = tz(e->b, d + 1); return t < e->b->w ? t : t + tz(e->a, d + 1); }
    default: return 0;
  }
}
struct Ref {
  uint32_t id;
  uint64_t off = 0;       // concrete offset
  E eoff = nullptr;       // symbolic offset (in-bounds established)
  uint64_t lo = 0, hi = 0, stride = 1;
};
static bool findObj(State &s, uint64_t addr, uint32_t &id)
{
  if (addr < OBJ_REGION) return false;
  uint64_t i = (addr - OBJ_REGION) >> OBJ_SHIFT;
  if (i >= s.nextId) return false;
  Obj *o = objRO(s, (uint32_t)i);
  if (!o) return false;
  if (o->kind == K_REDIR) { i = o->redirect; o = objRO(s, (uint32_t)i); }
  if (!o || o->kind == K_NONE) return false;
  id = (uint32_t)i;
  return true;
}
// ---------------------------------------------------------------- data races
static bool g_race = false;
static std::vector<uint8_t> g_locKind; // 1: scheduler/primitive internals, 2: libstdc++ atomic reference counts
static uint8_t locKind(uint32_t l)
{
  if (g_locKind.empty()) {
    g_locKind.resize(M->locs.size() + 1);
    for (size_t i = 0; i < M->locs.size(); ++i) {
      const std::string &f = M->locs[i].first;
      if ((f.find("shim/") != std::string::npos && f.find("shim/sym/") == std::string::npos) || f.find("harness/") != std::string::npos) g_locKind[i] = 1;
      else if (f.find("atomicity.h") != std::string::npos) g_locKind[i] = 2;
    }
  }
  return l < g_locKind.size() ? g_locKind[l] : 0;
}
static void hbAcquire(State &s, uint64_t key)
{
  if ((unsigned)s.cur >= RT) return;
  auto it = s.sync.find(key);
  if (it == s.sync.end()) return;
  for (unsigned i = 0; i < RT; ++i) s.vc[s.cur][i] = std::max(s.vc[s.cur][i], it->second[i]);
}
static void hbRelease(State &s, uint64_t key)
{
  if ((unsigned)s.cur >= RT) return;
  VC &k = s.sync[key];
  for (unsigned i = 0; i < RT; ++i) k[i] = std::max(k[i], s.vc[s.cur][i]);
  s.vc[s.cur][s.cur]++;
}
static void raceAccess(State &s, uint32_t id, uint64_t off, uint64_t n, bool wr, bool atomic = false)
{
  if (s.th.size() < 2 || (unsigned)s.cur >= RT) return;
  uint32_t loc = curLoc(s);
  uint8_t lk = locKind(loc);
  if (lk == 1) return;
  if (lk == 2 || atomic) { uint64_t key = objBase(id) + off; hbAcquire(s, key); hbRelease(s, key); return; }
  Obj *o = objRO(s, id);
  if (o->ro) return;
  auto &sp = s.shadow[id];
  const uint64_t total = o->size;
  if (!sp) { sp = std::make_shared<RShadow>(); sp->ch.resize((total + CH - 1) / CH); }
  else if (sp.use_count() > 1) sp = std::make_shared<RShadow>(*sp);
  VC &me = s.vc[s.cur];
  auto cell = [&](RCell &c) {
    if (c.w && c.wt != s.cur && c.w > me[c.wt])
      violate(s, "race", std::string("data race: unordered ") + (wr ? "write" : "read") + " at " + locStr(loc) + " and write at " + locStr(c.wl));
    if (wr) {
      for (unsigned t = 0; t < RT; ++t) {
        if (c.r[t] && t != (unsigned)s.cur && c.r[t] > me[t])
          violate(s, "race", std::string("data race: unordered write at ") + locStr(loc) + " and read at " + locStr(c.rl));
        c.r[t] = 0; // ordered before this write
      }
      c.w = me[s.cur]; c.wt = (uint8_t)s.cur; c.wl = loc;
    } else { c.r[s.cur] = me[s.cur]; c.rl = loc; }
  };
  uint64_t end = std::min(off + n, total);
  for (uint64_t k = off; k < end;) {
    auto &cp = sp->ch[k / CH];
    uint64_t lo = k % CH, hi = std::min<uint64_t>(CH, end - (k - lo)), len = std::min<uint64_t>(CH, total - (k - lo));
    if (!cp) cp = std::make_shared<RChunk>();
    else if (cp.use_count() > 1) cp = std::make_shared<RChunk>(*cp);
    RChunk &q = *cp;
    bool whole = lo == 0 && hi == len;
    if (whole && q.c.empty()) cell(q.u);
    else {
      if (q.c.empty()) q.c.assign(len, q.u);
      for (uint64_t i = lo; i < hi; ++i) cell(q.c[i]);
      if (whole && wr) { q.u = q.c[0]; q.c.clear(); q.c.shrink_to_fit(); }
    }
    k += hi - lo;
  }
}
static const char *accName(bool wr) { return wr ? "write" : "read"; }
static void checkLive(State &s, uint32_t id, uint64_t addr, bool wr)
{
  Obj *o = objRO(s, id);
  if (o->freed) violate(s, "memory", std::string("use after free (") + accName(wr) + ")");
  if (wr && o->ro) violate(s, "memory", "write to read-only object");
}
static bool g_atomicAcc = false;
static Ref resolve(State &s, V &a, uint64_t n, bool wr)
{
  Ref r;
  if (a.sym() && g_race && s.th.size() > 1) concretize(s, a, 64, "pointer (race check)");
  if (a.sym()) {
    // base + symbolic offset
    E e = a.e;
    uint64_t base = 0;
    E rest = e;
    if (e->op == O_ADD && isC(e->b)) { base = e->b->k; rest = e->a; }
    uint32_t id;
    if (base >= OBJ_REGION && findObj(s, base, id)) {
      checkLive(s, id, base, wr);
      Obj *o = objRO(s, id);
      E off = mkBin(O_ADD, rest, mkConst(base - objBase(id), 64));
      uint64_t maxoff = o->size >= n ? o->size - n : 0;
      if (o->size < n) violate(s, "memory", std::string("out-of-bounds ") + accName(wr) + " (object size " + std::to_string(o->size) + ")");
      if (off->umax > maxoff) {
        E oob = mkCmp(O_ULT, mkConst(maxoff, 64), off);
        ModelP m2 = s.model;
        bool cur = mval(s, oob);
        SatRes q1 = cur ? SAT : q(s, oob, &m2);
        if (q1 == SAT) {
          report(s, "memory", std::string("out-of-bounds ") + accName(wr) + " (object size " + std::to_string(o->size) + ", symbolic offset)", *m2);
          if (cur) {
            ModelP m3;
            if (q(s, mkNot(oob), &m3) != SAT) throw PathEnd();
            s.model = m3;
          }
          s.pc.push_back(mkNot(oob));
        } else if (q1 == UNKNOWN) throw PathEnd();
      }
      unsigned t = std::min(12u, tz(off));
      r.id = id; r.eoff = off; r.stride = 1ull << t;
      r.lo = off->umin; r.hi = std::min(off->umax, maxoff);
      r.lo = (r.lo + r.stride - 1) & ~(r.stride - 1);
      if ((r.hi - r.lo) / r.stride > 1024) {
        concretize(s, a, 64, "large symbolic offset");
      } else return r;
    } else {
      concretize(s, a, 64, "pointer");
    }
  }
  uint64_t addr = a.c;
  uint32_t id;
  if (addr < 4096) violate(s, "memory", std::string("null pointer ") + accName(wr));
  if (!findObj(s, addr, id)) violate(s, "memory", std::string("wild pointer ") + accName(wr));
  uint64_t off = addr - objBase(id);
  Obj *o = objRO(s, id);
  if (o->freed) violate(s, "memory", std::string("use after free (") + accName(wr) + ")");
  if (off > o->size || o->size - off < n)
    violate(s, "memory", std::string("out-of-bounds ") + accName(wr) + " of " + std::to_string(n) + " at offset " + std::to_string((int64_t)off) + " (object size " + std::to_string(o->size) + ")");
  if (wr && o->ro) violate(s, "memory", "write to read-only object");
  r.id = id;
  r.off = off;
  if (g_race && s.th.size() > 1) raceAccess(s, id, off, n, wr, g_atomicAcc);
  return r;
}

static uint32_t g_uninitCtr = 0;
static V loadAt(State &s, uint32_t id, uint64_t off, unsigned n) // n bytes
{
  Obj *o = objRO(s, id);
  ObjData *d = o->d.get();
  Chunk *c = d->ch[off / CH].get();
  uint64_t co = off % CH;
  if (!c->s && co + n <= CH) {
    uint64_t v = 0;
    memcpy(&v, c->b + co, n);
    return V(v);
  }
  // symbolic path
  uint8_t by[8]; SB sb[8];
  bool any = false;
  for (unsigned i = 0; i < n; ++i) {
    uint64_t p = off + i;
    Chunk *k = d->ch[p / CH].get();
    by[i] = k->b[p % CH];
    sb[i] = k->s ? k->s[p % CH] : SB{nullptr, 0};
    if (sb[i].e || sb[i].i == 255) any = true;
  }
  if (!any) { uint64_t v = 0; memcpy(&v, by, n); return V(v); }
  bool allU = true;
  for (unsigned i = 0; i < n; ++i) if (sb[i].i != 255) allU = false;
  for (unsigned i = 0; i < n; ++i)
    if (sb[i].i == 255) {
      n_uninit++;
      E u = mkVar("uninit" + std::to_string(g_uninitCtr++), allU ? n * 8 : 8);
      Obj *ow = objRW(s, id);
      if (allU) {
        for (unsigned k = 0; k < n; ++k) {
          Chunk *cw = chunkRW(ow, off + k);
          cw->s[(off + k) % CH] = SB{u, (uint8_t)k};
        }
        return V(0, u);
      }
      Chunk *cw = chunkRW(ow, off + i);
      cw->s[(off + i) % CH] = SB{u, 0};
      sb[i] = SB{u, 0};
    }
  if (sb[0].e) {
    E e = sb[0].e;
    bool same = true;
    for (unsigned i = 1; i < n && same; ++i) same = sb[i].e == e && sb[i].i == sb[0].i + i;
    if (same) {
      unsigned bo = sb[0].i * 8u;
      if (bo == 0 && e->w <= n * 8 && e->w > (n - 1) * 8) return V::of(mkZext(e, n * 8));
      if (bo + n * 8 <= e->w) return V::of(mkExtract(e, bo, n * 8));
    }
  }
  E r = nullptr;
  for (unsigned i = 0; i < n; ++i) {
    E b;
    if (sb[i].e) {
      E e = sb[i].e;
      unsigned bo = sb[i].i * 8u;
      b = bo + 8 <= e->w ? mkExtract(e, bo, 8) : mkZext(mkExtract(e, bo, e->w - bo), 8);
    } else b = mkConst(by[i], 8);
    r = r ? mkConcat(b, r) : b;
  }
  return V::of(r);
}
static void storeAt(State &s, uint32_t id, uint64_t off, unsigned n, const V &v)
{
  Obj *o = objRW(s, id);
  uint64_t co = off % CH;
  if (!v.sym() && co + n <= CH) {
    Chunk *c = chunkRW(o, off);
    memcpy(c->b + co, &v.c, n);
    if (c->s) for (unsigned i = 0; i < n; ++i) c->s[co + i] = SB{nullptr, 0};
    return;
  }
  for (unsigned i = 0; i < n; ++i) {
    uint64_t p = off + i;
    Chunk *c = chunkRW(o, p);
    if (v.sym()) {
      if (!c->s) { c->s.reset(new SB[CH]); for (unsigned k = 0; k < CH; ++k) c->s[k] = SB{nullptr, 0}; }
      if (i * 8u < v.e->w) { c->s[p % CH] = SB{v.e, (uint8_t)i}; }
      else { c->s[p % CH] = SB{nullptr, 0}; c->b[p % CH] = 0; }
    } else {
      c->b[p % CH] = (uint8_t)(v.c >> (8 * i));
      if (c->s) c->s[p % CH] = SB{nullptr, 0};
    }
  }
}
static V load(State &s, V &a, unsigned w)
{
  unsigned n = (w + 7) / 8;
  Ref r = resolve(s, a, n, false);
  V v;
  if (!r.eoff) v = loadAt(s, r.id, r.off, n);
  else {
    E acc = nullptr;
    for (uint64_t o = r.hi - (r.hi - r.lo) % r.stride;; o -= r.stride) {
      V x = loadAt(s, r.id, o, n);
      E xe = toE(x, n * 8);
      acc = acc ? mkIte(mkCmp(O_EQ, r.eoff, mkConst(o, 64)), xe, acc) : xe;
      if (o == r.lo) break;
    }
    v = V::of(acc);
  }
  if (n * 8 != w) {
    if (v.sym()) v = V::of(mkExtract(v.e, 0, w));
    else v.c &= maskw(w);
  }
  return v;
}
static void store(State &s, V &a, unsigned w, V v)
{
  unsigned n = (w + 7) / 8;
  Ref r = resolve(s, a, n, true);
  if (n * 8 != w && v.sym()) v = V::of(mkZext(v.e, n * 8));
  if (!r.eoff) { storeAt(s, r.id, r.off, n, v); return; }
  E ve = toE(v, n * 8);
  for (uint64_t o = r.lo; o <= r.hi; o += r.stride) {
    V x = loadAt(s, r.id, o, n);
    storeAt(s, r.id, o, n, V::of(mkIte(mkCmp(O_EQ, r.eoff, mkConst(o, 64)), ve, toE(x, n * 8))));
  }
}
// raw byte copy between resolved concrete locations
static void copyBytes(State &s, uint32_t did, uint64_t doff, uint32_t sid, uint64_t soff, uint64_t n)
{
  if (n == 0) return;
  std::shared_ptr<ObjData> src = objRO(s, sid)->d; // keep snapshot (also handles overlap)
  Obj *o = objRW(s, did);
  dataRW(o);
  uint64_t i = 0;
  while (i < n) {
    uint64_t so = soff + i, dof = doff + i;
    if (so % CH == 0 && dof % CH == 0 && n - i >= CH) {
      dataRW(o)->ch[dof / CH] = src->ch[so / CH];
      i += CH;
      continue;
    }
    if (dof % CH == 0 && n - i >= CH && src->ch[so / CH] == g_zeroChunk && src->ch[so / CH + 1] == g_zeroChunk) {
      dataRW(o)->ch[dof / CH] = g_zeroChunk;
      i += CH;
      continue;
    }
    uint64_t k = std::min<uint64_t>({n - i, CH - so % CH, CH - dof % CH});
    Chunk *sc = src->ch[so / CH].get();
    Chunk *dc = chunkRW(o, dof);
    memcpy(dc->b + dof % CH, sc->b + so % CH, k);
    if (sc->s) {
      if (!dc->s) { dc->s.reset(new SB[CH]); for (unsigned q = 0; q < CH; ++q) dc->s[q] = SB{nullptr, 0}; }
      memcpy(dc->s.get() + dof % CH, sc->s.get() + so % CH, k * sizeof(SB));
    } else if (dc->s) {
      for (uint64_t q = 0; q < k; ++q) dc->s[dof % CH + q] = SB{nullptr, 0};
    }
    i += k;
  }
}
static std::string readCStr(State &s, uint64_t addr)
{
  std::string r;
  uint32_t id;
  if (!findObj(s, addr, id)) return "?";
  Obj *o = objRO(s, id);
  for (uint64_t off = addr - objBase(id); off < o->size && r.size() < 400; ++off) {
    V v = loadAt(s, id, off, 1);
    if (v.sym()) { r += "?"; continue; }
    if (!v.c) break;
    r += (char)v.c;
  }
  return r;
}

// ---------------------------------------------------------------- control
static inline V get(Frame *f, Opnd o)
{
  if (o >= 0) return f->regs[o];
  return V(M->consts[~o]);
}
static void loopUpdate(Frame *f, uint32_t from, uint32_t to)
{
  auto &chain = f->f->blocks[to].loops;
  size_t k = 0;
  while (k < chain.size() && k < f->loops.size() && f->loops[k].header == chain[k]) k++;
  if (k < f->loops.size()) f->loops.resize(k);
  if (k == chain.size() && k > 0 && chain[k - 1] == to) f->loops[k - 1].it++; // back edge
  for (; k < chain.size(); ++k) f->loops.push_back({chain[k], 0});
}
static void takeEdge(Frame *f, uint32_t ei)
{
  Edge &e = f->f->edges[ei];
  size_t n = e.moves.size();
  if (n == 1) f->regs[e.moves[0].dst] = get(f, e.moves[0].src);
  else if (n) {
    V tmp[64];
    std::vector<V> big;
    V *t = tmp;
    if (n > 64) { big.resize(n); t = big.data(); }
    for (size_t i = 0; i < n; ++i) t[i] = get(f, e.moves[i].src);
    for (size_t i = 0; i < n; ++i) f->regs[e.moves[i].dst] = t[i];
  }
  loopUpdate(f, f->blk, e.target);
  f->blk = e.target;
  f->ip = 0;
}
static void pushFrame(State &s, Func *fn, const std::vector<V> &args)
{
  if (!fn->hasBody) incomplete(s, "call of function without body: " + fn->name);
  if (s.th[s.cur].fr.size() > 400) violate(s, "stack", "unbounded recursion");
  auto fp = std::make_shared<Frame>();
  fp->f = fn;
  fp->regs.resize(fn->nslots);
  for (size_t i = 0; i < args.size() && i < fn->argw.size(); ++i) fp->regs[i] = args[i];
  for (uint32_t h : fn->blocks[0].loops) fp->loops.push_back({h, 0});
  s.th[s.cur].fr.push_back(fp);
  if (fn->repo) g_funcsRun.insert(fn);
}
static void popFrame(State &s)
{
  Frame *f = topP(s).get();
  for (uint32_t id : f->allocas) { Obj *o = objRW(s, id); o->freed = true; o->d.reset(); }
  s.th[s.cur].fr.pop_back();
}

// ---------------------------------------------------------------- exceptions
static bool tiMatches(const std::string &thrown, const std::string &caught, int d = 0)
{
  if (thrown == caught) return true;
  if (d > 10) return false;
  auto it = M->tiBases.find(thrown);
  if (it == M->tiBases.end()) return false;
  for (auto &b : it->second) if (tiMatches(b, caught, d + 1)) return true;
  return false;
}
static uint64_t tiSel(uint64_t ti) { return ti ? ((ti - OBJ_REGION) >> OBJ_SHIFT) + 1 : 0x7ffffff0; }
static std::string excName(uint64_t ti)
{
  auto it = M->tiName.find(ti);
  return it == M->tiName.end() ? "?" : it->second;
}
// returns with the top frame positioned at the handler
static void unwind(State &s, uint64_t obj, uint64_t ti, size_t from)
{
  auto &fr = s.th[s.cur].fr;
  std::string tn = excName(ti);
  // phase 1
  bool found = false;
  for (size_t i = from + 1; i-- > 0 && !found;) {
    Frame &f = *fr[i];
    Instr &I = f.f->blocks[f.blk].ins[f.ip];
    if (I.op != I_CALL) continue;
    CallInfo &ci = f.f->calls[I.aux];
    if (ci.unwindEdge < 0) continue;
    for (auto &c : f.f->pads[ci.unwindPad].clauses)
      if (c.kind == 0 && (c.ti == 0 || tiMatches(tn, excName(c.ti)))) found = true;
  }
  if (!found) violate(s, "exception", "uncaught exception " + tn);
  for (;;) {
    Frame *f = top(s);
    Instr &I = f->f->blocks[f->blk].ins[f->ip];
    if (fr.size() - 1 <= from && I.op == I_CALL) {
      CallInfo &ci = f->f->calls[I.aux];
      if (ci.unwindEdge >= 0) {
        LandingPad &lp = f->f->pads[ci.unwindPad];
        uint64_t sel = 0;
        bool enter = lp.cleanup;
        for (auto &c : lp.clauses) {
          if (c.kind == 0 && (c.ti == 0 || tiMatches(tn, excName(c.ti)))) { sel = tiSel(c.ti); enter = true; break; }
          if (c.kind == 1) {
            bool in = false;
            for (auto t : c.filter) if (tiMatches(tn, excName(t))) in = true;
            if (!in) { sel = (uint32_t)-1; enter = true; break; }
          }
        }
        if (enter) {
          s.th[s.cur].lp0 = V(obj);
          s.th[s.cur].lp1 = V(sel);
          takeEdge(f, ci.unwindEdge);
          return;
        }
      }
    }
    popFrame(s);
    if (fr.empty()) violate(s, "exception", "uncaught exception " + tn);
  }
}
static void throwExc(State &s, uint64_t obj, uint64_t ti)
{
  s.excTi[obj] = ti;
  unwind(s, obj, ti, s.th[s.cur].fr.size() - 1);
}

// ---------------------------------------------------------------- builtins
struct Call {
  State &s;
  Instr &I;
  CallInfo &ci;
  std::vector<V> &a;
  V r[8];
  bool noret = false; // control already moved
};
typedef void (*Builtin)(Call &);
static std::vector<Builtin> g_builtins;
static std::unordered_map<std::string, int> g_bidx;
static std::vector<std::pair<std::string, int>> g_bprefix;

static uint64_t conc(Call &c, size_t i, unsigned w, const char *what) { return concretize(c.s, c.a[i], w, what); }

static void b_nop(Call &) {}
static void b_ret0(Call &c) { c.r[0] = V(0); }

static void doMalloc(Call &c, bool zero, uint64_t sz, int how)
{
  uint32_t id = newObj(c.s, sz, K_HEAP, zero, c.I.loc);
  objRW(c.s, id)->how = how;
  c.r[0] = V(objBase(id));
}
static const uint64_t MAXALLOC = 1ull << 28, MAXCONC = 5ull << 28;
// sx_malloc(size, how): null when the request is absurdly large (bad_alloc)
static void b_sxmalloc(Call &c)
{
  if (c.a[0].sym()) {
    if (decide(c.s, mkCmp(O_ULT, mkConst(MAXALLOC, 64), c.a[0].e))) { c.r[0] = V(0); return; }
  }
  uint64_t sz = conc(c, 0, 64, "allocation size");
  if (sz > MAXCONC) { c.r[0] = V(0); return; }
  doMalloc(c, false, sz, c.a.size() > 1 ? (int)c.a[1].c : 1);
}
static void b_malloc(Call &c)
{
  if (c.a[0].sym()) {
    if (decide(c.s, mkCmp(O_ULT, mkConst(MAXALLOC, 64), c.a[0].e))) { c.r[0] = V(0); return; }
  }
  uint64_t sz = conc(c, 0, 64, "allocation size");
  if (sz > MAXCONC) { c.r[0] = V(0); return; }
  doMalloc(c, false, sz, 1);
}
static void b_calloc(Call &c)
{
  uint64_t n = conc(c, 0, 64, "calloc"), m = conc(c, 1, 64, "calloc");
  if (m && n > MAXALLOC / m) { c.r[0] = V(0); return; }
  doMalloc(c, true, n * m, 1);
}
static void b_hb(Call &c) // (1 acquire | 2 release, key)
{
  if (!g_race || c.a[1].sym()) return;
  if (c.a[0].c == 1) hbAcquire(c.s, c.a[1].c); else hbRelease(c.s, c.a[1].c);
}
static void b_free(Call &c)
{
  uint64_t p = conc(c, 0, 64, "free");
  if (!p) return;
  uint32_t id;
  if (!findObj(c.s, p, id) || objBase(id) != p) violate(c.s, "memory", "free of invalid pointer");
  Obj *o = objRW(c.s, id);
  if (o->freed) violate(c.s, "memory", "double free");
  if (o->kind != K_HEAP) violate(c.s, "memory", "free of non-heap object");
  if (g_race && c.s.shadow.count(id)) { raceAccess(c.s, id, 0, o->size, true); c.s.shadow.erase(id); }
  o->freed = true;
  o->d.reset();
}
static void b_realloc(Call &c)
{
  uint64_t p = conc(c, 0, 64, "realloc"), n = conc(c, 1, 64, "realloc");
  if (!p) { doMalloc(c, false, n, 1); return; }
  uint32_t id;
  if (!findObj(c.s, p, id)) violate(c.s, "memory", "realloc");
  uint64_t old = objRO(c.s, id)->size;
  doMalloc(c, false, n, 1);
  uint32_t nid;
  findObj(c.s, c.r[0].c, nid);
  copyBytes(c.s, nid, 0, id, 0, std::min(old, n));
  Obj *o = objRW(c.s, id);
  o->freed = true; o->d.reset();
}
static void memcpyImpl(Call &c)
{
  V len = c.a[2];
  unsigned lw = c.ci.argw[2];
  if (len.sym()) {
    // length within bounds?  a violating length is a violation
    uint64_t val = concretize(c.s, c.a[2], lw, "memcpy length");
    len = V(val);
  }
  uint64_t n = len.c;
  if (!n) { c.r[0] = c.a[0]; return; }
  concretize(c.s, c.a[0], 64, "memcpy dst");
  concretize(c.s, c.a[1], 64, "memcpy src");
  Ref d = resolve(c.s, c.a[0], n, true), r = resolve(c.s, c.a[1], n, false);
  copyBytes(c.s, d.id, d.off, r.id, r.off, n);
  c.r[0] = c.a[0];
}
static void b_memset(Call &c)
{
  uint64_t n = conc(c, 2, c.ci.argw[2], "memset length");
  c.r[0] = c.a[0];
  if (!n) return;
  concretize(c.s, c.a[0], 64, "memset dst");
  Ref d = resolve(c.s, c.a[0], n, true);
  V v = c.a[1];
  if (v.sym() && v.e->w > 8) v = V::of(mkExtract(v.e, 0, 8));
  if (!v.sym()) v.c &= 255;
  uint64_t i = 0;
  while (i < n) {
    uint64_t o = d.off + i;
    if (!v.sym()) {
      uint64_t k = std::min<uint64_t>(n - i, CH - o % CH);
      Obj *ob = objRW(c.s, d.id);
      if (k == CH && v.c == 0) dataRW(ob)->ch[o / CH] = g_zeroChunk;
      else {
        Chunk *ch = chunkRW(ob, o);
        memset(ch->b + o % CH, (int)v.c, k);
        if (ch->s) for (uint64_t q = 0; q < k; ++q) ch->s[o % CH + q] = SB{nullptr, 0};
      }
      i += k;
    } else { storeAt(c.s, d.id, o, 1, v); i++; }
  }
}

// ---- harness API
static std::string symName(Call &c, uint64_t nameAddr)
{
  std::string n = readCStr(c.s, nameAddr);
  uint32_t k = c.s.symCount[n]++;
  return k ? n + "#" + std::to_string(k) : n;
}
static void b_sx_sym(Call &c) // (ptr, count, eltbytes, name)
{
  uint64_t n = conc(c, 1, 64, "sym"), w = conc(c, 2, 64, "sym");
  if (!n) return;
  Ref d = resolve(c.s, c.a[0], n * w, true);
  std::string nm = symName(c, c.a[3].c);
  for (uint64_t i = 0; i < n; ++i) {
    E v = mkVar(n == 1 ? nm : nm + "[" + std::to_string(i) + "]", w * 8);
    storeAt(c.s, d.id, d.off + i * w, w, V(0, v));
  }
}
// sx_bits(bits, name): fresh value of that many bits, zero-extended
static void b_sx_bits(Call &c)
{
  E v = mkVar(symName(c, c.a[1].c), (unsigned)c.a[0].c);
  c.r[0] = V::of(mkZext(v, 64));
}
static void addAssume(State &s, E e)
{
  if (isC(e)) { if (!e->k) { n_assumeKills++; throw PathEnd(); } return; }
  if (!mval(s, e)) {
    ModelP m;
    SatRes r = q(s, e, &m);
    if (r != SAT) { n_assumeKills++; throw PathEnd(); }
    s.model = m;
  }
  s.pc.push_back(e);
}
static E boolOf(const V &v, unsigned w) { return mkNot(mkCmp(O_EQ, toE(v, w), mkConst(0, w))); }
static void b_sx_assume(Call &c) { addAssume(c.s, boolOf(c.a[0], c.ci.argw[0])); }
static void checkAssert(State &s, E e, const std::string &msg)
{
  g_asserts[msg];
  if (isC(e)) {
    if (!e->k) violate(s, "assert", msg);
    g_asserts[msg]++;
    return;
  }
  n_assertQ++;
  ModelP m = s.model;
  SatRes r = !mval(s, e) ? SAT : q(s, mkNot(e), &m);
  if (r == SAT) {
    report(s, "assert", msg, *m);
    addAssume(s, e);
  } else if (r == UNSAT) g_asserts[msg]++;
}
static void b_sx_assert(Call &c) { checkAssert(c.s, boolOf(c.a[0], c.ci.argw[0]), readCStr(c.s, c.a[1].c)); }
static void b_sx_assert_mem(Call &c) // (a, b, nbytes, msg)
{
  uint64_t n = conc(c, 2, 64, "len");
  std::string msg = readCStr(c.s, c.a[3].c);
  g_asserts[msg];
  if (!n) return;
  Ref x = resolve(c.s, c.a[0], n, false), y = resolve(c.s, c.a[1], n, false);
  std::vector<E> bad;
  bool any = false;
  // decided in pieces; the first one that can fail is enough
  auto flush = [&]() {
    if (bad.empty()) return true;
    while (bad.size() > 1) {
      std::vector<E> t;
      for (size_t i = 0; i < bad.size(); i += 2) t.push_back(i + 1 < bad.size() ? mkAnd(bad[i], bad[i + 1]) : bad[i]);
      bad.swap(t);
    }
    size_t before = c.s.pc.size();
    checkAssert(c.s, bad[0], msg);
    bad.clear();
    return c.s.pc.size() == before; // a failing piece was reported and is assumed from here on
  };
  for (uint64_t i = 0; i < n; ++i) {
    Obj *ox = objRO(c.s, x.id), *oy = objRO(c.s, y.id);
    Chunk *cx = ox->d->ch[(x.off + i) / CH].get(), *cy = oy->d->ch[(y.off + i) / CH].get();
    uint64_t px = (x.off + i) % CH, py = (y.off + i) % CH;
    SB sx_ = cx->s ? cx->s[px] : SB{nullptr, 0}, sy = cy->s ? cy->s[py] : SB{nullptr, 0};
    if (!sx_.e && !sy.e && sx_.i != 255 && sy.i != 255) { if (cx->b[px] == cy->b[py]) continue; }
    else if (sx_.e && sx_.e == sy.e && sx_.i == sy.i) continue;
    V a = loadAt(c.s, x.id, x.off + i, 1), b = loadAt(c.s, y.id, y.off + i, 1);
    E eq = mkCmp(O_EQ, toE(a, 8), toE(b, 8));
    if (isC(eq)) { if (eq->k) continue; violate(c.s, "assert", msg + " [byte " + std::to_string(i) + "]"); }
    bad.push_back(eq);
    any = true;
    if (bad.size() >= 1024 && !flush()) return;
  }
  if (!any) { g_asserts[msg]++; return; }
  flush();
}
static void b_sx_fail(Call &c) { violate(c.s, "assert", readCStr(c.s, c.a[0].c)); }
static void b_sx_end(Call &) { throw PathEnd(); }
static void b_sx_reach(Call &c)
{
  std::string n = readCStr(c.s, c.a[0].c);
  auto it = g_reachIdx.find(n);
  uint32_t i;
  if (it == g_reachIdx.end()) { i = g_reachNames.size(); g_reachNames.push_back(n); g_reachIdx[n] = i; }
  else i = it->second;
  // s.model is a satisfying assignment of the path here, so the label is reachable
  g_reachedDone.insert(i);
}
// sx_reach_if(cond, name): label is feasible with cond true
static void b_sx_reach_if(Call &c)
{
  std::string n = readCStr(c.s, c.a[1].c);
  auto it = g_reachIdx.find(n);
  uint32_t i;
  if (it == g_reachIdx.end()) { i = g_reachNames.size(); g_reachNames.push_back(n); g_reachIdx[n] = i; }
  else i = it->second;
  if (g_reachedDone.count(i)) return;
  E e = boolOf(c.a[0], c.ci.argw[0]);
  if (isC(e)) { if (e->k) g_reachedDone.insert(i); return; }
  ModelP m;
  if (mval(c.s, e) || q(c.s, e, &m) == SAT) g_reachedDone.insert(i);
}
static void b_sx_concretize(Call &c)
{
  c.r[0] = V(conc(c, 0, 64, "sx_concretize"));
}
static void b_sx_out(Call &c)
{
  c.s.outs.push_back({readCStr(c.s, c.a[0].c), toE(c.a[1], 64)});
}
static void b_sx_is_symbolic(Call &c) { c.r[0] = V(c.a[0].sym()); }
static void b_sx_native(Call &c) { c.r[0] = V(0); }
static void b_sx_print(Call &c)
{
  if (g_verbose) fprintf(stderr, "sx_print %s %s\n", readCStr(c.s, c.a[0].c).c_str(), c.a[1].sym() ? exprStr(c.a[1].e).c_str() : std::to_string((int64_t)c.a[1].c).c_str());
}
// ---- threads
static void b_thread_new(Call &c) // (fn, arg) -> tid
{
  uint64_t fa = conc(c, 0, 64, "thread fn");
  auto it = M->fnByAddr.find(fa);
  if (it == M->fnByAddr.end()) violate(c.s, "memory", "thread function");
  int me = c.s.cur;
  c.s.th.emplace_back();
  int t = c.s.th.size() - 1;
  c.s.cur = t;
  pushFrame(c.s, &M->funcs[it->second], {c.a[1]});
  c.s.cur = me;
  c.r[0] = V(t);
}
static void b_thread_self(Call &c) { c.r[0] = V(c.s.cur); }
static void finishCall(State &s, Instr &I, CallInfo &ci, V *r);
static void b_ctx_switch(Call &c) // (tid)
{
  State &s = c.s;
  uint64_t t = conc(c, 0, c.ci.argw[0], "context switch");
  finishCall(s, c.I, c.ci, c.r);
  c.noret = true;
  if (t >= s.th.size() || s.th[t].fr.empty()) violate(s, "internal", "switch to dead thread");
  s.cur = (int)t;
}

// ---- exceptions
static void b_cxa_alloc(Call &c)
{
  uint64_t n = conc(c, 0, 64, "exc");
  uint32_t id = newObj(c.s, n, K_HEAP, true, c.I.loc);
  c.r[0] = V(objBase(id));
}
static void b_cxa_throw(Call &c)
{
  uint64_t obj = conc(c, 0, 64, "exc");
  c.noret = true;
  throwExc(c.s, obj, c.a[1].c);
}
static void b_cxa_begin_catch(Call &c)
{
  uint64_t obj = conc(c, 0, 64, "exc");
  c.s.th[c.s.cur].caught.push_back({obj, c.s.excTi[obj]});
  c.r[0] = V(obj);
}
static void b_cxa_end_catch(Call &c)
{
  auto &k = c.s.th[c.s.cur].caught;
  if (!k.empty()) k.pop_back();
}
static void b_cxa_rethrow(Call &c)
{
  auto &k = c.s.th[c.s.cur].caught;
  if (k.empty()) violate(c.s, "exception", "rethrow without exception");
  auto p = k.back();
  c.noret = true;
  throwExc(c.s, p.first, p.second);
}
static void b_current_exception(Call &c) // sret
{
  auto &k = c.s.th[c.s.cur].caught;
  store(c.s, c.a[0], 64, V(k.empty() ? 0 : k.back().first));
}
static void b_rethrow_exception(Call &c) // exception_ptr by pointer
{
  V v = load(c.s, c.a[0], 64);
  uint64_t obj = concretize(c.s, v, 64, "exc");
  if (!obj) violate(c.s, "exception", "rethrow of null exception_ptr");
  c.noret = true;
  throwExc(c.s, obj, c.s.excTi[obj]);
}
static void b_terminate(Call &c) { violate(c.s, "terminate", "std::terminate / abort called"); }
static void b_trap(Call &c) { violate(c.s, "trap", "trap"); }
static void b_typeid_for(Call &c) { c.r[0] = V(tiSel(c.a[0].c)); }

// ---- arithmetic intrinsics (lane-wise)
template <typename F> static void lanes1(Call &c, F f)
{
  size_t n = c.ci.retw.size();
  for (size_t i = 0; i < n; ++i) c.r[i] = f(c.a[i], c.ci.retw[i]);
}
template <typename F> static void lanes2(Call &c, F f)
{
  size_t n = c.ci.retw.size();
  for (size_t i = 0; i < n; ++i) c.r[i] = f(c.a[i], c.a[n + i], c.ci.retw[i]);
}
static V bin(Op op, const V &a, const V &b, unsigned w)
{
  if (!a.sym() && !b.sym()) return V(evalOp2(op, w, a.c, b.c));
  return V::of(mkBin(op, toE(a, w), toE(b, w)));
}
static V cmp(Op op, const V &a, const V &b, unsigned w)
{
  if (!a.sym() && !b.sym()) return V(evalOp2(op, w, a.c, b.c));
  return V::of(mkCmp(op, toE(a, w), toE(b, w)));
}
static V ite(const V &c, const V &a, const V &b, unsigned w)
{
  if (!c.sym()) return (c.c & 1) ? a : b;
  return V::of(mkIte(c.e, toE(a, w), toE(b, w)));
}
static V fbin(Op op, const V &a, const V &b, unsigned w)
{
  if (!a.sym() && !b.sym()) return V(evalOp2(op, w, a.c, b.c));
  return V::of(mkFBin(op, toE(a, w), toE(b, w)));
}
// --fp-split: where a result is not exactly representable as a scaled integer the path splits on the values of the
// (exact) operands, so that roots, quotients and what follows from them are computed, not bit-blasted
static bool g_fpSplit = false;
static V fpSplit(State &s, V a)
{
  E x;
  if (!a.sym() || !fpScaled(a.e, x)) return a;
  V i = V::of(x);
  concretize(s, i, 64, "floating-point operand");
  return V(evalModel(*s.model, a.e));
}
static bool fpExact(const V &r) { E x; return !r.sym() || fpScaled(r.e, x); }
static V fbinS(State &s, Op op, const V &a, const V &b, unsigned w)
{
  V r = fbin(op, a, b, w);
  if (!g_fpSplit || fpExact(r)) return r;
  V x = fpSplit(s, a), y = fpSplit(s, b);
  return fbin(op, x, y, w);
}
static V fun(Op op, const V &a, unsigned w)
{
  if (!a.sym()) return V(evalFUn(op, w, a.c));
  return V::of(mkFUn(op, a.e));
}
static V fcmp(Op op, const V &a, const V &b, unsigned w)
{
  if (!a.sym() && !b.sym()) return V(evalOp2(op, w, a.c, b.c));
  return V::of(mkFCmp(op, toE(a, w), toE(b, w)));
}
static V vnot(const V &a) { return a.sym() ? V::of(mkNot(a.e)) : V(a.c ^ 1); }
static V vor(const V &a, const V &b) { return bin(O_OR, a, b, 1); }
static V vand(const V &a, const V &b) { return bin(O_AND, a, b, 1); }

static void b_umin(Call &c) { lanes2(c, [](V a, V b, unsigned w) { return ite(cmp(O_ULT, a, b, w), a, b, w); }); }
static void b_umax(Call &c) { lanes2(c, [](V a, V b, unsigned w) { return ite(cmp(O_ULT, a, b, w), b, a, w); }); }
static void b_smin(Call &c) { lanes2(c, [](V a, V b, unsigned w) { return ite(cmp(O_SLT, a, b, w), a, b, w); }); }
static void b_smax(Call &c) { lanes2(c, [](V a, V b, unsigned w) { return ite(cmp(O_SLT, a, b, w), b, a, w); }); }
static void b_abs(Call &c)
{
  size_t n = c.ci.retw.size();
  for (size_t i = 0; i < n; ++i) {
    unsigned w = c.ci.retw[i];
    c.r[i] = ite(cmp(O_SLT, c.a[i], V(0), w), bin(O_SUB, V(0), c.a[i], w), c.a[i], w);
  }
}
static void b_usubsat(Call &c) { lanes2(c, [](V a, V b, unsigned w) { return ite(cmp(O_ULT, a, b, w), V(0), bin(O_SUB, a, b, w), w); }); }
static void b_uaddsat(Call &c) { lanes2(c, [](V a, V b, unsigned w) { V r = bin(O_ADD, a, b, w); return ite(cmp(O_ULT, r, a, w), V(maskw(w)), r, w); }); }
static void b_uaddo(Call &c) { unsigned w = c.ci.retw[0]; c.r[0] = bin(O_ADD, c.a[0], c.a[1], w); c.r[1] = cmp(O_ULT, c.r[0], c.a[0], w); }
static void b_usubo(Call &c) { unsigned w = c.ci.retw[0]; c.r[0] = bin(O_SUB, c.a[0], c.a[1], w); c.r[1] = cmp(O_ULT, c.a[0], c.a[1], w); }
static void b_umulo(Call &c)
{
  unsigned w = c.ci.retw[0];
  c.r[0] = bin(O_MUL, c.a[0], c.a[1], w);
  // overflow iff b != 0 && a > max / b
  V q = bin(O_UDIV, V(maskw(w)), ite(cmp(O_EQ, c.a[1], V(0), w), V(1), c.a[1], w), w);
  c.r[1] = vand(vnot(cmp(O_EQ, c.a[1], V(0), w)), cmp(O_ULT, q, c.a[0], w));
}
static void b_saddo(Call &c)
{
  unsigned w = c.ci.retw[0];
  V r = bin(O_ADD, c.a[0], c.a[1], w);
  c.r[0] = r;
  V an = cmp(O_SLT, c.a[0], V(0), w), bn = cmp(O_SLT, c.a[1], V(0), w), rn = cmp(O_SLT, r, V(0), w);
  c.r[1] = vand(vnot(bin(O_XOR, an, bn, 1)), bin(O_XOR, an, rn, 1));
}
static void b_bswap(Call &c)
{
  unsigned w = c.ci.retw[0];
  V acc(0);
  for (unsigned i = 0; i < w / 8; ++i) {
    V b = bin(O_AND, bin(O_LSHR, c.a[0], V(i * 8), w), V(255), w);
    acc = bin(O_OR, acc, bin(O_SHL, b, V(w - 8 - i * 8), w), w);
  }
  c.r[0] = acc;
}
static void b_ctpop(Call &c)
{
  unsigned w = c.ci.retw[0];
  V acc(0);
  for (unsigned i = 0; i < w; ++i) acc = bin(O_ADD, acc, bin(O_AND, bin(O_LSHR, c.a[0], V(i), w), V(1), w), w);
  c.r[0] = acc;
}
static void b_ctlz(Call &c)
{
  unsigned w = c.ci.retw[0];
  V acc(w);
  for (unsigned i = 0; i < w; ++i) acc = ite(cmp(O_EQ, bin(O_AND, bin(O_LSHR, c.a[0], V(i), w), V(1), w), V(0), w), acc, V(w - 1 - i), w);
  c.r[0] = acc;
}
static void b_cttz(Call &c)
{
  unsigned w = c.ci.retw[0];
  V acc(w);
  for (unsigned i = w; i-- > 0;) acc = ite(cmp(O_EQ, bin(O_AND, bin(O_LSHR, c.a[0], V(i), w), V(1), w), V(0), w), acc, V(i), w);
  c.r[0] = acc;
}
static void fsh(Call &c, bool left)
{
  unsigned w = c.ci.retw[0];
  V sh = bin(O_UREM, c.a[2], V(w), w);
  V inv = bin(O_SUB, V(w), sh, w);
  V z = cmp(O_EQ, sh, V(0), w);
  V l = left ? bin(O_SHL, c.a[0], sh, w) : bin(O_SHL, c.a[0], inv, w);
  V r = left ? bin(O_LSHR, c.a[1], inv, w) : bin(O_LSHR, c.a[1], sh, w);
  c.r[0] = ite(z, left ? c.a[0] : c.a[1], bin(O_OR, l, r, w), w);
}
static void b_fshl(Call &c) { fsh(c, true); }
static void b_fshr(Call &c) { fsh(c, false); }
static void b_fabs(Call &c) { lanes1(c, [](V a, unsigned w) { return fun(O_FABS, a, w); }); }
static void b_sqrt(Call &c) { lanes1(c, [&](V a, unsigned w) { return fun(O_FSQRT, g_fpSplit ? fpSplit(c.s, a) : a, w); }); }
static void b_ceil(Call &c) { lanes1(c, [](V a, unsigned w) { return fun(O_FCEIL, a, w); }); }
static void b_floor(Call &c) { lanes1(c, [](V a, unsigned w) { return fun(O_FFLOOR, a, w); }); }
static void b_truncf(Call &c) { lanes1(c, [](V a, unsigned w) { return fun(O_FTRUNC, a, w); }); }
static void b_round(Call &c) { lanes1(c, [](V a, unsigned w) { return fun(O_FROUND, a, w); }); }
static void b_rint(Call &c) { lanes1(c, [](V a, unsigned w) { return fun(O_FRINT, a, w); }); }
static V fptosi(const V &a, unsigned wa, unsigned w)
{
  if (!a.sym()) return V(evalFPtoSI(a.c, wa, w));
  return V::of(mkFPtoSI(a.e, w));
}
static void b_lround(Call &c) { unsigned w = c.ci.argw[0]; c.r[0] = fptosi(fun(O_FROUND, c.a[0], w), w, 64); }
static void b_lrint(Call &c) { unsigned w = c.ci.argw[0]; c.r[0] = fptosi(fun(O_FRINT, c.a[0], w), w, 64); }
static void b_fmuladd(Call &c)
{
  size_t n = c.ci.retw.size();
  for (size_t i = 0; i < n; ++i) {
    unsigned w = c.ci.retw[i];
    c.r[i] = fbinS(c.s, O_FADD, fbinS(c.s, O_FMUL, c.a[i], c.a[n + i], w), c.a[2 * n + i], w);
  }
}
static void b_minnum(Call &c) { lanes2(c, [](V a, V b, unsigned w) { return ite(fcmp(O_FUNO, a, a, w), b, ite(fcmp(O_FUNO, b, b, w), a, ite(fcmp(O_FLT, a, b, w), a, b, w), w), w); }); }
static void b_maxnum(Call &c) { lanes2(c, [](V a, V b, unsigned w) { return ite(fcmp(O_FUNO, a, a, w), b, ite(fcmp(O_FUNO, b, b, w), a, ite(fcmp(O_FLT, a, b, w), b, a, w), w), w); }); }
static void b_copysign(Call &c)
{
  lanes2(c, [](V a, V b, unsigned w) {
    uint64_t sb = 1ull << (w - 1);
    return bin(O_OR, bin(O_AND, a, V(maskw(w) & ~sb), w), bin(O_AND, b, V(sb), w), w);
  });
}
static void b_pow(Call &c)
{
  if (!c.a[0].sym() && !c.a[1].sym()) {
    double x, y;
    memcpy(&x, &c.a[0].c, 8); memcpy(&y, &c.a[1].c, 8);
    double r = std::pow(x, y);
    memcpy(&c.r[0].c, &r, 8);
    return;
  }
  if (!c.a[1].sym()) {
    double y; memcpy(&y, &c.a[1].c, 8);
    if (y == 2.0) { c.r[0] = fbinS(c.s, O_FMUL, c.a[0], c.a[0], 64); return; }
    if (y == 1.0) { c.r[0] = c.a[0]; return; }
  }
  incomplete(c.s, "symbolic pow");
}
template <double (*F)(double)> static void concMath(Call &c)
{
  if (c.a[0].sym()) incomplete(c.s, "symbolic math function");
  double x; memcpy(&x, &c.a[0].c, 8);
  double r = F(x);
  memcpy(&c.r[0].c, &r, 8);
}
static void b_hypot(Call &c)
{
  if (c.a[0].sym() || c.a[1].sym()) incomplete(c.s, "symbolic hypot");
  double x, y; memcpy(&x, &c.a[0].c, 8); memcpy(&y, &c.a[1].c, 8);
  double r = std::hypot(x, y);
  memcpy(&c.r[0].c, &r, 8);
}
template <double (*F)(double, double)> static void concMath2(Call &c)
{
  if (c.a[0].sym() || c.a[1].sym()) incomplete(c.s, "symbolic math function");
  double x, y; memcpy(&x, &c.a[0].c, 8); memcpy(&y, &c.a[1].c, 8);
  double r = F(x, y);
  memcpy(&c.r[0].c, &r, 8);
}
static void b_is_constant(Call &c) { c.r[0] = V(0); }
static void b_objsize(Call &c) { c.r[0] = V(maskw(c.ci.retw[0])); }
static void b_ident(Call &c) { c.r[0] = c.a[0]; }
static void b_assume(Call &) {}
static void b_is_fpclass(Call &c)
{
  unsigned w = c.ci.argw[0];
  uint64_t t = c.a[1].c;
  V r(0);
  if ((t & 3) == 3) r = vor(r, fcmp(O_FUNO, c.a[0], c.a[0], w));
  uint64_t inf = w == 32 ? 0x7f800000ull : 0x7ff0000000000000ull, sb = 1ull << (w - 1);
  if (t & 0x4) r = vor(r, cmp(O_EQ, c.a[0], V(inf | sb), w));
  if (t & 0x200) r = vor(r, cmp(O_EQ, c.a[0], V(inf), w));
  if (t & ~0x207ull) incomplete(c.s, "is.fpclass");
  c.r[0] = r;
}

static void reg(const char *n, Builtin b)
{
  g_bidx[n] = g_builtins.size();
  g_builtins.push_back(b);
}
static void regp(const char *n, Builtin b)
{
  g_bprefix.push_back({n, (int)g_builtins.size()});
  g_builtins.push_back(b);
}
static void initBuiltins()
{
  reg("sx_malloc", b_sxmalloc); reg("malloc", b_malloc); reg("calloc", b_calloc); reg("free", b_free); reg("realloc", b_realloc);
  reg("sx_free", b_free);
  reg("memcpy", memcpyImpl); reg("memmove", memcpyImpl); reg("memset", b_memset);
  regp("llvm.memcpy.", memcpyImpl); regp("llvm.memmove.", memcpyImpl); regp("llvm.memset.", b_memset);
  reg("sx_sym_raw", b_sx_sym); reg("sx_bits_raw", b_sx_bits); reg("sx_assume_raw", b_sx_assume); reg("sx_assert_raw", b_sx_assert);
  reg("sx_assert_mem_raw", b_sx_assert_mem); reg("sx_fail_raw", b_sx_fail); reg("sx_end_raw", b_sx_end); reg("sx_reach_raw", b_sx_reach);
  reg("sx_reach_if_raw", b_sx_reach_if); reg("sx_concretize_raw", b_sx_concretize); reg("sx_out_raw", b_sx_out);
  reg("sx_is_symbolic_raw", b_sx_is_symbolic); reg("sx_native_raw", b_sx_native); reg("sx_print_raw", b_sx_print);
  reg("sx_hb_raw", b_hb); reg("sx_ctx_new", b_thread_new); reg("sx_ctx_self", b_thread_self); reg("sx_ctx_switch", b_ctx_switch);
  reg("__cxa_allocate_exception", b_cxa_alloc); reg("__cxa_free_exception", b_nop); reg("__cxa_throw", b_cxa_throw);
  reg("__cxa_begin_catch", b_cxa_begin_catch); reg("__cxa_end_catch", b_cxa_end_catch); reg("__cxa_rethrow", b_cxa_rethrow);
  reg("__cxa_get_exception_ptr", b_ident);
  reg("_ZSt17current_exceptionv", b_current_exception);
  reg("_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", b_rethrow_exception);
  reg("_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", b_nop);
  reg("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", b_nop);
  reg("_ZSt9terminatev", b_terminate); reg("abort", b_terminate); reg("__cxa_pure_virtual", b_terminate); reg("__assert_fail", b_terminate);
  regp("llvm.trap", b_trap);
  reg("__cxa_atexit", b_ret0); reg("__cxa_thread_atexit", b_ret0);
  regp("llvm.eh.typeid.for", b_typeid_for);
  regp("llvm.umin.", b_umin); regp("llvm.umax.", b_umax); regp("llvm.smin.", b_smin); regp("llvm.smax.", b_smax); regp("llvm.abs.", b_abs);
  regp("llvm.usub.sat.", b_usubsat); regp("llvm.uadd.sat.", b_uaddsat);
  regp("llvm.uadd.with.overflow.", b_uaddo); regp("llvm.usub.with.overflow.", b_usubo); regp("llvm.umul.with.overflow.", b_umulo); regp("llvm.sadd.with.overflow.", b_saddo);
  regp("llvm.bswap.", b_bswap); regp("llvm.ctpop.", b_ctpop); regp("llvm.ctlz.", b_ctlz); regp("llvm.cttz.", b_cttz);
  regp("llvm.fshl.", b_fshl); regp("llvm.fshr.", b_fshr);
  regp("llvm.fabs.", b_fabs); regp("llvm.sqrt.", b_sqrt); regp("llvm.ceil.", b_ceil); regp("llvm.floor.", b_floor); regp("llvm.trunc.", b_truncf);
  regp("llvm.round.", b_round); regp("llvm.rint.", b_rint); regp("llvm.nearbyint.", b_rint); regp("llvm.roundeven.", b_rint); regp("llvm.lround.", b_lround); regp("llvm.llround.", b_lround); regp("llvm.lrint.", b_lrint);
  regp("llvm.fmuladd.", b_fmuladd); regp("llvm.minnum.", b_minnum); regp("llvm.maxnum.", b_maxnum); regp("llvm.copysign.", b_copysign);
  regp("llvm.is.fpclass", b_is_fpclass);
  reg("fabs", b_fabs); reg("fabsf", b_fabs); reg("sqrt", b_sqrt); reg("sqrtf", b_sqrt); reg("ceil", b_ceil); reg("ceilf", b_ceil);
  reg("floor", b_floor); reg("floorf", b_floor); reg("trunc", b_truncf); reg("round", b_round); reg("roundf", b_round); reg("rint", b_rint); reg("nearbyint", b_rint);
  reg("lround", b_lround); reg("llround", b_lround); reg("lrint", b_lrint);
  reg("pow", b_pow); regp("llvm.pow.", b_pow); reg("exp", concMath<std::exp>); reg("log", concMath<std::log>); reg("hypot", b_hypot);
  regp("llvm.exp.", concMath<std::exp>); regp("llvm.log.", concMath<std::log>);
  reg("cbrt", concMath<std::cbrt>); reg("log2", concMath<std::log2>); reg("log10", concMath<std::log10>); reg("exp2", concMath<std::exp2>);
  reg("sin", concMath<std::sin>); reg("cos", concMath<std::cos>); reg("tan", concMath<std::tan>); reg("atan", concMath<std::atan>);
  reg("fmod", concMath2<std::fmod>); reg("atan2", concMath2<std::atan2>); reg("truncf", b_truncf); reg("rintf", b_rint); reg("nearbyintf", b_rint);
  reg("lroundf", b_lround); reg("llroundf", b_lround); reg("lrintf", b_lrint); reg("llrint", b_lrint); reg("llrintf", b_lrint);
  reg("fmax", b_maxnum); reg("fmin", b_minnum); reg("fmaxf", b_maxnum); reg("fminf", b_minnum); regp("llvm.llrint.", b_lrint);
  regp("llvm.lifetime.", b_nop); regp("llvm.assume", b_assume); regp("llvm.dbg.", b_nop); regp("llvm.experimental.noalias", b_nop);
  regp("llvm.invariant.", b_nop); regp("llvm.stacksave", b_ret0); regp("llvm.stackrestore", b_nop); regp("llvm.donothing", b_nop); regp("llvm.prefetch", b_nop);
  regp("llvm.expect.", b_ident); regp("llvm.is.constant.", b_is_constant); regp("llvm.objectsize.", b_objsize); regp("llvm.launder", b_ident); regp("llvm.strip", b_ident);
  regp("llvm.threadlocal.address", b_ident); regp("llvm.ptrmask", b_nop);
  reg("printf", b_ret0); reg("getenv", b_ret0); reg("puts", b_ret0); reg("fprintf", b_ret0); reg("fflush", b_ret0); reg("putchar", b_ret0); reg("fputs", b_ret0);
}
int builtinIndex(const std::string &n)
{
  if (g_builtins.empty()) initBuiltins();
  auto it = g_bidx.find(n);
  if (it != g_bidx.end()) return it->second;
  for (auto &p : g_bprefix) if (n.compare(0, p.first.size(), p.first) == 0) return p.second;
  return -1;
}

static void finishCall(State &s, Instr &I, CallInfo &ci, V *r)
{
  Frame *f = top(s);
  for (size_t i = 0; i < ci.retw.size(); ++i) f->regs[I.dst + i] = r[i];
  if (ci.normalEdge >= 0) takeEdge(f, ci.normalEdge);
  else f->ip++;
}

// ---------------------------------------------------------------- merging
void liveBack(Func *f, Instr &I, std::vector<uint64_t> &l);
static void computeLive(Func *f)
{
  f->liveDone = true;
  size_t nb = f->blocks.size(), nw = (f->nslots + 63) / 64;
  f->liveIn.assign(nb, std::vector<uint64_t>(nw, 0));
  auto use = [&](std::vector<uint64_t> &l, Opnd o) { if (o >= 0) l[o / 64] |= 1ull << (o % 64); };
  auto def = [&](std::vector<uint64_t> &l, uint32_t d) { l[d / 64] &= ~(1ull << (d % 64)); };
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t b = nb; b-- > 0;) {
      Block &B = f->blocks[b];
      std::vector<uint64_t> live(nw, 0);
      for (uint32_t ei : B.succEdges) {
        Edge &e = f->edges[ei];
        std::vector<uint64_t> l = f->liveIn[e.target];
        for (auto &m : e.moves) def(l, m.dst);
        for (auto &m : e.moves) use(l, m.src);
        for (size_t k = 0; k < nw; ++k) live[k] |= l[k];
      }
      for (size_t i = B.ins.size(); i-- > 0;) liveBack(f, B.ins[i], live);
      if (live != f->liveIn[b]) { f->liveIn[b] = live; ch = true; }
    }
  }
}
void liveBack(Func *f, Instr &I, std::vector<uint64_t> &l)
{
  auto use = [&](Opnd o) { if (o >= 0) l[o / 64] |= 1ull << (o % 64); };
  auto def = [&](uint32_t d) { l[d / 64] &= ~(1ull << (d % 64)); };
  switch (I.op) {
    case I_STORE: use(I.a); use(I.b); break;
    case I_BR: case I_UNREACHABLE: case I_FENCE: case I_UNSUPPORTED: break;
    case I_CBR: case I_SWITCH: use(I.a); break;
    case I_RET: for (auto o : f->calls[I.aux].args) use(o); break;
    case I_CALL: {
      CallInfo &ci = f->calls[I.aux];
      for (size_t k = 0; k < ci.retw.size(); ++k) def(I.dst + k);
      for (auto o : ci.args) use(o);
      if (ci.func < 0) use(ci.callee);
      break;
    }
    case I_LANDINGPAD: def(I.dst); def(I.dst + 1); break;
    case I_RESUME: use(I.a); use(I.b); break;
    case I_CMPXCHG: def(I.dst); def(I.dst + 1); use(I.a); use(I.b); use(I.c); break;
    case I_LOAD: case I_ALLOCA: case I_ADDIMM: case I_ZEXT: case I_SEXT: case I_TRUNC: case I_MOVE: case I_FUN:
    case I_SITOFP: case I_UITOFP: case I_FPTOSI: case I_FPTOUI: case I_FPEXT: case I_FPTRUNC:
      def(I.dst); use(I.a); break;
    case I_SELECT: def(I.dst); use(I.a); use(I.b); use(I.c); break;
    default: def(I.dst); use(I.a); use(I.b); break;
  }
}
static void liveAt(Frame &fr, bool isTop, std::vector<uint64_t> &l)
{
  Func *f = fr.f;
  if (!f->liveDone) computeLive(f);
  if (fr.ip == 0 && isTop) { l = f->liveIn[fr.blk]; return; }
  size_t nw = (f->nslots + 63) / 64;
  l.assign(nw, 0);
  Block &B = f->blocks[fr.blk];
  for (uint32_t ei : B.succEdges) {
    Edge &e = f->edges[ei];
    std::vector<uint64_t> t = f->liveIn[e.target];
    for (auto &m : e.moves) t[m.dst / 64] &= ~(1ull << (m.dst % 64));
    for (auto &m : e.moves) if (m.src >= 0) t[m.src / 64] |= 1ull << (m.src % 64);
    for (size_t k = 0; k < nw; ++k) l[k] |= t[k];
  }
  size_t stop = isTop ? fr.ip : fr.ip + 1; // callers: call already issued
  for (size_t i = B.ins.size(); i-- > stop;) liveBack(f, B.ins[i], l);
  if (!isTop) { // call results are defined on return
    Instr &I = B.ins[fr.ip];
    if (I.op == I_CALL) {
      CallInfo &ci = f->calls[I.aux];
      for (size_t k = 0; k < ci.retw.size(); ++k) l[(I.dst + k) / 64] &= ~(1ull << ((I.dst + k) % 64));
    }
  }
}
static bool looksPtr(uint64_t v) { return v >= OBJ_REGION && v < FN_REGION + 0x100000000ull; }
static bool mergeableVal(const V &a, const V &b, bool ptr)
{
  if (a == b) return true;
  if (ptr) return false;
  if (!a.sym() && !b.sym()) {
    if (looksPtr(a.c) || looksPtr(b.c)) return false;
    if (!g_mergeInts) return false;
  }
  if ((!a.sym() && looksPtr(a.c)) || (!b.sym() && looksPtr(b.c))) return false;
  return true;
}
static SB sbAt(Chunk *c, unsigned i) { return c->s ? c->s[i] : SB{nullptr, 0}; }

static std::map<std::string, uint64_t> g_failWhy;
static bool mfail(const char *why) { n_mergeFail++; if (g_verbose) g_failWhy[why]++; return false; }

static bool mergeInto(State &a, State &b)
{
  if (a.th.size() != 1 || b.th.size() != 1) return false;
  Thread &ta = a.th[0], &tb = b.th[0];
  if (ta.fr.size() != tb.fr.size() || ta.caught != tb.caught) return mfail("frames");
  if (a.symCount != b.symCount || a.outs.size() != b.outs.size()) return mfail("symcount/outs");
  for (size_t i = 0; i < ta.fr.size(); ++i) {
    Frame &x = *ta.fr[i], &y = *tb.fr[i];
    if (x.f != y.f || x.blk != y.blk || x.ip != y.ip) return mfail("pos");
    if (x.allocas != y.allocas) return mfail("allocas");
  }
  // registers
  struct RegDiff { size_t fi; uint32_t slot; };
  std::vector<RegDiff> rd;
  std::vector<uint64_t> live;
  for (size_t i = 0; i < ta.fr.size(); ++i) {
    if (ta.fr[i] == tb.fr[i]) continue;
    Frame &x = *ta.fr[i], &y = *tb.fr[i];
    liveAt(x, i + 1 == ta.fr.size(), live);
    for (uint32_t sl = 0; sl < x.regs.size(); ++sl) {
      if (!(live[sl / 64] >> (sl % 64) & 1)) continue;
      if (x.regs[sl] == y.regs[sl]) continue;
      if (!mergeableVal(x.regs[sl], y.regs[sl], x.f->slotptr[sl])) return mfail("reg pointer");
      rd.push_back({i, sl});
    }
  }
  // landing-pad scratch
  if (!(ta.lp0 == tb.lp0) || !(ta.lp1 == tb.lp1)) {
    Frame &x = *ta.fr.back();
    auto &ins = x.f->blocks[x.blk].ins;
    if (x.ip < ins.size() && ins[x.ip].op == I_LANDINGPAD) return mfail("landingpad");
  }
  // memory
  struct MemDiff { uint32_t id; uint64_t off; uint32_t len; };
  std::vector<MemDiff> md;
  std::vector<uint32_t> takeB; // objects only present in b
  size_t np = std::max(a.pages.size(), b.pages.size());
  size_t ndiff = 0;
  for (size_t p = 0; p < np; ++p) {
    Page *pa = p < a.pages.size() ? a.pages[p].get() : nullptr, *pb = p < b.pages.size() ? b.pages[p].get() : nullptr;
    if (pa == pb) continue;
    for (unsigned k = 0; k < PG; ++k) {
      static Obj none;
      Obj &x = pa ? pa->o[k] : none, &y = pb ? pb->o[k] : none;
      uint32_t id = p * PG + k;
      if (x.kind == K_NONE && y.kind == K_NONE) continue;
      if (x.kind == K_NONE) { takeB.push_back(id); continue; }
      if (y.kind == K_NONE) continue;
      if (x.freed && y.freed) continue;
      if (x.kind == K_REDIR || y.kind == K_REDIR) { if (x.kind != y.kind || x.redirect != y.redirect) return mfail("redir"); continue; }
      if (x.freed != y.freed || x.size != y.size || x.kind != y.kind) {
        return mfail("object shape");
      }
      if (x.d == y.d) continue;
      for (size_t ci = 0; ci < x.d->ch.size(); ++ci) {
        Chunk *cx = x.d->ch[ci].get(), *cy = y.d->ch[ci].get();
        if (cx == cy) continue;
        for (unsigned w = 0; w < CH && ci * CH + w < x.size; w += 8) {
          unsigned len = std::min<uint64_t>(8, x.size - (ci * CH + w));
          bool diff = false, bothConc = true;
          for (unsigned q = 0; q < len; ++q) {
            SB sx_ = sbAt(cx, w + q), sy = sbAt(cy, w + q);
            if (sx_.e || sy.e || sx_.i == 255 || sy.i == 255) bothConc = false;
            if (sx_.e != sy.e || sx_.i != sy.i || (!sx_.e && sx_.i != 255 && cx->b[w + q] != cy->b[w + q])) diff = true;
          }
          if (!diff) continue;
          // uninitialised in one: prefer the initialised value? keep sound: must merge via fresh var -> simple: fail unless both uninit
          if (len == 8) {
            uint64_t vx, vy;
            memcpy(&vx, cx->b + w, 8); memcpy(&vy, cy->b + w, 8);
            bool cxc = true, cyc = true;
            for (unsigned q = 0; q < 8; ++q) { SB s1 = sbAt(cx, w + q), s2 = sbAt(cy, w + q); if (s1.e || s1.i == 255) cxc = false; if (s2.e || s2.i == 255) cyc = false; }
            if ((cxc && looksPtr(vx)) || (cyc && looksPtr(vy))) return mfail("mem pointer");
            (void)bothConc;
          }
          md.push_back({id, ci * CH + w, len});
          if (++ndiff > 20000) return mfail("too many diffs");
        }
      }
    }
  }
  // path condition
  size_t k = 0;
  while (k < a.pc.size() && k < b.pc.size() && a.pc[k] == b.pc[k]) k++;
  std::vector<E> sa(a.pc.begin() + k, a.pc.end()), sb(b.pc.begin() + k, b.pc.end());
  // drop shared conjuncts (order may differ)
  std::vector<E> common;
  for (size_t i = 0; i < sa.size();) {
    auto it = std::find(sb.begin(), sb.end(), sa[i]);
    if (it != sb.end()) { common.push_back(sa[i]); sb.erase(it); sa.erase(sa.begin() + i); }
    else ++i;
  }
  auto conj = [](const std::vector<E> &v) { E r = mkConst(1, 1); for (E e : v) r = mkAnd(r, e); return r; };
  E ca = conj(sa), cb = conj(sb);
  E cond; bool condIsA;
  if (sa.size() <= sb.size()) { cond = ca; condIsA = true; } else { cond = cb; condIsA = false; }
  if (sa.empty() || sb.empty()) {
    // one path condition subsumes the other only if states were forked by concretization; then ITE cond is not discriminating
    if (sa.empty() && sb.empty()) { if (!rd.empty() || !md.empty()) return mfail("pc equal"); }
    else { cond = sa.empty() ? cb : ca; condIsA = !sa.empty(); }
  }
  // disjunction in NOT(AND) form, dropping complementary prefixes
  auto simplify = [&](std::vector<E> &X, std::vector<E> &Y) { // X single/any: remove from Y the prefix equal to NOT X
    E nx = mkNot(conj(X));
    E acc = mkConst(1, 1);
    for (size_t i = 0; i < Y.size(); ++i) {
      acc = mkAnd(acc, Y[i]);
      if (acc == nx) { Y.erase(Y.begin(), Y.begin() + i + 1); return; }
    }
    for (size_t i = 0; i < Y.size(); ++i) if (Y[i] == nx) { Y.erase(Y.begin() + i); return; }
  };
  std::vector<E> sa2 = sa, sb2 = sb;
  simplify(sa, sb2);
  simplify(sb, sa2);
  E disj;
  {
    E x = conj(sb2.size() < sb.size() ? sa : sa2), y = conj(sb2.size() < sb.size() ? sb2 : sb);
    disj = mkNot(mkAnd(mkNot(x), mkNot(y)));
  }
  auto sel = [&](E x, E y) { return condIsA ? mkIte(cond, x, y) : mkIte(cond, y, x); };
  // apply
  for (auto &r : rd) {
    FrameP &fp = ta.fr[r.fi];
    if (fp.use_count() > 1) fp = std::make_shared<Frame>(*fp);
    unsigned w = fp->f->slotw[r.slot];
    fp->regs[r.slot] = V::of(sel(toE(fp->regs[r.slot], w), toE(tb.fr[r.fi]->regs[r.slot], w)));
  }
  for (auto &m : md) {
    // merge at the widest granularity both sides agree on
    uint64_t off = m.off;
    uint64_t end = m.off + m.len;
    while (off < end) {
      unsigned best = 1;
      for (unsigned g : {8u, 4u, 2u}) {
        if (off % g || off + g > end) continue;
        bool ok = true;
        Obj *oa = objRO(a, m.id), *ob = objRO(b, m.id);
        for (unsigned q = 1; q < g && ok; ++q) {
          for (int t = 0; t < 2; ++t) {
            Chunk *c = (t ? ob : oa)->d->ch[off / CH].get();
            SB s0 = sbAt(c, off % CH), s1 = sbAt(c, (off + q) % CH);
            if (s0.e && !(s1.e == s0.e && s1.i == s0.i + q)) ok = false;
            if (!s0.e && (s1.e || (s0.i == 255) != (s1.i == 255))) ok = false;
          }
        }
        if (ok && g > 1) {
          // do not glue unrelated concrete fields: only when at least one side is one expression of that size
          Chunk *c1 = oa->d->ch[off / CH].get(), *c2 = ob->d->ch[off / CH].get();
          SB x = sbAt(c1, off % CH), y = sbAt(c2, off % CH);
          bool one = (x.e && x.i == 0 && x.e->w == g * 8) || (y.e && y.i == 0 && y.e->w == g * 8);
          if (!one && g != 4) ok = false; // default granularity for concrete/concrete: 4 bytes
        }
        if (ok) { best = g; break; }
      }
      V x = loadAt(a, m.id, off, best), y = loadAt(b, m.id, off, best);
      if (!(x == y)) storeAt(a, m.id, off, best, V::of(sel(toE(x, best * 8), toE(y, best * 8))));
      off += best;
    }
  }
  for (uint32_t id : takeB) *objRW(a, id) = *objRO(b, id);
  for (size_t i = 0; i < a.outs.size(); ++i) if (a.outs[i].e != b.outs[i].e) a.outs[i].e = sel(a.outs[i].e, b.outs[i].e);
  a.nextId = std::max(a.nextId, b.nextId);
  a.steps = std::max(a.steps, b.steps);
  for (auto &x : b.excTi) a.excTi.insert(x);
  a.pc.resize(k);
  for (E e : common) a.pc.push_back(e);
  if (!isC(disj)) a.pc.push_back(disj);
  n_merges++;
  return true;
}

// ---------------------------------------------------------------- interpreter loop
enum RunRes { R_DONE, R_QUEUED };

static void fcmpInstr(Frame *f, Instr &I)
{
  V a = get(f, I.a), b = get(f, I.b);
  unsigned w = I.w;
  V r;
  switch (I.sub) {
    case 0: r = V(0); break;
    case 1: r = fcmp(O_FEQ, a, b, w); break;
    case 2: r = fcmp(O_FLT, b, a, w); break;
    case 3: r = fcmp(O_FLE, b, a, w); break;
    case 4: r = fcmp(O_FLT, a, b, w); break;
    case 5: r = fcmp(O_FLE, a, b, w); break;
    case 6: r = vor(fcmp(O_FLT, a, b, w), fcmp(O_FLT, b, a, w)); break;
    case 7: r = vnot(fcmp(O_FUNO, a, b, w)); break;
    case 8: r = fcmp(O_FUNO, a, b, w); break;
    case 9: r = vnot(vor(fcmp(O_FLT, a, b, w), fcmp(O_FLT, b, a, w))); break;
    case 10: r = vnot(fcmp(O_FLE, a, b, w)); break;
    case 11: r = vnot(fcmp(O_FLT, a, b, w)); break;
    case 12: r = vnot(fcmp(O_FLE, b, a, w)); break;
    case 13: r = vnot(fcmp(O_FLT, b, a, w)); break;
    case 14: r = vnot(fcmp(O_FEQ, a, b, w)); break;
    default: r = V(1);
  }
  f->regs[I.dst] = r;
}
static void doCall(State &s, Frame *f, Instr &I, std::vector<V> &args)
{
  CallInfo &ci = f->f->calls[I.aux];
  int fi = ci.func;
  if (fi < 0) {
    V cv = get(f, ci.callee);
    uint64_t addr = concretize(s, cv, 64, "function pointer");
    auto it = M->fnByAddr.find(addr);
    if (it == M->fnByAddr.end()) violate(s, "memory", addr < 4096 ? "call through null function pointer" : "call through wild function pointer");
    fi = it->second;
  }
  Func *fn = &M->funcs[fi];
  args.clear();
  for (size_t k = 0; k < ci.args.size(); ++k) args.push_back(get(f, ci.args[k]));
  if (fn->builtin >= 0) {
    Call c{s, I, ci, args};
    g_builtins[fn->builtin](c);
    if (!c.noret) finishCall(s, I, ci, c.r);
    return;
  }
  for (size_t k = 0; k < ci.byval.size(); ++k)
    if (ci.byval[k]) {
      uint32_t id = newObj(s, ci.byval[k], K_STACK, false, I.loc);
      Ref r = resolve(s, args[k], ci.byval[k], false);
      copyBytes(s, id, 0, r.id, r.off, ci.byval[k]);
      args[k] = V(objBase(id));
    }
  pushFrame(s, fn, args);
}

struct AtomicScope { AtomicScope(bool b = true) { g_atomicAcc = b; } ~AtomicScope() { g_atomicAcc = false; } };
// run until the state ends or is queued
static void run(State *sp)
{
  State &s = *sp;
  std::vector<V> args;
  try {
  refetch:
    for (;;) {
      if (s.th[s.cur].fr.empty()) {
        if (s.cur != 0) violate(s, "internal", "thread function returned");
        n_paths++;
        if (g_samples.size() < 6) {
          ModelP m = spread(s);
          g_samples.push_back(inputsOf(*m));
          g_sampleOuts.push_back(outsOf(s, *m));
        }
        throw PathEnd();
      }
      // merge point?
      if (!g_queue.empty() && s.th.size() == 1) {
        Frame *f0 = topP(s).get();
        if (f0->ip != 0 || f0->f->blocks[f0->blk].npreds >= 2) {
          computeKey(s);
          auto it = g_queue.begin();
          if (it->first < s.key) { enqueue(sp); return; }
          if (g_merge && it->first == s.key) {
            auto r = g_queue.equal_range(s.key);
            int lim = 64;
            for (auto i2 = r.first; i2 != r.second && lim-- > 0; ++i2)
              if (mergeInto(*i2->second, s)) { delete sp; return; }
          }
        }
      }
      if (s.steps > g_maxSteps) incomplete(s, "step bound exceeded");
      if (getpid() && (n_instr & 0xfff) == 0 && elapsed() > g_timeLimit) { g_incomplete["time limit"]++; throw PathEnd(); }
      Frame *f = top(s);
      Func *fn = f->f;
      uint64_t cnt = 0;
      for (;;) {
        Instr &I = fn->blocks[f->blk].ins[f->ip];
        V *R = f->regs.data();
        cnt++;
        switch (I.op) {
          case I_BIN: {
            V a = get(f, I.a), b = get(f, I.b);
            if (I.sub >= O_UDIV && I.sub <= O_SREM) {
              if (!b.sym()) { if (b.c == 0) violate(s, "arith", "division by zero"); }
              else {
                E z = mkCmp(O_EQ, b.e, mkConst(0, I.w));
                if (!isC(z) || z->k) {
                  ModelP m = s.model;
                  if (mval(s, z) || q(s, z, &m) == SAT) {
                    report(s, "arith", "division by zero", *m);
                    addAssume(s, mkNot(z));
                  }
                }
              }
            }
            R[I.dst] = bin((Op)I.sub, a, b, I.w);
            f->ip++;
            break;
          }
          case I_CMP: {
            V a = get(f, I.a), b = get(f, I.b);
            V r = (I.n & 1) ? cmp((Op)I.sub, b, a, I.w) : cmp((Op)I.sub, a, b, I.w);
            R[I.dst] = (I.n & 2) ? vnot(r) : r;
            f->ip++;
            break;
          }
          case I_FCMP: fcmpInstr(f, I); f->ip++; break;
          case I_FBIN: R[I.dst] = fbinS(s, (Op)I.sub, get(f, I.a), get(f, I.b), I.w); f->ip++; break;
          case I_FUN: R[I.dst] = fun((Op)I.sub, get(f, I.a), I.w); f->ip++; break;
          case I_SELECT: {
            V c = get(f, I.c);
            if (c.sym() && I.isPtr) {
              V a = get(f, I.a), b = get(f, I.b);
              if (!(a == b)) { V d = V(decide(s, c.e)); c = d; }
            }
            R[I.dst] = ite(c, get(f, I.a), get(f, I.b), I.w);
            f->ip++;
            break;
          }
          case I_ZEXT: { V a = get(f, I.a); R[I.dst] = a.sym() ? V::of(mkZext(a.e, I.w)) : a; f->ip++; break; }
          case I_SEXT: { V a = get(f, I.a); R[I.dst] = a.sym() ? V::of(mkSext(a.e, I.w)) : V((uint64_t)sx(a.c, I.w2) & maskw(I.w)); f->ip++; break; }
          case I_TRUNC: { V a = get(f, I.a); R[I.dst] = a.sym() ? V::of(mkExtract(a.e, 0, I.w)) : V(a.c & maskw(I.w)); f->ip++; break; }
          case I_MOVE: R[I.dst] = get(f, I.a); f->ip++; break;
          case I_SITOFP: { V a = get(f, I.a); R[I.dst] = a.sym() ? V::of(mkSItoFP(a.e, I.w)) : V(evalSItoFP(a.c, I.w2, I.w)); f->ip++; break; }
          case I_UITOFP: { V a = get(f, I.a); R[I.dst] = a.sym() ? V::of(mkUItoFP(a.e, I.w)) : V(evalUItoFP(a.c, I.w2, I.w)); f->ip++; break; }
          case I_FPTOSI: {
            V a = get(f, I.a);
            unsigned w = I.w <= 32 ? 32 : 64;
            V r = fptosi(a, I.w2, w);
            R[I.dst] = I.w == w ? r : r.sym() ? V::of(mkExtract(r.e, 0, I.w)) : V(r.c & maskw(I.w));
            f->ip++;
            break;
          }
          case I_FPTOUI: {
            V a = get(f, I.a);
            V r;
            if (I.w < 32) r = fptosi(a, I.w2, 32);
            else if (I.w < 64) r = fptosi(a, I.w2, 64);
            else {
              uint64_t two63 = I.w2 == 32 ? 0x5f000000ull : 0x43e0000000000000ull;
              V big = fcmp(O_FLE, V(two63), a, I.w2);
              V lo = fptosi(a, I.w2, 64);
              V hi = bin(O_XOR, fptosi(fbin(O_FSUB, a, V(two63), I.w2), I.w2, 64), V(1ull << 63), 64);
              r = ite(big, hi, lo, 64);
            }
            unsigned rw = I.w < 32 ? 32 : 64;
            R[I.dst] = I.w == rw ? r : r.sym() ? V::of(mkExtract(r.e, 0, I.w)) : V(r.c & maskw(I.w));
            f->ip++;
            break;
          }
          case I_FPEXT: { V a = get(f, I.a); R[I.dst] = a.sym() ? V::of(mkFPExt(a.e)) : V(evalFPExt(a.c)); f->ip++; break; }
          case I_FPTRUNC: { V a = get(f, I.a); R[I.dst] = a.sym() ? V::of(mkFPTrunc(a.e)) : V(evalFPTrunc(a.c)); f->ip++; break; }
          case I_ADDIMM: {
            V a = get(f, I.a);
            R[I.dst] = a.sym() ? V::of(mkBin(O_ADD, a.e, mkConst(I.imm, 64))) : V(a.c + I.imm);
            f->ip++;
            break;
          }
          case I_ADDSC: {
            V a = get(f, I.a), b = get(f, I.b);
            if (!a.sym() && !b.sym()) R[I.dst] = V(a.c + (uint64_t)sx(b.c, I.w2) * I.imm);
            else R[I.dst] = V::of(mkBin(O_ADD, toE(a, 64), mkBin(O_MUL, mkSext(toE(b, I.w2), 64), mkConst(I.imm, 64))));
            f->ip++;
            break;
          }
          case I_LOAD: {
            V a = get(f, I.a);
            if (I.imm) a = bin(O_ADD, a, V(I.imm), 64);
            AtomicScope as(I.n & 1);
            V v = load(s, a, I.w);
            f->regs[I.dst] = v;
            f->ip++;
            break;
          }
          case I_STORE: {
            V a = get(f, I.a);
            if (I.imm) a = bin(O_ADD, a, V(I.imm), 64);
            AtomicScope as(I.n & 1);
            store(s, a, I.w, get(f, I.b));
            f->ip++;
            break;
          }
          case I_ALLOCA: {
            V n = get(f, I.a);
            uint64_t k = concretize(s, n, 64, "alloca");
            uint32_t id = newObj(s, k * I.imm, K_STACK, false, I.loc);
            f->allocas.push_back(id);
            f->regs[I.dst] = V(objBase(id));
            f->ip++;
            break;
          }
          case I_BR:
            takeEdge(f, I.aux);
            goto blockEntry;
          case I_CBR: {
            V c = get(f, I.a);
            if (!c.sym()) { takeEdge(f, (c.c & 1) ? I.aux : (uint32_t)I.imm); goto blockEntry; }
            bool v = mval(s, c.e);
            E here = v ? c.e : mkNot(c.e), there = v ? mkNot(c.e) : c.e;
            ModelP m2;
            SatRes r = q(s, there, &m2);
            if (r == SAT) {
              State *o = forkState(s);
              o->pc.push_back(there);
              o->model = m2;
              takeEdge(top(*o), v ? (uint32_t)I.imm : I.aux);
              s.pc.push_back(here);
              takeEdge(top(s), v ? I.aux : (uint32_t)I.imm);
              enqueue(o);
            } else {
              if (r == UNKNOWN) s.pc.push_back(here);
              takeEdge(f, v ? I.aux : (uint32_t)I.imm);
            }
            s.steps += cnt; n_instr += cnt;
            goto refetch;
          }
          case I_SWITCH: {
            V c = get(f, I.a);
            SwitchInfo &si = fn->switches[I.aux];
            if (c.sym()) {
              // decide value class: fork on equality with the model's case
              uint64_t val = evalModel(*s.model, c.e);
              bool isCase = false;
              for (auto x : si.vals) if (x == val) isCase = true;
              E cond;
              if (isCase) cond = mkCmp(O_EQ, c.e, mkConst(val, I.w));
              else { cond = mkConst(1, 1); for (auto x : si.vals) cond = mkAnd(cond, mkNot(mkCmp(O_EQ, c.e, mkConst(x, I.w)))); }
              decide(s, cond);
              c = V(val);
              f = top(s);
            }
            uint32_t e = si.defEdge;
            for (size_t k = 0; k < si.vals.size(); ++k) if (si.vals[k] == c.c) { e = si.edges[k]; break; }
            takeEdge(f, e);
            goto blockEntry;
          }
          case I_CALL:
            s.steps += cnt; n_instr += cnt;
            doCall(s, f, I, args);
            goto refetch;
          case I_RET: {
            V rv[8];
            std::vector<V> big;
            auto &ra = fn->calls[I.aux].args;
            size_t n = ra.size();
            V *r = rv;
            if (n > 8) { big.resize(n); r = big.data(); }
            for (size_t k = 0; k < n; ++k) r[k] = get(f, ra[k]);
            s.steps += cnt; n_instr += cnt;
            std::shared_ptr<Frame> keep = topP(s);
            popFrame(s);
            if (s.th[s.cur].fr.empty()) goto refetch;
            Frame *cf = top(s);
            Instr &CI = cf->f->blocks[cf->blk].ins[cf->ip];
            finishCall(s, CI, cf->f->calls[CI.aux], r);
            goto refetch;
          }
          case I_UNREACHABLE: violate(s, "unreachable", "unreachable code executed (undefined behaviour)");
          case I_LANDINGPAD:
            R[I.dst] = s.th[s.cur].lp0;
            R[I.dst + 1] = s.th[s.cur].lp1;
            f->ip++;
            break;
          case I_RESUME: {
            V a = get(f, I.a);
            s.steps += cnt; n_instr += cnt;
            // current frame cannot handle it any more
            if (s.th[s.cur].fr.size() < 2) violate(s, "exception", "uncaught exception");
            popFrame(s);
            unwind(s, a.c, s.excTi[a.c], s.th[s.cur].fr.size() - 1);
            goto refetch;
          }
          case I_RMW: {
            V a = get(f, I.a), b = get(f, I.b);
            AtomicScope as;
            V old = load(s, a, I.w);
            V nv;
            switch (I.sub) { // llvm::AtomicRMWInst::BinOp
              case 0: nv = b; break;
              case 1: nv = bin(O_ADD, old, b, I.w); break;
              case 2: nv = bin(O_SUB, old, b, I.w); break;
              case 3: nv = bin(O_AND, old, b, I.w); break;
              case 5: nv = bin(O_OR, old, b, I.w); break;
              case 6: nv = bin(O_XOR, old, b, I.w); break;
              default: incomplete(s, "atomicrmw op");
            }
            store(s, a, I.w, nv);
            f->regs[I.dst] = old;
            f->ip++;
            break;
          }
          case I_CMPXCHG: {
            V a = get(f, I.a), b = get(f, I.b), n = get(f, I.c);
            AtomicScope as;
            V old = load(s, a, I.w);
            V eq = cmp(O_EQ, old, b, I.w);
            store(s, a, I.w, ite(eq, n, old, I.w));
            f->regs[I.dst] = old;
            f->regs[I.dst + 1] = eq;
            f->ip++;
            break;
          }
          case I_FENCE: f->ip++; break;
          case I_UNSUPPORTED: incomplete(s, std::string("unsupported instruction ") + (const char *)(uintptr_t)I.imm);
        }
        continue;
      blockEntry:
        if (!g_queue.empty() || cnt > 2000) { s.steps += cnt; n_instr += cnt; goto refetch; }
      }
    }
  } catch (PathEnd &) {
    delete sp;
    return;
  } catch (Reexec &) {
    abort();
  }
}

// ---------------------------------------------------------------- main
static std::string jstr(const std::string &s)
{
  std::string r = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if ((unsigned char)c < 32) r += ' ';
    else r += c;
  }
  return r + "\"";
}
static void jinputs(FILE *f, const std::vector<std::pair<std::string, uint64_t>> &v)
{
  fprintf(f, "{");
  for (size_t i = 0; i < v.size(); ++i) fprintf(f, "%s%s:%llu", i ? "," : "", jstr(v[i].first).c_str(), (unsigned long long)v[i].second);
  fprintf(f, "}");
}
static void jouts(FILE *f, const std::vector<std::pair<std::string, uint64_t>> &v)
{
  fprintf(f, "[");
  for (size_t i = 0; i < v.size(); ++i) fprintf(f, "%s[%s,%llu]", i ? "," : "", jstr(v[i].first).c_str(), (unsigned long long)v[i].second);
  fprintf(f, "]");
}

int main(int argc, char **argv)
{
  g_t0 = std::chrono::steady_clock::now();
  std::vector<std::string> files;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&](const char *p) { return a.substr(strlen(p)); };
    if (a.rfind("--entry=", 0) == 0) g_entry = val("--entry=");
    else if (a.rfind("--out=", 0) == 0) g_outFile = val("--out=");
    else if (a.rfind("--max-steps=", 0) == 0) g_maxSteps = strtoull(val("--max-steps=").c_str(), 0, 10);
    else if (a.rfind("--max-states=", 0) == 0) g_maxStates = strtoull(val("--max-states=").c_str(), 0, 10);
    else if (a.rfind("--time=", 0) == 0) g_timeLimit = atof(val("--time=").c_str());
    else if (a.rfind("--query-ms=", 0) == 0) g_queryTimeoutMs = atoi(val("--query-ms=").c_str());
    else if (a.rfind("--dump=", 0) == 0) g_dumpDir = strdup(val("--dump=").c_str());
    else if (a.rfind("--max-viol=", 0) == 0) g_maxViol = atoi(val("--max-viol=").c_str());
    else if (a == "--no-merge") g_merge = false;
    else if (a == "--no-merge-ints") g_mergeInts = false;
    else if (a == "--fp-split") g_fpSplit = true;
    else if (a == "--race") g_race = true;
    else if (a == "-v") g_verbose = true;
    else files.push_back(a);
  }
  struct rlimit rl = {64ull << 20, 64ull << 20};
  (void)rl;
  g_zeroChunk = std::make_shared<Chunk>();
  g_uninitChunk = std::make_shared<Chunk>();
  g_uninitChunk->s.reset(new SB[CH]);
  for (unsigned i = 0; i < CH; ++i) g_uninitChunk->s[i] = SB{nullptr, 255};
  uint32_t nextId = 16;
  M = decodeModule(files, nextId);
  State *s = new State();
  s->nextId = nextId;
  s->model = std::make_shared<Model>();
  for (unsigned i = 0; i < RT; ++i) s->vc[i][i] = 1;
  for (auto &g : M->globals) {
    uint32_t id = (uint32_t)((g.addr - OBJ_REGION) >> OBJ_SHIFT);
    uint32_t extra = (uint32_t)((g.size + OBJ_OFF) >> OBJ_SHIFT);
    for (uint32_t k = id + 1; k <= id + extra; ++k) { Obj *r = objRW(*s, k); r->kind = K_REDIR; r->redirect = id; }
    Obj *o = objRW(*s, id);
    o->size = g.size; o->kind = K_GLOBAL;
    o->d = std::make_shared<ObjData>();
    o->d->ch.assign((g.size + CH - 1) / CH, g_zeroChunk);
    for (size_t i = 0; i < g.init.size(); ++i) if (g.init[i]) chunkRW(o, i)->b[i % CH] = g.init[i];
    o->ro = g.isConst;
  }
  auto it = M->fnByName.find(g_entry);
  if (it == M->fnByName.end()) { fprintf(stderr, "no entry %s\n", g_entry.c_str()); return 3; }
  s->th.resize(1);
  {
    // synthetic start function: static constructors, then the entry
    Func st;
    st.name = "<start>";
    st.hasBody = true;
    st.blocks.resize(1);
    std::vector<uint32_t> seq = M->ctors;
    seq.push_back(it->second);
    for (uint32_t fi : seq) {
      CallInfo ci;
      ci.func = fi;
      Instr call;
      call.op = I_CALL;
      call.aux = st.calls.size();
      st.calls.push_back(ci);
      st.blocks[0].ins.push_back(call);
    }
    Instr r;
    r.op = I_RET;
    r.aux = st.calls.size();
    st.calls.push_back(CallInfo());
    st.blocks[0].ins.push_back(r);
    M->funcs.push_back(st);
    pushFrame(*s, &M->funcs.back(), {});
  }
  enqueue(s);
  while (!g_queue.empty() || !g_stack.empty()) {
    if (g_viol.size() >= g_maxViol) break;
    if (elapsed() > g_timeLimit) { g_incomplete["time limit"]++; break; }
    if (n_states > g_maxStates) { g_incomplete["state limit"]++; break; }
    State *n;
    if (!g_stack.empty()) { n = g_stack.back(); g_stack.pop_back(); }
    else { n = g_queue.begin()->second; g_queue.erase(g_queue.begin()); }
    run(n);
  }
  if (g_verbose) for (auto &p : g_forkLoc) fprintf(stderr, "forks %8lu %s\n", (unsigned long)p.second, p.first.c_str());
  FILE *f = g_outFile.empty() ? stdout : fopen(g_outFile.c_str(), "w");
  fprintf(f, "{\"violations\":[");
  for (size_t i = 0; i < g_viol.size(); ++i) {
    auto &v = g_viol[i];
    fprintf(f, "%s{\"kind\":%s,\"msg\":%s,\"where\":%s,\"stack\":%s,\"inputs\":", i ? "," : "", jstr(v.kind).c_str(), jstr(v.msg).c_str(), jstr(v.where).c_str(), jstr(v.stack).c_str());
    jinputs(f, v.inputs);
    fprintf(f, ",\"outs\":");
    jouts(f, v.outs);
    fprintf(f, "}");
  }
  fprintf(f, "],\n\"incomplete\":{");
  bool first = true;
  for (auto &p : g_incomplete) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(p.first).c_str(), (unsigned long long)p.second); first = false; }
  fprintf(f, "},\n\"asserts\":{");
  first = true;
  for (auto &p : g_asserts) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(p.first).c_str(), (unsigned long long)p.second); first = false; }
  fprintf(f, "},\n\"reached\":[");
  first = true;
  for (auto i : g_reachedDone) { fprintf(f, "%s%s", first ? "" : ",", jstr(g_reachNames[i]).c_str()); first = false; }
  fprintf(f, "],\n\"functions\":[");
  first = true;
  for (auto *fn : g_funcsRun) { fprintf(f, "%s%s", first ? "" : ",", jstr(fn->name).c_str()); first = false; }
  fprintf(f, "],\n\"samples\":[");
  for (size_t i = 0; i < g_samples.size(); ++i) {
    fprintf(f, "%s{\"inputs\":", i ? "," : "");
    jinputs(f, g_samples[i]);
    fprintf(f, ",\"outs\":");
    jouts(f, g_sampleOuts[i]);
    fprintf(f, "}");
  }
  fprintf(f, "],\n\"stats\":{\"instructions\":%llu,\"paths\":%llu,\"states\":%llu,\"forks\":%llu,\"merges\":%llu,\"merge_fail\":%llu,\"assume_kills\":%llu,\"vars\":%zu,\"uninit_reads\":%llu,"
             "\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"uf_unsat\":%llu,\"assert_queries\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f}}\n",
          (unsigned long long)n_instr, (unsigned long long)n_paths, (unsigned long long)n_states, (unsigned long long)n_forks, (unsigned long long)n_merges, (unsigned long long)n_mergeFail,
          (unsigned long long)n_assumeKills, g_vars.size(), (unsigned long long)n_uninit, (unsigned long long)g_stats.queries, (unsigned long long)g_stats.sat, (unsigned long long)g_stats.unsat,
          (unsigned long long)g_stats.unknown, (unsigned long long)g_stats.cacheHits, (unsigned long long)g_stats.modelHits, (unsigned long long)g_stats.ufUnsat, (unsigned long long)n_assertQ, g_stats.seconds, elapsed());
  if (f != stdout) fclose(f);
  if (g_verbose) for (auto &p : g_failWhy) fprintf(stderr, "mergefail %s %llu\n", p.first.c_str(), (unsigned long long)p.second);
  fflush(nullptr);
  _exit(0);
}

