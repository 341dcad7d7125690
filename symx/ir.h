// Compact pre-decoded form of an LLVM module (produced by decode.cpp from the
// bitcode clang emits for the real sources; consumed by exec.cpp).
#pragma once
#include <cstdint>
#include <string>
#include <unordered_map>
#include <vector>

enum Opc : uint8_t {
  I_BIN,        // sub = Op (expr.h), w
  I_CMP,        // sub = Op, w = operand width, n: bit0 swap operands, bit1 negate
  I_FCMP,       // sub = predicate (llvm numbering), w
  I_FBIN, I_FUN, // sub = Op, w
  I_SELECT, I_ZEXT, I_SEXT, I_TRUNC, I_MOVE,
  I_SITOFP, I_UITOFP, I_FPTOSI, I_FPTOUI, I_FPEXT, I_FPTRUNC,
  I_LOAD, I_STORE, // w; address = a (+ imm)
  I_ALLOCA,     // a = count operand, imm = elem size
  I_ADDIMM,     // dst = a + imm
  I_ADDSC,      // dst = a + sext(b, w) * imm
  I_BR, I_CBR, I_SWITCH, // n = edge index base
  I_CALL, I_RET, I_UNREACHABLE, I_LANDINGPAD, I_RESUME,
  I_RMW,        // sub = rmw kind
  I_CMPXCHG, I_FENCE, I_UNSUPPORTED
};

typedef int32_t Opnd; // >=0 register slot, <0 constant ~idx in module pool

struct Instr {
  Opc op;
  uint8_t sub = 0;
  uint8_t w = 0, w2 = 0;
  uint16_t n = 0;
  bool isPtr = false;
  uint32_t dst = 0;
  Opnd a = 0, b = 0, c = 0;
  uint32_t aux = 0;   // call info / edge base / switch info
  uint32_t loc = 0;
  uint64_t imm = 0;
};

struct Move { uint32_t dst; Opnd src; };
struct Edge {
  uint32_t target;
  std::vector<Move> moves;
};
struct LPClause { uint8_t kind; uint64_t ti; std::vector<uint64_t> filter; }; // 0 catch 1 filter
struct LandingPad { bool cleanup = false; std::vector<LPClause> clauses; };

struct CallInfo {
  int32_t func = -1;      // direct callee (function index) or -1
  Opnd callee = 0;        // indirect
  std::vector<Opnd> args; // flattened
  std::vector<uint8_t> argw;
  std::vector<uint32_t> byval; // byval size per flattened arg (0 = none)
  std::vector<uint8_t> retw;   // flattened return widths
  int32_t normalEdge = -1, unwindEdge = -1; // invoke
  uint32_t unwindPad = 0;
};
struct SwitchInfo { std::vector<uint64_t> vals; std::vector<uint32_t> edges; uint32_t defEdge; };

struct Block {
  std::vector<Instr> ins;
  uint32_t rpo = 0;
  uint32_t npreds = 0;
  std::vector<uint32_t> loops; // block ids of headers, outermost first
  bool isHeader = false;
  std::vector<uint32_t> defs, succEdges;
};

struct Func {
  std::string name;
  uint32_t idx = 0;
  bool hasBody = false;
  int builtin = -1;
  uint64_t addr = 0;
  uint32_t nslots = 0;
  std::vector<uint8_t> slotw;      // width per slot
  std::vector<uint8_t> slotptr;
  std::vector<uint8_t> argw;       // flattened
  std::vector<Block> blocks;
  std::vector<Edge> edges;
  std::vector<CallInfo> calls;
  std::vector<SwitchInfo> switches;
  std::vector<LandingPad> pads;    // indexed by pad id
  std::string file;
  bool repo = false;               // defined in /repo
  // lazily computed
  bool liveDone = false;
  std::vector<std::vector<uint64_t>> liveIn;
};

struct GlobalObj {
  std::string name;
  uint64_t addr = 0, size = 0;
  bool isConst = false, external = false;
  std::vector<uint8_t> init;
};

struct Module {
  std::vector<Func> funcs;
  std::unordered_map<std::string, uint32_t> fnByName;
  std::unordered_map<uint64_t, uint32_t> fnByAddr;
  std::vector<GlobalObj> globals;
  std::unordered_map<std::string, uint32_t> globByName;
  std::vector<uint64_t> consts;
  std::vector<std::pair<std::string, uint32_t>> locs; // file, line
  std::vector<uint32_t> ctors; // function idx in order
  std::unordered_map<std::string, std::vector<std::string>> tiBases; // typeinfo symbol -> bases
  std::unordered_map<uint64_t, std::string> tiName;
};

const uint64_t OBJ_SHIFT = 24;
const uint64_t OBJ_REGION = 0x100000000000ull;
const uint64_t OBJ_OFF = 0x100000ull;
const uint64_t FN_REGION = 0x7f0000000000ull;
inline uint64_t objBase(uint32_t id) { return OBJ_REGION + ((uint64_t)id << OBJ_SHIFT) + OBJ_OFF; }

Module *decodeModule(const std::vector<std::string> &bcFiles, uint32_t &nextObjId);
int builtinIndex(const std::string &name); // exec.cpp
