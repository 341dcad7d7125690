// LLVM bitcode -> ir.h
#include "expr.h"
#include "ir.h"

#include <llvm/Analysis/LoopInfo.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <cstdio>
#include <cstdlib>
#include <map>

namespace {
using llvm::dyn_cast;
using llvm::cast;
using llvm::isa;

[[noreturn]] void die(const std::string &m)
{
  fprintf(stderr, "symx: decode: %s\n", m.c_str());
  exit(3);
}

struct Leaf { unsigned w; uint64_t off; bool ptr; };

struct Decoder {
  llvm::LLVMContext ctx;
  std::unique_ptr<llvm::Module> M;
  const llvm::DataLayout *DL = nullptr;
  Module *out;
  std::map<const llvm::GlobalValue *, uint64_t> gaddr;
  std::unordered_map<uint64_t, int32_t> constIdx;
  std::map<std::pair<std::string, uint32_t>, uint32_t> locIdx;
  uint32_t &nextId;
  explicit Decoder(uint32_t &n) : nextId(n) { out = new Module(); }

  void flatten(llvm::Type *T, uint64_t off, std::vector<Leaf> &v)
  {
    if (T->isIntegerTy()) { v.push_back({T->getIntegerBitWidth(), off, false}); return; }
    if (T->isPointerTy()) { v.push_back({64, off, true}); return; }
    if (T->isFloatTy()) { v.push_back({32, off, false}); return; }
    if (T->isDoubleTy()) { v.push_back({64, off, false}); return; }
    if (T->isVoidTy()) return;
    if (auto *S = dyn_cast<llvm::StructType>(T)) {
      auto *L = DL->getStructLayout(S);
      for (unsigned i = 0; i < S->getNumElements(); ++i)
        flatten(S->getElementType(i), off + L->getElementOffset(i), v);
      return;
    }
    if (auto *A = dyn_cast<llvm::ArrayType>(T)) {
      uint64_t sz = DL->getTypeAllocSize(A->getElementType());
      for (uint64_t i = 0; i < A->getNumElements(); ++i) flatten(A->getElementType(), off + i * sz, v);
      return;
    }
    if (auto *A = dyn_cast<llvm::FixedVectorType>(T)) {
      uint64_t sz = DL->getTypeSizeInBits(A->getElementType()) / 8;
      for (unsigned i = 0; i < A->getNumElements(); ++i) flatten(A->getElementType(), off + i * sz, v);
      return;
    }
    if (T->isX86_FP80Ty() || T->isFP128Ty()) { v.push_back({128, off, false}); return; }
    if (T->isTokenTy() || T->isMetadataTy()) return;
    std::string s; llvm::raw_string_ostream o(s); T->print(o);
    die("unsupported type " + o.str());
  }
  std::vector<Leaf> leaves(llvm::Type *T)
  {
    std::vector<Leaf> v; flatten(T, 0, v); return v;
  }

  int32_t constOp(uint64_t v)
  {
    auto it = constIdx.find(v);
    if (it != constIdx.end()) return ~it->second;
    int32_t i = out->consts.size();
    out->consts.push_back(v);
    constIdx[v] = i;
    return ~i;
  }

  uint64_t constScalar(const llvm::Constant *C)
  {
    if (auto *I = dyn_cast<llvm::ConstantInt>(C)) {
      if (I->getBitWidth() > 64) return I->getValue().getLoBits(64).getLimitedValue();
      return I->getZExtValue();
    }
    if (auto *F = dyn_cast<llvm::ConstantFP>(C)) {
      auto b = F->getValueAPF().bitcastToAPInt();
      if (b.getBitWidth() > 64) return 0;
      return b.getZExtValue();
    }
    if (isa<llvm::ConstantPointerNull>(C) || isa<llvm::UndefValue>(C) || isa<llvm::ConstantAggregateZero>(C)) return 0;
    if (auto *A = dyn_cast<llvm::GlobalAlias>(C)) return constScalar(A->getAliasee());
    if (auto *G = dyn_cast<llvm::GlobalValue>(C)) {
      auto it = gaddr.find(G);
      if (it == gaddr.end()) die("no address for " + G->getName().str());
      return it->second;
    }
    if (auto *GO = dyn_cast<llvm::GEPOperator>(C)) {
      llvm::APInt off(64, 0);
      if (!GO->accumulateConstantOffset(*DL, off)) die("constant gep");
      return constScalar(cast<llvm::Constant>(GO->getPointerOperand())) + off.getZExtValue();
    }
    if (auto *CE = dyn_cast<llvm::ConstantExpr>(C)) {
      unsigned w = 64;
      auto lv = leaves(CE->getType());
      if (lv.size() == 1) w = lv[0].w;
      auto opw = [&](unsigned i) { auto l = leaves(CE->getOperand(i)->getType()); return l.empty() ? 64 : l[0].w; };
      uint64_t a = constScalar(CE->getOperand(0));
      uint64_t b = CE->getNumOperands() > 1 ? constScalar(CE->getOperand(1)) : 0;
      switch (CE->getOpcode()) {
        case llvm::Instruction::BitCast: case llvm::Instruction::AddrSpaceCast: return a;
        case llvm::Instruction::PtrToInt: case llvm::Instruction::IntToPtr:
        case llvm::Instruction::Trunc: return a & maskw(w);
        case llvm::Instruction::Add: return (a + b) & maskw(w);
        case llvm::Instruction::Sub: return (a - b) & maskw(w);
        case llvm::Instruction::Mul: return (a * b) & maskw(w);
        case llvm::Instruction::And: return a & b;
        case llvm::Instruction::Or: return a | b;
        case llvm::Instruction::Xor: return a ^ b;
        case llvm::Instruction::Shl: return evalOp2(O_SHL, w, a, b);
        case llvm::Instruction::LShr: return evalOp2(O_LSHR, w, a, b);
        case llvm::Instruction::ZExt: return a;
        case llvm::Instruction::SExt: return (uint64_t)sx(a, opw(0)) & maskw(w);
        case llvm::Instruction::ICmp: {
          auto p = CE->getPredicate();
          if (p == llvm::CmpInst::ICMP_EQ) return a == b;
          if (p == llvm::CmpInst::ICMP_NE) return a != b;
          break;
        }
        default: break;
      }
    }
    std::string s; llvm::raw_string_ostream o(s); C->print(o);
    die("constant " + o.str());
  }
  void constLeaves(const llvm::Constant *C, std::vector<uint64_t> &v)
  {
    llvm::Type *T = C->getType();
    if (T->isStructTy() || T->isArrayTy() || T->isVectorTy()) {
      if (isa<llvm::UndefValue>(C) || isa<llvm::ConstantAggregateZero>(C)) {
        for (size_t i = leaves(T).size(); i; --i) v.push_back(0);
        return;
      }
      unsigned n = T->isStructTy() ? T->getStructNumElements()
                   : T->isArrayTy() ? T->getArrayNumElements()
                                    : cast<llvm::FixedVectorType>(T)->getNumElements();
      for (unsigned i = 0; i < n; ++i) {
        auto *el = C->getAggregateElement(i);
        if (!el) die("aggregate const");
        constLeaves(el, v);
      }
      return;
    }
    v.push_back(constScalar(C));
  }
  void initBytes(const llvm::Constant *C, uint8_t *p, uint64_t size)
  {
    if (isa<llvm::ConstantAggregateZero>(C) || isa<llvm::UndefValue>(C) || isa<llvm::ConstantPointerNull>(C)) return;
    if (auto *S = dyn_cast<llvm::ConstantDataSequential>(C)) {
      auto raw = S->getRawDataValues();
      memcpy(p, raw.data(), raw.size());
      return;
    }
    llvm::Type *T = C->getType();
    if (auto *ST = dyn_cast<llvm::StructType>(T)) {
      auto *L = DL->getStructLayout(ST);
      for (unsigned i = 0; i < ST->getNumElements(); ++i)
        initBytes(C->getAggregateElement(i), p + L->getElementOffset(i), 0);
      return;
    }
    if (auto *AT = dyn_cast<llvm::ArrayType>(T)) {
      uint64_t sz = DL->getTypeAllocSize(AT->getElementType());
      for (unsigned i = 0; i < AT->getNumElements(); ++i) initBytes(C->getAggregateElement(i), p + i * sz, 0);
      return;
    }
    if (T->isVectorTy()) {
      auto *VT = cast<llvm::FixedVectorType>(T);
      uint64_t sz = DL->getTypeSizeInBits(VT->getElementType()) / 8;
      for (unsigned i = 0; i < VT->getNumElements(); ++i) initBytes(C->getAggregateElement(i), p + i * sz, 0);
      return;
    }
    if (T->isX86_FP80Ty()) {
      auto b = cast<llvm::ConstantFP>(C)->getValueAPF().bitcastToAPInt();
      memcpy(p, b.getRawData(), 10);
      return;
    }
    if (T->isIntegerTy() && T->getIntegerBitWidth() > 64) {
      auto &v = cast<llvm::ConstantInt>(C)->getValue();
      memcpy(p, v.getRawData(), T->getIntegerBitWidth() / 8);
      return;
    }
    uint64_t v = constScalar(C);
    memcpy(p, &v, DL->getTypeStoreSize(T));
  }

  uint32_t locOf(const llvm::Instruction &I)
  {
    const llvm::DILocation *D = I.getDebugLoc();
    if (!D) return 0;
    std::string f = D->getFilename().str();
    auto key = std::make_pair(f, (uint32_t)D->getLine());
    auto it = locIdx.find(key);
    if (it != locIdx.end()) return it->second;
    uint32_t i = out->locs.size();
    out->locs.push_back(key);
    locIdx[key] = i;
    return i;
  }

  // ---- per function
  std::unordered_map<const llvm::Value *, uint32_t> slot;
  Func *F = nullptr;

  uint32_t newSlots(const llvm::Value *V)
  {
    auto lv = leaves(V->getType());
    uint32_t b = F->nslots;
    for (auto &l : lv) { F->slotw.push_back(l.w); F->slotptr.push_back(l.ptr); }
    F->nslots += lv.size();
    slot[V] = b;
    return b;
  }
  uint32_t tmp(unsigned w, bool ptr = false)
  {
    F->slotw.push_back(w); F->slotptr.push_back(ptr);
    return F->nslots++;
  }
  void operands(const llvm::Value *V, std::vector<Opnd> &v)
  {
    if (auto *C = dyn_cast<llvm::Constant>(V)) {
      std::vector<uint64_t> c;
      constLeaves(C, c);
      for (auto x : c) v.push_back(constOp(x));
      return;
    }
    if (isa<llvm::MetadataAsValue>(V) || isa<llvm::InlineAsm>(V)) return;
    auto it = slot.find(V);
    if (it == slot.end()) die("value without slot in " + F->name);
    size_t n = leaves(V->getType()).size();
    for (size_t i = 0; i < n; ++i) v.push_back(it->second + i);
  }
  std::vector<Opnd> ops(const llvm::Value *V) { std::vector<Opnd> v; operands(V, v); return v; }
  Opnd op1(const llvm::Value *V)
  {
    auto v = ops(V);
    if (v.empty()) die("op1");
    return v[0];
  }

  size_t leafIndex(llvm::Type *T, llvm::ArrayRef<unsigned> idx)
  {
    size_t b = 0;
    for (unsigned i : idx) {
      for (unsigned k = 0; k < i; ++k) {
        llvm::Type *E = T->isStructTy() ? T->getStructElementType(k) : T->getArrayElementType();
        b += leaves(E).size();
      }
      T = T->isStructTy() ? T->getStructElementType(i) : T->getArrayElementType();
    }
    return b;
  }

  void decodeFunction(llvm::Function &LF, Func &fn)
  {
    F = &fn;
    slot.clear();
    fn.hasBody = true;
    if (auto *SP = LF.getSubprogram()) {
      fn.file = SP->getFilename().str();
      if (!fn.file.empty() && fn.file[0] != '/') fn.file = SP->getDirectory().str() + "/" + fn.file;
      fn.repo = fn.file.compare(0, 6, "/repo/") == 0;
    }
    for (auto &A : LF.args()) newSlots(&A);
    llvm::DominatorTree DT(LF);
    llvm::LoopInfo LI(DT);
    llvm::ReversePostOrderTraversal<llvm::Function *> RPOT(&LF);
    std::vector<llvm::BasicBlock *> order(RPOT.begin(), RPOT.end());
    std::unordered_map<const llvm::BasicBlock *, uint32_t> bidx;
    for (uint32_t i = 0; i < order.size(); ++i) bidx[order[i]] = i;
    for (auto *BB : order)
      for (auto &I : *BB)
        if (!I.getType()->isVoidTy()) newSlots(&I);
    fn.blocks.resize(order.size());
    for (uint32_t i = 0; i < order.size(); ++i) {
      auto *BB = order[i];
      Block &B = fn.blocks[i];
      B.rpo = i;
      for (auto *P : llvm::predecessors(BB)) if (bidx.count(P)) B.npreds++;
      std::vector<uint32_t> chain;
      for (llvm::Loop *L = LI.getLoopFor(BB); L; L = L->getParentLoop()) chain.push_back(bidx[L->getHeader()]);
      B.loops.assign(chain.rbegin(), chain.rend());
      B.isHeader = !chain.empty() && chain[0] == i;
    }
    auto edgeTo = [&](llvm::BasicBlock *from, llvm::BasicBlock *to) {
      Edge e;
      e.target = bidx[to];
      for (auto &P : to->phis()) {
        auto src = ops(P.getIncomingValueForBlock(from));
        uint32_t d = slot[&P];
        for (size_t k = 0; k < src.size(); ++k) e.moves.push_back({(uint32_t)(d + k), src[k]});
      }
      fn.edges.push_back(e);
      fn.blocks[bidx[from]].succEdges.push_back(fn.edges.size() - 1);
      return (uint32_t)(fn.edges.size() - 1);
    };
    for (uint32_t bi = 0; bi < order.size(); ++bi) {
      auto *BB = order[bi];
      std::vector<Instr> ins;
      for (auto &I : *BB) {
        if (isa<llvm::PHINode>(I) || isa<llvm::DbgInfoIntrinsic>(I)) continue;
        uint32_t loc = locOf(I);
        size_t start = ins.size();
        decodeInst(I, ins, edgeTo, fn);
        for (size_t k = start; k < ins.size(); ++k) ins[k].loc = loc;
      }
      fn.blocks[bi].ins = std::move(ins);
    }
  }

  template <typename EdgeFn>
  void decodeInst(llvm::Instruction &I, std::vector<Instr> &ins, EdgeFn &edgeTo, Func &fn)
  {
    auto lv = leaves(I.getType());
    uint32_t d = lv.empty() ? 0 : slot[&I];
    auto emit = [&](Opc op) -> Instr & { ins.emplace_back(); ins.back().op = op; return ins.back(); };
    auto unsupported = [&]() {
      std::string s; llvm::raw_string_ostream o(s); I.print(o);
      Instr &x = emit(I_UNSUPPORTED);
      x.imm = (uint64_t)(uintptr_t)strdup(o.str().c_str());
    };
    for (auto &l : lv) if (l.w > 64) { unsupported(); return; }
    for (auto &u : I.operands())
      if (!isa<llvm::BasicBlock>(u) && !isa<llvm::MetadataAsValue>(u) && !isa<llvm::Function>(u) && u->getType()->isSized())
        for (auto &l : leaves(u->getType())) if (l.w > 64) { unsupported(); return; }
    if (auto *B = dyn_cast<llvm::BinaryOperator>(&I)) {
      auto a = ops(B->getOperand(0)), b = ops(B->getOperand(1));
      Opc o = I_BIN;
      Op s;
      switch (B->getOpcode()) {
        case llvm::Instruction::Add: s = O_ADD; break;
        case llvm::Instruction::Sub: s = O_SUB; break;
        case llvm::Instruction::Mul: s = O_MUL; break;
        case llvm::Instruction::UDiv: s = O_UDIV; break;
        case llvm::Instruction::SDiv: s = O_SDIV; break;
        case llvm::Instruction::URem: s = O_UREM; break;
        case llvm::Instruction::SRem: s = O_SREM; break;
        case llvm::Instruction::And: s = O_AND; break;
        case llvm::Instruction::Or: s = O_OR; break;
        case llvm::Instruction::Xor: s = O_XOR; break;
        case llvm::Instruction::Shl: s = O_SHL; break;
        case llvm::Instruction::LShr: s = O_LSHR; break;
        case llvm::Instruction::AShr: s = O_ASHR; break;
        case llvm::Instruction::FAdd: s = O_FADD; o = I_FBIN; break;
        case llvm::Instruction::FSub: s = O_FSUB; o = I_FBIN; break;
        case llvm::Instruction::FMul: s = O_FMUL; o = I_FBIN; break;
        case llvm::Instruction::FDiv: s = O_FDIV; o = I_FBIN; break;
        case llvm::Instruction::FRem: s = O_FREM; o = I_FBIN; break;
        default: unsupported(); return;
      }
      for (size_t k = 0; k < lv.size(); ++k) {
        Instr &x = emit(o); x.sub = s; x.w = lv[k].w; x.dst = d + k; x.a = a[k]; x.b = b[k];
      }
      return;
    }
    if (auto *U = dyn_cast<llvm::UnaryOperator>(&I)) {
      auto a = ops(U->getOperand(0));
      for (size_t k = 0; k < lv.size(); ++k) {
        Instr &x = emit(I_FUN); x.sub = O_FNEG; x.w = lv[k].w; x.dst = d + k; x.a = a[k];
      }
      return;
    }
    if (auto *C = dyn_cast<llvm::ICmpInst>(&I)) {
      auto a = ops(C->getOperand(0)), b = ops(C->getOperand(1));
      auto ol = leaves(C->getOperand(0)->getType());
      for (size_t k = 0; k < lv.size(); ++k) {
        Instr &x = emit(I_CMP); x.w = ol[k].w; x.dst = d + k; x.a = a[k]; x.b = b[k];
        using P = llvm::CmpInst;
        int sub = O_EQ, swap = 0, neg = 0;
        switch (C->getPredicate()) {
          case P::ICMP_EQ: break;
          case P::ICMP_NE: neg = 1; break;
          case P::ICMP_ULT: sub = O_ULT; break;
          case P::ICMP_ULE: sub = O_ULE; break;
          case P::ICMP_UGT: sub = O_ULT; swap = 1; break;
          case P::ICMP_UGE: sub = O_ULE; swap = 1; break;
          case P::ICMP_SLT: sub = O_SLT; break;
          case P::ICMP_SLE: sub = O_SLE; break;
          case P::ICMP_SGT: sub = O_SLT; swap = 1; break;
          case P::ICMP_SGE: sub = O_SLE; swap = 1; break;
          default: die("icmp");
        }
        x.sub = sub; x.n = swap | (neg << 1);
      }
      return;
    }
    if (auto *C = dyn_cast<llvm::FCmpInst>(&I)) {
      auto a = ops(C->getOperand(0)), b = ops(C->getOperand(1));
      auto ol = leaves(C->getOperand(0)->getType());
      for (size_t k = 0; k < lv.size(); ++k) {
        Instr &x = emit(I_FCMP); x.sub = (uint8_t)C->getPredicate(); x.w = ol[k].w; x.dst = d + k; x.a = a[k]; x.b = b[k];
      }
      return;
    }
    if (auto *S = dyn_cast<llvm::SelectInst>(&I)) {
      auto c = ops(S->getCondition()), a = ops(S->getTrueValue()), b = ops(S->getFalseValue());
      for (size_t k = 0; k < lv.size(); ++k) {
        Instr &x = emit(I_SELECT); x.w = lv[k].w; x.dst = d + k; x.a = a[k]; x.b = b[k];
        x.c = c.size() > 1 ? c[k] : c[0]; x.isPtr = lv[k].ptr;
      }
      return;
    }
    if (auto *C = dyn_cast<llvm::CastInst>(&I)) {
      auto a = ops(C->getOperand(0));
      auto ol = leaves(C->getOperand(0)->getType());
      if (ol.size() != lv.size()) {
        if (C->getOpcode() == llvm::Instruction::BitCast) {
          // vector <-> scalar repack
          unsigned wo = ol[0].w, wd = lv[0].w;
          if (ol.size() == 1) { // scalar -> vector
            for (size_t k = 0; k < lv.size(); ++k) {
              uint32_t t = tmp(wo);
              Instr &s = emit(I_BIN); s.sub = O_LSHR; s.w = wo; s.dst = t; s.a = a[0]; s.b = constOp(k * wd);
              Instr &x = emit(I_TRUNC); x.w = wd; x.w2 = wo; x.dst = d + k; x.a = t;
            }
            return;
          }
          if (lv.size() == 1) {
            Opnd acc = constOp(0);
            for (size_t k = 0; k < ol.size(); ++k) {
              uint32_t t = tmp(wd), t2 = tmp(wd);
              Instr &z = emit(I_ZEXT); z.w = wd; z.w2 = wo; z.dst = t; z.a = a[k];
              Instr &s = emit(I_BIN); s.sub = O_SHL; s.w = wd; s.dst = t2; s.a = t; s.b = constOp(k * wo);
              uint32_t t3 = k + 1 == ol.size() ? d : tmp(wd);
              Instr &o = emit(I_BIN); o.sub = O_OR; o.w = wd; o.dst = t3; o.a = acc; o.b = t2;
              acc = t3;
            }
            return;
          }
        }
        unsupported(); return;
      }
      for (size_t k = 0; k < lv.size(); ++k) {
        Opc o;
        switch (C->getOpcode()) {
          case llvm::Instruction::ZExt: o = I_ZEXT; break;
          case llvm::Instruction::SExt: o = I_SEXT; break;
          case llvm::Instruction::Trunc: o = I_TRUNC; break;
          case llvm::Instruction::BitCast: o = I_MOVE; break;
          case llvm::Instruction::PtrToInt: case llvm::Instruction::IntToPtr:
            o = lv[k].w == ol[k].w ? I_MOVE : lv[k].w < ol[k].w ? I_TRUNC : I_ZEXT; break;
          case llvm::Instruction::SIToFP: o = I_SITOFP; break;
          case llvm::Instruction::UIToFP: o = I_UITOFP; break;
          case llvm::Instruction::FPToSI: o = I_FPTOSI; break;
          case llvm::Instruction::FPToUI: o = I_FPTOUI; break;
          case llvm::Instruction::FPExt: o = I_FPEXT; break;
          case llvm::Instruction::FPTrunc: o = I_FPTRUNC; break;
          default: unsupported(); return;
        }
        Instr &x = emit(o); x.w = lv[k].w; x.w2 = ol[k].w; x.dst = d + k; x.a = a[k];
      }
      return;
    }
    if (isa<llvm::FreezeInst>(&I)) {
      auto a = ops(I.getOperand(0));
      for (size_t k = 0; k < lv.size(); ++k) { Instr &x = emit(I_MOVE); x.w = lv[k].w; x.dst = d + k; x.a = a[k]; }
      return;
    }
    if (auto *L = dyn_cast<llvm::LoadInst>(&I)) {
      Opnd a = op1(L->getPointerOperand());
      for (size_t k = 0; k < lv.size(); ++k) {
        Instr &x = emit(I_LOAD); x.w = lv[k].w; x.dst = d + k; x.a = a; x.imm = lv[k].off; x.isPtr = lv[k].ptr; x.n = L->isAtomic();
      }
      return;
    }
    if (auto *S = dyn_cast<llvm::StoreInst>(&I)) {
      Opnd a = op1(S->getPointerOperand());
      auto v = ops(S->getValueOperand());
      auto sl = leaves(S->getValueOperand()->getType());
      for (size_t k = 0; k < sl.size(); ++k) {
        Instr &x = emit(I_STORE); x.w = sl[k].w; x.a = a; x.b = v[k]; x.imm = sl[k].off; x.isPtr = sl[k].ptr; x.n = S->isAtomic();
      }
      return;
    }
    if (auto *A = dyn_cast<llvm::AllocaInst>(&I)) {
      Instr &x = emit(I_ALLOCA);
      x.dst = d; x.a = op1(A->getArraySize()); x.imm = DL->getTypeAllocSize(A->getAllocatedType());
      return;
    }
    if (auto *G = dyn_cast<llvm::GetElementPtrInst>(&I)) {
      if (lv.size() != 1) { unsupported(); return; }
      Opnd cur = op1(G->getPointerOperand());
      uint64_t constOff = 0;
      std::vector<std::tuple<Opnd, unsigned, uint64_t>> terms;
      for (auto gti = llvm::gep_type_begin(G), e = llvm::gep_type_end(G); gti != e; ++gti) {
        llvm::Value *idx = gti.getOperand();
        if (auto *ST = gti.getStructTypeOrNull()) {
          constOff += DL->getStructLayout(ST)->getElementOffset(cast<llvm::ConstantInt>(idx)->getZExtValue());
        } else {
          uint64_t sz = DL->getTypeAllocSize(gti.getIndexedType());
          if (auto *CI = dyn_cast<llvm::ConstantInt>(idx)) constOff += (uint64_t)(CI->getSExtValue()) * sz;
          else terms.emplace_back(op1(idx), leaves(idx->getType())[0].w, sz);
        }
      }
      if (terms.empty()) {
        Instr &x = emit(I_ADDIMM); x.dst = d; x.a = cur; x.imm = constOff; x.w = 64; x.isPtr = true;
        return;
      }
      for (size_t k = 0; k < terms.size(); ++k) {
        bool last = k + 1 == terms.size() && constOff == 0;
        uint32_t t = last ? d : tmp(64, true);
        Instr &x = emit(I_ADDSC); x.dst = t; x.a = cur; x.b = std::get<0>(terms[k]); x.w = 64;
        x.w2 = std::get<1>(terms[k]); x.imm = std::get<2>(terms[k]); x.isPtr = true;
        cur = t;
      }
      if (constOff) { Instr &x = emit(I_ADDIMM); x.dst = d; x.a = cur; x.imm = constOff; x.w = 64; x.isPtr = true; }
      return;
    }
    if (auto *E = dyn_cast<llvm::ExtractValueInst>(&I)) {
      auto a = ops(E->getAggregateOperand());
      size_t b = leafIndex(E->getAggregateOperand()->getType(), E->getIndices());
      for (size_t k = 0; k < lv.size(); ++k) { Instr &x = emit(I_MOVE); x.w = lv[k].w; x.dst = d + k; x.a = a[b + k]; }
      return;
    }
    if (auto *E = dyn_cast<llvm::InsertValueInst>(&I)) {
      auto a = ops(E->getAggregateOperand()), v = ops(E->getInsertedValueOperand());
      size_t b = leafIndex(E->getAggregateOperand()->getType(), E->getIndices());
      for (size_t k = 0; k < lv.size(); ++k) {
        Instr &x = emit(I_MOVE); x.w = lv[k].w; x.dst = d + k;
        x.a = (k >= b && k < b + v.size()) ? v[k - b] : a[k];
      }
      return;
    }
    if (auto *E = dyn_cast<llvm::ExtractElementInst>(&I)) {
      auto a = ops(E->getVectorOperand());
      auto *CI = dyn_cast<llvm::ConstantInt>(E->getIndexOperand());
      if (!CI) { unsupported(); return; }
      Instr &x = emit(I_MOVE); x.w = lv[0].w; x.dst = d; x.a = a[CI->getZExtValue()];
      return;
    }
    if (auto *E = dyn_cast<llvm::InsertElementInst>(&I)) {
      auto a = ops(E->getOperand(0)), v = ops(E->getOperand(1));
      auto *CI = dyn_cast<llvm::ConstantInt>(E->getOperand(2));
      if (!CI) { unsupported(); return; }
      for (size_t k = 0; k < lv.size(); ++k) {
        Instr &x = emit(I_MOVE); x.w = lv[k].w; x.dst = d + k; x.a = k == CI->getZExtValue() ? v[0] : a[k];
      }
      return;
    }
    if (auto *S = dyn_cast<llvm::ShuffleVectorInst>(&I)) {
      auto a = ops(S->getOperand(0)), b = ops(S->getOperand(1));
      auto m = S->getShuffleMask();
      for (size_t k = 0; k < lv.size(); ++k) {
        Instr &x = emit(I_MOVE); x.w = lv[k].w; x.dst = d + k;
        int q = m[k];
        x.a = q < 0 ? constOp(0) : q < (int)a.size() ? a[q] : b[q - a.size()];
      }
      return;
    }
    if (auto *B = dyn_cast<llvm::BranchInst>(&I)) {
      if (B->isUnconditional()) {
        uint32_t e = edgeTo(I.getParent(), B->getSuccessor(0));
        Instr &x = emit(I_BR); x.aux = e;
      } else {
        uint32_t e0 = edgeTo(I.getParent(), B->getSuccessor(0));
        uint32_t e1 = edgeTo(I.getParent(), B->getSuccessor(1));
        Instr &x = emit(I_CBR); x.a = op1(B->getCondition()); x.aux = e0; x.imm = e1;
      }
      return;
    }
    if (auto *S = dyn_cast<llvm::SwitchInst>(&I)) {
      SwitchInfo si;
      for (auto &c : S->cases()) {
        si.vals.push_back(c.getCaseValue()->getZExtValue());
        si.edges.push_back(edgeTo(I.getParent(), c.getCaseSuccessor()));
      }
      si.defEdge = edgeTo(I.getParent(), S->getDefaultDest());
      fn.switches.push_back(si);
      Instr &x = emit(I_SWITCH); x.a = op1(S->getCondition()); x.aux = fn.switches.size() - 1;
      x.w = leaves(S->getCondition()->getType())[0].w;
      return;
    }
    if (auto *R = dyn_cast<llvm::ReturnInst>(&I)) {
      Instr &x = emit(I_RET);
      CallInfo ci;
      if (R->getReturnValue()) ci.args = ops(R->getReturnValue());
      fn.calls.push_back(ci);
      x.aux = fn.calls.size() - 1;
      return;
    }
    if (isa<llvm::UnreachableInst>(&I)) { emit(I_UNREACHABLE); return; }
    if (auto *C = dyn_cast<llvm::CallBase>(&I)) {
      if (isa<llvm::CallBrInst>(C)) { unsupported(); return; }
      CallInfo ci;
      llvm::Value *cv = C->getCalledOperand()->stripPointerCasts();
      if (auto *GA = dyn_cast<llvm::GlobalAlias>(cv)) cv = GA->getAliaseeObject();
      bool isAsm = isa<llvm::InlineAsm>(cv);
      if (isAsm) { // compiler barriers only
        auto *IA = cast<llvm::InlineAsm>(cv);
        if (!IA->getAsmString().empty()) { unsupported(); }
        return;
      }
      if (auto *CF = dyn_cast<llvm::Function>(cv)) ci.func = out->fnByName.at(CF->getName().str());
      else ci.callee = op1(cv);
      for (unsigned k = 0; k < C->arg_size(); ++k) {
        auto al = leaves(C->getArgOperand(k)->getType());
        if (isa<llvm::MetadataAsValue>(C->getArgOperand(k))) continue;
        auto v = ops(C->getArgOperand(k));
        for (size_t q = 0; q < v.size(); ++q) {
          ci.args.push_back(v[q]);
          ci.argw.push_back(al[q].w);
          ci.byval.push_back(C->isByValArgument(k) ? DL->getTypeAllocSize(C->getParamByValType(k)).getFixedValue() : 0);
        }
      }
      for (auto &l : lv) ci.retw.push_back(l.w);
      if (auto *Inv = dyn_cast<llvm::InvokeInst>(C)) {
        ci.normalEdge = edgeTo(I.getParent(), Inv->getNormalDest());
        ci.unwindEdge = edgeTo(I.getParent(), Inv->getUnwindDest());
        auto *LP = Inv->getUnwindDest()->getLandingPadInst();
        LandingPad lp;
        lp.cleanup = LP->isCleanup();
        for (unsigned k = 0; k < LP->getNumClauses(); ++k) {
          LPClause cl;
          cl.kind = LP->isFilter(k);
          if (LP->isCatch(k)) cl.ti = constScalar(LP->getClause(k));
          else { cl.ti = 0; constLeaves(LP->getClause(k), cl.filter); }
          lp.clauses.push_back(cl);
        }
        fn.pads.push_back(lp);
        ci.unwindPad = fn.pads.size() - 1;
      }
      fn.calls.push_back(ci);
      Instr &x = emit(I_CALL); x.dst = d; x.aux = fn.calls.size() - 1; x.n = lv.size();
      return;
    }
    if (isa<llvm::LandingPadInst>(&I)) { Instr &x = emit(I_LANDINGPAD); x.dst = d; return; }
    if (auto *R = dyn_cast<llvm::ResumeInst>(&I)) {
      auto v = ops(R->getValue());
      Instr &x = emit(I_RESUME); x.a = v[0]; x.b = v.size() > 1 ? v[1] : v[0];
      return;
    }
    if (auto *A = dyn_cast<llvm::AtomicRMWInst>(&I)) {
      Instr &x = emit(I_RMW); x.sub = (uint8_t)A->getOperation(); x.w = lv[0].w; x.dst = d;
      x.a = op1(A->getPointerOperand()); x.b = op1(A->getValOperand());
      return;
    }
    if (auto *A = dyn_cast<llvm::AtomicCmpXchgInst>(&I)) {
      Instr &x = emit(I_CMPXCHG); x.w = lv[0].w; x.dst = d;
      x.a = op1(A->getPointerOperand()); x.b = op1(A->getCompareOperand()); x.c = op1(A->getNewValOperand());
      return;
    }
    if (isa<llvm::FenceInst>(&I)) { emit(I_FENCE); return; }
    unsupported();
  }

  void run(const std::vector<std::string> &files)
  {
    for (auto &f : files) {
      llvm::SMDiagnostic err;
      auto m = llvm::parseIRFile(f, err, ctx);
      if (!m) die("cannot read " + f + ": " + err.getMessage().str());
      if (!M) M = std::move(m);
      else if (llvm::Linker::linkModules(*M, std::move(m))) die("link " + f);
    }
    DL = &M->getDataLayout();
    out->locs.push_back({"?", 0});
    auto allocGlobal = [&](uint64_t size) {
      uint32_t id = nextId;
      nextId += 1 + (uint32_t)((size + OBJ_OFF) >> OBJ_SHIFT);
      return objBase(id);
    };
    for (auto &LF : *M) {
      Func fn;
      fn.name = LF.getName().str();
      fn.idx = out->funcs.size();
      fn.addr = FN_REGION + 16ull * (fn.idx + 1);
      gaddr[&LF] = fn.addr;
      for (auto &A : LF.args())
        for (auto &l : leaves(A.getType())) fn.argw.push_back(l.w);
      out->fnByName[fn.name] = fn.idx;
      out->fnByAddr[fn.addr] = fn.idx;
      out->funcs.push_back(std::move(fn));
    }
    for (auto &G : M->globals()) {
      GlobalObj g;
      g.name = G.getName().str();
      g.isConst = G.isConstant();
      g.external = !G.hasInitializer();
      g.size = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 8;
      if (g.external && g.size < 256) g.size = 256;
      g.addr = allocGlobal(g.size);
      gaddr[&G] = g.addr;
      out->globByName[g.name] = out->globals.size();
      out->globals.push_back(std::move(g));
      if (G.getName().starts_with("_ZTI")) out->tiName[gaddr[&G]] = G.getName().str();
    }
    for (auto &A : M->aliases()) {
      if (auto *fa = dyn_cast<llvm::Function>(A.getAliaseeObject())) out->fnByName[A.getName().str()] = out->fnByName[fa->getName().str()];
    }
    size_t gi = 0;
    for (auto &G : M->globals()) {
      auto &g = out->globals[gi++];
      if (!g.external && !G.getName().starts_with("llvm.")) {
        g.init.assign(g.size, 0);
        initBytes(G.getInitializer(), g.init.data(), g.size);
      }
      if (G.getName().starts_with("_ZTI") && G.hasInitializer()) {
        auto &v = out->tiBases[g.name];
        std::function<void(const llvm::Constant *)> walk = [&](const llvm::Constant *C) {
          if (auto *GV = dyn_cast<llvm::GlobalVariable>(C)) {
            if (GV != &G && GV->getName().starts_with("_ZTI")) v.push_back(GV->getName().str());
            return;
          }
          for (auto &u : C->operands()) if (auto *K = dyn_cast<llvm::Constant>(u)) walk(K);
        };
        for (auto &u : G.getInitializer()->operands()) if (auto *K = dyn_cast<llvm::Constant>(u)) walk(K);
      }
      if (G.getName() == "llvm.global_ctors" && G.hasInitializer()) {
        std::vector<std::pair<uint64_t, uint32_t>> c;
        for (auto &u : G.getInitializer()->operands()) {
          auto *S = dyn_cast<llvm::ConstantStruct>(u);
          if (!S) continue;
          auto *LF = dyn_cast<llvm::Function>(S->getOperand(1)->stripPointerCasts());
          if (LF) c.push_back({cast<llvm::ConstantInt>(S->getOperand(0))->getZExtValue(), out->fnByName[LF->getName().str()]});
        }
        std::stable_sort(c.begin(), c.end(), [](auto &x, auto &y) { return x.first < y.first; });
        for (auto &p : c) out->ctors.push_back(p.second);
      }
    }
    for (auto &LF : *M) {
      Func &fn = out->funcs[out->fnByName.at(LF.getName().str())];
      if (!LF.isDeclaration()) {
        // an executor builtin takes precedence over a body (e.g. allocators)
        fn.builtin = builtinIndex(fn.name);
        if (fn.builtin < 0) decodeFunction(LF, fn);
      } else {
        fn.builtin = builtinIndex(fn.name);
      }
    }
  }
};
} // namespace

Module *decodeModule(const std::vector<std::string> &files, uint32_t &nextObjId)
{
  auto *D = new Decoder(nextObjId);
  D->run(files);
  return D->out;
}
