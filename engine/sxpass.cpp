// sxpass: LLVM 18 pass plugin that makes a translation unit execute symbolically.
// Every SSA value gets a shadow expression pointer (null = concrete); every operation,
// memory access, call and branch is mirrored by a call into the runtime (rt.cpp).
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Scalar/Scalarizer.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "ops.h"
#include <map>
#include <set>
#include <vector>
using namespace llvm;

namespace {
struct Inst {
    Module& M; LLVMContext& C; const DataLayout& DL;
    Type *I1, *I32, *I64, *PT, *DT, *VT;
    Constant* Null;
    GlobalVariable *GArgs, *GRet, *GCallee;
    std::map<Value*, Value*> sh;
    std::vector<std::pair<PHINode*, PHINode*>> phis; // scalar phi shadows
    static const int MAXSLOT = 512;

    Inst(Module& m) : M(m), C(m.getContext()), DL(m.getDataLayout()) {
        I1 = Type::getInt1Ty(C); I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C);
        PT = PointerType::getUnqual(C); DT = Type::getDoubleTy(C); VT = Type::getVoidTy(C);
        Null = ConstantPointerNull::get(cast<PointerType>(PT));
        auto* AT = ArrayType::get(PT, MAXSLOT);
        auto gv = [&](const char* n, Type* t) {
            auto* g = cast<GlobalVariable>(M.getOrInsertGlobal(n, t)); return g; };
        GArgs = gv("__sx_args", AT); GRet = gv("__sx_ret", AT); GCallee = gv("__sx_callee", PT);
    }
    template <class... A> FunctionCallee rf(const char* n, Type* r, A... a) {
        return M.getOrInsertFunction(n, FunctionType::get(r, {a...}, false)); }
    ConstantInt* c32(int v) { return ConstantInt::get(Type::getInt32Ty(C), v); }

    // ---------- shadow types
    Type* shTy(Type* t) {
        if (auto* s = dyn_cast<StructType>(t)) { std::vector<Type*> v; for (auto* e : s->elements()) v.push_back(shTy(e)); return StructType::get(C, v); }
        if (auto* a = dyn_cast<ArrayType>(t)) return ArrayType::get(shTy(a->getElementType()), a->getNumElements());
        if (auto* v = dyn_cast<FixedVectorType>(t)) return ArrayType::get(PT, v->getNumElements());
        return PT;
    }
    bool isScalar(Type* t) { return !t->isStructTy() && !t->isArrayTy() && !t->isVectorTy(); }
    Value* nullSh(Type* t) { return Constant::getNullValue(shTy(t)); }
    Value* S(Value* v) {
        auto it = sh.find(v); if (it != sh.end()) return it->second;
        return nullSh(v->getType()); }
    static bool isNull(Value* v) { return isa<Constant>(v) && cast<Constant>(v)->isNullValue(); }
    // number of slots used for a value of type t
    int slots(Type* t) {
        if (auto* s = dyn_cast<StructType>(t)) { int n = 0; for (auto* e : s->elements()) n += slots(e); return n; }
        if (auto* a = dyn_cast<ArrayType>(t)) return slots(a->getElementType()) * a->getNumElements();
        if (auto* v = dyn_cast<FixedVectorType>(t)) return v->getNumElements();
        return 1; }
    // flatten shadow aggregate into scalars
    void flatten(IRBuilder<>& B, Type* t, Value* s, std::vector<Value*>& out) {
        if (isScalar(t)) { out.push_back(s); return; }
        unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < n; i++) {
            Value* e = isNull(s) ? (Value*)Constant::getNullValue(ExtractValueInst::getIndexedType(s->getType(), {i})) : B.CreateExtractValue(s, {i});
            if (t->isVectorTy()) { out.push_back(e); continue; }
            flatten(B, t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType(), e, out);
        } }
    Value* unflatten(IRBuilder<>& B, Type* t, std::vector<Value*>& in, size_t& pos) {
        if (isScalar(t)) return in[pos++];
        Value* r = nullSh(t);
        unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < n; i++) {
            Value* e = t->isVectorTy() ? in[pos++] : unflatten(B, t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType(), in, pos);
            r = B.CreateInsertValue(r, e, {i});
        }
        return r; }

    // kind: 0 int/ptr, 1 float, 2 double, 3 other(unsupported)
    int kind(Type* t) { if (t->isIntegerTy() || t->isPointerTy()) return 0; if (t->isFloatTy()) return 1; if (t->isDoubleTy()) return 2; return 3; }
    int width(Type* t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; return 0; }
    Value* toI64(IRBuilder<>& B, Value* v) {
        Type* t = v->getType();
        if (t->isPointerTy()) return B.CreatePtrToInt(v, I64);
        if (t->isFloatTy()) return B.CreateZExt(B.CreateBitCast(v, I32), I64);
        if (t->isDoubleTy()) return B.CreateBitCast(v, I64);
        if (t->isIntegerTy()) return width(t) <= 64 ? B.CreateZExt(v, I64) : B.CreateTrunc(v, I64);
        return ConstantInt::get(I64, 0); }
    Value* hi64(IRBuilder<>& B, Value* v) { return B.CreateTrunc(B.CreateLShr(v, 64), I64); }
    Value* toD(IRBuilder<>& B, Value* v) { return v->getType()->isFloatTy() ? B.CreateFPExt(v, DT) : v; }
    Value* fromI64(IRBuilder<>& B, Value* v, Type* t) {
        if (t->isPointerTy()) return B.CreateIntToPtr(v, t);
        if (t->isIntegerTy()) return B.CreateZExtOrTrunc(v, t);
        if (t->isDoubleTy()) return B.CreateBitCast(v, t);
        if (t->isFloatTy()) return B.CreateBitCast(B.CreateTrunc(v, I32), t);
        return UndefValue::get(t); }

    Value* bin(IRBuilder<>& B, int op, int w, Value* a, Value* sa, Value* b, Value* sb) {
        if (isNull(sa) && isNull(sb)) return Null;
        if (w <= 64) return B.CreateCall(rf("__sx_bin", PT, I32, I32, I64, PT, I64, PT), {c32(op), c32(w), toI64(B, a), sa, toI64(B, b), sb});
        return B.CreateCall(rf("__sx_bin128", PT, I32, I32, I64, I64, PT, I64, I64, PT), {c32(op), c32(w), toI64(B, a), hi64(B, a), sa, toI64(B, b), hi64(B, b), sb}); }
    Value* icmp(IRBuilder<>& B, int pred, int w, Value* a, Value* sa, Value* b, Value* sb) {
        if (isNull(sa) && isNull(sb)) return Null;
        if (w <= 64) return B.CreateCall(rf("__sx_icmp", PT, I32, I32, I64, PT, I64, PT), {c32(pred), c32(w), toI64(B, a), sa, toI64(B, b), sb});
        return B.CreateCall(rf("__sx_icmp128", PT, I32, I32, I64, I64, PT, I64, I64, PT), {c32(pred), c32(w), toI64(B, a), hi64(B, a), sa, toI64(B, b), hi64(B, b), sb}); }
    Value* fbin(IRBuilder<>& B, int op, Value* a, Value* sa, Value* b, Value* sb) {
        if (isNull(sa) && isNull(sb)) return Null;
        return B.CreateCall(rf("__sx_fbin", PT, I32, I32, DT, PT, DT, PT), {c32(op), c32(width(a->getType())), toD(B, a), sa, toD(B, b), sb}); }
    Value* funop(IRBuilder<>& B, int op, Value* a, Value* sa) {
        if (isNull(sa)) return Null;
        return B.CreateCall(rf("__sx_funop", PT, I32, I32, PT), {c32(op), c32(width(a->getType())), sa}); }
    Value* castE(IRBuilder<>& B, int op, int sw, int dw, Value* s) {
        if (isNull(s)) return Null;
        return B.CreateCall(rf("__sx_cast", PT, I32, I32, I32, PT), {c32(op), c32(sw), c32(dw), s}); }
    void unsupported(IRBuilder<>& B, Instruction* I, std::vector<Value*> ss) {
        std::string n; raw_string_ostream os(n); I->print(os);
        Value* str = nullptr;
        for (auto* s : ss) if (!isNull(s)) {
            if (!str) str = B.CreateGlobalStringPtr(os.str().substr(0, 120));
            B.CreateCall(rf("__sx_unsupported", VT, PT, PT), {s, str}); } }
    Value* conc(IRBuilder<>& B, Value* v, Value* s) {
        if (isNull(s)) return v;
        Type* t = v->getType(); if (kind(t) == 3 || width(t) > 64) return v;
        Value* r = B.CreateCall(rf("__sx_conc", I64, I64, PT, I32), {toI64(B, v), s, c32(kind(t))});
        return fromI64(B, r, t); }

    // ---------- memory
    void storeSh(IRBuilder<>& B, Type* t, Value* p, Value* s, uint64_t off = 0) {
        if (isScalar(t)) {
            Value* q = off ? B.CreateConstGEP1_64(B.getInt8Ty(), p, off) : p;
            B.CreateCall(rf("__sx_store", VT, PT, I32, PT), {q, c32(DL.getTypeStoreSize(t)), kind(t) == 3 ? Null : s}); return; }
        if (isNull(s)) { Value* q = off ? B.CreateConstGEP1_64(B.getInt8Ty(), p, off) : p;
            B.CreateCall(rf("__sx_clear", VT, PT, I64), {q, ConstantInt::get(I64, DL.getTypeStoreSize(t))}); return; }
        if (auto* st = dyn_cast<StructType>(t)) { auto* L = DL.getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); i++) storeSh(B, st->getElementType(i), p, B.CreateExtractValue(s, {i}), off + L->getElementOffset(i)); return; }
        Type* et = t->isArrayTy() ? t->getArrayElementType() : cast_vec(t)->getElementType();
        unsigned n = t->isArrayTy() ? t->getArrayNumElements() : cast_vec(t)->getNumElements();
        uint64_t es = t->isArrayTy() ? DL.getTypeAllocSize(et) : DL.getTypeStoreSize(et);
        for (unsigned i = 0; i < n; i++) storeSh(B, et, p, B.CreateExtractValue(s, {i}), off + i * es); }
    FixedVectorType* cast_vec(Type* t) { return llvm::cast<FixedVectorType>(t); }
    Value* loadSh(IRBuilder<>& B, Type* t, Value* p, Value* sp, uint64_t off = 0) {
        if (isScalar(t)) {
            if (kind(t) == 3) return Null;
            Value* q = off ? B.CreateConstGEP1_64(B.getInt8Ty(), p, off) : p;
            return B.CreateCall(rf("__sx_load", PT, PT, PT, I32, I32, I32), {q, off ? Null : sp, c32(DL.getTypeStoreSize(t)), c32(kind(t)), c32(width(t))}); }
        Value* r = nullSh(t);
        if (auto* st = dyn_cast<StructType>(t)) { auto* L = DL.getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); i++) r = B.CreateInsertValue(r, loadSh(B, st->getElementType(i), p, Null, off + L->getElementOffset(i)), {i});
            return r; }
        Type* et = t->isArrayTy() ? t->getArrayElementType() : cast_vec(t)->getElementType();
        unsigned n = t->isArrayTy() ? t->getArrayNumElements() : cast_vec(t)->getNumElements();
        uint64_t es = t->isArrayTy() ? DL.getTypeAllocSize(et) : DL.getTypeStoreSize(et);
        for (unsigned i = 0; i < n; i++) r = B.CreateInsertValue(r, loadSh(B, et, p, Null, off + i * es), {i});
        return r; }

    // ---------- calls
    void emitArgs(IRBuilder<>& B, CallBase* CB) {
        int slot = 0;
        for (unsigned i = 0; i < CB->arg_size(); i++) {
            Value* a = CB->getArgOperand(i);
            if (CB->isByValArgument(i)) { put(B, GArgs, slot++, a); continue; }
            std::vector<Value*> f; flatten(B, a->getType(), S(a), f);
            for (auto* v : f) { if (slot < MAXSLOT) put(B, GArgs, slot, v); slot++; }
        }
        Value* callee = CB->getCalledOperand();
        B.CreateStore(callee, GCallee);
        int rs = CB->getType()->isVoidTy() ? 0 : slots(CB->getType());
        for (int i = 0; i < rs; i++) put(B, GRet, i, Null); }
    void put(IRBuilder<>& B, GlobalVariable* G, int i, Value* v) {
        B.CreateStore(v, B.CreateConstInBoundsGEP2_64(G->getValueType(), G, 0, i)); }
    Value* get(IRBuilder<>& B, GlobalVariable* G, int i) {
        return B.CreateLoad(PT, B.CreateConstInBoundsGEP2_64(G->getValueType(), G, 0, i)); }
    Value* fetchRet(IRBuilder<>& B, Type* t) {
        std::vector<Value*> f; int n = slots(t); for (int i = 0; i < n; i++) f.push_back(get(B, GRet, i));
        size_t p = 0; return unflatten(B, t, f, p); }

    // math library functions that have a model: name -> unary op
    static int unaryMath(StringRef n, bool& f32) {
        f32 = n.ends_with("f") && n != "erf";
        static const std::map<std::string, int> m = {{"sin", F_SIN}, {"cos", F_COS}, {"tan", F_TAN}, {"asin", F_ASIN}, {"acos", F_ACOS}, {"atan", F_ATAN}, {"exp", F_EXP}, {"log", F_LOG}, {"log2", F_LOG2}, {"log10", F_LOG10}, {"cbrt", F_CBRT}, {"sqrt", F_SQRT}, {"fabs", F_ABS}, {"floor", F_FLOOR}, {"ceil", F_CEIL}, {"trunc", F_TRUNC}, {"round", F_ROUND}, {"rint", F_RINT}, {"nearbyint", F_RINT}};
        std::string s = n.str(); auto it = m.find(s); if (it != m.end()) { f32 = false; return it->second; }
        if (s.size() > 1 && s.back() == 'f') { s.pop_back(); it = m.find(s); if (it != m.end()) { f32 = true; return it->second; } }
        return -1; }
    static int binMath(StringRef n) {
        static const std::map<std::string, int> m = {{"atan2", F_ATAN2}, {"pow", F_POW}, {"fmod", F_REM}, {"hypot", F_HYPOT}, {"fmax", F_MAX}, {"fmin", F_MIN}, {"copysign", F_COPYSIGN}};
        std::string s = n.str(); auto it = m.find(s); if (it != m.end()) return it->second;
        if (s.size() > 1 && s.back() == 'f') { s.pop_back(); it = m.find(s); if (it != m.end()) return it->second; }
        return -1; }

    void visitCall(CallBase* CB) {
        IRBuilder<> B(CB);
        if (auto* II = dyn_cast<IntrinsicInst>(CB)) { visitIntrinsic(II); return; }
        if (CB->isInlineAsm()) return;
        Function* F = CB->getCalledFunction();
        StringRef name = F ? F->getName() : "";
        if (F && !CB->getFunction()->getName().starts_with("__sxm_")) {
            // number formatting: modelled so that symbolic numbers survive a trip through text (engine/models.cpp)
            static const char* const FMT[] = {"_ZNSolsEi", "_ZNSolsEj", "_ZNSolsEl", "_ZNSolsEm", "_ZNSolsEx", "_ZNSolsEy", "_ZNSolsEs", "_ZNSolsEt", "_ZNSolsEd", "_ZNSolsEf", "_ZNSo9_M_insertIdEERSoT_", "_ZNSo9_M_insertIlEERSoT_", "_ZNSo9_M_insertImEERSoT_", "_ZNSo9_M_insertIxEERSoT_", "_ZNSo9_M_insertIyEERSoT_"};
            for (auto* f : FMT) if (name == f) { CB->setCalledFunction(M.getOrInsertFunction(("__sxm_" + name).str(), CB->getFunctionType())); F = CB->getCalledFunction(); name = F->getName(); break; }
            if (name == "snprintf") { CB->setCalledFunction(M.getOrInsertFunction("sx_r_snprintf", CB->getFunctionType())); F = CB->getCalledFunction(); name = F->getName(); }
        }
        if (F && F->isDeclaration()) {
            bool f32; int u = unaryMath(name, f32);
            if (u >= 0 && CB->arg_size() == 1 && kind(CB->getType()) == kind(CB->getArgOperand(0)->getType()) && kind(CB->getType()) != 3) {
                sh[CB] = funop(B, u, CB->getArgOperand(0), S(CB->getArgOperand(0))); return; }
            u = binMath(name);
            if (u >= 0 && CB->arg_size() == 2 && kind(CB->getType()) != 3) {
                sh[CB] = fbin(B, u, CB->getArgOperand(0), S(CB->getArgOperand(0)), CB->getArgOperand(1), S(CB->getArgOperand(1))); return; }
            int f2i = (name == "lround" || name == "llround" || name == "lroundf" || name == "llroundf") ? CI_LROUND : (name == "lrint" || name == "llrint" || name == "lrintf" || name == "llrintf") ? CI_LRINT : -1;
            if (f2i >= 0) { Value* s = S(CB->getArgOperand(0)); sh[CB] = castE(B, f2i, width(CB->getArgOperand(0)->getType()), 64, s); return; }
            if (name == "memcmp" || name == "bcmp" || name == "strlen" || name == "memchr" || name == "strchr" || name == "strcmp" || name == "strncmp" || name == "atof" || name == "strtod" || name == "atoi" || name == "strtol" || name == "strtoll" || name == "_ZSt11_Hash_bytesPKvmm" || name.starts_with("__isoc23_strto") || name == "strtoimax" || name == "strtoumax" || name == "strtoul" || name == "strtoull" || name == "memcpy" || name == "memmove" || name == "memset") {
                // redirected to a runtime model of the same signature
                for (unsigned i = 0; i < CB->arg_size(); i++) CB->setArgOperand(i, conc(B, CB->getArgOperand(i), S(CB->getArgOperand(i))));
                std::string nn = ("__sx_x_" + name).str();
                FunctionCallee fc = M.getOrInsertFunction(nn, CB->getFunctionType());
                CB->setCalledFunction(fc);
                put(B, GRet, 0, Null);
                auto* IVc = dyn_cast<InvokeInst>(CB);
                IRBuilder<> A(IVc ? &*IVc->getNormalDest()->getFirstInsertionPt() : CB->getNextNode());
                sh[CB] = fetchRet(A, CB->getType()); return; }
        }
        bool isApi = F && (name.starts_with("sx_") || name.starts_with("__sx"));
        bool isNew = F && (name.starts_with("_Znw") || name.starts_with("_Zna") || name.starts_with("_Zdl") || name.starts_with("_Zda") || name == "malloc" || name == "calloc" || name == "free" || name == "realloc");
        if (!F) { // indirect
            Value* callee = CB->getCalledOperand(); Value* sc = S(callee);
            if (!isNull(sc)) CB->setCalledOperand(conc(B, callee, sc)); }
        if (isNew) {
            for (unsigned i = 0; i < CB->arg_size(); i++) CB->setArgOperand(i, conc(B, CB->getArgOperand(i), S(CB->getArgOperand(i))));
            return; }
        if (!isApi && (!F || F->isDeclaration()) ) {
            Value* ext = nullptr;
            if (!CB->isMustTailCall() || true) {
                ext = B.CreateCall(rf("__sx_callcheck", I32, PT), {CB->getCalledOperand()});
                for (unsigned i = 0; i < CB->arg_size(); i++) {
                    Value* a = CB->getArgOperand(i); Value* s = S(a);
                    if (CB->isByValArgument(i)) continue;
                    if (!isScalar(a->getType()) || isNull(s) || kind(a->getType()) == 3 || width(a->getType()) > 64) continue;
                    Value* r = B.CreateCall(rf("__sx_arg", I64, I64, PT, I32, I32), {toI64(B, a), s, c32(kind(a->getType())), ext});
                    CB->setArgOperand(i, fromI64(B, r, a->getType())); sh[CB->getArgOperand(i)] = s;
                } } }
        emitArgs(B, CB);
        if (CB->isMustTailCall() || CB->getType()->isVoidTy()) return;
        Instruction* after;
        if (auto* IV = dyn_cast<InvokeInst>(CB)) after = &*IV->getNormalDest()->getFirstInsertionPt();
        else after = CB->getNextNode();
        IRBuilder<> A(after);
        sh[CB] = fetchRet(A, CB->getType()); }

    Value* boolNot(IRBuilder<>& B, Value* s) { return bin(B, O_XOR, 1, ConstantInt::getFalse(C), s, ConstantInt::getTrue(C), Null); }

    void visitIntrinsic(IntrinsicInst* II) {
        IRBuilder<> B(II);
        auto A = [&](int i) { return II->getArgOperand(i); };
        auto id = II->getIntrinsicID();
        switch (id) {
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
            for (int i = 0; i < 3; i++) if (!isNull(S(A(i)))) II->setArgOperand(i, conc(B, A(i), S(A(i))));
            B.CreateCall(rf("__sx_memcpy", VT, PT, PT, I64), {A(0), A(1), B.CreateZExtOrTrunc(A(2), I64)}); return; }
        case Intrinsic::memset: case Intrinsic::memset_inline: {
            if (!isNull(S(A(0)))) II->setArgOperand(0, conc(B, A(0), S(A(0))));
            if (!isNull(S(A(2)))) II->setArgOperand(2, conc(B, A(2), S(A(2))));
            B.CreateCall(rf("__sx_memset", VT, PT, PT, I64), {A(0), S(A(1)), B.CreateZExtOrTrunc(A(2), I64)}); return; }
        case Intrinsic::lifetime_start: {
            auto* ci = dyn_cast<ConstantInt>(A(0)); if (ci && ci->getSExtValue() > 0) {
                IRBuilder<> B2(II->getNextNode()); B2.CreateCall(rf("__sx_clear", VT, PT, I64), {A(1), A(0)}); } return; }
        case Intrinsic::abs: { int w = width(II->getType()); if (!isScalar(II->getType())) break;
            Value* s = S(A(0)); if (isNull(s)) return;
            Value* z = ConstantInt::get(II->getType(), 0);
            Value* neg = bin(B, O_SUB, w, z, Null, A(0), s);
            Value* c = icmp(B, CmpInst::ICMP_SLT, w, A(0), s, z, Null);
            sh[II] = sel(B, ConstantInt::getFalse(C), c, II->getType(), z, neg, A(0), s); return; }
        case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: {
            if (!isScalar(II->getType())) break;
            int w = width(II->getType()); Value *sa = S(A(0)), *sb = S(A(1)); if (isNull(sa) && isNull(sb)) return;
            int p = id == Intrinsic::smax ? CmpInst::ICMP_SGT : id == Intrinsic::smin ? CmpInst::ICMP_SLT : id == Intrinsic::umax ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT;
            Value* c = icmp(B, p, w, A(0), sa, A(1), sb);
            Value* nat = B.CreateICmp((CmpInst::Predicate)p, A(0), A(1));
            sh[II] = sel(B, nat, c, II->getType(), A(0), sa, A(1), sb); return; }
        case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
        case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: {
            Value *sa = S(A(0)), *sb = S(A(1)); if (isNull(sa) && isNull(sb)) return;
            int w = width(A(0)->getType()); if (w > 64) break;
            int op = (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) ? O_ADD : (id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) ? O_SUB : O_MUL;
            bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
            Value* r = bin(B, op, w, A(0), sa, A(1), sb);
            Value* o = B.CreateCall(rf("__sx_ovf", PT, I32, I32, I32, I64, PT, I64, PT), {c32(op), c32(sg), c32(w), toI64(B, A(0)), sa, toI64(B, A(1)), sb});
            Value* t = nullSh(II->getType()); t = B.CreateInsertValue(t, r, {0}); t = B.CreateInsertValue(t, o, {1}); sh[II] = t; return; }
        case Intrinsic::usub_sat: case Intrinsic::uadd_sat: case Intrinsic::ssub_sat: case Intrinsic::sadd_sat: {
            if (!isScalar(II->getType())) break;
            Value *sa = S(A(0)), *sb = S(A(1)); if (isNull(sa) && isNull(sb)) return;
            if (id == Intrinsic::usub_sat) { int w = width(II->getType());
                Value* c = icmp(B, CmpInst::ICMP_ULT, w, A(0), sa, A(1), sb); Value* r = bin(B, O_SUB, w, A(0), sa, A(1), sb);
                Value* z = ConstantInt::get(II->getType(), 0);
                sh[II] = sel(B, B.CreateICmpULT(A(0), A(1)), c, II->getType(), z, Null, B.CreateSub(A(0), A(1)), r); return; }
            break; }
        case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bswap: case Intrinsic::bitreverse: {
            if (!isScalar(II->getType())) break;
            Value* s = S(A(0)); if (isNull(s)) return;
            int op = id == Intrinsic::ctpop ? CI_POP : id == Intrinsic::ctlz ? CI_CLZ : id == Intrinsic::cttz ? CI_CTZ : id == Intrinsic::bswap ? CI_BSWAP : -1; if (op < 0) break;
            sh[II] = castE(B, op, width(II->getType()), width(II->getType()), s); return; }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            if (!isScalar(II->getType())) break; int w = width(II->getType()); if (w > 64) break;
            Value *s0 = S(A(0)), *s1 = S(A(1)); if (isNull(s0) && isNull(s1) && isNull(S(A(2)))) return;
            Value* amt = conc(B, A(2), S(A(2)));
            sh[II] = B.CreateCall(rf("__sx_fsh", PT, I32, I32, I64, PT, I64, PT, I64), {c32(id == Intrinsic::fshl), c32(w), toI64(B, A(0)), s0, toI64(B, A(1)), s1, toI64(B, amt)}); return; }
        case Intrinsic::fabs: u1(II, B, F_ABS); return;
        case Intrinsic::sqrt: u1(II, B, F_SQRT); return;
        case Intrinsic::floor: u1(II, B, F_FLOOR); return;
        case Intrinsic::ceil: u1(II, B, F_CEIL); return;
        case Intrinsic::trunc: u1(II, B, F_TRUNC); return;
        case Intrinsic::round: u1(II, B, F_ROUND); return;
        case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: u1(II, B, F_RINT); return;
        case Intrinsic::sin: u1(II, B, F_SIN); return;
        case Intrinsic::cos: u1(II, B, F_COS); return;
        case Intrinsic::exp: u1(II, B, F_EXP); return;
        case Intrinsic::log: u1(II, B, F_LOG); return;
        case Intrinsic::log2: u1(II, B, F_LOG2); return;
        case Intrinsic::log10: u1(II, B, F_LOG10); return;
        case Intrinsic::pow: b1(II, B, F_POW); return;
        case Intrinsic::minnum: b1(II, B, F_MIN); return;
        case Intrinsic::maxnum: b1(II, B, F_MAX); return;
        case Intrinsic::copysign: b1(II, B, F_COPYSIGN); return;
        case Intrinsic::fma: case Intrinsic::fmuladd: break;
        case Intrinsic::powi: {
            Value* s = S(A(0)); if (isNull(s) && isNull(S(A(1)))) return;
            Value* n = conc(B, A(1), S(A(1))); II->setArgOperand(1, n);
            Value* nd = B.CreateSIToFP(n, A(0)->getType());
            sh[II] = fbin(B, F_POW, A(0), s, nd, Null); return; }
        case Intrinsic::lrint: case Intrinsic::llrint: sh[II] = castE(B, CI_LRINT, width(A(0)->getType()), width(II->getType()), S(A(0))); return;
        case Intrinsic::lround: case Intrinsic::llround: sh[II] = castE(B, CI_LROUND, width(A(0)->getType()), width(II->getType()), S(A(0))); return;
        case Intrinsic::is_fpclass: { Value* s = S(A(0)); if (isNull(s)) return;
            sh[II] = B.CreateCall(rf("__sx_fpclass", PT, PT, I32), {s, A(1)}); return; }
        case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: sh[II] = S(A(0)); return;
        case Intrinsic::assume: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::dbg_label: case Intrinsic::lifetime_end: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::trap: case Intrinsic::eh_typeid_for: case Intrinsic::prefetch: case Intrinsic::sideeffect: case Intrinsic::donothing: case Intrinsic::is_constant: case Intrinsic::objectsize: case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy: case Intrinsic::ubsantrap: case Intrinsic::pseudoprobe: case Intrinsic::frameaddress: case Intrinsic::returnaddress: return;
        default: break;
        }
        std::vector<Value*> ss; for (unsigned i = 0; i < II->arg_size(); i++) if (!A(i)->getType()->isMetadataTy()) flatten(B, A(i)->getType(), S(A(i)), ss);
        unsupported(B, II, ss); }
    void u1(IntrinsicInst* II, IRBuilder<>& B, int op) {
        if (kind(II->getType()) != 1 && kind(II->getType()) != 2) { std::vector<Value*> ss; flatten(B, II->getType(), S(II->getArgOperand(0)), ss); unsupported(B, II, ss); return; }
        sh[II] = funop(B, op, II->getArgOperand(0), S(II->getArgOperand(0))); }
    void b1(IntrinsicInst* II, IRBuilder<>& B, int op) {
        if (kind(II->getType()) != 1 && kind(II->getType()) != 2) { std::vector<Value*> ss; flatten(B, II->getType(), S(II->getArgOperand(0)), ss); unsupported(B, II, ss); return; }
        sh[II] = fbin(B, op, II->getArgOperand(0), S(II->getArgOperand(0)), II->getArgOperand(1), S(II->getArgOperand(1))); }

    Value* sel(IRBuilder<>& B, Value* c, Value* sc, Type* t, Value* a, Value* sa, Value* b, Value* sb) {
        return B.CreateCall(rf("__sx_select", PT, I32, PT, I32, I32, I64, PT, I64, PT), {B.CreateZExt(c, I32), sc, c32(kind(t)), c32(width(t)), toI64(B, a), sa, toI64(B, b), sb}); }

    void visit(Instruction* I) {
        IRBuilder<> B(I);
        if (auto* PN = dyn_cast<PHINode>(I)) {
            Type* st = shTy(PN->getType());
            IRBuilder<> PB(PN);
            PHINode* s = PB.CreatePHI(st, PN->getNumIncomingValues());
            sh[PN] = s; phis.push_back({PN, s}); return; }
        if (auto* BO = dyn_cast<BinaryOperator>(I)) {
            Value *a = BO->getOperand(0), *b = BO->getOperand(1), *sa = S(a), *sb = S(b);
            Type* t = BO->getType();
            if (!isScalar(t) || kind(t) == 3 || (kind(t) == 0 && width(t) > 128)) {
                std::vector<Value*> ss; flatten(B, t, sa, ss); flatten(B, t, sb, ss); unsupported(B, I, ss); return; }
            if (t->isIntegerTy()) {
                int op; bool div = false;
                switch (BO->getOpcode()) { case Instruction::Add: op = O_ADD; break; case Instruction::Sub: op = O_SUB; break; case Instruction::Mul: op = O_MUL; break;
                case Instruction::SDiv: op = O_SDIV; div = true; break; case Instruction::UDiv: op = O_UDIV; div = true; break; case Instruction::SRem: op = O_SREM; div = true; break; case Instruction::URem: op = O_UREM; div = true; break;
                case Instruction::And: op = O_AND; break; case Instruction::Or: op = O_OR; break; case Instruction::Xor: op = O_XOR; break;
                case Instruction::Shl: op = O_SHL; break; case Instruction::LShr: op = O_LSHR; break; case Instruction::AShr: op = O_ASHR; break; default: llvm_unreachable("op"); }
                if (isNull(sa) && isNull(sb)) return;
                if (op == O_SHL || op == O_LSHR || op == O_ASHR) { if (!isNull(sb)) { b = conc(B, b, sb); BO->setOperand(1, b); sb = Null; } if (isNull(sa)) return; }
                if (div) {
                    if (!isa<ConstantInt>(b)) {
                        if (!isNull(sb)) { B.CreateCall(rf("__sx_divcheck", VT, PT), {sb}); }
                        // keep the native division from trapping on placeholder values
                        Value* isS = B.CreateICmpNE(sb, Null); Value* isA = B.CreateICmpNE(sa, Null);
                        Value* any = B.CreateOr(isS, isA);
                        Value* nb = B.CreateSelect(any, ConstantInt::get(t, 1), b);
                        Value* ov = b; sh[nb] = sb; (void)ov;
                        sh[I] = bin(B, op, width(t), a, sa, b, sb);
                        BO->setOperand(1, nb); return; } }
                sh[I] = bin(B, op, width(t), a, sa, b, sb); return; }
            int op;
            switch (BO->getOpcode()) { case Instruction::FAdd: op = F_ADD; break; case Instruction::FSub: op = F_SUB; break; case Instruction::FMul: op = F_MUL; break; case Instruction::FDiv: op = F_DIV; break; case Instruction::FRem: op = F_REM; break; default: llvm_unreachable("fop"); }
            sh[I] = fbin(B, op, a, sa, b, sb); return; }
        if (auto* UO = dyn_cast<UnaryOperator>(I)) {
            Type* t = UO->getType(); if (!isScalar(t) || kind(t) == 3) { std::vector<Value*> ss; flatten(B, t, S(UO->getOperand(0)), ss); unsupported(B, I, ss); return; }
            sh[I] = funop(B, F_NEG, UO->getOperand(0), S(UO->getOperand(0))); return; }
        if (auto* IC = dyn_cast<ICmpInst>(I)) {
            Type* t = IC->getOperand(0)->getType(); Value *sa = S(IC->getOperand(0)), *sb = S(IC->getOperand(1));
            if (!isScalar(t) || width(t) > 128) { std::vector<Value*> ss; flatten(B, t, sa, ss); flatten(B, t, sb, ss); unsupported(B, I, ss); return; }
            sh[I] = icmp(B, IC->getPredicate(), width(t), IC->getOperand(0), sa, IC->getOperand(1), sb); return; }
        if (auto* FC = dyn_cast<FCmpInst>(I)) {
            Type* t = FC->getOperand(0)->getType(); Value *sa = S(FC->getOperand(0)), *sb = S(FC->getOperand(1));
            if (!isScalar(t) || kind(t) == 3) { std::vector<Value*> ss; flatten(B, t, sa, ss); flatten(B, t, sb, ss); unsupported(B, I, ss); return; }
            if (isNull(sa) && isNull(sb)) return;
            sh[I] = B.CreateCall(rf("__sx_fcmp", PT, I32, I32, DT, PT, DT, PT), {c32(FC->getPredicate()), c32(width(t)), toD(B, FC->getOperand(0)), sa, toD(B, FC->getOperand(1)), sb}); return; }
        if (auto* CI = dyn_cast<CastInst>(I)) {
            Type *st = CI->getSrcTy(), *dt = CI->getDestTy(); Value* s = S(CI->getOperand(0));
            if (isNull(s)) return;
            if (!isScalar(st) || !isScalar(dt) || kind(st) == 3 || kind(dt) == 3 || (kind(st) == 0 && width(st) > 128) || (kind(dt) == 0 && width(dt) > 128)) {
                std::vector<Value*> ss; flatten(B, st, s, ss); unsupported(B, I, ss); return; }
            int op;
            switch (CI->getOpcode()) { case Instruction::Trunc: op = CI_TRUNC; break; case Instruction::ZExt: op = CI_ZEXT; break; case Instruction::SExt: op = CI_SEXT; break;
            case Instruction::FPToSI: op = CI_FPTOSI; break; case Instruction::FPToUI: op = CI_FPTOUI; break; case Instruction::SIToFP: op = CI_SITOFP; break; case Instruction::UIToFP: op = CI_UITOFP; break;
            case Instruction::FPExt: op = CI_FPEXT; break; case Instruction::FPTrunc: op = CI_FPTRUNC; break;
            case Instruction::PtrToInt: case Instruction::IntToPtr: op = width(dt) < width(st) ? CI_TRUNC : width(dt) > width(st) ? CI_ZEXT : CI_NOP; break;
            case Instruction::BitCast: op = kind(st) == kind(dt) ? CI_NOP : kind(st) == 0 ? CI_BITS2F : CI_F2BITS; break;
            default: op = CI_NOP; }
            sh[I] = op == CI_NOP ? s : castE(B, op, width(st), width(dt), s); return; }
        if (auto* SI = dyn_cast<SelectInst>(I)) {
            Value* c = SI->getCondition(); Type* t = SI->getType();
            Value *sa = S(SI->getTrueValue()), *sb = S(SI->getFalseValue());
            if (c->getType()->isVectorTy()) { std::vector<Value*> ss; flatten(B, c->getType(), S(c), ss); flatten(B, t, sa, ss); flatten(B, t, sb, ss); unsupported(B, I, ss); return; }
            Value* sc = S(c);
            if (isNull(sc)) { if (!(isNull(sa) && isNull(sb))) sh[I] = B.CreateSelect(c, sa, sb); return; }
            if (!isScalar(t) || kind(t) == 3 || width(t) > 64) {
                Value* nc = B.CreateTrunc(B.CreateCall(rf("__sx_branch", I32, I32, PT), {B.CreateZExt(c, I32), sc}), I1);
                SI->setCondition(nc); sh[I] = B.CreateSelect(nc, sa, sb); return; }
            sh[I] = sel(B, c, sc, t, SI->getTrueValue(), sa, SI->getFalseValue(), sb); return; }
        if (auto* BI = dyn_cast<BranchInst>(I)) {
            if (BI->isConditional()) { Value* c = BI->getCondition(); Value* sc = S(c); if (isNull(sc)) return;
                BI->setCondition(B.CreateTrunc(B.CreateCall(rf("__sx_branch", I32, I32, PT), {B.CreateZExt(c, I32), sc}), I1)); }
            return; }
        if (auto* SW = dyn_cast<SwitchInst>(I)) {
            Value* v = SW->getCondition(); Value* s = S(v); if (isNull(s) || width(v->getType()) > 64) return;
            std::vector<Constant*> cs; for (auto& c : SW->cases()) cs.push_back(ConstantInt::get(I64, c.getCaseValue()->getValue().sextOrTrunc(64).getSExtValue()));
            auto* AT = ArrayType::get(I64, cs.size());
            auto* G = new GlobalVariable(M, AT, true, GlobalValue::PrivateLinkage, ConstantArray::get(AT, cs));
            Value* r = B.CreateCall(rf("__sx_switch", I64, I64, PT, I32, PT, I32), {toI64(B, v), s, c32(width(v->getType())), G, c32(cs.size())});
            SW->setCondition(B.CreateTrunc(r, v->getType())); return; }
        if (auto* AI = dyn_cast<AllocaInst>(I)) {
            if (!isNull(S(AI->getArraySize()))) AI->setOperand(0, conc(B, AI->getArraySize(), S(AI->getArraySize())));
            IRBuilder<> A(AI->getNextNode());
            Value* n = A.CreateMul(A.CreateZExtOrTrunc(AI->getArraySize(), I64), ConstantInt::get(I64, DL.getTypeAllocSize(AI->getAllocatedType())));
            A.CreateCall(rf("__sx_clear", VT, PT, I64), {AI, n}); return; }
        if (auto* LI = dyn_cast<LoadInst>(I)) {
            Value* p = LI->getPointerOperand(); Value* sp = S(p);
            if (!isNull(sp)) {
                bool simple = isScalar(LI->getType()) && kind(LI->getType()) != 3 && width(LI->getType()) <= 64;
                Value* np = B.CreateCall(rf(simple ? "__sx_addr_load" : "__sx_addr", PT, PT, PT), {p, sp});
                LI->setOperand(LI->getPointerOperandIndex(), np); p = np; if (!simple) sp = Null; }
            IRBuilder<> A(I->getNextNode());
            sh[I] = loadSh(A, LI->getType(), p, sp); return; }
        if (auto* ST = dyn_cast<StoreInst>(I)) {
            Value* p = ST->getPointerOperand(); Value* sp = S(p);
            if (!isNull(sp)) { p = B.CreateCall(rf("__sx_addr", PT, PT, PT), {p, sp}); ST->setOperand(ST->getPointerOperandIndex(), p); }
            storeSh(B, ST->getValueOperand()->getType(), p, S(ST->getValueOperand())); return; }
        if (auto* GI = dyn_cast<GetElementPtrInst>(I)) {
            if (GI->getType()->isVectorTy()) return;
            bool any = !isNull(S(GI->getPointerOperand())); for (auto& ix : GI->indices()) any |= !isNull(S(ix));
            if (!any) return;
            Value* av = B.CreatePtrToInt(GI->getPointerOperand(), I64); Value* as = S(GI->getPointerOperand());
            for (auto gti = gep_type_begin(GI), e = gep_type_end(GI); gti != e; ++gti) {
                Value* ix = gti.getOperand();
                if (StructType* STy = gti.getStructTypeOrNull()) {
                    uint64_t off = DL.getStructLayout(STy)->getElementOffset(llvm::cast<ConstantInt>(ix)->getZExtValue());
                    if (!off) continue; Value* k = ConstantInt::get(I64, off);
                    as = bin(B, O_ADD, 64, av, as, k, Null); av = B.CreateAdd(av, k); continue; }
                uint64_t sz = DL.getTypeAllocSize(gti.getIndexedType());
                Value* ks = ConstantInt::get(I64, sz); Value* six = S(ix); Value* ex = ix;
                if (width(ix->getType()) < 64) { if (!isNull(six)) six = castE(B, CI_SEXT, width(ix->getType()), 64, six); ex = B.CreateSExt(ix, I64); }
                Value* ms = bin(B, O_MUL, 64, ex, six, ks, Null); Value* mv = B.CreateMul(ex, ks);
                as = bin(B, O_ADD, 64, av, as, mv, ms); av = B.CreateAdd(av, mv); }
            sh[I] = as; return; }
        if (auto* EV = dyn_cast<ExtractValueInst>(I)) { Value* s = S(EV->getAggregateOperand()); if (!isNull(s)) sh[I] = B.CreateExtractValue(s, EV->getIndices()); return; }
        if (auto* IV = dyn_cast<InsertValueInst>(I)) {
            Value *s = S(IV->getAggregateOperand()), *e = S(IV->getInsertedValueOperand());
            if (isNull(s) && isNull(e)) return; sh[I] = B.CreateInsertValue(s, e, IV->getIndices()); return; }
        if (auto* EE = dyn_cast<ExtractElementInst>(I)) { Value* s = S(EE->getVectorOperand()); if (isNull(s)) return;
            if (auto* c = dyn_cast<ConstantInt>(EE->getIndexOperand())) { sh[I] = B.CreateExtractValue(s, {(unsigned)c->getZExtValue()}); return; }
            std::vector<Value*> ss; flatten(B, EE->getVectorOperandType(), s, ss); unsupported(B, I, ss); return; }
        if (auto* IE = dyn_cast<InsertElementInst>(I)) { Value *s = S(IE->getOperand(0)), *e = S(IE->getOperand(1)); if (isNull(s) && isNull(e)) return;
            if (auto* c = dyn_cast<ConstantInt>(IE->getOperand(2))) { sh[I] = B.CreateInsertValue(s, e, {(unsigned)c->getZExtValue()}); return; }
            std::vector<Value*> ss; flatten(B, IE->getType(), s, ss); ss.push_back(e); unsupported(B, I, ss); return; }
        if (auto* SV = dyn_cast<ShuffleVectorInst>(I)) { Value *a = S(SV->getOperand(0)), *b = S(SV->getOperand(1)); if (isNull(a) && isNull(b)) return;
            int n = cast_vec(SV->getOperand(0)->getType())->getNumElements(); Value* r = nullSh(SV->getType()); auto m = SV->getShuffleMask();
            for (unsigned i = 0; i < m.size(); i++) if (m[i] >= 0) { Value* src = m[i] < n ? a : b; if (!isNull(src)) r = B.CreateInsertValue(r, B.CreateExtractValue(src, {(unsigned)(m[i] < n ? m[i] : m[i] - n)}), {i}); }
            sh[I] = r; return; }
        if (isa<FreezeInst>(I)) { sh[I] = S(I->getOperand(0)); return; }
        if (auto* RM = dyn_cast<AtomicRMWInst>(I)) {
            if (!isNull(S(RM->getPointerOperand()))) RM->setOperand(0, conc(B, RM->getPointerOperand(), S(RM->getPointerOperand())));
            if (!isNull(S(RM->getValOperand()))) RM->setOperand(1, conc(B, RM->getValOperand(), S(RM->getValOperand())));
            B.CreateCall(rf("__sx_atomic", VT, PT, I32), {RM->getPointerOperand(), c32(DL.getTypeStoreSize(RM->getType()))}); return; }
        if (auto* CX = dyn_cast<AtomicCmpXchgInst>(I)) {
            B.CreateCall(rf("__sx_atomic", VT, PT, I32), {CX->getPointerOperand(), c32(DL.getTypeStoreSize(CX->getCompareOperand()->getType()))}); return; }
        if (auto* CB = dyn_cast<CallBase>(I)) { visitCall(CB); return; }
        if (auto* RI = dyn_cast<ReturnInst>(I)) {
            Value* v = RI->getReturnValue(); if (!v) return;
            if (Instruction* pv = RI->getPrevNode()) if (auto* ci = dyn_cast<CallInst>(pv)) if (ci->isMustTailCall()) return;
            std::vector<Value*> f; flatten(B, v->getType(), S(v), f);
            for (size_t i = 0; i < f.size() && i < MAXSLOT; i++) put(B, GRet, i, f[i]);
            return; }
        if (isa<ResumeInst>(I) || isa<UnreachableInst>(I) || isa<LandingPadInst>(I) || isa<FenceInst>(I) || isa<VAArgInst>(I)) return;
    }

    bool runOn(Function& F) {
        if (F.isDeclaration() || F.getName().starts_with("__sx") || F.hasFnAttribute(Attribute::Naked)) return false;
        // split normal edges of value-returning invokes so the return shadow has a place to live
        std::vector<InvokeInst*> invs; for (auto& I : instructions(F)) if (auto* iv = dyn_cast<InvokeInst>(&I)) if (!iv->getType()->isVoidTy()) invs.push_back(iv);
        for (auto* iv : invs) {
            BasicBlock* nd = iv->getNormalDest();
            BasicBlock* nb = BasicBlock::Create(C, "sxn", &F, nd);
            BranchInst::Create(nd, nb);
            for (auto& ph : nd->phis()) for (unsigned i = 0; i < ph.getNumIncomingValues(); i++) if (ph.getIncomingBlock(i) == iv->getParent()) ph.setIncomingBlock(i, nb);
            iv->setNormalDest(nb); }
        sh.clear(); phis.clear();
        // visit in dominance-compatible order (RPO covers reachable blocks)
        std::vector<BasicBlock*> order; { std::set<BasicBlock*> seen; std::vector<std::pair<BasicBlock*, unsigned>> st; st.push_back({&F.getEntryBlock(), 0}); seen.insert(&F.getEntryBlock());
            std::vector<BasicBlock*> post; while (!st.empty()) { auto& [b, i] = st.back(); auto* t = b->getTerminator(); if (i < t->getNumSuccessors()) { auto* s = t->getSuccessor(i++); if (seen.insert(s).second) st.push_back({s, 0}); } else { post.push_back(b); st.pop_back(); } }
            order.assign(post.rbegin(), post.rend()); }
        std::vector<Instruction*> work; for (auto* b : order) for (auto& I : *b) work.push_back(&I);
        // entry: fetch argument shadows
        {
            Instruction* ip = &*F.getEntryBlock().getFirstInsertionPt();
            IRBuilder<> B(ip);
            if (F.arg_size()) {
                Value* match = B.CreateICmpEQ(B.CreateLoad(PT, GCallee), &F);
                int slot = 0;
                for (auto& a : F.args()) {
                    if (a.hasByValAttr()) {
                        Value* src = B.CreateSelect(match, get(B, GArgs, slot++), Null);
                        B.CreateCall(rf("__sx_byval", VT, PT, PT, I64), {&a, src, ConstantInt::get(I64, DL.getTypeAllocSize(a.getParamByValType()))});
                        continue; }
                    int n = slots(a.getType()); std::vector<Value*> f;
                    for (int i = 0; i < n; i++) { f.push_back(slot < MAXSLOT ? (kind(a.getType()) == 3 && isScalar(a.getType()) ? (Value*)Null : B.CreateSelect(match, get(B, GArgs, slot), Null)) : (Value*)Null); slot++; }
                    size_t p = 0; sh[&a] = unflatten(B, a.getType(), f, p);
                }
            }
            B.CreateStore(Null, GCallee);
            if (F.getName().contains("4cura")) { // record which functions of the code under test were executed
                auto* flag = new GlobalVariable(M, B.getInt8Ty(), false, GlobalValue::InternalLinkage, B.getInt8(0), "sxf");
                B.CreateCall(rf("__sx_enter", VT, PT, PT), {flag, B.CreateGlobalStringPtr(F.getName(), "sxn")}); }
        }
        for (auto* I : work) visit(I);
        for (auto& [p, s] : phis) for (unsigned i = 0; i < p->getNumIncomingValues(); i++) {
            Value* v = p->getIncomingValue(i); s->addIncoming(S(v), p->getIncomingBlock(i)); }
        return true; }
};

struct SxPass : PassInfoMixin<SxPass> {
    PreservedAnalyses run(Module& M, ModuleAnalysisManager&) {
        Inst in(M);
        std::vector<Function*> fs; for (auto& F : M) fs.push_back(&F);
        auto strip = [](AttributeList al, LLVMContext& C, bool) { return al; }; (void)strip;
        for (auto* F : fs) {
            F->removeFnAttr(Attribute::Memory); F->removeFnAttr(Attribute::WillReturn); F->removeFnAttr(Attribute::Speculatable); F->removeFnAttr(Attribute::NoSync); F->removeFnAttr(Attribute::NoFree);
            for (auto& A : F->args()) { A.removeAttr(Attribute::ReadOnly); A.removeAttr(Attribute::ReadNone); A.removeAttr(Attribute::WriteOnly); A.removeAttr(Attribute::NoAlias); A.removeAttr(Attribute::NoUndef); A.removeAttr(Attribute::Dereferenceable); }
            F->removeRetAttr(Attribute::NoUndef);
        }
        // shared libraries must not bind to instrumented copies of library templates
        for (auto* F : fs) if (!F->isDeclaration() && !F->hasLocalLinkage()) { F->setVisibility(GlobalValue::HiddenVisibility); F->setDSOLocal(true); }
        for (auto& G : M.globals()) if (!G.isDeclaration() && !G.hasLocalLinkage() && (G.getName().starts_with("_ZTV") || G.getName().starts_with("_ZTT"))) { G.setVisibility(GlobalValue::HiddenVisibility); G.setDSOLocal(true); }
        for (auto* F : fs) in.runOn(*F);
        for (auto& F : M) for (auto& I : instructions(F)) if (auto* cb = dyn_cast<CallBase>(&I)) { cb->removeFnAttr(Attribute::Memory); cb->removeFnAttr(Attribute::WillReturn); cb->removeFnAttr(Attribute::Speculatable);
            if (auto* ci = dyn_cast<CallInst>(cb)) if (!ci->isMustTailCall()) ci->setTailCall(false); }
        return PreservedAnalyses::none(); }
    static bool isRequired() { return true; }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
    return {LLVM_PLUGIN_API_VERSION, "sx", "1", [](PassBuilder& PB) {
        PB.registerOptimizerLastEPCallback([](ModulePassManager& MPM, OptimizationLevel) {
            FunctionPassManager FPM; ScalarizerPassOptions o; o.ScalarizeLoadStore = true; o.ScalarizeVariableInsertExtract = true; FPM.addPass(ScalarizerPass(o)); MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
            MPM.addPass(SxPass()); }); }};
}
