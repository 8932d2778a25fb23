// irdump: LLVM IR (bitcode/text) -> compact JSON for the abstract interpreter.
// Runs only SROA/mem2reg + trivial constant folding so that the analysed program
// stays one-to-one with the source. Never executes any of it.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Format.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include <map>
#include <string>
using namespace llvm;

static const DataLayout* DL;
static raw_ostream* OS;
static std::string esc(StringRef s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}
static std::string ty(Type* t) {
    if (t->isVoidTy()) return "void";
    if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
    if (t->isPointerTy()) return "ptr";
    if (t->isFloatTy()) return "float";
    if (t->isDoubleTy()) return "double";
    if (auto* s = dyn_cast<StructType>(t)) {
        std::string o = "{";
        const StructLayout* sl = s->isSized() ? DL->getStructLayout(s) : nullptr;
        for (unsigned i = 0; i < s->getNumElements(); ++i) {
            if (i) o += ",";
            o += std::to_string(sl ? (uint64_t)sl->getElementOffset(i) : 0) + ":" + ty(s->getElementType(i));
        }
        return o + "}";
    }
    if (auto* a = dyn_cast<ArrayType>(t)) {
        return "[" + std::to_string(a->getNumElements()) + "x" +
               std::to_string((uint64_t)DL->getTypeAllocSize(a->getElementType())) + ":" + ty(a->getElementType()) + "]";
    }
    std::string s; raw_string_ostream r(s); t->print(r); return "?" + r.str();
}
static std::map<const Value*, int> ids;
static std::string apstr(const APInt& v) { SmallString<40> s; v.toString(s, 10, true); return std::string(s.str()); }

static std::string constant(const Constant* c);
static std::string operand(const Value* v) {
    if (auto* c = dyn_cast<Constant>(v)) return constant(c);
    auto it = ids.find(v);
    if (it != ids.end()) return "[\"v\"," + std::to_string(it->second) + "]";
    if (isa<BasicBlock>(v)) return "[\"bb\"]";
    return "[\"u\"]";
}
static std::string constant(const Constant* c) {
    if (auto* i = dyn_cast<ConstantInt>(c)) return "[\"i\"," + esc(apstr(i->getValue())) + "," + std::to_string(i->getBitWidth()) + "]";
    if (isa<ConstantPointerNull>(c)) return "[\"n\"]";
    if (isa<UndefValue>(c)) return "[\"u\"]";
    if (isa<ConstantAggregateZero>(c)) return "[\"z\"," + esc(ty(c->getType())) + "]";
    if (auto* f = dyn_cast<ConstantFP>(c)) return "[\"f\"," + esc(apstr(f->getValueAPF().bitcastToAPInt())) + "]";
    if (auto* g = dyn_cast<GlobalValue>(c)) return "[\"g\"," + esc(g->getName()) + ",0]";
    if (auto* e = dyn_cast<ConstantExpr>(c)) {
        APInt off(64, 0);
        if (c->getType()->isPointerTy()) {
            const Value* b = c->stripAndAccumulateConstantOffsets(*DL, off, true);
            if (auto* g = dyn_cast<GlobalValue>(b)) return "[\"g\"," + esc(g->getName()) + "," + apstr(off) + "]";
            if (isa<ConstantPointerNull>(b)) return "[\"i\"," + esc(apstr(off)) + ",64]";
        }
        std::string o = "[\"ce\"," + esc(e->getOpcodeName()) + "," + esc(ty(e->getType())) + ",[";
        for (unsigned i = 0; i < e->getNumOperands(); ++i) { if (i) o += ","; o += constant(cast<Constant>(e->getOperand(i))); }
        return o + "]]";
    }
    if (isa<ConstantStruct>(c) || isa<ConstantArray>(c)) {
        std::string o = "[\"agg\",[";
        for (unsigned i = 0; i < c->getNumOperands(); ++i) { if (i) o += ","; o += constant(cast<Constant>(c->getOperand(i))); }
        return o + "]]";
    }
    if (auto* d = dyn_cast<ConstantDataSequential>(c)) {
        std::string o = "[\"agg\",[";
        for (unsigned i = 0; i < d->getNumElements(); ++i) { if (i) o += ","; o += constant(d->getElementAsConstant(i)); }
        return o + "]]";
    }
    return "[\"u\"]";
}
// flatten initialiser into (bytes, relocs)
struct Flat { std::string bytes; std::vector<std::string> relocs; bool ok = true; };
static void flatten(const Constant* c, uint64_t off, Flat& F) {
    uint64_t sz = DL->getTypeStoreSize(c->getType());
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
    if (auto* i = dyn_cast<ConstantInt>(c)) {
        APInt v = i->getValue().zext(std::max<unsigned>(i->getBitWidth(), sz * 8));
        for (uint64_t k = 0; k < sz; ++k) F.bytes[off + k] = (char)v.extractBitsAsZExtValue(8, k * 8);
        return;
    }
    if (auto* f = dyn_cast<ConstantFP>(c)) {
        APInt v = f->getValueAPF().bitcastToAPInt();
        for (uint64_t k = 0; k < sz; ++k) F.bytes[off + k] = (char)v.extractBitsAsZExtValue(8, k * 8);
        return;
    }
    if (auto* d = dyn_cast<ConstantDataSequential>(c)) {
        uint64_t es = DL->getTypeAllocSize(d->getElementType());
        for (unsigned k = 0; k < d->getNumElements(); ++k) flatten(d->getElementAsConstant(k), off + k * es, F);
        return;
    }
    if (auto* a = dyn_cast<ConstantArray>(c)) {
        uint64_t es = DL->getTypeAllocSize(a->getType()->getElementType());
        for (unsigned k = 0; k < a->getNumOperands(); ++k) flatten(a->getOperand(k), off + k * es, F);
        return;
    }
    if (auto* s = dyn_cast<ConstantStruct>(c)) {
        const StructLayout* sl = DL->getStructLayout(s->getType());
        for (unsigned k = 0; k < s->getNumOperands(); ++k) flatten(s->getOperand(k), off + sl->getElementOffset(k), F);
        return;
    }
    if (c->getType()->isPointerTy()) {
        APInt o(64, 0);
        const Value* b = c->stripAndAccumulateConstantOffsets(*DL, o, true);
        if (auto* g = dyn_cast<GlobalValue>(b)) {
            F.relocs.push_back("[" + std::to_string(off) + "," + esc(g->getName()) + "," + apstr(o) + "]");
            return;
        }
    }
    F.ok = false;
}
static std::string dloc(const Instruction& I) {
    if (auto d = I.getDebugLoc()) {
        auto* sc = dyn_cast_or_null<DIScope>(d.getScope());
        std::string f = sc ? (sc->getFilename()).str() : "";
        if (sc && !sc->getDirectory().empty() && !f.empty() && f[0] != '/') f = (sc->getDirectory() + "/" + f).str();
        return f + ":" + std::to_string(d.getLine());
    }
    return "";
}
static std::map<std::string,int> locids; static std::vector<std::string> locs;
static int locid(const std::string& s) {
    auto it = locids.find(s); if (it != locids.end()) return it->second;
    int n = locs.size(); locids[s] = n; locs.push_back(s); return n;
}
int main(int argc, char** argv) {
    if (argc < 3) { errs() << "usage: irdump in.bc out.json\n"; return 2; }
    LLVMContext ctx; SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, ctx);
    if (!M) { err.print(argv[0], errs()); return 2; }
    {
        LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam;
        PassBuilder pb;
        pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam);
        pb.registerLoopAnalyses(lam); pb.crossRegisterProxies(lam, fam, cam, mam);
        ModulePassManager mpm;
        if (auto e = pb.parsePassPipeline(mpm, argc > 3 ? argv[3] : "function(sroa<modify-cfg>,mem2reg,instsimplify,adce)")) { errs() << toString(std::move(e)); return 2; }
        mpm.run(*M, mam);
    }
    DL = &M->getDataLayout();
    std::error_code ec; raw_fd_ostream os(argv[2], ec); if (ec) { errs() << ec.message(); return 2; }
    OS = &os;
    os << "{\"globals\":{";
    bool first = true;
    for (auto& G : M->globals()) {
        if (!first) os << ",\n"; first = false;
        uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 0;
        os << esc(G.getName()) << ":{\"size\":" << sz << ",\"const\":" << (G.isConstant() ? 1 : 0)
           << ",\"decl\":" << (G.isDeclaration() ? 1 : 0)
           << ",\"tls\":" << (G.isThreadLocal() ? 1 : 0)
           << ",\"dem\":" << esc(demangle(G.getName().str())) << ",\"type\":" << (sz < 4096 ? esc(ty(G.getValueType())) : "\"\"");
        if (G.hasInitializer()) {
            Flat F; F.bytes.assign(sz, '\0'); flatten(G.getInitializer(), 0, F);
            bool zero = true; for (char c : F.bytes) if (c) { zero = false; break; }
            os << ",\"ok\":" << (F.ok ? 1 : 0) << ",\"bytes\":\"";
            if (!zero) { static const char* H = "0123456789abcdef"; for (unsigned char c : F.bytes) { os << H[c >> 4] << H[c & 15]; } }
            os << "\",\"relocs\":[";
            for (size_t i = 0; i < F.relocs.size(); ++i) os << (i ? "," : "") << F.relocs[i];
            os << "]";
        }
        os << "}";
    }
    os << "},\n\"funcs\":{";
    first = true;
    for (auto& F : *M) {
        if (F.isIntrinsic()) continue;
        if (!first) os << ",\n"; first = false;
        ids.clear(); int n = 0;
        os << esc(F.getName()) << ":{\"dem\":" << esc(demangle(F.getName().str())) << ",\"decl\":" << (F.isDeclaration() ? 1 : 0)
           << ",\"link\":" << F.getLinkage() << ",\"va\":" << F.isVarArg() << ",\"ret\":" << esc(ty(F.getReturnType())) << ",\"args\":[";
        for (auto& A : F.args()) {
            ids[&A] = n++;
            if (A.getArgNo()) os << ",";
            std::string at;
            if (A.hasStructRetAttr()) at = "sret:" + ty(A.getParamStructRetType());
            else if (A.hasByValAttr()) at = "byval:" + ty(A.getParamByValType());
            std::string ext = A.hasZExtAttr() ? "z" : A.hasSExtAttr() ? "s" : "";
            os << "[" << esc(ty(A.getType())) << "," << esc(at) << "," << esc(ext) << "," << esc(A.getName()) << "]";
        }
        os << "]";
        if (auto* sp = F.getSubprogram()) {
            std::string f = sp->getFilename().str();
            if (!f.empty() && f[0] != '/') f = (sp->getDirectory() + "/" + f).str();
            os << ",\"loc\":" << esc(f + ":" + std::to_string(sp->getLine()));
        }
        if (!F.isDeclaration()) {
            std::map<const BasicBlock*, int> bbs; int nb = 0;
            for (auto& B : F) { bbs[&B] = nb++; for (auto& I : B) if (!I.getType()->isVoidTy()) ids[&I] = n++; }
            os << ",\"blocks\":[";
            bool fb = true;
            for (auto& B : F) {
                if (!fb) os << ",\n"; fb = false;
                os << "[";
                bool fi = true;
                for (auto& I : B) {
                    if (isa<DbgInfoIntrinsic>(I)) continue;
                    if (auto* ii = dyn_cast<IntrinsicInst>(&I)) {
                        auto id = ii->getIntrinsicID();
                        if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::experimental_noalias_scope_decl) continue;
                    }
                    if (!fi) os << ","; fi = false;
                    int id = I.getType()->isVoidTy() ? -1 : ids[&I];
                    os << "[" << esc(I.getOpcodeName()) << "," << id << "," << esc(ty(I.getType())) << "," << locid(dloc(I)) << ",";
                    auto BB = [&](const BasicBlock* b) { return std::to_string(bbs[b]); };
                    if (auto* br = dyn_cast<BranchInst>(&I)) {
                        if (br->isConditional()) os << operand(br->getCondition()) << "," << BB(br->getSuccessor(0)) << "," << BB(br->getSuccessor(1));
                        else os << BB(br->getSuccessor(0));
                    } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
                        os << operand(sw->getCondition()) << "," << BB(sw->getDefaultDest()) << ",[";
                        bool f2 = true;
                        for (auto& c : sw->cases()) { if (!f2) os << ","; f2 = false; os << "[" << esc(apstr(c.getCaseValue()->getValue())) << "," << BB(c.getCaseSuccessor()) << "]"; }
                        os << "]," << esc(ty(sw->getCondition()->getType()));
                    } else if (auto* ph = dyn_cast<PHINode>(&I)) {
                        os << "[";
                        for (unsigned k = 0; k < ph->getNumIncomingValues(); ++k) { if (k) os << ","; os << "[" << BB(ph->getIncomingBlock(k)) << "," << operand(ph->getIncomingValue(k)) << "]"; }
                        os << "]";
                    } else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
                        // base, const offset, [[idx, scale]]
                        MapVector<Value*, APInt> var; APInt off(64, 0);
                        cast<GEPOperator>(g)->collectOffset(*DL, 64, var, off);
                        os << operand(g->getPointerOperand()) << "," << apstr(off) << ",[";
                        bool f2 = true;
                        for (auto& kv : var) { if (!f2) os << ","; f2 = false; os << "[" << operand(kv.first) << "," << apstr(kv.second) << "," << esc(ty(kv.first->getType())) << "]"; }
                        os << "]," << (g->isInBounds() ? 1 : 0);
                    } else if (auto* a = dyn_cast<AllocaInst>(&I)) {
                        os << (uint64_t)DL->getTypeAllocSize(a->getAllocatedType()) << "," << operand(a->getArraySize());
                    } else if (auto* c = dyn_cast<ICmpInst>(&I)) {
                        os << esc(ICmpInst::getPredicateName(c->getPredicate())) << "," << operand(c->getOperand(0)) << "," << operand(c->getOperand(1)) << "," << esc(ty(c->getOperand(0)->getType()));
                    } else if (auto* fc = dyn_cast<FCmpInst>(&I)) {
                        os << esc(FCmpInst::getPredicateName(fc->getPredicate())) << "," << operand(fc->getOperand(0)) << "," << operand(fc->getOperand(1));
                    } else if (auto* cb = dyn_cast<CallBase>(&I)) {
                        os << operand(cb->getCalledOperand()) << ",[";
                        for (unsigned k = 0; k < cb->arg_size(); ++k) {
                            if (k) os << ",";
                            std::string at;
                            if (cb->paramHasAttr(k, Attribute::ByVal)) at = "byval:" + ty(cb->getParamByValType(k));
                            else if (cb->paramHasAttr(k, Attribute::StructRet)) at = "sret:" + ty(cb->getParamStructRetType(k));
                            os << "[" << operand(cb->getArgOperand(k)) << "," << esc(ty(cb->getArgOperand(k)->getType())) << "," << esc(at) << "]";
                        }
                        os << "]";
                        if (auto* inv = dyn_cast<InvokeInst>(&I)) os << "," << BB(inv->getNormalDest()) << "," << BB(inv->getUnwindDest());
                        else os << ",-1,-1";
                    } else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
                        os << operand(ev->getAggregateOperand()) << ",[";
                        for (unsigned k = 0; k < ev->getNumIndices(); ++k) os << (k ? "," : "") << ev->getIndices()[k];
                        os << "]";
                    } else if (auto* iv = dyn_cast<InsertValueInst>(&I)) {
                        os << operand(iv->getAggregateOperand()) << "," << operand(iv->getInsertedValueOperand()) << ",[";
                        for (unsigned k = 0; k < iv->getNumIndices(); ++k) os << (k ? "," : "") << iv->getIndices()[k];
                        os << "]," << esc(ty(iv->getType()));
                    } else if (auto* st = dyn_cast<StoreInst>(&I)) {
                        os << operand(st->getValueOperand()) << "," << operand(st->getPointerOperand()) << "," << esc(ty(st->getValueOperand()->getType())) << "," << (uint64_t)DL->getTypeStoreSize(st->getValueOperand()->getType());
                    } else if (auto* ld = dyn_cast<LoadInst>(&I)) {
                        os << operand(ld->getPointerOperand()) << "," << (uint64_t)DL->getTypeStoreSize(ld->getType());
                    } else {
                        os << "[";
                        for (unsigned k = 0; k < I.getNumOperands(); ++k) { if (k) os << ","; os << operand(I.getOperand(k)); }
                        os << "],";
                        os << esc(I.getNumOperands() ? ty(I.getOperand(0)->getType()) : "");
                        int fl = 0;
                        if (auto* o = dyn_cast<OverflowingBinaryOperator>(&I)) fl = (o->hasNoUnsignedWrap() ? 1 : 0) | (o->hasNoSignedWrap() ? 2 : 0);
                        os << "," << fl;
                    }
                    os << "]";
                }
                os << "]";
            }
            os << "]";
        }
        os << "}";
    }
    os << "},\n\"locs\":[";
    for (size_t i = 0; i < locs.size(); ++i) os << (i ? "," : "") << esc(locs[i]);
    os << "]}\n";
    return 0;
}
