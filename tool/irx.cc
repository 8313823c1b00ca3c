// irx: flattens selected functions of the whole-program LLVM IR and exports
// them, with resolved callees, field names and source locations, as JSON.
//
//   irx --spec SPEC --out OUT.json a.bc b.bc ...
//
// SPEC lines:   root REGEX      functions to flatten and export
//               keep REGEX      callees that stay calls (the rule's events)
//               erase REGEX     callees whose calls are dropped (no bearing)
//               maxinst N       inlining budget per root
// All regexes are full matches against the qualified function name with
// template arguments and parameters stripped (Masstree::tcursor::find_locked).
#include "llvm/ADT/SmallPtrSet.h"
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/SimplifyCFGOptions.h"
#include <fstream>
#include <map>
#include <regex>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static std::string stripName(const std::string& in) {
    // drop template args and parameter list; keep operator names
    std::string s = in, out;
    size_t i = 0, n = s.size();
    int ang = 0, par = 0;
    while (i < n) {
        if (ang == 0 && par == 0 && s.compare(i, 8, "operator") == 0
            && (i == 0 || s[i - 1] == ':' || s[i - 1] == ' ')) {
            out += "operator";
            i += 8;
            if (s.compare(i, 2, "()") == 0) { out += "()"; i += 2; continue; }
            while (i < n && strchr("<>=!+-*/&|^%~,[]", s[i])) {
                // stop before a template arg list of the operator itself
                out += s[i++];
            }
            continue;
        }
        char c = s[i];
        if (s.compare(i, 21, "(anonymous namespace)") == 0 && ang == 0 && par == 0) {
            out += "anon"; i += 21; continue;
        }
        if (c == '<') ++ang;
        else if (c == '>') { if (ang) --ang; }
        else if (ang == 0 && c == '(') ++par;
        else if (ang == 0 && c == ')') { if (par) --par; if (!par) { ++i; 
                // local class/lambda scope: foo()::bar
                continue; } }
        else if (!ang && !par) out += c;
        ++i;
    }
    // strip return type: last space at top level (before the name)
    // conversion operators keep their target type
    size_t op = out.find("operator ");
    size_t lim = op == std::string::npos ? out.size() : op;
    // trailing cv
    for (const char* suf : {" const", " volatile", " &", " &&"}) {
        size_t l = strlen(suf);
        if (out.size() > l && out.compare(out.size() - l, l, suf) == 0)
            out.resize(out.size() - l);
    }
    if (lim > out.size()) lim = out.size();
    size_t sp = out.rfind(' ', lim ? lim - 1 : 0);
    if (op != std::string::npos && sp != std::string::npos && sp > op) sp = std::string::npos;
    if (sp != std::string::npos && lim == out.size())
        out = out.substr(sp + 1);
    else if (sp != std::string::npos && sp < lim)
        out = out.substr(sp + 1);
    return out;
}

struct Spec {
    std::vector<std::regex> root, keep, erase;
    std::vector<std::string> rootS;
    unsigned maxinst = 60000;
    static bool any(const std::vector<std::regex>& v, const std::string& s) {
        for (auto& r : v)
            if (std::regex_match(s, r)) return true;
        return false;
    }
};

static std::map<const Function*, std::string> qcache;
static const std::string& qname(const Function* F) {
    auto it = qcache.find(F);
    if (it != qcache.end()) return it->second;
    std::string d = demangle(F->getName().str());
    return qcache[F] = stripName(d);
}

// ---------------- debug-info field names ----------------
struct FieldNamer {
    const DataLayout& DL;
    std::map<std::string, std::vector<const DICompositeType*>> byName;
    std::map<const StructType*, std::vector<std::string>> cache;
    explicit FieldNamer(Module& M) : DL(M.getDataLayout()) {
        DebugInfoFinder F;
        F.processModule(M);
        for (auto* T : F.types())
            if (auto* C = dyn_cast<DICompositeType>(T))
                if ((C->getTag() == dwarf::DW_TAG_class_type
                     || C->getTag() == dwarf::DW_TAG_structure_type
                     || C->getTag() == dwarf::DW_TAG_union_type)
                    && C->getSizeInBits())
                    byName[qual(C)].push_back(C);
    }
    static std::string qual(const DIScope* S) {
        std::string n = S->getName().str();
        size_t lt = n.find('<');
        if (lt != std::string::npos && n.compare(0, 8, "operator") != 0) n.resize(lt);
        if (auto* sc = S->getScope())
            if (isa<DINamespace>(sc) || isa<DICompositeType>(sc)) {
                std::string p = qual(sc);
                return p.empty() ? n : p + "::" + n;
            }
        return n;
    }
    static const DIType* strip(const DIType* t) {
        while (auto* d = dyn_cast_or_null<DIDerivedType>(t)) {
            if (d->getTag() == dwarf::DW_TAG_typedef || d->getTag() == dwarf::DW_TAG_const_type
                || d->getTag() == dwarf::DW_TAG_volatile_type)
                t = d->getBaseType();
            else break;
        }
        return t;
    }
    // name of the member of C that starts exactly at bit offset off
    std::string memberAt(const DICompositeType* C, uint64_t off, int depth) {
        if (depth > 6) return "";
        std::string best;
        for (auto* e : C->getElements()) {
            auto* d = dyn_cast_or_null<DIDerivedType>(e);
            if (!d || d->isStaticMember()) continue;
            if (d->getTag() == dwarf::DW_TAG_inheritance) {
                if (d->getOffsetInBits() == off) {
                    auto* b = dyn_cast_or_null<DICompositeType>(strip(d->getBaseType()));
                    if (b && b->getElements().size() == 0) continue;
                    if (best.empty()) best = "<base>";
                }
            } else if (d->getTag() == dwarf::DW_TAG_member) {
                if (d->getName().empty()) {
                    uint64_t o = d->getOffsetInBits();
                    auto* b = dyn_cast_or_null<DICompositeType>(strip(d->getBaseType()));
                    if (b && off >= o && off < o + std::max<uint64_t>(d->getSizeInBits(), 8) ) {
                        std::string s = memberAt(b, off - o, depth + 1);
                        if (!s.empty() && off == o) return "<anon>";
                        if (!s.empty()) return s;
                    }
                } else if (d->getOffsetInBits() == off && d->getSizeInBits()) {
                    return d->getName().str();
                } else if (d->getOffsetInBits() == off && best.empty())
                    best = d->getName().str();
            }
        }
        return best;
    }
    // every named data member with its byte offset, anonymous parts opened up
    void allMembers(const DICompositeType* C, uint64_t base, int depth, std::vector<std::pair<std::string, int64_t>>& out) {
        if (depth > 6) return;
        for (auto* e : C->getElements()) {
            auto* d = dyn_cast_or_null<DIDerivedType>(e);
            if (!d || d->isStaticMember() || d->getTag() != dwarf::DW_TAG_member) continue;
            uint64_t o = base + d->getOffsetInBits();
            if (!d->getName().empty()) out.emplace_back(d->getName().str(), (int64_t) (o / 8));
            else if (auto* b = dyn_cast_or_null<DICompositeType>(strip(d->getBaseType()))) allMembers(b, o, depth + 1, out);
        }
    }
    static std::string structQual(StructType* T) {
        if (!T->hasName()) return "";
        std::string n = T->getName().str();
        for (const char* p : {"class.", "struct.", "union."})
            if (n.compare(0, strlen(p), p) == 0) { n = n.substr(strlen(p)); break; }
        // strip .NNN suffix and .base
        while (true) {
            size_t d = n.rfind('.');
            if (d == std::string::npos || d + 1 >= n.size()) break;
            std::string suf = n.substr(d + 1);
            bool dig = true;
            for (char c : suf) if (!isdigit((unsigned char) c)) dig = false;
            if (dig || suf == "base") n.resize(d); else break;
        }
        std::string out; int ang = 0;
        for (char c : n) { if (c == '<') ++ang; else if (c == '>') --ang; else if (!ang) out += c; }
        return out;
    }
    const std::vector<std::string>& fields(StructType* T) {
        auto it = cache.find(T);
        if (it != cache.end()) return it->second;
        std::vector<std::string> v;
        std::string q = structQual(T);
        const StructLayout* SL = T->isSized() ? DL.getStructLayout(T) : nullptr;
        const DICompositeType* C = nullptr;
        bool isBase = T->hasName() && T->getName().contains(".base");
        auto b = byName.find(q);
        if (b != byName.end() && SL) {
            for (auto* c : b->second)
                if (c->getSizeInBits() == SL->getSizeInBits()) { C = c; break; }
            if (!C && (isBase || b->second.size() == 1)) C = b->second[0];
        }
        for (unsigned i = 0; i < T->getNumElements(); ++i) {
            std::string nm;
            if (C && SL) nm = memberAt(C, SL->getElementOffset(i) * 8, 0);
            if (nm.empty()) nm = "#" + std::to_string(i);
            v.push_back(nm);
        }
        return cache[T] = v;
    }
};

// ---------------- flattening ----------------
static bool isIgnorableIntrinsic(const Instruction& I) {
    if (auto* II = dyn_cast<IntrinsicInst>(&I)) {
        switch (II->getIntrinsicID()) {
        case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
        case Intrinsic::prefetch: case Intrinsic::donothing:
            return true;
        default: return isa<DbgInfoIntrinsic>(II);
        }
    }
    return false;
}

static void eraseCalls(Function& F, const Spec& S) {
    std::vector<Instruction*> dead;
    for (auto& B : F)
        for (auto& I : B) {
            if (isIgnorableIntrinsic(I)) dead.push_back(&I);
            else if (auto* CB = dyn_cast<CallInst>(&I))
                if (auto* C = CB->getCalledFunction())
                    if (!C->isIntrinsic() && Spec::any(S.erase, qname(C)))
                        dead.push_back(&I);
        }
    for (auto* I : dead) {
        if (!I->getType()->isVoidTy()) I->replaceAllUsesWith(UndefValue::get(I->getType()));
        I->eraseFromParent();
    }
}

static unsigned instCount(Function& F) { unsigned n = 0; for (auto& B : F) n += B.size(); return n; }

static void flatten(Function& F, const Spec& S, std::vector<std::string>& notes) {
    struct Item { CallBase* cb; int chain; };
    std::vector<std::pair<const Function*, int>> chains; // (fn, parent)
    chains.push_back({&F, -1});
    std::vector<Item> wl;
    for (auto& B : F) for (auto& I : B)
        if (auto* CB = dyn_cast<CallBase>(&I)) wl.push_back({CB, 0});
    while (!wl.empty()) {
        Item it = wl.back(); wl.pop_back();
        Function* C = it.cb->getCalledFunction();
        if (!C) {
            // call through an alias or cast of a known function
            C = dyn_cast<Function>(it.cb->getCalledOperand()->stripPointerCastsAndAliases());
            if (!C || C->getFunctionType() != it.cb->getFunctionType()) continue;
            it.cb->setCalledFunction(C);
        }
        if (C->isDeclaration() || C->isIntrinsic()) continue;
        if (Spec::any(S.keep, qname(C))) continue;
        bool rec = false;
        for (int c = it.chain; c >= 0; c = chains[c].second)
            if (chains[c].first == C) rec = true;
        if (rec) continue;
        if (instCount(F) > S.maxinst) { notes.push_back("budget: " + qname(C)); continue; }
        InlineFunctionInfo IFI;
        int id = chains.size();
        auto R = InlineFunction(*it.cb, IFI, false, nullptr, false);
        if (!R.isSuccess()) { notes.push_back(std::string("noinline: ") + qname(C) + ": " + R.getFailureReason()); continue; }
        chains.push_back({C, it.chain});
        for (auto* n : IFI.InlinedCallSites) wl.push_back({n, id});
    }
}

// ---------------- export ----------------
struct Exporter {
    Module& M; const DataLayout& DL; FieldNamer& FN; json::OStream& J;
    std::map<const Value*, int> ids; std::map<const BasicBlock*, int> bids;
    std::map<std::string, int> locIds; std::vector<std::string> locs;
    Exporter(Module& M, FieldNamer& FN, json::OStream& J) : M(M), DL(M.getDataLayout()), FN(FN), J(J) {}

    static std::string base(StringRef f) { size_t p = f.rfind('/'); return (p == StringRef::npos ? f : f.substr(p + 1)).str(); }
    int loc(const Instruction& I) {
        const DILocation* L = I.getDebugLoc().get();
        if (!L) return -1;
        std::string s;
        for (; L; L = L->getInlinedAt()) {
            if (!s.empty()) s += " < ";
            auto* sp = L->getScope()->getSubprogram();
            std::string fn = sp ? sp->getName().str() : "?";
            if (sp && sp->getScope() && isa<DICompositeType>(sp->getScope()))
                fn = FieldNamer::qual(sp->getScope()) + "::" + fn;
            size_t lt = fn.find('<'); if (lt != std::string::npos && fn.find("operator") == std::string::npos) fn.resize(lt);
            s += base(L->getFilename()) + ":" + std::to_string(L->getLine()) + " " + fn;
        }
        auto it = locIds.find(s);
        if (it != locIds.end()) return it->second;
        int n = locs.size(); locs.push_back(s); return locIds[s] = n;
    }
    void steps(const GEPOperator* G) {
        J.arrayBegin();
        unsigned n = 0;
        for (auto GTI = gep_type_begin(G), E = gep_type_end(G); GTI != E; ++GTI, ++n) {
            Value* idx = GTI.getOperand();
            if (StructType* ST = GTI.getStructTypeOrNull()) {
                unsigned fi = cast<ConstantInt>(idx)->getZExtValue();
                J.array([&] { J.value("s"); J.value(FieldNamer::structQual(ST));
                    J.value(FN.fields(ST)[fi]); J.value((int64_t) DL.getStructLayout(ST)->getElementOffset(fi).getFixedValue()); });
            } else {
                auto* ci = dyn_cast<ConstantInt>(idx);
                if (ci && ci->isZero() && n == 0) continue;
                J.array([&] { J.value("x"); ref(idx); J.value((int64_t) DL.getTypeAllocSize(GTI.getIndexedType()).getFixedValue()); 
                    J.value(n == 0 ? 1 : 0);});
            }
        }
        J.arrayEnd();
    }
    void ref(const Value* V, int depth = 0) {
        auto it = ids.find(V);
        if (it != ids.end()) { J.value(it->second); return; }
        J.arrayBegin();
        if (auto* C = dyn_cast<ConstantInt>(V)) {
            J.value("c");
            if (C->getBitWidth() <= 64) J.value(C->getBitWidth() == 1 ? (int64_t) C->getZExtValue() : C->getSExtValue());
            else J.value(0);
            J.value((int64_t) C->getBitWidth());
        } else if (isa<ConstantPointerNull>(V)) J.value("n");
        else if (isa<UndefValue>(V)) J.value("u");
        else if (auto* F = dyn_cast<Function>(V)) { J.value("f"); J.value(F->getName()); J.value(qname(F)); }
        else if (auto* G = dyn_cast<GlobalVariable>(V)) {
            J.value("g"); J.value(stripName(demangle(G->getName().str())));
            if (G->isConstant() && G->hasInitializer()) {
                if (auto* CI = dyn_cast<ConstantInt>(G->getInitializer())) { if (CI->getBitWidth() <= 64) J.value(CI->getSExtValue()); }
                else if (auto* CD = dyn_cast<ConstantDataSequential>(G->getInitializer()))
                    if (CD->isCString()) { auto st = CD->getAsCString(); if (json::isUTF8(st)) J.value(st); }
            }
        }
        else if (auto* A = dyn_cast<GlobalAlias>(V)) { J.value("g"); J.value(stripName(demangle(A->getName().str()))); }
        else if (auto* CE = dyn_cast<ConstantExpr>(V)) {
            if (auto* G = dyn_cast<GEPOperator>(CE)) { J.value("ge"); ref(G->getPointerOperand(), depth + 1); steps(G); }
            else if (CE->isCast()) { J.value("ce"); ref(CE->getOperand(0), depth + 1); }
            else J.value("k");
        }
        else if (auto* CF = dyn_cast<ConstantFP>(V)) { J.value("fp"); SmallString<32> s; CF->getValueAPF().toString(s); J.value(s.str()); }
        else if (isa<ConstantAggregateZero>(V)) J.value("z");
        else if (auto* CS = dyn_cast<ConstantStruct>(V)) {
            J.value("ag");
            for (auto& E : CS->operands()) ref(E.get(), depth + 1);
        }
        else J.value("k");
        J.arrayEnd();
    }
    std::string ty(const Type* T) {
        std::string s; raw_string_ostream os(s);
        if (T->isStructTy() && cast<StructType>(T)->hasName()) return FieldNamer::structQual((StructType*) T);
        T->print(os); return os.str();
    }
    void inst(const Instruction& I) {
        J.objectBegin();
        J.attribute("o", I.getOpcodeName());
        auto it = ids.find(&I);
        if (it != ids.end()) J.attribute("i", it->second);
        int l = loc(I); if (l >= 0) J.attribute("l", l);
        auto refs = [&](const char* key, ArrayRef<const Value*> vs) {
            J.attributeArray(key, [&] { for (auto* v : vs) ref(v); });
        };
        if (!I.getType()->isVoidTy()) J.attribute("t", ty(I.getType()));
        if (auto* L = dyn_cast<LoadInst>(&I)) {
            refs("a", {L->getPointerOperand()});
            J.attribute("sz", (int64_t) DL.getTypeStoreSize(L->getType()).getFixedValue());
            if (L->isVolatile()) J.attribute("vol", 1);
            if (L->isAtomic()) J.attribute("ord", (int) L->getOrdering());
        } else if (auto* S = dyn_cast<StoreInst>(&I)) {
            refs("a", {S->getValueOperand(), S->getPointerOperand()});
            J.attribute("sz", (int64_t) DL.getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue());
            if (S->isVolatile()) J.attribute("vol", 1);
            if (S->isAtomic()) J.attribute("ord", (int) S->getOrdering());
        } else if (auto* G = dyn_cast<GetElementPtrInst>(&I)) {
            refs("a", {G->getPointerOperand()});
            J.attributeBegin("st"); steps(cast<GEPOperator>(G)); J.attributeEnd();
        } else if (auto* C = dyn_cast<ICmpInst>(&I)) {
            refs("a", {C->getOperand(0), C->getOperand(1)});
            J.attribute("p", CmpInst::getPredicateName(C->getPredicate()));
            J.attribute("ot", ty(C->getOperand(0)->getType()));
        } else if (auto* C = dyn_cast<FCmpInst>(&I)) {
            refs("a", {C->getOperand(0), C->getOperand(1)});
            J.attribute("p", CmpInst::getPredicateName(C->getPredicate()));
        } else if (auto* P = dyn_cast<PHINode>(&I)) {
            J.attributeArray("ph", [&] {
                for (unsigned k = 0; k < P->getNumIncomingValues(); ++k)
                    J.array([&] { ref(P->getIncomingValue(k)); J.value(bids[P->getIncomingBlock(k)]); });
            });
        } else if (auto* B = dyn_cast<BranchInst>(&I)) {
            if (B->isConditional()) refs("a", {B->getCondition()});
            J.attributeArray("s", [&] { for (unsigned k = 0; k < B->getNumSuccessors(); ++k) J.value(bids[B->getSuccessor(k)]); });
        } else if (auto* SW = dyn_cast<SwitchInst>(&I)) {
            refs("a", {SW->getCondition()});
            J.attribute("ot", ty(SW->getCondition()->getType()));
            J.attribute("d", bids[SW->getDefaultDest()]);
            J.attributeArray("cs", [&] {
                for (auto& c : SW->cases())
                    J.array([&] { J.value(c.getCaseValue()->getSExtValue()); J.value(bids[c.getCaseSuccessor()]); });
            });
        } else if (auto* CB = dyn_cast<CallBase>(&I)) {
            std::vector<const Value*> as;
            for (auto& a : CB->args()) as.push_back(a.get());
            refs("a", as);
            const Value* cv = CB->getCalledOperand()->stripPointerCastsAndAliases();
            if (auto* F = dyn_cast<Function>(cv)) {
                J.attribute("f", F->getName()); J.attribute("q", qname(F));
                if (F->isDeclaration()) J.attribute("decl", 1);
            } else if (auto* A = dyn_cast<InlineAsm>(cv)) {
                J.attribute("asm", A->getAsmString()); J.attribute("con", A->getConstraintString());
            } else { J.attributeBegin("ind"); ref(CB->getCalledOperand()); J.attributeEnd(); }
            if (CB->doesNotReturn()) J.attribute("nr", 1);
            // reference and `this` arguments
            {
                std::vector<int> nn;
                for (unsigned k = 0; k < CB->arg_size(); ++k)
                    if (CB->getArgOperand(k)->getType()->isPointerTy()
                        && (CB->paramHasAttr(k, Attribute::NonNull) || CB->getParamDereferenceableBytes(k)))
                        nn.push_back(k);
                if (!nn.empty()) J.attributeArray("nn", [&] { for (int k : nn) J.value(k); });
            }
            // sret
            if (CB->arg_size() && CB->paramHasAttr(0, Attribute::StructRet)) J.attribute("sret", 1);
        } else if (auto* X = dyn_cast<AtomicCmpXchgInst>(&I)) {
            refs("a", {X->getPointerOperand(), X->getCompareOperand(), X->getNewValOperand()});
            J.attribute("ord", (int) X->getSuccessOrdering());
        } else if (auto* X = dyn_cast<AtomicRMWInst>(&I)) {
            refs("a", {X->getPointerOperand(), X->getValOperand()});
            J.attribute("rmw", AtomicRMWInst::getOperationName(X->getOperation()));
            J.attribute("ord", (int) X->getOrdering());
        } else if (auto* X = dyn_cast<FenceInst>(&I)) {
            J.attribute("ord", (int) X->getOrdering());
        } else if (auto* A = dyn_cast<AllocaInst>(&I)) {
            J.attribute("at", ty(A->getAllocatedType()));
            J.attribute("asz", (int64_t) DL.getTypeAllocSize(A->getAllocatedType()).getFixedValue());
            refs("a", {A->getArraySize()});
        } else if (auto* E = dyn_cast<ExtractValueInst>(&I)) {
            refs("a", {E->getAggregateOperand()});
            J.attributeArray("ix", [&] { for (auto x : E->indices()) J.value((int64_t) x); });
        } else if (auto* E = dyn_cast<InsertValueInst>(&I)) {
            refs("a", {E->getAggregateOperand(), E->getInsertedValueOperand()});
            J.attributeArray("ix", [&] { for (auto x : E->indices()) J.value((int64_t) x); });
        } else {
            std::vector<const Value*> as;
            for (auto& a : I.operands()) as.push_back(a.get());
            refs("a", as);
            if (auto* K = dyn_cast<CastInst>(&I)) {
                Type* S = K->getSrcTy();
                J.attribute("st0", S->isIntegerTy() ? (int64_t) S->getIntegerBitWidth() : 64);
            }
        }
        J.objectEnd();
    }
    void function(Function& F) {
        ids.clear(); bids.clear();
        int n = 0, b = 0;
        for (auto& A : F.args()) ids[&A] = n++;
        for (auto& B : F) { bids[&B] = b++; for (auto& I : B) if (!I.getType()->isVoidTy()) ids[&I] = n++; }
        J.object([&] {
            J.attribute("name", F.getName()); J.attribute("q", qname(&F)); J.attribute("dem", demangle(F.getName().str()));
            J.attribute("rt", ty(F.getReturnType()));
            if (auto* sp = F.getSubprogram()) { J.attribute("file", base(sp->getFilename())); J.attribute("line", (int64_t) sp->getLine()); }
            J.attributeArray("args", [&] { for (auto& A : F.args()) J.array([&] {
                J.value(A.getName()); J.value(ty(A.getType())); 
                J.value(A.hasStructRetAttr() ? 1 : 0); 
                J.value(A.hasByValAttr() ? 1 : 0); }); });
            J.attributeArray("blocks", [&] {
                for (auto& B : F) J.array([&] { for (auto& I : B) if (!isIgnorableIntrinsic(I)) inst(I); });
            });
        });
    }
};

int main(int argc, char** argv) {
    std::string specf, outf; std::vector<std::string> mods;
    bool list = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--spec") specf = argv[++i];
        else if (a == "--out") outf = argv[++i];
        else if (a == "--list") list = true;
        else mods.push_back(a);
    }
    LLVMContext Ctx; SMDiagnostic Err;
    Ctx.setDiscardValueNames(false);
    std::unique_ptr<Module> M;
    for (auto& m : mods) {
        auto N = parseIRFile(m, Err, Ctx);
        if (!N) { Err.print("irx", errs()); return 2; }
        if (!M) M = std::move(N);
        else if (Linker::linkModules(*M, std::move(N))) { errs() << "irx: link failed: " << m << "\n"; return 2; }
    }
    if (list) {
        for (auto& F : *M) if (!F.isDeclaration()) outs() << qname(&F) << "\t" << demangle(F.getName().str()) << "\n";
        return 0;
    }
    Spec S;
    {
        std::ifstream in(specf); std::string line;
        while (std::getline(in, line)) {
            size_t sp = line.find(' ');
            if (line.empty() || line[0] == '#' || sp == std::string::npos) continue;
            std::string k = line.substr(0, sp), v = line.substr(sp + 1);
            while (!v.empty() && isspace((unsigned char) v.back())) v.pop_back();
            if (k == "root") { S.root.emplace_back(v); S.rootS.push_back(v); }
            else if (k == "keep") S.keep.emplace_back(v);
            else if (k == "erase") S.erase.emplace_back(v);
            else if (k == "maxinst") S.maxinst = std::stoul(v);
        }
    }
    FieldNamer FN(*M);
    // clone roots so that flattening one root does not disturb another
    std::vector<Function*> roots, clones;
    for (auto& F : *M)
        if (!F.isDeclaration()) {
            F.removeFnAttr(Attribute::OptimizeNone);
            F.removeFnAttr(Attribute::NoInline);
            eraseCalls(F, S);
            if (Spec::any(S.root, qname(&F))) roots.push_back(&F);
        }
    std::vector<std::string> notes;
    for (auto* F : roots) {
        ValueToValueMapTy VM;
        Function* C = CloneFunction(F, VM);
        qcache[C] = qname(F);
        C->setName(F->getName() + ".flat");
        clones.push_back(C);
    }
    for (auto* F : clones) flatten(*F, S, notes);

    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    FunctionPassManager FPM;
    FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
    SimplifyCFGOptions O;
    O.BonusInstThreshold = 0; O.SpeculateBlocks = false; O.SimplifyCondBranch = false;
    O.HoistCommonInsts = false; O.SinkCommonInsts = false; O.ConvertSwitchToLookupTable = false;
    O.NeedCanonicalLoop = true;
    FPM.addPass(SimplifyCFGPass(O));
    for (auto* F : clones) FPM.run(*F, FAM);

    std::error_code EC; raw_fd_ostream os(outf, EC);
    if (EC) { errs() << EC.message() << "\n"; return 2; }
    json::OStream J(os);
    J.object([&] {
        Exporter X(*M, FN, J);
        J.attributeArray("functions", [&] { for (auto* F : clones) X.function(*F); });
        J.attributeArray("locs", [&] { for (auto& l : X.locs) J.value(l); });
        J.attributeArray("notes", [&] { for (auto& l : notes) J.value(l); });
        J.attributeObject("enums", [&] {
            DebugInfoFinder F; F.processModule(*M);
            std::map<std::string, int64_t> seen;
            for (auto* T : F.types())
                if (auto* C = dyn_cast<DICompositeType>(T))
                    if (C->getTag() == dwarf::DW_TAG_enumeration_type)
                        for (auto* e : C->getElements())
                            if (auto* en = dyn_cast<DIEnumerator>(e)) {
                                std::string q = FieldNamer::qual(C);
                                std::string k;
                                if (!C->getName().empty()) k = q + "::" + en->getName().str();
                                else if (C->getScope() && isa<DICompositeType>(C->getScope())) k = FieldNamer::qual(C->getScope()) + "::" + en->getName().str();
                                else k = en->getName().str();
                                seen.emplace(k, (int64_t) en->getValue().getSExtValue());
                            }
            for (auto& p : seen) J.attribute(p.first, p.second);
        });
        J.attributeObject("members", [&] {
            for (auto& p : FN.byName) {
                if (p.first.empty() || p.first.compare(0, 5, "std::") == 0) continue;
                std::vector<std::pair<std::string, int64_t>> v;
                FN.allMembers(p.second[0], 0, 0, v);
                if (v.empty()) continue;
                J.attributeArray(p.first, [&] { for (auto& m : v) J.array([&] { J.value(m.first); J.value(m.second); }); });
            }
        });
        J.attributeObject("structs", [&] {
            std::set<std::string> done;
            for (auto* ST : M->getIdentifiedStructTypes())
                if (ST->isSized() && !ST->isOpaque()) {
                    std::string q = FieldNamer::structQual(ST);
                    if (q.compare(0, 5, "std::") == 0 || !done.insert(q).second) continue;
                    auto* SL = M->getDataLayout().getStructLayout(ST);
                    auto& f = FN.fields(ST);
                    J.attributeObject(q, [&] {
                        J.attribute("size", (int64_t) SL->getSizeInBytes());
                        J.attributeArray("fields", [&] { for (unsigned i = 0; i < f.size(); ++i) J.array([&] { J.value(f[i]); J.value((int64_t) SL->getElementOffset(i).getFixedValue()); 
                            std::string s; raw_string_ostream o(s); ST->getElementType(i)->print(o); J.value(o.str().substr(0, 80));}); });
                    });
                }
        });
    });
    return 0;
}
