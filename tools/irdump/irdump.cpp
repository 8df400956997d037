// irdump - dump LLVM IR (SSA form) as JSON for the analyses in /verif/kv.
// One output object per module.  No transformation is done here.
#include <llvm/ADT/DenseMap.h>
#include <llvm/ADT/MapVector.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <cstring>
#include <map>
#include <string>

using namespace llvm;

static const DataLayout *DL;
static raw_ostream *OSP;
#define O (*OSP)

static void jstr(StringRef s)
{
    O << '"';
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            O << '\\' << c;
        } else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            O << b;
        } else {
            O << c;
        }
    }
    O << '"';
}

static void jtype(Type *t)
{
    std::string s;
    raw_string_ostream os(s);
    if (auto *st = dyn_cast<StructType>(t); st && !st->isLiteral()) {
        // expand named structs so that types are self-contained
        O << "\"%s\"";
        return;
    }
    t->print(os);
    jstr(os.str());
}

static uint64_t tsize(Type *t)
{
    if (!t->isSized()) return 0;
    return DL->getTypeStoreSize(t).getFixedValue();
}

// layout of an aggregate type as nested list: ["s",[ [off,layout],...]] or leaf ["l",typestr,size]
static void jlayout(Type *t)
{
    if (auto *st = dyn_cast<StructType>(t)) {
        const auto *sl = DL->getStructLayout(st);
        O << "[\"a\",[";
        for (unsigned i = 0; i < st->getNumElements(); ++i) {
            if (i) O << ',';
            O << '[' << sl->getElementOffset(i) << ',';
            jlayout(st->getElementType(i));
            O << ']';
        }
        O << "]]";
    } else if (auto *at = dyn_cast<ArrayType>(t)) {
        O << "[\"a\",[";
        auto es = DL->getTypeAllocSize(at->getElementType()).getFixedValue();
        for (uint64_t i = 0; i < at->getNumElements() && i < 4096; ++i) {
            if (i) O << ',';
            O << '[' << i * es << ',';
            jlayout(at->getElementType());
            O << ']';
        }
        O << "]]";
    } else if (auto *vt = dyn_cast<FixedVectorType>(t)) {
        O << "[\"a\",[";
        auto es = DL->getTypeStoreSize(vt->getElementType()).getFixedValue();
        for (uint64_t i = 0; i < vt->getNumElements(); ++i) {
            if (i) O << ',';
            O << '[' << i * es << ',';
            jlayout(vt->getElementType());
            O << ']';
        }
        O << "]]";
    } else {
        O << "[\"l\",";
        jtype(t);
        O << ',' << tsize(t) << ']';
    }
}

static DenseMap<const Value *, unsigned> ids;
static std::map<const Metadata *, unsigned> locIds;
static std::vector<const DILocation *> locs;

static unsigned locId(const DILocation *l)
{
    if (!l) return 0;
    auto it = locIds.find(l);
    if (it != locIds.end()) return it->second;
    if (const auto *ia = l->getInlinedAt()) locId(ia);
    locs.push_back(l);
    unsigned id = locs.size();
    locIds[l] = id;
    return id;
}

static void jconst(const Constant *c, int depth);

static bool constPtr(const Constant *c, std::string &base, int64_t &off)
{
    APInt o(64, 0);
    const Value *v = c->stripAndAccumulateConstantOffsets(*DL, o, true);
    if (isa<GlobalValue>(v)) {
        base = v->getName().str();
        off = o.getSExtValue();
        return true;
    }
    return false;
}

static void jconst(const Constant *c, int depth = 0)
{
    if (const auto *ci = dyn_cast<ConstantInt>(c)) {
        O << "[\"i\"," << ci->getBitWidth() << ",\"";
        ci->getValue().print(O, false);
        O << "\"]";
    } else if (const auto *cf = dyn_cast<ConstantFP>(c)) {
        if (c->getType()->isDoubleTy()) {
            auto bits = cf->getValueAPF().bitcastToAPInt().getZExtValue();
            O << "[\"f\",\"" << bits << "\"]";
        } else {
            SmallString<64> s;
            cf->getValueAPF().toString(s);
            O << "[\"F\",";
            jstr(s);
            O << ']';
        }
    } else if (isa<ConstantPointerNull>(c)) {
        O << "[\"n\"]";
    } else if (isa<UndefValue>(c)) {
        O << "[\"u\"]";
    } else if (isa<ConstantAggregateZero>(c)) {
        O << "[\"z\",";
        jlayout(c->getType());
        O << ']';
    } else if (const auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        O << "[\"agg\",[";
        for (unsigned i = 0; i < cd->getNumElements(); ++i) {
            if (i) O << ',';
            jconst(cd->getElementAsConstant(i), depth + 1);
        }
        O << "]]";
    } else if (const auto *ca = dyn_cast<ConstantAggregate>(c)) {
        O << "[\"agg\",[";
        for (unsigned i = 0; i < ca->getNumOperands(); ++i) {
            if (i) O << ',';
            jconst(cast<Constant>(ca->getOperand(i)), depth + 1);
        }
        O << "]]";
    } else if (c->getType()->isPointerTy()) {
        std::string b;
        int64_t off = 0;
        if (constPtr(c, b, off)) {
            O << "[\"g\",";
            jstr(b);
            O << ',' << off << ']';
        } else {
            O << "[\"?\"]";
        }
    } else if (const auto *ce = dyn_cast<ConstantExpr>(c)) {
        O << "[\"ce\",";
        jstr(ce->getOpcodeName());
        for (const auto &op : ce->operands()) {
            O << ',';
            jconst(cast<Constant>(op.get()), depth + 1);
        }
        O << ']';
    } else {
        O << "[\"?\"]";
    }
}

static void jval(const Value *v)
{
    if (const auto *c = dyn_cast<Constant>(v)) {
        jconst(c);
        return;
    }
    auto it = ids.find(v);
    if (it != ids.end()) {
        O << it->second;
        return;
    }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) {
        O << "[\"m\"]";
        return;
    }
    O << "[\"?\"]";
}

// initialiser of a global flattened to [offset, size, const]
static bool firstCell;
static void flat(const Constant *c, uint64_t off)
{
    Type *t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return; // zero is the default
    if (const auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        if (cd->isString() || cd->getElementType()->isIntegerTy(8)) {
            if (!firstCell) O << ',';
            firstCell = false;
            O << '[' << off << ',' << cd->getNumElements() << ",[\"s\",";
            std::string hex;
            static const char *d = "0123456789abcdef";
            for (unsigned char ch : cd->getRawDataValues()) {
                hex += d[ch >> 4];
                hex += d[ch & 15];
            }
            jstr(hex);
            O << "]]";
            return;
        }
        auto es = DL->getTypeAllocSize(cd->getElementType()).getFixedValue();
        for (unsigned i = 0; i < cd->getNumElements(); ++i) flat(cd->getElementAsConstant(i), off + i * es);
        return;
    }
    if (const auto *cs = dyn_cast<ConstantStruct>(c)) {
        const auto *sl = DL->getStructLayout(cs->getType());
        for (unsigned i = 0; i < cs->getNumOperands(); ++i) flat(cs->getOperand(i), off + sl->getElementOffset(i));
        return;
    }
    if (const auto *ca = dyn_cast<ConstantArray>(c)) {
        auto es = DL->getTypeAllocSize(ca->getType()->getElementType()).getFixedValue();
        for (unsigned i = 0; i < ca->getNumOperands(); ++i) flat(ca->getOperand(i), off + i * es);
        return;
    }
    if (!firstCell) O << ',';
    firstCell = false;
    O << '[' << off << ',' << tsize(t) << ',';
    jconst(c);
    O << ']';
}

static void jinst(const Instruction &I)
{
    O << "[\"" << I.getOpcodeName() << "\",";
    auto it = ids.find(&I);
    if (it != ids.end())
        O << it->second;
    else
        O << -1;
    O << ',' << locId(I.getDebugLoc().get()) << ',';
    auto comma = [] { O << ','; };
    if (const auto *a = dyn_cast<AllocaInst>(&I)) {
        O << DL->getTypeAllocSize(a->getAllocatedType()).getFixedValue();
        comma();
        jval(a->getArraySize());
    } else if (const auto *l = dyn_cast<LoadInst>(&I)) {
        jlayout(l->getType());
        comma();
        jval(l->getPointerOperand());
        O << ',' << (l->isAtomic() ? 1 : 0);
    } else if (const auto *s = dyn_cast<StoreInst>(&I)) {
        jlayout(s->getValueOperand()->getType());
        comma();
        jval(s->getValueOperand());
        comma();
        jval(s->getPointerOperand());
        O << ',' << (s->isAtomic() ? 1 : 0);
    } else if (const auto *g = dyn_cast<GetElementPtrInst>(&I)) {
        jval(g->getPointerOperand());
        comma();
        unsigned bw = DL->getIndexSizeInBits(0);
        MapVector<Value *, APInt> vo;
        APInt co(bw, 0);
        if (g->getType()->isVectorTy() || !g->collectOffset(*DL, bw, vo, co)) {
            O << "0,[[0,[\"?\"]]]";
        } else {
            O << co.getSExtValue() << ",[";
            bool f = true;
            for (auto &p : vo) {
                if (!f) O << ',';
                f = false;
                O << '[' << p.second.getSExtValue() << ',';
                jval(p.first);
                O << ',' << p.first->getType()->getIntegerBitWidth() << ']';
            }
            O << ']';
        }
    } else if (const auto *c = dyn_cast<CmpInst>(&I)) {
        jstr(CmpInst::getPredicateName(c->getPredicate()));
        comma();
        jval(c->getOperand(0));
        comma();
        jval(c->getOperand(1));
        comma();
        jtype(c->getOperand(0)->getType());
    } else if (const auto *p = dyn_cast<PHINode>(&I)) {
        jtype(p->getType());
        O << ",[";
        for (unsigned i = 0; i < p->getNumIncomingValues(); ++i) {
            if (i) O << ',';
            O << '[' << ids[p->getIncomingBlock(i)] << ',';
            jval(p->getIncomingValue(i));
            O << ']';
        }
        O << ']';
    } else if (const auto *cb = dyn_cast<CallBase>(&I)) {
        jtype(cb->getType());
        comma();
        jval(cb->getCalledOperand());
        O << ",[";
        for (unsigned i = 0; i < cb->arg_size(); ++i) {
            if (i) O << ',';
            jval(cb->getArgOperand(i));
        }
        O << ']';
        if (const auto *iv = dyn_cast<InvokeInst>(cb)) {
            O << ',' << ids[iv->getNormalDest()] << ',' << ids[iv->getUnwindDest()];
        }
    } else if (const auto *b = dyn_cast<BranchInst>(&I)) {
        if (b->isConditional()) {
            jval(b->getCondition());
            O << ',' << ids[b->getSuccessor(0)] << ',' << ids[b->getSuccessor(1)];
        } else {
            O << "null," << ids[b->getSuccessor(0)];
        }
    } else if (const auto *sw = dyn_cast<SwitchInst>(&I)) {
        jval(sw->getCondition());
        O << ',' << ids[sw->getDefaultDest()] << ",[";
        bool f = true;
        for (auto &cs : sw->cases()) {
            if (!f) O << ',';
            f = false;
            O << "[\"";
            cs.getCaseValue()->getValue().print(O, false);
            O << "\"," << ids[cs.getCaseSuccessor()] << ']';
        }
        O << ']';
    } else if (const auto *ev = dyn_cast<ExtractValueInst>(&I)) {
        jval(ev->getAggregateOperand());
        O << ",[";
        bool f = true;
        for (auto i : ev->indices()) {
            if (!f) O << ',';
            f = false;
            O << i;
        }
        O << ']';
    } else if (const auto *iv = dyn_cast<InsertValueInst>(&I)) {
        jval(iv->getAggregateOperand());
        comma();
        jval(iv->getInsertedValueOperand());
        O << ",[";
        bool f = true;
        for (auto i : iv->indices()) {
            if (!f) O << ',';
            f = false;
            O << i;
        }
        O << "],";
        jlayout(iv->getType());
    } else if (const auto *lp = dyn_cast<LandingPadInst>(&I)) {
        O << (lp->isCleanup() ? 1 : 0) << ",[";
        for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
            if (i) O << ',';
            O << '[' << (lp->isCatch(i) ? 1 : 0) << ',';
            jval(lp->getClause(i));
            O << ']';
        }
        O << ']';
    } else if (const auto *sv = dyn_cast<ShuffleVectorInst>(&I)) {
        jval(sv->getOperand(0));
        comma();
        jval(sv->getOperand(1));
        O << ",[";
        bool f = true;
        for (int m : sv->getShuffleMask()) {
            if (!f) O << ',';
            f = false;
            O << m;
        }
        O << ']';
        O << ',' << cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements();
    } else if (const auto *rmw = dyn_cast<AtomicRMWInst>(&I)) {
        jstr(AtomicRMWInst::getOperationName(rmw->getOperation()));
        comma();
        jlayout(rmw->getValOperand()->getType());
        comma();
        jval(rmw->getPointerOperand());
        comma();
        jval(rmw->getValOperand());
    } else {
        // generic: type, source type, operands
        jtype(I.getType());
        comma();
        if (I.getNumOperands() > 0)
            jtype(I.getOperand(0)->getType());
        else
            O << "null";
        O << ",[";
        for (unsigned i = 0; i < I.getNumOperands(); ++i) {
            if (i) O << ',';
            if (isa<BasicBlock>(I.getOperand(i)))
                O << ids[I.getOperand(i)];
            else
                jval(I.getOperand(i));
        }
        O << ']';
    }
    O << ']';
}

int main(int argc, char **argv)
{
    if (argc != 3) {
        errs() << "usage: irdump in.bc out.json\n";
        return 2;
    }
    LLVMContext ctx;
    SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, ctx);
    if (!M) {
        err.print("irdump", errs());
        return 2;
    }
    std::error_code ec;
    raw_fd_ostream os(argv[2], ec);
    OSP = &os;
    DL = &M->getDataLayout();

    O << "{\"source\":";
    jstr(M->getSourceFileName());
    O << ",\"globals\":[";
    bool first = true;
    for (const auto &g : M->globals()) {
        if (!first) O << ',';
        first = false;
        O << "\n[";
        jstr(g.getName());
        O << ',' << (g.isConstant() ? 1 : 0) << ',' << (g.hasInitializer() ? 1 : 0) << ','
          << (g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 0) << ','
          << (g.isThreadLocal() ? 1 : 0) << ",[";
        if (g.hasInitializer()) {
            firstCell = true;
            flat(g.getInitializer(), 0);
        }
        O << "],";
        SmallVector<DIGlobalVariableExpression *, 1> gves;
        g.getDebugInfo(gves);
        if (!gves.empty()) {
            jstr(gves[0]->getVariable()->getFilename());
            O << ',' << gves[0]->getVariable()->getLine();
        } else {
            O << "null,0";
        }
        O << ',' << (g.hasLocalLinkage() ? 1 : 0) << ']';
    }
    O << "],\"aliases\":[";
    first = true;
    for (const auto &a : M->aliases()) {
        if (!first) O << ',';
        first = false;
        O << '[';
        jstr(a.getName());
        O << ',';
        jstr(a.getAliasee()->stripPointerCasts()->getName());
        O << ']';
    }
    O << "],\"funcs\":[";
    first = true;
    for (const auto &F : *M) {
        if (!first) O << ',';
        first = false;
        O << "\n{\"name\":";
        jstr(F.getName());
        O << ",\"dem\":";
        jstr(demangle(F.getName().str()));
        O << ",\"decl\":" << (F.isDeclaration() ? 1 : 0) << ",\"internal\":" << (F.hasLocalLinkage() ? 1 : 0)
          << ",\"ro\":" << (F.onlyReadsMemory() ? 1 : 0) << ",\"linkonce\":"
          << ((F.hasLinkOnceLinkage() || F.hasWeakLinkage()) ? 1 : 0);
        if (auto *sp = F.getSubprogram()) {
            O << ",\"file\":";
            jstr(sp->getFilename());
            O << ",\"line\":" << sp->getLine();
        }
        ids.clear();
        unsigned n = 0;
        O << ",\"args\":[";
        bool f2 = true;
        for (const auto &A : F.args()) {
            ids[&A] = n++;
            if (!f2) O << ',';
            f2 = false;
            jtype(A.getType());
        }
        O << "],\"byval\":[";
        f2 = true;
        for (unsigned i = 0; i < F.arg_size(); ++i) {
            if (!F.hasParamAttribute(i, Attribute::ByVal)) continue;
            if (!f2) O << ',';
            f2 = false;
            O << '[' << i << ',' << DL->getTypeAllocSize(F.getParamByValType(i)).getFixedValue() << ']';
        }
        O << "],\"sret\":" << ((F.arg_size() && F.hasParamAttribute(0, Attribute::StructRet)) ? 1 : 0);
        if (!F.isDeclaration()) {
            unsigned b = 0;
            for (const auto &BB : F) ids[&BB] = b++;
            for (const auto &BB : F)
                for (const auto &I : BB)
                    if (!I.getType()->isVoidTy()) ids[&I] = n++;
            // loop headers
            DominatorTree DT(const_cast<Function &>(F));
            LoopInfo LI(DT);
            O << ",\"loops\":[";
            bool f3 = true;
            for (auto *L : LI.getLoopsInPreorder()) {
                if (!f3) O << ',';
                f3 = false;
                O << '[' << ids[L->getHeader()] << ",[";
                bool f4 = true;
                for (auto *BB : L->blocks()) {
                    if (!f4) O << ',';
                    f4 = false;
                    O << ids[BB];
                }
                O << "]]";
            }
            O << "],\"n\":" << n << ",\"blocks\":[";
            bool fb = true;
            for (const auto &BB : F) {
                if (!fb) O << ',';
                fb = false;
                O << "\n[";
                bool fi = true;
                for (const auto &I : BB) {
                    if (isa<DbgInfoIntrinsic>(I)) continue;
                    if (!fi) O << ",\n ";
                    fi = false;
                    jinst(I);
                }
                O << ']';
            }
            O << ']';
        }
        O << '}';
    }
    O << "],\"locs\":[null";
    for (const auto *l : locs) {
        O << ",\n[";
        const auto *sc = l->getScope()->getSubprogram();
        jstr(l->getFilename());
        O << ',' << l->getLine() << ',' << l->getColumn() << ',';
        jstr(sc ? sc->getName() : "");
        O << ',' << locId(l->getInlinedAt()) << ']';
    }
    O << "]}\n";
    return 0;
}
