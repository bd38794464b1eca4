// Rule align: no wide vector access assumes alignment of memory that the program did not align itself.
#include "core.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"

namespace
{
bool guarded(Value * P, unsigned need, BasicBlock * BB);

// does V (a bool) say that P is a multiple of some alignment >= need
bool saysAligned(Value * V, Value * P, unsigned need, int depth = 0)
{
    if (depth > 3)
        return false;
    V = stripCasts(V);
    if (auto * C = dyn_cast<ICmpInst>(V))
    {
        if (C->getPredicate() == ICmpInst::ICMP_NE)
        {
            // a converted bool compared with zero
            auto * K = dyn_cast<ConstantInt>(C->getOperand(1));
            return K && K->isZero() && stripCasts(C->getOperand(0))->getType()->isIntegerTy(1) && saysAligned(C->getOperand(0), P, need, depth + 1);
        }
        if (C->getPredicate() != ICmpInst::ICMP_EQ)
            return false;
        auto * K = dyn_cast<ConstantInt>(C->getOperand(1));
        auto * B = dyn_cast<BinaryOperator>(stripCasts(C->getOperand(0)));
        if (! K || ! K->isZero() || ! B)
            return false;
        auto * M = dyn_cast<ConstantInt>(B->getOperand(1));
        if (! M)
            return false;
        uint64_t m = M->getZExtValue();
        if (! (B->getOpcode() == Instruction::And && (m & (need - 1)) == need - 1) && ! (B->getOpcode() == Instruction::URem && m % need == 0))
            return false;
        Value * W = stripCasts(B->getOperand(0));
        // alignment of two pointers tested at once
        SmallVector<Value *, 4> ws{ W };
        while (! ws.empty())
        {
            Value * w = stripCasts(ws.pop_back_val());
            if (w == P)
                return true;
            if (auto * O = dyn_cast<BinaryOperator>(w); O && O->getOpcode() == Instruction::Or)
                ws.append({ O->getOperand(0), O->getOperand(1) });
        }
        return false;
    }
    if (auto * B = dyn_cast<BinaryOperator>(V); B && B->getOpcode() == Instruction::And)
        return saysAligned(B->getOperand(0), P, need, depth + 1) || saysAligned(B->getOperand(1), P, need, depth + 1);
    if (auto * S = dyn_cast<SelectInst>(V))
    {
        auto * K = dyn_cast<ConstantInt>(S->getFalseValue());
        return K && K->isZero() && (saysAligned(S->getCondition(), P, need, depth + 1) || saysAligned(S->getTrueValue(), P, need, depth + 1));
    }
    if (auto * N = dyn_cast<PHINode>(V))
    {
        for (unsigned i = 0; i < N->getNumIncomingValues(); ++i)
        {
            auto * K = dyn_cast<ConstantInt>(N->getIncomingValue(i));
            if (! (K && K->isZero()) && ! saysAligned(N->getIncomingValue(i), P, need, depth + 1) && ! guarded(P, need, N->getIncomingBlock(i)))
                return false;
        }
        return true;
    }
    if (auto * CB = dyn_cast<CallBase>(V))
    {
        Function * F = directCallee(CB);
        if (! F || F->isDeclaration())
            return false;
        for (unsigned i = 0; i < CB->arg_size() && i < F->arg_size(); ++i)
            if (CB->getArgOperand(i)->stripPointerCasts() == P)
                for (BasicBlock & B : *F)
                    if (auto * R = dyn_cast<ReturnInst>(B.getTerminator()))
                        if (R->getReturnValue() && saysAligned(R->getReturnValue(), F->getArg(i), need, depth + 1))
                            return true;
    }
    return false;
}

Instruction * access; // the access judged
std::map<Function *, std::unique_ptr<DominatorTree>> dts;
DominatorTree & domTree(Function * F)
{
    auto & p = dts[F];
    if (! p)
        p = std::make_unique<DominatorTree>(*F);
    return *p;
}

bool guarded(Value * P, unsigned need, BasicBlock * BB)
{
    DominatorTree * dt = &domTree(BB->getParent());
    for (auto * N = dt->getNode(BB); N; N = N->getIDom())
        if (auto * Br = dyn_cast<BranchInst>(N->getBlock()->getTerminator()); Br && Br->isConditional())
            if (saysAligned(Br->getCondition(), P, need) && dt->dominates(BasicBlockEdge(N->getBlock(), Br->getSuccessor(0)), BB))
                return true;
    return false;
}

// largest power of two (up to 64) every address this step can add is a multiple of
unsigned stepAlign(GEPOperator * G, const DataLayout & DL)
{
    uint64_t a = 64;
    auto fit = [&](uint64_t v)
    {
        while (a > 1 && v % a)
            a /= 2;
    };
    for (auto GTI = gep_type_begin(G), E = gep_type_end(G); GTI != E; ++GTI)
    {
        if (StructType * S = GTI.getStructTypeOrNull())
        {
            fit(DL.getStructLayout(S)->getElementOffset(cast<ConstantInt>(GTI.getOperand())->getZExtValue()));
            continue;
        }
        uint64_t size = DL.getTypeAllocSize(GTI.getIndexedType());
        auto times = [&](Value * V) -> uint64_t
        {
            // a factor of the index that is visible
            uint64_t f = 1;
            for (int d = 0; d < 6; ++d)
            {
                V = stripCasts(V);
                if (auto * K = dyn_cast<ConstantInt>(V))
                    return K->isZero() ? 64 : f * (K->getZExtValue() & -K->getZExtValue());
                auto * B = dyn_cast<BinaryOperator>(V);
                if (! B)
                    return f;
                auto * K = dyn_cast<ConstantInt>(B->getOperand(1));
                if (! K || K->isZero())
                    return f;
                uint64_t k = K->getZExtValue();
                if (B->getOpcode() == Instruction::Shl && k < 6)
                    f <<= k;
                else if (B->getOpcode() == Instruction::Mul)
                    f *= k & -k;
                else if (B->getOpcode() == Instruction::And)
                    return std::max<uint64_t>(f, f * (k & -k));
                else
                    return f;
                V = B->getOperand(0);
            }
            return f;
        };
        fit(size * std::min<uint64_t>(64, times(GTI.getOperand())));
    }
    return a;
}

bool own(Ctx & X, Value * P, unsigned need, DenseSet<Value *> & seen, int depth, std::string & why)
{
    P = P->stripPointerCasts();
    if (guarded(P, need, access->getParent()))
    {
        X.count("accesses_under_alignment_test");
        return true;
    }
    if (! seen.insert(P).second)
        return true;
    if (depth > 8)
    {
        why = "unresolved";
        return false;
    }
    if (isa<GlobalVariable>(P) || isa<AllocaInst>(P))
        return true;
    if (auto * G = dyn_cast<GEPOperator>(P))
    {
        Value * B = getUnderlyingBase(G);
        // inside an object of our own the compiler knows the layout; in an array the distance counts
        if (! isa<AllocaInst>(B) && ! isa<GlobalVariable>(B) && stepAlign(G, X.M.getDataLayout()) < need)
        {
            why = "an address at a distance that is not a multiple of it";
            return false;
        }
        return own(X, G->getPointerOperand(), need, seen, depth, why);
    }
    if (auto * N = dyn_cast<PHINode>(P))
    {
        for (Value * V : N->incoming_values())
            if (! own(X, V, need, seen, depth, why))
                return false;
        return true;
    }
    if (auto * S = dyn_cast<SelectInst>(P))
        return own(X, S->getTrueValue(), need, seen, depth, why) && own(X, S->getFalseValue(), need, seen, depth, why);
    if (auto * A = dyn_cast<Argument>(P))
    {
        Function * F = A->getParent();
        if (X.addressTaken(F) || X.callers(F).empty())
        {
            why = "a pointer parameter of " + X.baseName(F);
            return false;
        }
        Instruction * save = access;
        bool ok = true;
        for (CallBase * CB : X.callers(F))
        {
            access = CB;
            ok = ok && (A->getArgNo() >= CB->arg_size() || own(X, CB->getArgOperand(A->getArgNo()), need, seen, depth + 1, why));
        }
        access = save;
        return ok;
    }
    if (auto * CB = dyn_cast<CallBase>(P))
    {
        // operator new with an explicit alignment, aligned allocation functions
        if (auto * F = directCallee(CB))
        {
            StringRef n = F->getName();
            if (n == "_mm_malloc" || n == "aligned_alloc" || n == "posix_memalign" || n.contains("St11align_val_t"))
                return true;
            if (n == "malloc" && need <= 16)
                return true;
        }
        why = "memory of unknown alignment";
        return false;
    }
    why = isa<LoadInst>(P) ? "a pointer read from memory" : "memory of unknown alignment";
    return false;
}

void run(Ctx & X)
{
    for (Function & F : X.M)
    {
        if (! X.inRepo(&F) || F.isDeclaration())
            continue;
        for (Instruction & I : instructions(F))
        {
            access = &I;
            Value * P;
            Type * T;
            unsigned al;
            bool nt = I.getMetadata("nontemporal");
            if (auto * L = dyn_cast<LoadInst>(&I))
                P = L->getPointerOperand(), T = L->getType(), al = L->getAlign().value();
            else if (auto * S = dyn_cast<StoreInst>(&I))
                P = S->getPointerOperand(), T = S->getValueOperand()->getType(), al = S->getAlign().value();
            else
            {
                // a promise to the compiler that an address is aligned
                if (auto * A = dyn_cast<AssumeInst>(&I))
                    for (unsigned b = 0; b < A->getNumOperandBundles(); ++b)
                    {
                        auto U = A->getOperandBundleAt(b);
                        if (U.getTagName() != "align" || U.Inputs.size() != 2 || ! isa<ConstantInt>(U.Inputs[1]))
                            continue;
                        unsigned n = cast<ConstantInt>(U.Inputs[1])->getZExtValue();
                        if (n < 16)
                            continue;
                        X.count("alignment_promises_checked");
                        DenseSet<Value *> seen;
                        std::string why;
                        if (! own(X, U.Inputs[0], n, seen, 0, why))
                            X.finding("align", "align:" + X.baseName(&F), &I, &F, std::to_string(n) + "-byte alignment is promised to the compiler for " + why);
                    }
                continue;
            }
            if (T && ! T->isVectorTy())
            {
                // a scalar of a type declared over-aligned
                unsigned f;
                if (al < 16 || al <= X.M.getDataLayout().getABITypeAlign(T).value() || ! (T->isIntegerTy() || T->isFloatingPointTy()) || gepStruct(P, f))
                    continue;
                // the first member of a record looks the same: only elements of arrays count
                auto * E = dyn_cast<GEPOperator>(P);
                if (! E || E->getSourceElementType() != T)
                    continue;
                Value * B = getUnderlyingBase(P);
                if (isa<AllocaInst>(B) || isa<GlobalVariable>(B))
                    continue;
                X.count("over_aligned_scalar_accesses");
            }
            X.count("vector_accesses");
            if (al < 16)
            {
                X.count("vector_accesses_unaligned_allowed");
                continue;
            }
            X.count("aligned_accesses_checked");
            DenseSet<Value *> seen;
            std::string why;
            if (own(X, P, al, seen, 0, why))
                continue;
            X.finding("align", "align:" + X.baseName(&F), &I, &F,
                      std::string(isa<LoadInst>(I) ? "load of " : "store of ") + std::to_string(al) + "-byte aligned vector through " + why + (nt ? " (streaming)" : ""));
        }
    }
}
RuleReg reg("align", run);
}
