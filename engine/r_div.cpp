// Rule div: an integer division or remainder whose divisor is not a constant is executed only where the divisor is known
// to be non-zero.
#include "core.h"

namespace
{
struct NZ
{
    Ctx & X;
    DenseMap<Function *, std::unique_ptr<DominatorTree>> dts;
    int64_t EX = 0; // the value to exclude
    explicit NZ(Ctx & x) : X(x) {}
    DominatorTree & dt(Function * F)
    {
        auto & p = dts[F];
        if (! p)
            p.reset(new DominatorTree(*F));
        return *p;
    }
    // same runtime value: identical, or loads of the same address expression
    static Value * forward(Value * V)
    {
        // a local assigned once whose address is only lent out (captured by reference for logging)
        if (auto * L = dyn_cast<LoadInst>(V))
            if (auto * A = dyn_cast<AllocaInst>(L->getPointerOperand()->stripPointerCasts()))
            {
                StoreInst * only = nullptr;
                for (User * U : A->users())
                    if (auto * S = dyn_cast<StoreInst>(U))
                        if (S->getPointerOperand() == A)
                        {
                            if (only)
                                return V;
                            only = S;
                        }
                if (only && only->getValueOperand()->getType() == V->getType())
                    return stripCasts(only->getValueOperand());
            }
        return V;
    }
    bool same(Value * A, Value * B, int d = 0)
    {
        A = forward(stripCasts(A));
        B = forward(stripCasts(B));
        if (A == B)
            return true;
        if (d > 4)
            return false;
        auto * LA = dyn_cast<LoadInst>(A);
        auto * LB = dyn_cast<LoadInst>(B);
        if (LA && LB)
            return sameAddr(LA->getPointerOperand(), LB->getPointerOperand(), d + 1);
        auto * BA = dyn_cast<BinaryOperator>(A);
        auto * BB = dyn_cast<BinaryOperator>(B);
        if (BA && BB && BA->getOpcode() == BB->getOpcode())
            return same(BA->getOperand(0), BB->getOperand(0), d + 1) && same(BA->getOperand(1), BB->getOperand(1), d + 1);
        return false;
    }
    bool sameAddr(Value * A, Value * B, int d)
    {
        A = A->stripPointerCasts();
        B = B->stripPointerCasts();
        if (A == B)
            return true;
        auto * GA = dyn_cast<GEPOperator>(A);
        auto * GB = dyn_cast<GEPOperator>(B);
        if (GA && GB && GA->getSourceElementType() == GB->getSourceElementType() && GA->getNumOperands() == GB->getNumOperands())
        {
            if (! sameAddr(GA->getPointerOperand(), GB->getPointerOperand(), d))
                return false;
            for (unsigned i = 1; i < GA->getNumOperands(); ++i)
            {
                auto * x = GA->getOperand(i);
                auto * y = GB->getOperand(i);
                if (x != y && ! same(x, y, d + 1))
                    return false;
            }
            return true;
        }
        auto * LA = dyn_cast<LoadInst>(A);
        auto * LB = dyn_cast<LoadInst>(B);
        if (LA && LB && d < 5)
            return sameAddr(LA->getPointerOperand(), LB->getPointerOperand(), d + 1);
        return false;
    }
    // does taking the edge "C is val" imply V != 0
    bool implies(Value * C, bool val, Value * V, int d = 0)
    {
        if (d > 6)
            return false;
        if (auto * B = dyn_cast<BinaryOperator>(C))
        {
            if (B->getOpcode() == Instruction::Xor)
                if (auto * K = dyn_cast<ConstantInt>(B->getOperand(1)))
                    if (K->isOne())
                        return implies(B->getOperand(0), ! val, V, d + 1);
            if ((B->getOpcode() == Instruction::And && val) || (B->getOpcode() == Instruction::Or && ! val))
                return implies(B->getOperand(0), val, V, d + 1) || implies(B->getOperand(1), val, V, d + 1);
            if (B->getOpcode() == Instruction::And || B->getOpcode() == Instruction::Or)
                return implies(B->getOperand(0), val, V, d + 1) && implies(B->getOperand(1), val, V, d + 1);
            return false;
        }
        if (auto * S = dyn_cast<SelectInst>(C))
        {
            // select a, b, false  /  select a, true, b
            auto * F = dyn_cast<ConstantInt>(S->getFalseValue());
            auto * T = dyn_cast<ConstantInt>(S->getTrueValue());
            if (F && F->isZero() && val)
                return implies(S->getCondition(), true, V, d + 1) || implies(S->getTrueValue(), true, V, d + 1);
            if (T && T->isOne() && ! val)
                return implies(S->getCondition(), false, V, d + 1) || implies(S->getFalseValue(), false, V, d + 1);
            if (F && F->isZero())
                return implies(S->getCondition(), false, V, d + 1) && implies(S->getTrueValue(), false, V, d + 1);
            if (T && T->isOne())
                return implies(S->getCondition(), true, V, d + 1) && implies(S->getFalseValue(), true, V, d + 1);
            return false;
        }
        Value * T = stripCasts(C);
        if (T != C)
        {
            if (isa<ICmpInst>(T) || T->getType()->isIntegerTy(1))
                return implies(T, val, V, d + 1);
            return EX == 0 && val && same(T, V);
        }
        auto * IC = dyn_cast<ICmpInst>(C);
        if (! IC)
            return false;
        Value *L = IC->getOperand(0), *R = IC->getOperand(1);
        auto P = val ? IC->getPredicate() : IC->getInversePredicate();
        // boolean wrapped test: icmp ne (zext c), 0
        if (auto * K = dyn_cast<ConstantInt>(R))
            if (K->isZero() && (P == ICmpInst::ICMP_NE || P == ICmpInst::ICMP_EQ))
            {
                Value * Z = stripCasts(L);
                if (Z->getType()->isIntegerTy(1) && Z != L)
                    return implies(Z, P == ICmpInst::ICMP_NE, V, d + 1);
            }
        if (same(R, V) && ! same(L, V))
        {
            std::swap(L, R);
            P = ICmpInst::getSwappedPredicate(P);
        }
        if (! same(L, V))
            return false;
        auto * K = dyn_cast<ConstantInt>(R);
        if (K)
        {
            const APInt & k = K->getValue();
            if (EX != 0)
            {
                APInt e(k.getBitWidth(), EX, true);
                // the relation must be false for V == EX
                return ! ICmpInst::compare(e, k, P);
            }
            switch (P)
            {
            case ICmpInst::ICMP_NE:
                return k == 0;
            case ICmpInst::ICMP_EQ:
                return k != 0;
            case ICmpInst::ICMP_SGT:
                return k.sge(0);
            case ICmpInst::ICMP_SGE:
                return k.sgt(0);
            case ICmpInst::ICMP_UGT:
                return true;
            case ICmpInst::ICMP_UGE:
                return k != 0;
            case ICmpInst::ICMP_SLT:
                return k.sle(0);
            case ICmpInst::ICMP_SLE:
                return k.slt(0);
            default:
                return false;
            }
        }
        // v > something unsigned, or v > non-negative value
        if (EX == 0 && P == ICmpInst::ICMP_UGT)
            return true;
        return false;
    }
    bool guarded(Instruction * At, Value * V)
    {
        auto & DT = dt(At->getFunction());
        BasicBlock * B = At->getParent();
        // walk up the dominator tree looking at edges
        for (auto * N = DT.getNode(B); N && N->getIDom(); N = N->getIDom())
        {
            BasicBlock * Blk = N->getBlock();
            BasicBlock * Dom = N->getIDom()->getBlock();
            Instruction * T = Dom->getTerminator();
            if (auto * BR = dyn_cast<BranchInst>(T))
                if (BR->isConditional())
                    for (int s = 0; s < 2; ++s)
                    {
                        BasicBlockEdge E(Dom, BR->getSuccessor(s));
                        if (BR->getSuccessor(0) != BR->getSuccessor(1) && DT.dominates(E, Blk) && implies(BR->getCondition(), s == 0, V))
                            return true;
                    }
        }
        // no way here on which the value could be the excluded one
        BasicBlock * S = isa<Instruction>(V) && ! isa<LoadInst>(V) ? cast<Instruction>(V)->getParent() : &At->getFunction()->getEntryBlock();
        if (S == B)
            return false;
        DenseSet<BasicBlock *> vis{ S };
        std::vector<BasicBlock *> w{ S };
        while (! w.empty())
        {
            BasicBlock * C = w.back();
            w.pop_back();
            Instruction * T = C->getTerminator();
            auto * BR = dyn_cast<BranchInst>(T);
            auto * SW = dyn_cast<SwitchInst>(T);
            if (SW && same(SW->getCondition(), V))
            {
                BasicBlock * N = SW->findCaseValue(ConstantInt::get(cast<IntegerType>(SW->getCondition()->getType()), EX, true))->getCaseSuccessor();
                if (vis.insert(N).second)
                    w.push_back(N);
                continue;
            }
            for (unsigned i = 0; i < T->getNumSuccessors(); ++i)
            {
                if (BR && BR->isConditional() && BR->getSuccessor(0) != BR->getSuccessor(1) && implies(BR->getCondition(), i == 0, V))
                    continue;
                if (vis.insert(T->getSuccessor(i)).second)
                    w.push_back(T->getSuccessor(i));
            }
        }
        return ! vis.count(B);
    }
    bool nonzero(Value * V, Instruction * At, int d, DenseSet<Value *> & seen)
    {
        if (auto * K = dyn_cast<ConstantInt>(V))
            return ! K->isZero();
        if (auto * KV = dyn_cast<ConstantDataVector>(V))
        {
            for (unsigned i = 0; i < KV->getNumElements(); ++i)
                if (KV->getElementAsAPInt(i) == 0)
                    return false;
            return true;
        }
        if (d > 12)
            return false;
        if (At && guarded(At, V))
            return true;
        if (! seen.insert(V).second)
            return true; // inductive: cycle through phis
        if (auto * C = dyn_cast<CastInst>(V))
        {
            if (isa<SExtInst>(C) || isa<ZExtInst>(C) || isa<TruncInst>(C))
                return nonzero(C->getOperand(0), At, d + 1, seen);
            return false;
        }
        if (auto * P = dyn_cast<PHINode>(V))
        {
            for (unsigned i = 0; i < P->getNumIncomingValues(); ++i)
            {
                Instruction * T = P->getIncomingBlock(i)->getTerminator();
                if (nonzero(P->getIncomingValue(i), T, d + 1, seen))
                    continue;
                // the edge itself may decide
                auto * BR = dyn_cast<BranchInst>(T);
                if (BR && BR->isConditional() && BR->getSuccessor(0) != BR->getSuccessor(1) &&
                    implies(BR->getCondition(), BR->getSuccessor(0) == P->getParent(), P->getIncomingValue(i)))
                    continue;
                return false;
            }
            return true;
        }
        if (auto * S = dyn_cast<SelectInst>(V))
        {
            auto arm = [&](Value * A, bool val)
            {
                return implies(S->getCondition(), val, A) || nonzero(A, At, d + 1, seen);
            };
            return arm(S->getTrueValue(), true) && arm(S->getFalseValue(), false);
        }
        if (auto * B = dyn_cast<BinaryOperator>(V))
        {
            if (B->getOpcode() == Instruction::Or)
                return nonzero(B->getOperand(0), At, d + 1, seen) || nonzero(B->getOperand(1), At, d + 1, seen);
            if (B->getOpcode() == Instruction::Shl)
                return nonzero(B->getOperand(0), At, d + 1, seen);
            if (B->getOpcode() == Instruction::Mul)
                return nonzero(B->getOperand(0), At, d + 1, seen) && nonzero(B->getOperand(1), At, d + 1, seen);
            if (B->getOpcode() == Instruction::Add) // unsigned quantity plus a positive constant
                if (auto * K = dyn_cast<ConstantInt>(B->getOperand(1)))
                    return K->getValue().isStrictlyPositive() && lengthLike(B->getOperand(0), At, d + 1);
            return false;
        }
        if (auto * A = dyn_cast<Argument>(V))
        {
            Function * F = A->getParent();
            if (X.addressTaken(F))
                return false;
            auto & cs = X.callers(F);
            if (cs.empty())
                return false;
            for (CallBase * CB : cs)
            {
                if (A->getArgNo() >= CB->arg_size())
                    return false;
                DenseSet<Value *> s2;
                if (! nonzero(CB->getArgOperand(A->getArgNo()), CB, d + 3, s2))
                    return false;
            }
            return true;
        }
        if (auto * CB = dyn_cast<CallBase>(V))
        {
            Function * D = directCallee(CB);
            if (! D || D->isDeclaration())
                return false;
            bool any = false;
            for (BasicBlock & B : *D)
                if (auto * R = dyn_cast<ReturnInst>(B.getTerminator()))
                {
                    any = true;
                    DenseSet<Value *> s2;
                    if (! R->getReturnValue() || ! nonzero(R->getReturnValue(), R, d + 2, s2))
                        return false;
                }
            return any;
        }
        return false;
    }
    // non-negative: a quotient/size of something that cannot be -k. Only accepts values shown >= 0.
    bool lengthLike(Value * V, Instruction * At, int d)
    {
        if (d > 8)
            return false;
        if (isa<ZExtInst>(V))
            return true;
        if (auto * K = dyn_cast<ConstantInt>(V))
            return ! K->isNegative();
        if (auto * B = dyn_cast<BinaryOperator>(V))
            switch (B->getOpcode())
            {
            case Instruction::UDiv:
            case Instruction::LShr:
                return true;
            case Instruction::SDiv:
            case Instruction::AShr:
                return lengthLike(B->getOperand(0), At, d + 1) && isa<ConstantInt>(B->getOperand(1));
            case Instruction::And:
                if (auto * K = dyn_cast<ConstantInt>(B->getOperand(1)))
                    return ! K->isNegative();
                return false;
            default:
                return false;
            }
        if (auto * S = dyn_cast<SExtInst>(V))
            return lengthLike(S->getOperand(0), At, d + 1);
        return false;
    }
};

// per-element data: a value parameter of an element operation, or a load through an untyped array pointer
bool elementData(Value * V)
{
    if (auto * C = dyn_cast<CastInst>(V))
        if (isa<TruncInst>(C) || isa<SExtInst>(C) || isa<ZExtInst>(C))
            return false; // promoted from a narrower type: cannot overflow
    if (isa<Argument>(V))
        return true;
    if (auto * L = dyn_cast<LoadInst>(V))
    {
        unsigned f;
        return ! gepStruct(L->getPointerOperand(), f) && ! isa<AllocaInst>(getUnderlyingBase(L->getPointerOperand())) &&
               ! isa<GlobalVariable>(getUnderlyingBase(L->getPointerOperand()));
    }
    if (auto * P = dyn_cast<PHINode>(V))
    {
        for (Value * I : P->incoming_values())
            if (I != V && ! isa<PHINode>(I) && elementData(I))
                return true;
    }
    return false;
}
// the element size of an array, or a field of a hash table object (its bucket count, fixed when it was allocated)
bool sizeField(Ctx & X, StructType * ST, unsigned f)
{
    StringRef n = ST->hasName() ? ST->getName() : "";
    if (n.contains("CHashLinear") || n.contains("hashing_graph") || n.contains("is_member_pre_hash_needles") || n.contains("anon"))
    {
        X.note("size_fields", "field of " + n.split('.').second.split('.').first.str());
        return true;
    }
    std::string fn = X.fieldName(ST, f), l;
    for (char c : fn)
        if (c != '_')
            l += tolower(c);
    if (l.find("itemsize") == std::string::npos && l.find("elsize") == std::string::npos)
        return false;
    X.note("size_fields", n.str() + "." + fn);
    return true;
}
// a divisor that is bookkeeping (item sizes, table sizes, bucket counts: values read from fields of the library's own
// structures or from an array header), as opposed to array contents or a caller-supplied number
bool bookkeeping(Ctx & X, Value * V, int d, DenseSet<Value *> & seen)
{
    if (d > 10)
        return false;
    if (isa<Constant>(V))
        return isa<ConstantInt>(V) && ! cast<ConstantInt>(V)->isZero();
    if (! seen.insert(V).second)
        return true;
    if (auto * C = dyn_cast<CastInst>(V))
        return (isa<SExtInst>(C) || isa<ZExtInst>(C) || isa<TruncInst>(C)) && bookkeeping(X, C->getOperand(0), d + 1, seen);
    if (auto * P = dyn_cast<PHINode>(V))
    {
        for (Value * I : P->incoming_values())
            if (! bookkeeping(X, I, d + 1, seen))
                return false;
        return true;
    }
    if (auto * S = dyn_cast<SelectInst>(V))
        return bookkeeping(X, S->getTrueValue(), d + 1, seen) && bookkeeping(X, S->getFalseValue(), d + 1, seen);
    if (auto * B = dyn_cast<BinaryOperator>(V))
        return (B->getOpcode() == Instruction::Mul || B->getOpcode() == Instruction::SDiv || B->getOpcode() == Instruction::UDiv || B->getOpcode() == Instruction::LShr) &&
               bookkeeping(X, B->getOperand(0), d + 1, seen) && bookkeeping(X, B->getOperand(1), d + 1, seen);
    if (auto * L = dyn_cast<LoadInst>(V))
    {
        unsigned f;
        Value * P = L->getPointerOperand();
        if (auto * ST = gepStruct(P, f))
            return sizeField(X, ST, f);
        if (isa<GlobalVariable>(P->stripPointerCasts()))
            return true;
        // by-reference capture: the captured variable is reached through the closure object
        if (auto * L2 = dyn_cast<LoadInst>(P->stripPointerCasts()))
            if (auto * ST = gepStruct(L2->getPointerOperand(), f))
                return sizeField(X, ST, f);
        // first field of an object
        if (auto * A = dyn_cast<Argument>(P->stripPointerCasts()))
            return A->getArgNo() == 0 && A->hasAttribute(Attribute::Dereferenceable);
        return false;
    }
    if (auto * A = dyn_cast<Argument>(V))
    {
        Function * F = A->getParent();
        if (X.addressTaken(F))
            return false;
        auto & cs = X.callers(F);
        if (cs.empty())
            return false;
        for (CallBase * CB : cs)
            if (A->getArgNo() >= CB->arg_size() || ! bookkeeping(X, CB->getArgOperand(A->getArgNo()), d + 1, seen))
                return false;
        return true;
    }
    if (auto * CB = dyn_cast<CallBase>(V))
    {
        Function * D = directCallee(CB);
        if (! D || D->isDeclaration())
            return false;
        for (BasicBlock & B : *D)
            if (auto * R = dyn_cast<ReturnInst>(B.getTerminator()))
                if (! R->getReturnValue() || ! bookkeeping(X, R->getReturnValue(), d + 1, seen))
                    return false;
        return true;
    }
    return false;
}

void run(Ctx & X)
{
    NZ Z(X);
    int64_t proved = 0;
    std::set<std::string> keys;
    for (Function & F : X.M)
    {
        if (F.isDeclaration() || ! X.inRepo(&F))
            continue;
        if (! X.addressTaken(&F) && X.callers(&F).empty())
            continue;
        for (Instruction & I : instructions(F))
        {
            auto op = I.getOpcode();
            if (op != Instruction::SDiv && op != Instruction::UDiv && op != Instruction::SRem && op != Instruction::URem)
                continue;
            Value * D = I.getOperand(1);
            if (isa<ConstantInt>(D) && ! cast<ConstantInt>(D)->isZero())
            {
                X.count("constant_divisors");
                continue;
            }
            X.count("variable_divisors");
            DenseSet<Value *> seen;
            bool nz = Z.nonzero(D, &I, 0, seen);
            bool data = elementData(D) && elementData(I.getOperand(0));
            if (nz)
            {
                proved++;
                X.note("guarded_in", X.baseName(&F));
                // the other trapping quotient: most negative value by -1
                if (data && (op == Instruction::SDiv || op == Instruction::SRem) && I.getType()->isIntegerTy() && I.getType()->getIntegerBitWidth() >= 32)
                {
                    X.count("element_quotients_checked_for_overflow");
                    Z.EX = -1;
                    bool ok = Z.guarded(&I, D);
                    Z.EX = 0;
                    std::string key = "div:" + X.baseName(&F) + ":overflow";
                    if (! ok && keys.insert(key + X.shortName(&F)).second)
                        X.finding("div", key, &I, &F, "signed division of array elements whose divisor may be -1 (the most negative dividend traps) in " + X.shortName(&F));
                }
                continue;
            }
            DenseSet<Value *> bs;
            if (bookkeeping(X, D, 0, bs))
            {
                X.note("bookkeeping_divisors", X.baseName(&F));
                X.count("divisors_that_are_bookkeeping");
                continue;
            }
            std::string key = "div:" + X.baseName(&F) ;
            if (keys.insert(key + X.shortName(&F)).second)
                X.finding("div", key, &I, &F, "integer division whose divisor is not shown to be non-zero in " + X.shortName(&F));
        }
    }
    X.count("divisors_proved_nonzero", proved);
}
RuleReg reg("div", run);
}
