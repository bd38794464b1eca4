// Rule nul: the result of an operation that can fail with NULL is tested before it is used.
//
// Must-analysis of "known not to be NULL" per block, from the tests on the edges; helpers are summarised: may it return an untested
// failing result (or NULL), does it use a parameter without testing it.
#include "core.h"
#include <deque>
#include "llvm/Analysis/ValueTracking.h"

namespace
{
// values known not to be NULL, integers known to equal a constant, and "V is not NULL unless L equals K"
struct Facts : DenseSet<Value *>
{
    typedef std::pair<Value *, Value *> Eq;
    std::set<Eq> eq;
    std::set<std::pair<Value *, Eq>> unless;
};

struct Nul
{
    Ctx & X;
    std::map<Function *, int> kind;          // 0 never NULL, 1 memory, 2 array, 3 other object, 4 lookup
    std::map<Function *, uint64_t> derefs;   // parameters used untested
    std::map<std::pair<Function *, unsigned>, Instruction *> derefAt;
    bool report = false;
    explicit Nul(Ctx & x) : X(x) {}

    bool numpyApi(CallBase * CB)
    {
        auto * L = dyn_cast<LoadInst>(CB->getCalledOperand()->stripPointerCasts());
        if (! L)
            return false;
        Value * P = L->getPointerOperand();
        if (auto * G = dyn_cast<GEPOperator>(P))
            P = G->getPointerOperand();
        auto * T = dyn_cast<LoadInst>(P);
        auto * GV = T ? dyn_cast<GlobalVariable>(T->getPointerOperand()->stripPointerCasts()) : nullptr;
        return GV && GV->getName().contains("ARRAY_API");
    }
    // 0: not a result that can be NULL
    int source(Value * V)
    {
        auto * CB = dyn_cast<CallBase>(V);
        if (! CB || ! CB->getType()->isPointerTy() || isa<IntrinsicInst>(CB))
            return 0;
        Function * F = directCallee(CB);
        if (! F)
            return numpyApi(CB) ? 2 : 0;
        if (! F->isDeclaration())
        {
            auto it = kind.find(F);
            return it == kind.end() ? 0 : it->second;
        }
        StringRef n = F->getName();
        if (n == "malloc" || n == "calloc" || n == "realloc" || n == "aligned_alloc" || n == "memalign")
            return 1;
        if (n == "fopen" || n == "ZSTD_createDCtx" || n == "ZSTD_createCCtx" || n == "ZSTD_createCCtx_advanced")
            return 3;
        if (n == "PyErr_Occurred" || n == "PyBytes_AsString" || n == "PyObject_Type" || n.contains("Check") || n == "PyThreadState_Get" || n == "PyEval_SaveThread" || n == "PyOS_setsig" || n == "PyOS_getsig")
            return 0;
        if (n == "PyDict_GetItem" || n == "PyDict_GetItemString")
            return 4;
        // members of a container asked for by an index the caller has checked against its size
        if (n.starts_with("PyList_GetItem") || n.starts_with("PyTuple_GetItem") || n.starts_with("PySequence_Fast"))
            return 0;
        if (n.starts_with("Py") || n.starts_with("_Py"))
            return 3;
        return 0;
    }
    static Value * canon(Value * V)
    {
        return V->stripPointerCasts();
    }
    // failing calls V may be the unmodified result of, given what is known
    void sourcesOf(Value * V, const Facts & f, const DenseMap<BasicBlock *, Facts> & out, SetVector<CallBase *> & res, bool & nullConst, DenseSet<Value *> & seen)
    {
        V = canon(V);
        if (f.count(V) || ! seen.insert(V).second)
            return;
        if (source(V))
            res.insert(cast<CallBase>(V));
        else if (isa<ConstantPointerNull>(V))
            nullConst = true;
        else if (auto * P = dyn_cast<PHINode>(V))
        {
            for (unsigned i = 0; i < P->getNumIncomingValues(); ++i)
            {
                auto it = out.find(P->getIncomingBlock(i));
                if (it == out.end())
                    continue; // not reached
                Facts e = it->second;
                edgeFacts(P->getIncomingBlock(i), P->getParent(), e, out);
                sourcesOf(P->getIncomingValue(i), e, out, res, nullConst, seen);
            }
        }
        else if (auto * S = dyn_cast<SelectInst>(V))
        {
            Facts a = f, b = f;
            learn(S->getCondition(), true, a, out, 0);
            learn(S->getCondition(), false, b, out, 0);
            sourcesOf(S->getTrueValue(), a, out, res, nullConst, seen);
            sourcesOf(S->getFalseValue(), b, out, res, nullConst, seen);
        }
    }
    // A or B (or both) is val
    void either(Value * A, Value * B, bool val, Facts & f, const DenseMap<BasicBlock *, Facts> & out, int d)
    {
        Facts a = f, b = f;
        learn(A, val, a, out, d + 1);
        learn(B, val, b, out, d + 1);
        meet(a, b);
        f = std::move(a);
    }
    void learn(Value * C, bool val, Facts & f, const DenseMap<BasicBlock *, Facts> & out, int d)
    {
        if (d > 8)
            return;
        if (auto * IC = dyn_cast<ICmpInst>(C))
        {
            Value *L = IC->getOperand(0), *R = IC->getOperand(1);
            auto P = val ? IC->getPredicate() : IC->getInversePredicate();
            if (isa<Constant>(L))
                std::swap(L, R);
            if (isa<ConstantPointerNull>(R))
            {
                if (P == ICmpInst::ICMP_NE)
                    f.insert(canon(L));
                return;
            }
            if (auto * K = dyn_cast<ConstantInt>(R))
            {
                Value * Z = stripCasts(L);
                if (Z != L && Z->getType()->isIntegerTy(1) && K->isZero() && IC->isEquality())
                    return learn(Z, P == ICmpInst::ICMP_NE, f, out, d + 1);
                if (L->getType()->isIntegerTy(1) && IC->isEquality())
                    return learn(L, (P == ICmpInst::ICMP_EQ) == K->isOne(), f, out, d + 1);
                if (Z->getType()->isPointerTy() && K->isZero() && P == ICmpInst::ICMP_NE)
                    f.insert(canon(Z));
                Facts::Eq q(L, K);
                if (P == ICmpInst::ICMP_EQ)
                    f.eq.insert(q);
                else if (P == ICmpInst::ICMP_NE || ((P == ICmpInst::ICMP_SGT || P == ICmpInst::ICMP_UGT || P == ICmpInst::ICMP_SLT || P == ICmpInst::ICMP_ULT)))
                    for (auto & u : f.unless)
                        if (u.second == q)
                            f.insert(u.first);
                return;
            }
            // equal to something known
            if (P == ICmpInst::ICMP_EQ && L->getType()->isPointerTy())
            {
                if (f.count(canon(L)) || isa<GlobalValue>(canon(L)))
                    f.insert(canon(R));
                if (f.count(canon(R)) || isa<GlobalValue>(canon(R)))
                    f.insert(canon(L));
            }
            return;
        }
        if (auto * B = dyn_cast<BinaryOperator>(C))
        {
            if (B->getOpcode() == Instruction::Xor)
            {
                if (auto * K = dyn_cast<ConstantInt>(B->getOperand(1)))
                    learn(B->getOperand(0), K->isZero() ? val : ! val, f, out, d + 1);
            }
            else if ((B->getOpcode() == Instruction::And && val) || (B->getOpcode() == Instruction::Or && ! val))
            {
                learn(B->getOperand(0), val, f, out, d + 1);
                learn(B->getOperand(1), val, f, out, d + 1);
            }
            else if (B->getOpcode() == Instruction::And || B->getOpcode() == Instruction::Or)
                either(B->getOperand(0), B->getOperand(1), val, f, out, d);
            return;
        }
        if (auto * S = dyn_cast<SelectInst>(C))
        {
            auto * T = dyn_cast<ConstantInt>(S->getTrueValue());
            auto * F = dyn_cast<ConstantInt>(S->getFalseValue());
            if (F && F->isZero() && val)
            {
                learn(S->getCondition(), true, f, out, d + 1);
                learn(S->getTrueValue(), true, f, out, d + 1);
            }
            if (T && T->isOne() && ! val)
            {
                learn(S->getCondition(), false, f, out, d + 1);
                learn(S->getFalseValue(), false, f, out, d + 1);
            }
            if (F && F->isZero() && ! val)
                either(S->getCondition(), S->getTrueValue(), false, f, out, d);
            if (T && T->isOne() && val)
                either(S->getCondition(), S->getFalseValue(), true, f, out, d);
            return;
        }
        if (auto * Z = dyn_cast<CastInst>(C))
        {
            if (Z->getType()->isIntegerTy() && Z->getOperand(0)->getType()->isIntegerTy())
                learn(Z->getOperand(0), val, f, out, d + 1);
            return;
        }
        if (auto * Fz = dyn_cast<FreezeInst>(C))
            return learn(Fz->getOperand(0), val, f, out, d + 1);
        if (auto * P = dyn_cast<PHINode>(C))
        {
            // what holds on every way in that gives this value
            bool first = true;
            Facts all;
            for (unsigned i = 0; i < P->getNumIncomingValues(); ++i)
            {
                if (auto * K = dyn_cast<ConstantInt>(P->getIncomingValue(i)))
                    if (K->isOne() != val)
                        continue;
                auto it = out.find(P->getIncomingBlock(i));
                if (it == out.end())
                    continue;
                Facts e = it->second;
                edgeFacts(P->getIncomingBlock(i), P->getParent(), e, out, d + 1);
                learn(P->getIncomingValue(i), val, e, out, d + 1);
                if (first)
                    all = e;
                else
                    meet(all, e);
                first = false;
            }
            if (! first)
            {
                f.insert(all.begin(), all.end());
                f.eq.insert(all.eq.begin(), all.eq.end());
            }
            return;
        }
        if (auto * CB = dyn_cast<CallBase>(C))
            if (Function * F = directCallee(CB); F && ! F->isDeclaration() && val)
            {
                // a predicate that answers true only for a non-NULL pointer
                for (unsigned i = 0; i < CB->arg_size() && i < F->arg_size(); ++i)
                    if (CB->getArgOperand(i)->getType()->isPointerTy() && trueMeansNonNull(F, i))
                        f.insert(canon(CB->getArgOperand(i)));
            }
    }
    std::map<std::pair<Function *, unsigned>, bool> tmn;
    bool trueMeansNonNull(Function * F, unsigned i)
    {
        auto k = std::make_pair(F, i);
        if (auto it = tmn.find(k); it != tmn.end())
            return it->second;
        tmn[k] = false;
        if (! F->getReturnType()->isIntegerTy() || F->size() > 30)
            return false;
        DenseMap<BasicBlock *, Facts> out = flow(*F);
        bool any = false, all = true;
        for (BasicBlock & B : *F)
            if (auto * R = dyn_cast<ReturnInst>(B.getTerminator()); R && out.count(&B))
            {
                Facts f = out[&B];
                if (auto * K = dyn_cast<ConstantInt>(R->getReturnValue()); K && K->isZero())
                    continue;
                learn(R->getReturnValue(), true, f, out, 4);
                any = true;
                all &= f.count(F->getArg(i)) > 0;
            }
        return tmn[k] = any && all;
    }
    void meet(Facts & a, const Facts & b)
    {
        auto half = [&](const Facts & x, const Facts & y, std::set<std::pair<Value *, Facts::Eq>> & r)
        {
            if (! y.eq.empty())
                for (Value * v : x)
                    if (! y.count(v) && (source(v) || isa<PHINode>(v)))
                        for (auto & q : y.eq)
                            if (! x.eq.count(q))
                                r.insert({ v, q });
            for (auto & u : x.unless)
                if (y.unless.count(u) || y.count(u.first) || y.eq.count(u.second))
                    r.insert(u);
        };
        std::set<std::pair<Value *, Facts::Eq>> un;
        half(a, b, un);
        half(b, a, un);
        a.unless = std::move(un);
        for (auto it = a.eq.begin(); it != a.eq.end();)
            it = b.eq.count(*it) ? std::next(it) : a.eq.erase(it);
        SmallVector<Value *, 8> gone;
        for (Value * v : a)
            if (! b.count(v))
                gone.push_back(v);
        for (Value * v : gone)
            a.erase(v);
    }
    void edgeFacts(BasicBlock * A, BasicBlock * B, Facts & f, const DenseMap<BasicBlock *, Facts> & out, int d = 0)
    {
        auto * T = A->getTerminator();
        if (auto * Br = dyn_cast<BranchInst>(T); Br && Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1))
            learn(Br->getCondition(), Br->getSuccessor(0) == B, f, out, d);
        if (auto * S = dyn_cast<SwitchInst>(T))
            if (Value * Z = stripCasts(S->getCondition()); Z->getType()->isPointerTy())
            {
                bool zero = false;
                for (auto & c : S->cases())
                    if (c.getCaseSuccessor() == B && c.getCaseValue()->isZero())
                        zero = true;
                if (S->getDefaultDest() == B)
                {
                    bool z = false;
                    for (auto & c : S->cases())
                        z |= c.getCaseValue()->isZero();
                    zero |= ! z;
                }
                if (! zero)
                    f.insert(canon(Z));
            }
    }
    // is P used by I as a function to call (here or in the helper it is handed to)
    bool called(Instruction & I, Value * P, int d = 0)
    {
        auto * CB = dyn_cast<CallBase>(&I);
        if (! CB)
            return false;
        if (canon(CB->getCalledOperand()) == P)
            return true;
        Function * F = directCallee(CB);
        if (! F || d > 6)
            return false;
        for (unsigned i = 0; i < CB->arg_size() && i < F->arg_size(); ++i)
            if (canon(CB->getArgOperand(i)) == P)
                for (User * U : F->getArg(i)->users())
                    if (auto * J = dyn_cast<Instruction>(U); J && called(*J, F->getArg(i), d + 1))
                        return true;
        return false;
    }
    // pointers the instruction uses in a way that needs memory behind them
    void uses(Instruction & I, SmallVectorImpl<Value *> & ps)
    {
        auto add = [&](Value * P)
        {
            while (true)
            {
                P = canon(P);
                auto * G = dyn_cast<GEPOperator>(P);
                if (! G)
                    break;
                P = G->getPointerOperand();
            }
            ps.push_back(P);
        };
        if (auto * L = dyn_cast<LoadInst>(&I))
            add(L->getPointerOperand());
        else if (auto * S = dyn_cast<StoreInst>(&I))
            add(S->getPointerOperand());
        else if (auto * R = dyn_cast<AtomicRMWInst>(&I))
            add(R->getPointerOperand());
        else if (auto * M = dyn_cast<MemIntrinsic>(&I))
        {
            add(M->getRawDest());
            if (auto * T = dyn_cast<MemTransferInst>(M))
                add(T->getRawSource());
        }
        else if (auto * CB = dyn_cast<CallBase>(&I))
        {
            if (isa<IntrinsicInst>(CB))
                return;
            Function * F = directCallee(CB);
            if (! F)
            {
                Value * T = canon(CB->getCalledOperand());
                if (source(T) || isa<PHINode>(T) || isa<Argument>(T))
                    ps.push_back(T);
                return;
            }
            if (F->isDeclaration())
            {
                static const char * d[] = { "memcpy", "memset", "memmove", "strlen", "strcpy", "strcmp", "strcat", "memcmp", "Py_IncRef0", "_Py_Dealloc", "fclose" };
                for (auto * n : d)
                    if (F->getName() == n)
                        for (unsigned i = 0; i < CB->arg_size() && i < 2; ++i)
                            if (CB->getArgOperand(i)->getType()->isPointerTy())
                                add(CB->getArgOperand(i));
                return;
            }
            auto it = derefs.find(F);
            if (it != derefs.end())
                for (unsigned i = 0; i < CB->arg_size() && i < 64; ++i)
                    if (it->second >> i & 1)
                    {
                        Value * P = canon(CB->getArgOperand(i));
                        ps.push_back(P);
                    }
        }
    }
    DenseMap<BasicBlock *, Facts> flow(Function & F)
    {
        DenseMap<BasicBlock *, Facts> out;
        std::deque<BasicBlock *> work{ &F.getEntryBlock() };
        DenseMap<BasicBlock *, Facts> in;
        in[&F.getEntryBlock()];
        DenseMap<BasicBlock *, unsigned> visits;
        while (! work.empty())
        {
            BasicBlock * B = work.front();
            work.pop_front();
            if (++visits[B] > 60)
                continue;
            Facts f = in[B];
            // merged values all of whose origins are known
            for (PHINode & P : B->phis())
                if (P.getType()->isPointerTy())
                {
                    bool all = true, any = false;
                    for (unsigned i = 0; i < P.getNumIncomingValues() && all; ++i)
                    {
                        auto it = out.find(P.getIncomingBlock(i));
                        if (it == out.end())
                            continue;
                        Facts e = it->second;
                        edgeFacts(P.getIncomingBlock(i), B, e, out);
                        Value * V = canon(P.getIncomingValue(i));
                        if (V == &P)
                            continue;
                        any = true;
                        all = e.count(V) || isa<AllocaInst>(V) || isa<GlobalValue>(V);
                    }
                    if (all && any)
                        f.insert(&P);
                    else
                        f.erase(&P);
                }
            for (Instruction & I : *B)
            {
                if (isa<CallBase>(I) && I.getType()->isPointerTy())
                    f.erase(&I);
                SmallVector<Value *, 4> ps;
                uses(I, ps);
                for (Value * P : ps)
                    f.insert(P);
            }
            bool firstTime = ! out.count(B);
            if (! firstTime && out[B].size() == f.size() && visits[B] > 1)
            {
                bool same = true;
                for (Value * v : f)
                    same &= out[B].count(v) > 0;
                if (same && visits[B] > 2)
                    continue;
            }
            out[B] = f;
            for (BasicBlock * S : successors(B))
            {
                Facts e = f;
                edgeFacts(B, S, e, out);
                auto it = in.find(S);
                if (it == in.end())
                {
                    in[S] = e;
                    work.push_back(S);
                }
                else
                {
                    size_t n = it->second.size();
                    size_t n2 = it->second.eq.size(), n3 = it->second.unless.size();
                    meet(it->second, e);
                    if (it->second.size() != n || it->second.eq.size() != n2 || it->second.unless.size() != n3 || visits[S] == 0 || firstTime)
                        work.push_back(S);
                }
            }
        }
        return out;
    }
    // a lookup that hands out functions
    std::map<Function *, bool> gf;
    bool givesFunctions(Function * F, int d = 0)
    {
        if (auto it = gf.find(F); it != gf.end())
            return it->second;
        gf[F] = false;
        if (d > 6 || F->isDeclaration())
            return false;
        SmallVector<Value *, 16> work;
        DenseSet<Value *> seen;
        for (BasicBlock & B : *F)
            if (auto * R = dyn_cast<ReturnInst>(B.getTerminator()); R && R->getReturnValue())
                work.push_back(R->getReturnValue());
        while (! work.empty())
        {
            Value * V = canon(work.pop_back_val());
            if (! seen.insert(V).second)
                continue;
            if (isa<Function>(V))
                return gf[F] = true;
            if (auto * P = dyn_cast<PHINode>(V))
                work.append(P->op_begin(), P->op_end());
            else if (auto * S = dyn_cast<SelectInst>(V))
            {
                work.push_back(S->getTrueValue());
                work.push_back(S->getFalseValue());
            }
            else if (auto * CB = dyn_cast<CallBase>(V))
            {
                if (Function * G = directCallee(CB); G && givesFunctions(G, d + 1))
                    return gf[F] = true;
            }
            else if (auto * L = dyn_cast<LoadInst>(V))
            {
                // a constant table of functions
                Value * G = L->getPointerOperand();
                while (auto * GE = dyn_cast<GEPOperator>(canon(G)))
                    G = GE->getPointerOperand();
                if (auto * GV = dyn_cast<GlobalVariable>(canon(G)); GV && GV->isConstant() && GV->hasInitializer())
                    for (auto & O : GV->getInitializer()->operands())
                        if (isa<Function>(canon(O)))
                            return gf[F] = true;
            }
        }
        return false;
    }
    // members of structures that are compared with NULL anywhere in the program
    std::set<std::pair<StructType *, unsigned>> testedFields;
    bool fieldsBuilt = false;
    static bool nullTested(Value * V)
    {
        for (User * U : V->users())
            if (auto * C = dyn_cast<ICmpInst>(U); C && isa<ConstantPointerNull>(C->getOperand(1)))
                return true;
        return false;
    }
    // is the member the kernel goes to, or the kernel itself, tested
    bool testedLater(StoreInst * S, CallBase * C)
    {
        if (! fieldsBuilt)
        {
            fieldsBuilt = true;
            for (Function & F : X.M)
                for (Instruction & I : instructions(F))
                    if (auto * L = dyn_cast<LoadInst>(&I); L && L->getType()->isPointerTy() && nullTested(L))
                    {
                        unsigned fi = 0;
                        if (StructType * T = gepStruct(L->getPointerOperand(), fi))
                            testedFields.insert({ T, fi });
                    }
        }
        if (nullTested(S->getValueOperand()) || nullTested(C))
            return true;
        const DataLayout & DL = X.M.getDataLayout();
        int64_t o = 0;
        Value * B = GetPointerBaseWithConstantOffset(S->getPointerOperand(), o, DL);
        // filled in for the caller, who is the one to use it
        if (isa<Argument>(B))
            return true;
        unsigned fi = 0;
        StructType * T = gepStruct(S->getPointerOperand(), fi);
        bool elsewhere = false;
        for (Instruction & I : instructions(*S->getFunction()))
            if (auto * L = dyn_cast<LoadInst>(&I); L && L->getType()->isPointerTy())
            {
                int64_t o2 = 0;
                Value * B2 = GetPointerBaseWithConstantOffset(L->getPointerOperand(), o2, DL);
                if (o == o2 && (B == B2 || (isa<LoadInst>(B) && isa<LoadInst>(B2))))
                {
                    if (nullTested(L))
                        return true;
                    elsewhere = true;
                }
            }
        // not looked at here at all: whoever receives the structure tests it
        if (! elsewhere && T && testedFields.count({ T, fi }))
            return true;
        // the same lookup was tested before for the same type
        if (Function * D = directCallee(C))
            for (Instruction & I : instructions(*S->getFunction()))
                if (auto * O = dyn_cast<CallBase>(&I); O && O != C && directCallee(O) == D && nullTested(O))
                    for (Value * A : O->args())
                        if (! isa<Constant>(A) && is_contained(C->args(), A))
                            return true;
        // the keys of the lookup have been limited to a range
        bool keys = false;
        for (Value * A : C->args())
        {
            if (isa<Constant>(A) || ! A->getType()->isIntegerTy())
                continue;
            if (! rangeTested(A))
                return false;
            keys = true;
        }
        return keys;
    }
    static bool ordered(Value * V, int d = 0)
    {
        for (User * U : V->users())
        {
            if (auto * C = dyn_cast<ICmpInst>(U); C && C->isRelational() && (isa<ConstantInt>(C->getOperand(0)) || isa<ConstantInt>(C->getOperand(1))))
                return true;
            if (d < 3)
                if (isa<PHINode>(U) || isa<CastInst>(U) || (isa<BinaryOperator>(U) && isa<ConstantInt>(U->getOperand(1))))
                    if (ordered(U, d + 1))
                        return true;
        }
        return false;
    }
    static bool rangeTested(Value * V, int d = 0)
    {
        V = stripCasts(V);
        if (ordered(V))
            return true;
        if (auto * P = dyn_cast<PHINode>(V); P && d < 3)
        {
            for (Value * O : P->incoming_values())
                if (! isa<Constant>(O) && O != P && ! rangeTested(O, d + 1))
                    return false;
            return true;
        }
        if (auto * L = dyn_cast<LoadInst>(V))
            for (Instruction & I : instructions(*L->getFunction()))
                if (auto * M = dyn_cast<LoadInst>(&I); M && M != L && M->getType() == L->getType() && M->getPointerOperand()->stripPointerCasts() == L->getPointerOperand()->stripPointerCasts() && ordered(M))
                    return true;
        return false;
    }
    bool interesting(Function & F)
    {
        for (Instruction & I : instructions(F))
            if (source(&I))
                return true;
        return false;
    }
    void analyse(Function & F, bool & changed)
    {
        bool hasPtrArg = false;
        for (Argument & A : F.args())
            hasPtrArg |= A.getType()->isPointerTy();
        bool src = interesting(F);
        if (! src && ! hasPtrArg && ! F.getReturnType()->isPointerTy())
            return;
        DenseMap<BasicBlock *, Facts> out = flow(F);
        // replay
        uint64_t dm = derefs[&F], dm0 = dm;
        int k = kind[&F];
        int k0 = k;
        for (BasicBlock & B : F)
        {
            if (! out.count(&B))
                continue;
            Facts f;
            bool first = true;
            for (BasicBlock * P : predecessors(&B))
                if (out.count(P))
                {
                    Facts e = out[P];
                    edgeFacts(P, &B, e, out);
                    if (first)
                        f = e;
                    else
                        meet(f, e);
                    first = false;
                }
            for (Instruction & I : B)
            {
                if (isa<CallBase>(I) && I.getType()->isPointerTy())
                {
                    f.erase(&I);
                    if (report && source(&I))
                        X.count("failing_results_tracked");
                }
                SmallVector<Value *, 4> ps;
                uses(I, ps);
                for (Value * P : ps)
                {
                    if (f.count(P))
                        continue;
                    SetVector<CallBase *> ss;
                    bool nc = false;
                    DenseSet<Value *> seen;
                    sourcesOf(P, f, out, ss, nc, seen);
                    for (CallBase * S : ss)
                    {
                        if (! report)
                            continue;
                        // an answer of "nothing" matters for a kernel that is then called
                        if (source(S) == 4 && ! called(I, P))
                            continue;
                        Function * D = directCallee(S);
                        std::string dn = D ? (D->isDeclaration() ? D->getName().str() : X.baseName(D)) : "array interface";
                        static const char * kn[] = { "", "memory", "array", "object", "lookup" };
                        X.finding("nul", "nul:" + X.baseName(&F) + ":" + dn, &I, &F,
                                  "result of " + dn + " (" + X.loc(S) + ") is used without a test for failure [" + kn[source(S)] + "]");
                    }
                    if (report && ss.empty() && ! isa<Argument>(P) && ! isa<AllocaInst>(P) && ! isa<GlobalValue>(P))
                        X.count("uses_without_failing_origin");
                    if (auto * A = dyn_cast<Argument>(P); A && A->getArgNo() < 64)
                    {
                        dm |= 1ull << A->getArgNo();
                        derefAt.insert({ { &F, A->getArgNo() }, &I });
                    }
                    f.insert(P);
                }
                if (auto * S = dyn_cast<StoreInst>(&I); report && S && S->getValueOperand()->getType()->isPointerTy())
                {
                    Value * P = canon(S->getValueOperand());
                    if (! f.count(P))
                    {
                        SetVector<CallBase *> ss;
                        bool nc = false;
                        DenseSet<Value *> seen;
                        sourcesOf(P, f, out, ss, nc, seen);
                        for (CallBase * C : ss)
                        {
                            Function * D = directCallee(C);
                            if (! D || ! givesFunctions(D))
                                continue;
                            X.count("kernels_handed_over");
                            if (testedLater(S, C))
                                continue;
                            X.finding("nul", "nul:" + X.baseName(&F) + ":" + X.baseName(D), &I, &F,
                                      "the kernel looked up by " + X.baseName(D) + " is handed to the workers without a test that there is one");
                        }
                    }
                    else if (auto * C = dyn_cast<CallBase>(P))
                    {
                        Function * D = directCallee(C);
                        if (D && source(C) && givesFunctions(D))
                            X.count("kernels_handed_over");
                    }
                }
                if (auto * R = dyn_cast<ReturnInst>(&I); R && R->getReturnValue() && R->getReturnValue()->getType()->isPointerTy())
                {
                    SetVector<CallBase *> ss;
                    bool nc = false;
                    DenseSet<Value *> seen;
                    sourcesOf(R->getReturnValue(), f, out, ss, nc, seen);
                    // what can fail decides; a plain NULL is an answer ("nothing for this")
                    for (CallBase * S : ss)
                        if (int q = source(S); q && (k == 0 || q < k))
                            k = q;
                    if (nc)
                    {
                        // NULL because something it needed failed
                        for (Instruction & J : instructions(F))
                            if (int q = source(&J); q && q < 4 && (k == 0 || q < k))
                                k = q;
                        if (k == 0)
                            k = 4;
                    }
                }
            }
        }
        if (dm != dm0 || k != k0)
        {
            derefs[&F] = dm;
            kind[&F] = k;
            changed = true;
        }
    }
    void run()
    {
        std::vector<Function *> fs;
        for (Function & F : X.M)
            if (! F.isDeclaration() && ! F.getName().starts_with("_ZNSt") && ! F.getName().starts_with("_ZNKSt") && ! F.getName().starts_with("_ZN9__gnu"))
                fs.push_back(&F);
        for (int r = 0; r < 6; ++r)
        {
            bool ch = false;
            for (Function * F : fs)
                analyse(*F, ch);
            if (! ch)
                break;
        }
        report = true;
        for (Function * F : fs)
            if (X.inRepo(F))
            {
                X.count("functions_analysed");
                bool ch = false;
                analyse(*F, ch);
            }
    }
};
void run(Ctx & X)
{
    Nul N(X);
    N.run();
}
RuleReg reg("nul", run);
}
