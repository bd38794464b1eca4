// Rule "work": the protocol between the thread that submits a parallel job and the worker threads.
//
//  A  a worker callback takes blocks of the job one at a time: every block taken is verified to exist, completed exactly once
//     before the next one is taken or the callback returns (otherwise the submitter waits for ever);
//  B  before the job is published, every member of the job record that its callback reads has been set on all paths
//     (records are reused: what is not set belongs to an earlier job), and after publication nothing is changed;
//  C  a worker touches a job only while it is counted as awake, and never waits while it is counted;
//  D  the submitter returns only after it withdrew the job and every worker left it.
#include "core.h"
#include "llvm/ADT/BitVector.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/DataLayout.h"

namespace
{
    struct Ctx2;

    struct Names
    {
        StructType * item = nullptr, * ring = nullptr;
        std::map<std::string, int64_t> iOff, rOff; // member name -> byte offset
        std::map<int64_t, std::string> iName;
        uint64_t itemSize = 0;
    };

    StructType * findType(Module & M, StringRef n)
    {
        StructType * best = nullptr;
        for (StructType * T : M.getIdentifiedStructTypes())
            if (T->hasName() && ! T->isOpaque() && (T->getName() == n || T->getName().starts_with((n + ".").str())))
                if (! best || T->getName().size() < best->getName().size())
                    best = T;
        return best;
    }

    // V + k == value of P as pointer; collects whether a GEP over type T is on the way
    // returns true and the offset from the T object when P addresses inside a T object at a constant offset
    bool offsetIn(const DataLayout & DL, Value * P, StructType * T, int64_t & off, Value *& base)
    {
        int64_t acc = 0;
        Value * V = P;
        for (int n = 0; n < 16; n++)
        {
            V = V->stripPointerCasts();
            auto * G = dyn_cast<GEPOperator>(V);
            if (! G)
                break;
            APInt o(64, 0);
            if (! G->accumulateConstantOffset(DL, o))
                return false;
            acc += o.getSExtValue();
            if (G->getSourceElementType() == T)
            {
                off = acc;
                base = G->getPointerOperand()->stripPointerCasts();
                return true;
            }
            V = G->getPointerOperand();
        }
        return false;
    }

    struct Work
    {
        Ctx & X;
        Module & M;
        const DataLayout & DL;
        Names N;
        DenseMap<Value *, int> ptrKind; // cache: 1 item pointer, 2 ring pointer, 0 neither

        explicit Work(Ctx & x) : X(x), M(x.M), DL(x.M.getDataLayout()) {}

        bool init()
        {
            N.item = findType(M, "struct.stMATH_WORKER_ITEM");
            N.ring = findType(M, "struct.stWorkerRing");
            if (! N.item || ! N.ring)
            {
                X.broken("job record or ring type not found");
                return false;
            }
            auto fill = [&](StructType * T, std::map<std::string, int64_t> & m, const std::string & pre, int64_t base)
            {
                const StructLayout * L = DL.getStructLayout(T);
                for (unsigned i = 0; i < T->getNumElements(); i++)
                {
                    std::string n = X.fieldName(T, i);
                    m[pre + (n.empty() ? "#" + std::to_string(i) : n)] = base + (int64_t)L->getElementOffset(i);
                    if (T == N.item)
                        if (auto * S = dyn_cast<StructType>(T->getElementType(i)))
                            if (S->hasName() && ! S->getName().contains("atomic"))
                            {
                                const StructLayout * L2 = DL.getStructLayout(S);
                                for (unsigned j = 0; j < S->getNumElements(); j++)
                                {
                                    std::string n2 = X.fieldName(S, j);
                                    m[n + "." + (n2.empty() ? "#" + std::to_string(j) : n2)] =
                                        (int64_t)L->getElementOffset(i) + (int64_t)L2->getElementOffset(j);
                                }
                            }
                }
            };
            fill(N.item, N.iOff, "", 0);
            fill(N.ring, N.rOff, "", 0);
            for (auto & [n, o] : N.iOff)
                if (! N.iName.count(o) || N.iName[o].find('.') == std::string::npos)
                    N.iName[o] = n;
            N.itemSize = DL.getTypeAllocSize(N.item);
            for (const char * n : { "DoWorkCallback", "BlockLast", "BlockNext", "BlocksCompleted", "BlockSize", "TotalElements" })
                if (! N.iOff.count(n))
                {
                    X.broken(std::string("job record member not found: ") + n);
                    return false;
                }
            for (const char * n : { "WorkIndex", "WorkIndexCompleted", "ThreadsAwakened" })
                if (! N.rOff.count(n))
                {
                    X.broken(std::string("ring member not found: ") + n);
                    return false;
                }
            return true;
        }

        int kindOf(Value * V)
        {
            auto it = ptrKind.find(V);
            if (it != ptrKind.end())
                return it->second;
            ptrKind[V] = 0;
            int k = 0;
            if (auto * G = dyn_cast<GEPOperator>(V))
                if (G->getResultElementType() == N.item)
                    return ptrKind[V] = 1;
            for (User * U : V->users())
                if (auto * G = dyn_cast<GEPOperator>(U))
                    if (G->getPointerOperand() == V)
                    {
                        if (G->getSourceElementType() == N.item)
                            k = 1;
                        else if (G->getSourceElementType() == N.ring)
                            k = 2;
                    }
            if (! k)
                if (auto * L = dyn_cast<LoadInst>(V))
                {
                    // another load of the same variable
                    if (auto * A = dyn_cast<AllocaInst>(L->getPointerOperand()->stripPointerCasts()))
                        for (User * U : A->users())
                            if (auto * L2 = dyn_cast<LoadInst>(U); L2 && L2 != L)
                                for (User * U2 : L2->users())
                                    if (auto * G = dyn_cast<GEPOperator>(U2))
                                        if (G->getPointerOperand() == L2 && G->getSourceElementType() == N.item)
                                            return ptrKind[V] = 1;
                    unsigned f;
                    if (StructType * T = gepStruct(L->getPointerOperand(), f))
                        if (X.fieldName(T, f) == "pWorkerRing")
                            k = 2;
                }
            return ptrKind[V] = k;
        }
        bool itemOff(Value * P, int64_t & off, Value *& base)
        {
            if (offsetIn(DL, P, N.item, off, base))
                return off >= 0 && off < (int64_t)N.itemSize;
            Value * S = P->stripPointerCasts();
            if (kindOf(S) == 1)
            {
                off = 0;
                base = S;
                return true;
            }
            return false;
        }
        bool itemField(Value * P, const char * n)
        {
            int64_t o;
            Value * b;
            return itemOff(P, o, b) && o == N.iOff[n];
        }
        bool ringField(Value * P, const char * n)
        {
            int64_t o;
            Value * b;
            if (offsetIn(DL, P, N.ring, o, b))
                return o == N.rOff[n];
            return N.rOff[n] == 0 && kindOf(P->stripPointerCasts()) == 2;
        }
        // +1 / -1 for an atomic increment / decrement of *P, 0 for anything else
        int atomicStep(Instruction * I, Value *& P)
        {
            if (auto * R = dyn_cast<AtomicRMWInst>(I))
            {
                auto * C = dyn_cast<ConstantInt>(R->getValOperand());
                if (! C)
                    return 0;
                P = R->getPointerOperand();
                int s = C->getSExtValue() > 0 ? 1 : -1;
                if (R->getOperation() == AtomicRMWInst::Add)
                    return s;
                if (R->getOperation() == AtomicRMWInst::Sub)
                    return -s;
                return 0;
            }
            if (auto * CB = dyn_cast<CallBase>(I))
                if (Function * F = directCallee(CB))
                {
                    if (CB->arg_size() < 1)
                        return 0;
                    const std::string & d = X.dem(F);
                    if (d.find("__atomic_base<") == std::string::npos && d.find("std::atomic<") == std::string::npos)
                        return 0;
                    P = CB->getArgOperand(0);
                    if (d.find("operator++") != std::string::npos)
                        return 1;
                    if (d.find("operator--") != std::string::npos)
                        return -1;
                    int s = d.find("fetch_add") != std::string::npos || d.find("operator+=") != std::string::npos ? 1 :
                            d.find("fetch_sub") != std::string::npos || d.find("operator-=") != std::string::npos ? -1 :
                                                                                                                     0;
                    if (s && CB->arg_size() > 1)
                        if (auto * C = dyn_cast<ConstantInt>(CB->getArgOperand(1)))
                            return C->getSExtValue() > 0 ? s : -s;
                }
            return 0;
        }
        // value read (atomically or not) from ring member n
        bool readsRing(Value * V, const char * n)
        {
            V = stripCasts(V);
            if (auto * L = dyn_cast<LoadInst>(V))
                return ringField(L->getPointerOperand(), n);
            if (auto * CB = dyn_cast<CallBase>(V))
                if (Function * F = directCallee(CB))
                {
                    if (CB->arg_size() < 1)
                        return false;
                    const std::string & d = X.dem(F);
                    if ((d.find("atomic") != std::string::npos) && (d.find("::load") != std::string::npos || d.find("::operator ") != std::string::npos))
                        return ringField(CB->getArgOperand(0), n);
                }
            return false;
        }
        DenseMap<Function *, int> intr;
        bool isInterrupted(Value * V)
        {
            V = stripCasts(V);
            if (auto * P = dyn_cast<PHINode>(V))
            {
                (void)P;
                return false;
            }
            if (auto * L = dyn_cast<LoadInst>(V))
                if (auto * G = dyn_cast<GlobalVariable>(getUnderlyingBase(L->getPointerOperand())))
                    return G->getName().contains("interrupted_");
            auto * CB = dyn_cast<CallBase>(V);
            Function * F = CB ? directCallee(CB) : nullptr;
            if (! F)
                return false;
            const std::string & d = X.dem(F);
            if (d.find("atomic") != std::string::npos)
            {
                if (CB->arg_size())
                    if (auto * G = dyn_cast<GlobalVariable>(getUnderlyingBase(CB->getArgOperand(0))))
                        return G->getName().contains("interrupted_");
                return false;
            }
            if (F->isDeclaration() || CB->arg_size())
                return false;
            auto it = intr.find(F);
            if (it != intr.end())
                return it->second;
            intr[F] = 0;
            bool all = true, any = false;
            for (BasicBlock & B : *F)
                if (auto * R = dyn_cast<ReturnInst>(B.getTerminator()))
                {
                    any = true;
                    all &= R->getReturnValue() && isInterrupted(R->getReturnValue());
                }
            return intr[F] = any && all;
        }
    };

    // ---- a small typestate engine -------------------------------------------------------------------------------------
    enum
    {
        NEG = 1,
        ZERO = 2,
        POS = 4
    };
    struct St
    {
        int s = 0;
        CallBase * call = nullptr; // result class of the last helper call
        int cls = 7;
        bool operator<(const St & o) const { return std::tie(s, call, cls) < std::tie(o.s, o.call, o.cls); }
    };
    enum Ref
    {
        KEEP = -1,
        INF = -2
    };
    struct Spec
    {
        // new state, and is the instruction an event
        std::function<bool(Instruction *)> isEvent;
        std::function<bool(Instruction *)> observes = [](Instruction *) { return false; }; // a value that conditions are about
        std::function<int(Instruction *, int)> step;
        // state after the edge, or KEEP / INF
        std::function<int(Value *, bool, int)> refine; // leaf condition
        std::function<void(Instruction *, int)> onReturn;
    };

    struct Engine
    {
        Ctx & X;
        Spec & S;
        Engine(Ctx & x, Spec & s) : X(x), S(s) {}

        DenseMap<Function *, int> hasEv; // contains an event, itself or in a callee
        bool relevant(Function * F)
        {
            auto it = hasEv.find(F);
            if (it != hasEv.end())
                return it->second;
            hasEv[F] = 0;
            if (F->isDeclaration() || ! X.inRepo(F))
                return false;
            for (Instruction & I : instructions(*F))
                if (S.isEvent(&I) || S.observes(&I))
                    return hasEv[F] = 1;
            int r = 0;
            for (Instruction & I : instructions(*F))
                if (auto * CB = dyn_cast<CallBase>(&I))
                    if (Function * C = directCallee(CB))
                        if (C != F && relevant(C))
                            r = 1;
            return hasEv[F] = r;
        }

        using Exit = std::set<std::pair<int, int>>; // state, class of the returned integer
        std::map<std::pair<Function *, int>, Exit> memo;
        std::set<std::pair<Function *, int>> open;

        static Value * throughPhi(Value * V, BasicBlock * B, BasicBlock * pred)
        {
            for (int n = 0; n < 4; n++)
            {
                auto * P = dyn_cast<PHINode>(V);
                if (! P || P->getParent() != B || ! pred)
                    return V;
                V = P->getIncomingValueForBlock(pred);
            }
            return V;
        }
        static int clsOf(Value * V)
        {
            auto * C = dyn_cast_or_null<ConstantInt>(V);
            if (! C || C->getBitWidth() > 64)
                return 7;
            if (C->isZero())
                return ZERO;
            return C->getBitWidth() > 1 && C->isNegative() ? NEG : POS;
        }

        // outcome of condition V on state st: list of possible resulting states (empty: infeasible)
        void refine(Value * V, bool out, const St & st, BasicBlock * B, BasicBlock * pred, std::vector<St> & r, int depth = 0)
        {
            V = throughPhi(V, B, pred);
            if (auto * C = dyn_cast<ConstantInt>(V))
            {
                if (C->isOne() == out)
                    r.push_back(st);
                return;
            }
            Value * a = nullptr, * b = nullptr;
            bool isAnd = false, isOr = false;
            if (auto * O = dyn_cast<BinaryOperator>(V))
            {
                if (O->getOpcode() == Instruction::Xor)
                    if (auto * C = dyn_cast<ConstantInt>(O->getOperand(1)))
                        if (C->isOne())
                        {
                            refine(O->getOperand(0), ! out, st, B, pred, r, depth + 1);
                            return;
                        }
                if (O->getType()->isIntegerTy(1))
                {
                    isAnd = O->getOpcode() == Instruction::And;
                    isOr = O->getOpcode() == Instruction::Or;
                    a = O->getOperand(0);
                    b = O->getOperand(1);
                }
            }
            if (auto * Z = dyn_cast<SelectInst>(V))
            {
                auto * ct = dyn_cast<ConstantInt>(Z->getTrueValue());
                auto * cf = dyn_cast<ConstantInt>(Z->getFalseValue());
                if (cf && cf->isZero())
                    isAnd = true, a = Z->getCondition(), b = Z->getTrueValue();
                else if (ct && ct->isOne())
                    isOr = true, a = Z->getCondition(), b = Z->getFalseValue();
            }
            if ((isAnd || isOr) && depth < 8)
            {
                if (isAnd == out) // both operands have this outcome
                {
                    std::vector<St> m;
                    refine(a, out, st, B, pred, m, depth + 1);
                    for (St & x : m)
                        refine(b, out, x, B, pred, r, depth + 1);
                }
                else
                { // one of them has
                    refine(a, out, st, B, pred, r, depth + 1);
                    std::vector<St> m;
                    refine(a, ! out, st, B, pred, m, depth + 1);
                    for (St & x : m)
                        refine(b, out, x, B, pred, r, depth + 1);
                }
                return;
            }
            // the result of a helper of known sign
            if (auto * I = dyn_cast<ICmpInst>(V))
            {
                Value * l = throughPhi(I->getOperand(0), B, pred), * rr = throughPhi(I->getOperand(1), B, pred);
                ICmpInst::Predicate p = I->getPredicate();
                if (isa<ConstantInt>(l) && ! isa<ConstantInt>(rr))
                {
                    std::swap(l, rr);
                    p = ICmpInst::getSwappedPredicate(p);
                }
                auto * C = dyn_cast<ConstantInt>(rr);
                if (C && isa<ConstantInt>(l))
                {
                    if (ICmpInst::compare(cast<ConstantInt>(l)->getValue(), C->getValue(), p) == out)
                        r.push_back(st);
                    return;
                }
                if (C && st.call && stripCasts(l) == st.call && C->getBitWidth() <= 64)
                {
                    int64_t c = C->getSExtValue();
                    St n = st;
                    n.cls = 0;
                    // representatives of the classes (-1 stands for the failures)
                    for (int k : { (int)NEG, (int)ZERO, (int)POS })
                        if (st.cls & k)
                        {
                            APInt v(C->getBitWidth(), k == NEG ? (uint64_t)-1 : k == ZERO ? 0 : 1, true);
                            (void)c;
                            if (ICmpInst::compare(v, C->getValue(), p) == out)
                                n.cls |= k;
                        }
                    if (n.cls)
                        r.push_back(n);
                    return;
                }
            }
            if (st.call && stripCasts(V) == st.call)
            {
                St n = st;
                n.cls &= out ? (NEG | POS) : ZERO;
                if (n.cls)
                    r.push_back(n);
                return;
            }
            int k;
            if (auto * I = dyn_cast<ICmpInst>(V); I && pred)
            {
                // leaf over the values this path brings
                ptrdiff_t dummy = 0;
                (void)dummy;
                curB = B;
                curPred = pred;
                k = S.refine(V, out, st.s);
                curB = nullptr;
            }
            else
                k = S.refine(V, out, st.s);
            if (k == INF)
                return;
            St n = st;
            if (k != KEEP)
                n.s = k;
            r.push_back(n);
        }
        BasicBlock * curB = nullptr, * curPred = nullptr;
        Value * here(Value * V) { return curB ? throughPhi(V, curB, curPred) : V; }

        Exit run(Function * F, int entry, bool root)
        {
            auto key = std::make_pair(F, entry);
            auto it = memo.find(key);
            if (it != memo.end())
                return it->second;
            if (! open.insert(key).second)
                return {};
            Exit ex;
            using Node = std::tuple<BasicBlock *, BasicBlock *, St>;
            std::set<Node> seen;
            std::vector<Node> work;
            auto push = [&](BasicBlock * B, BasicBlock * P, const St & s)
            {
                // predecessors matter only where values are merged
                Node n(B, isa<PHINode>(B->front()) ? P : nullptr, s);
                if (seen.insert(n).second)
                    work.push_back(n);
            };
            St s0;
            s0.s = entry;
            push(&F->getEntryBlock(), nullptr, s0);
            while (! work.empty())
            {
                auto [B, P, st] = work.back();
                work.pop_back();
                std::vector<St> cur{ st };
                for (Instruction & I : *B)
                {
                    if (I.isTerminator() && ! isa<CallBase>(&I))
                        break;
                    std::vector<St> nxt;
                    bool changed = false;
                    auto * CB = dyn_cast<CallBase>(&I);
                    if (S.isEvent(&I))
                    {
                        changed = true;
                        for (St & s : cur)
                        {
                            St n = s;
                            n.s = S.step(&I, s.s);
                            nxt.push_back(n);
                        }
                    }
                    else if (CB)
                    {
                        Function * C = directCallee(CB);
                        if (C && relevant(C))
                        {
                            changed = true;
                            for (St & s : cur)
                                for (auto & [e, cls] : run(C, s.s, false))
                                {
                                    St n;
                                    n.s = e;
                                    n.call = CB;
                                    n.cls = cls;
                                    nxt.push_back(n);
                                }
                        }
                    }
                    if (changed)
                    {
                        std::sort(nxt.begin(), nxt.end());
                        nxt.erase(std::unique(nxt.begin(), nxt.end(), [](const St & a, const St & b) { return ! (a < b) && ! (b < a); }), nxt.end());
                        cur = nxt;
                    }
                }
                Instruction * T = B->getTerminator();
                for (St & s : cur)
                {
                    if (auto * R = dyn_cast<ReturnInst>(T))
                    {
                        Value * V = R->getReturnValue() ? throughPhi(R->getReturnValue(), B, P) : nullptr;
                        if (Value * c = V ? stripCasts(V) : nullptr; c && c->getType()->isIntegerTy(1) && ! isa<Constant>(c) && ! root)
                        {
                            // the answer to a question about the state
                            for (int o = 0; o < 2; o++)
                            {
                                std::vector<St> r;
                                refine(c, o == 1, s, B, P, r);
                                for (St & x : r)
                                    ex.insert({ x.s, o ? POS : ZERO });
                            }
                            continue;
                        }
                        ex.insert({ s.s, V && s.call && stripCasts(V) == s.call ? s.cls : clsOf(V) });
                        if (root)
                            S.onReturn(T, s.s);
                    }
                    else if (auto * Br = dyn_cast<BranchInst>(T); Br && Br->isConditional())
                    {
                        for (int o = 0; o < 2; o++)
                        {
                            std::vector<St> r;
                            refine(Br->getCondition(), o == 0, s, B, P, r);
                            for (St & x : r)
                                push(Br->getSuccessor(o), B, x);
                        }
                    }
                    else
                        for (BasicBlock * Q : successors(B))
                            push(Q, B, s);
                }
            }
            open.erase(key);
            return memo[key] = ex;
        }
    };

    // ---- A: worker callbacks ------------------------------------------------------------------------------------------
    enum
    {
        IDLE = 0,
        TAKEN,
        HELD
    };

    struct Worker
    {
        Ctx & X;
        Work & W;
        explicit Worker(Work & w) : X(w.X), W(w) {}
        Engine * E = nullptr;

        // V = (block number taken) + k
        bool taken(Value * V, int64_t & k)
        {
            k = 0;
            for (int n = 0; n < 8; n++)
            {
                V = E->here(stripCasts(V));
                if (auto * R = dyn_cast<AtomicRMWInst>(V))
                    return R->getOperation() == AtomicRMWInst::Add && W.itemField(R->getPointerOperand(), "BlockNext");
                if (auto * O = dyn_cast<BinaryOperator>(V))
                    if (auto * C = dyn_cast<ConstantInt>(O->getOperand(1)))
                    {
                        if (O->getOpcode() == Instruction::Add)
                            k += C->getSExtValue();
                        else if (O->getOpcode() == Instruction::Sub)
                            k -= C->getSExtValue();
                        else
                            return false;
                        V = O->getOperand(0);
                        continue;
                    }
                return false;
            }
            return false;
        }
        bool last(Value * V)
        {
            V = E->here(stripCasts(V));
            if (auto * L = dyn_cast<LoadInst>(V))
                return W.itemField(L->getPointerOperand(), "BlockLast");
            return false;
        }
        // number of elements in a block
        bool length(Value * V, int depth = 0)
        {
            V = stripCasts(V);
            if (depth == 0)
                V = E->here(V);
            if (depth > 6)
                return false;
            if (auto * L = dyn_cast<LoadInst>(V))
                return W.itemField(L->getPointerOperand(), "BlockSize") || W.itemField(L->getPointerOperand(), "TotalElements");
            if (auto * O = dyn_cast<BinaryOperator>(V))
                return length(O->getOperand(0), depth + 1) && (isa<Constant>(O->getOperand(1)) || length(O->getOperand(1), depth + 1));
            if (auto * P = dyn_cast<PHINode>(V))
            {
                for (Value * x : P->incoming_values())
                    if (! isa<ConstantInt>(x) && ! length(x, depth + 1))
                        return false;
                return true;
            }
            if (auto * S = dyn_cast<SelectInst>(V))
                return length(S->getTrueValue(), depth + 1) && length(S->getFalseValue(), depth + 1);
            return false;
        }

        int refine(Value * V, bool out, int s)
        {
            if (s == IDLE)
                return KEEP;
            if (W.isInterrupted(V))
                return out ? IDLE : KEEP;
            auto * I = dyn_cast<ICmpInst>(V);
            if (! I)
                return KEEP;
            Value * l = I->getOperand(0), * r = I->getOperand(1);
            ICmpInst::Predicate p = out ? I->getPredicate() : I->getInversePredicate();
            int64_t k;
            if (last(l) && taken(r, k))
            {
                std::swap(l, r);
                p = ICmpInst::getSwappedPredicate(p);
            }
            if (taken(l, k))
            {
                if (last(r))
                {
                    // taken + k  p  last
                    if (p == ICmpInst::ICMP_SLT || p == ICmpInst::ICMP_ULT)
                        return k >= 0 ? HELD : KEEP;
                    if (p == ICmpInst::ICMP_SLE || p == ICmpInst::ICMP_ULE)
                        return k >= 1 ? HELD : KEEP;
                    if (p == ICmpInst::ICMP_SGE || p == ICmpInst::ICMP_UGE)
                        return k <= 0 ? IDLE : KEEP;
                    if (p == ICmpInst::ICMP_SGT || p == ICmpInst::ICMP_UGT)
                        return k <= 1 ? IDLE : KEEP;
                    return KEEP;
                }
                if (auto * C = dyn_cast<ConstantInt>(E->here(r)))
                    if (k >= 0 && C->getBitWidth() <= 64)
                    { // block numbers are never negative
                        int64_t c = C->getSExtValue();
                        if ((p == ICmpInst::ICMP_SLT && c <= 0) || (p == ICmpInst::ICMP_SLE && c < 0) || (p == ICmpInst::ICMP_EQ && c < 0))
                            return INF;
                    }
                return KEEP;
            }
            if (length(l))
                if (auto * C = dyn_cast<ConstantInt>(E->here(r)))
                    if (C->isZero() && (p == ICmpInst::ICMP_SLE || p == ICmpInst::ICMP_EQ || p == ICmpInst::ICMP_SLT))
                        return INF;
            return KEEP;
        }

        std::set<std::string> said;
        void report(const char * kind, Instruction * I, const std::string & msg)
        {
            Function * F = I->getFunction();
            std::string key = std::string("work:") + X.shortName(F) + ":" + kind;
            if (said.insert(key).second)
                X.finding("work", key, I, F, msg);
        }
        Spec spec()
        {
            Spec S;
            S.isEvent = [this](Instruction * I)
            {
                Value * P;
                return W.atomicStep(I, P) && (W.itemField(P, "BlockNext") || W.itemField(P, "BlocksCompleted"));
            };
            S.step = [this](Instruction * I, int s) -> int
            {
                Value * P;
                int d = W.atomicStep(I, P);
                if (W.itemField(P, "BlockNext"))
                {
                    if (d < 0)
                        report("taken", I, "a block counter is counted down");
                    if (s == HELD || s == TAKEN)
                        report("next", I, "another block is taken although the block taken before was not completed: the submitting thread waits for it for ever");
                    return TAKEN;
                }
                if (d < 0)
                    report("complete", I, "a completed block is taken back");
                if (s == IDLE)
                    report("twice", I, "a block is counted as completed although none is taken (or it was completed before): the submitting thread stops waiting too early");
                else if (s == TAKEN)
                    report("unchecked", I, "a block is processed without checking that it lies before the last one");
                return IDLE;
            };
            S.observes = [this](Instruction * I) { return isa<LoadInst>(I) && last(I); };
            S.refine = [this](Value * V, bool out, int s) { return refine(V, out, s); };
            S.onReturn = [this](Instruction * I, int s)
            {
                if (s != IDLE)
                    report("return", I, "the callback returns while a block it took is not completed: the submitting thread waits for it for ever");
            };
            return S;
        }
    };

    // ---- B: records are complete when they are published ----------------------------------------------------------------
    // A pointer as (root value, is it the value held in a local variable, offset)
    struct Ptr
    {
        Value * root = nullptr;
        bool held = false; // the object meant is the one that the variable at root + hoff points to
        int64_t hoff = 0;
        int64_t off = 0;
        bool ok = false;
        bool same(const Ptr & o) const { return ok && o.ok && root == o.root && held == o.held && hoff == o.hoff; }
    };

    struct Records
    {
        Ctx & X;
        Work & W;
        const DataLayout & DL;
        static constexpr unsigned MAX = 1024;
        using Bytes = BitVector;
        explicit Records(Work & w) : X(w.X), W(w), DL(w.DL) {}

        bool plain(Value * V, Value *& B, int64_t & o)
        {
            o = 0;
            for (int n = 0; n < 16; n++)
            {
                V = V->stripPointerCasts();
                auto * G = dyn_cast<GEPOperator>(V);
                APInt k(64, 0);
                if (! G)
                {
                    B = V;
                    return true;
                }
                if (! G->accumulateConstantOffset(DL, k))
                    return false;
                o += k.getSExtValue();
                V = G->getPointerOperand();
            }
            return false;
        }
        Ptr canon(Value * V)
        {
            Ptr p;
            for (int n = 0; n < 16; n++)
            {
                V = V->stripPointerCasts();
                if (auto * G = dyn_cast<GEPOperator>(V))
                {
                    APInt o(64, 0);
                    if (! G->accumulateConstantOffset(DL, o))
                        break; // an element of an array: a root of its own
                    p.off += o.getSExtValue();
                    V = G->getPointerOperand();
                    continue;
                }
                break;
            }
            p.ok = true;
            p.root = V;
            if (auto * L = dyn_cast<LoadInst>(V))
            {
                Value * B;
                int64_t o;
                if (plain(L->getPointerOperand(), B, o) && (isa<AllocaInst>(B) || isa<Argument>(B) || isa<GlobalVariable>(B)))
                {
                    p.root = B;
                    p.held = true;
                    p.hoff = o;
                }
            }
            return p;
        }
        static void mark(Bytes & b, int64_t off, int64_t n)
        {
            for (int64_t i = std::max<int64_t>(off, 0); i < off + n && i < (int64_t)MAX; i++)
                b.set(i);
        }

        // bytes of *param that H writes on every path that returns
        std::map<std::pair<Function *, unsigned>, Bytes> sum;
        std::set<std::pair<Function *, unsigned>> open;
        Bytes mustParam(Function * H, unsigned i)
        {
            auto key = std::make_pair(H, i);
            auto it = sum.find(key);
            if (it != sum.end())
                return it->second;
            Bytes none(MAX);
            if (H->isDeclaration() || i >= H->arg_size() || ! open.insert(key).second)
                return none;
            Ptr r;
            r.ok = true;
            r.root = H->getArg(i);
            auto in = flow(H, r);
            Bytes all(MAX, true);
            bool any = false;
            for (BasicBlock & B : *H)
                if (isa<ReturnInst>(B.getTerminator()) && in.count(&B))
                {
                    Bytes b = in[&B];
                    for (Instruction & I : B)
                        transfer(&I, r, b);
                    all &= b;
                    any = true;
                }
            open.erase(key);
            return sum[key] = any ? all : none;
        }
        // an element at a computed index of an array member: the whole member
        bool arrayMember(Value * P, Ptr & p, int64_t & size)
        {
            auto * G = dyn_cast<GEPOperator>(P->stripPointerCasts());
            if (! G || G->hasAllConstantIndices())
                return false;
            // the constant indices before the computed one
            Type * T = G->getSourceElementType();
            int64_t off = 0;
            unsigned i = 0;
            for (auto it = G->idx_begin(); it != G->idx_end(); ++it, ++i)
            {
                auto * C = dyn_cast<ConstantInt>(it->get());
                if (i == 0)
                {
                    if (! C)
                    {
                        return false;
                    }
                    off += C->getSExtValue() * (int64_t)DL.getTypeAllocSize(T);
                    if (T->isArrayTy() && G->getNumIndices() == 2 && ! isa<ConstantInt>(std::next(G->idx_begin())->get()))
                        break;
                    continue;
                }
                if (auto * S = dyn_cast<StructType>(T))
                {
                    off += DL.getStructLayout(S)->getElementOffset(C->getZExtValue());
                    T = S->getElementType(C->getZExtValue());
                }
                else if (auto * A = dyn_cast<ArrayType>(T))
                {
                    if (! C)
                        break;
                    off += C->getSExtValue() * (int64_t)DL.getTypeAllocSize(A->getElementType());
                    T = A->getElementType();
                }
                else
                    return false;
            }
            if (! T->isArrayTy())
                return false;
            size = DL.getTypeAllocSize(T);
            p = canon(G->getPointerOperand());
            p.off += off;
            return p.ok;
        }
        // blocks at whose end an array member filled by a loop is set: the loop's header
        std::map<Function *, std::map<BasicBlock *, std::vector<std::pair<Ptr, int64_t>>>> loopSets;
        const std::vector<std::pair<Ptr, int64_t>> & loopSetAt(BasicBlock * B)
        {
            Function * F = B->getParent();
            auto it = loopSets.find(F);
            if (it == loopSets.end())
            {
                auto & m = loopSets[F];
                DominatorTree DT(*F);
                LoopInfo LI(DT);
                for (Instruction & I : instructions(*F))
                    if (auto * S = dyn_cast<StoreInst>(&I))
                        if (Loop * L = LI.getLoopFor(I.getParent()))
                        {
                            Ptr p;
                            int64_t n;
                            if (arrayMember(S->getPointerOperand(), p, n))
                                m[L->getHeader()].push_back({ p, n });
                        }
                it = loopSets.find(F);
            }
            return it->second[B];
        }
        // bytes set in an object that a helper allocated and returned
        std::map<Function *, Bytes> retSum;
        Bytes made(Value * V)
        {
            Bytes none(MAX);
            auto * CB = dyn_cast<CallBase>(V->stripPointerCasts());
            Function * H = CB ? directCallee(CB) : nullptr;
            if (! H || H->isDeclaration() || ! X.inRepo(H))
                return none;
            auto it = retSum.find(H);
            if (it != retSum.end())
                return it->second;
            retSum[H] = none;
            Bytes all(MAX, true);
            bool any = false;
            std::function<void(Value *, Instruction *, int)> add = [&](Value * R, Instruction * at_, int d)
            {
                R = R->stripPointerCasts();
                if (isa<ConstantPointerNull>(R))
                    return;
                if (auto * P = dyn_cast<PHINode>(R); P && d < 4)
                {
                    for (unsigned i = 0; i < P->getNumIncomingValues(); i++)
                        add(P->getIncomingValue(i), P->getIncomingBlock(i)->getTerminator(), d + 1);
                    return;
                }
                any = true;
                all &= at(at_, canon(R));
            };
            for (BasicBlock & B : *H)
                if (auto * R = dyn_cast<ReturnInst>(B.getTerminator()))
                    if (R->getReturnValue())
                        add(R->getReturnValue(), R, 0);
            return retSum[H] = any ? all : none;
        }
        void transfer(Instruction * I, const Ptr & r, Bytes & b)
        {
            if (I->isTerminator())
                for (auto & [p, n] : loopSetAt(I->getParent()))
                    if (p.same(r))
                        mark(b, p.off, n);
            if (auto * S = dyn_cast<StoreInst>(I))
            {
                Ptr p = canon(S->getPointerOperand());
                if (p.same(r))
                    mark(b, p.off, DL.getTypeStoreSize(S->getValueOperand()->getType()));
                else if (r.held && S->getValueOperand()->getType()->isPointerTy())
                {
                    Value * B;
                    int64_t o;
                    if (plain(S->getPointerOperand(), B, o) && B == r.root && o == r.hoff)
                        b = made(S->getValueOperand()); // the variable points somewhere else now
                }
                return;
            }
            if (auto * A = dyn_cast<AtomicRMWInst>(I))
            {
                (void)A;
                return;
            }
            auto * CB = dyn_cast<CallBase>(I);
            if (! CB)
                return;
            if (! r.held && CB == r.root)
            {
                b = made(CB);
                return;
            }
            if (auto * MI = dyn_cast<MemIntrinsic>(CB))
            {
                Ptr p = canon(MI->getDest());
                if (p.same(r))
                {
                    if (auto * C = dyn_cast<ConstantInt>(MI->getLength()))
                        mark(b, p.off, C->getSExtValue());
                    else // a computed length: the whole object
                        mark(b, p.off, MAX);
                }
                return;
            }
            Function * H = directCallee(CB);
            if (! H)
                return;
            for (unsigned i = 0; i < CB->arg_size(); i++)
            {
                if (! CB->getArgOperand(i)->getType()->isPointerTy())
                    continue;
                Ptr p = canon(CB->getArgOperand(i));
                if (! p.same(r))
                    continue;
                if (H->getName() == "memset" || H->getName() == "memcpy")
                {
                    if (i == 0)
                        mark(b, p.off, MAX);
                    continue;
                }
                Bytes m = mustParam(H, i);
                for (int k = m.find_first(); k >= 0; k = m.find_next(k))
                    mark(b, p.off + k, 1);
            }
        }
        DenseMap<BasicBlock *, Bytes> flow(Function * F, const Ptr & r)
        {
            DenseMap<BasicBlock *, Bytes> in;
            in[&F->getEntryBlock()] = Bytes(MAX);
            std::vector<BasicBlock *> w{ &F->getEntryBlock() };
            while (! w.empty())
            {
                BasicBlock * B = w.back();
                w.pop_back();
                Bytes b = in[B];
                for (Instruction & I : *B)
                    transfer(&I, r, b);
                for (BasicBlock * S : successors(B))
                {
                    auto it = in.find(S);
                    if (it == in.end())
                    {
                        in[S] = b;
                        w.push_back(S);
                    }
                    else
                    {
                        Bytes n = it->second;
                        n &= b;
                        if (n != it->second)
                        {
                            it->second = n;
                            w.push_back(S);
                        }
                    }
                }
            }
            return in;
        }
        Bytes at(Instruction * I, const Ptr & r)
        {
            auto in = flow(I->getFunction(), r);
            auto it = in.find(I->getParent());
            Bytes b = it == in.end() ? Bytes(MAX, true) : it->second;
            for (Instruction & J : *I->getParent())
            {
                if (&J == I)
                    break;
                transfer(&J, r, b);
            }
            return b;
        }

        // where *param is read: offset -> (size, place)
        struct Read
        {
            int64_t size;
            Instruction * at;
        };
        std::map<std::pair<Function *, unsigned>, std::map<int64_t, Read>> rsum;
        std::set<std::pair<Function *, unsigned>> ropen;
        const std::map<int64_t, Read> & reads(Function * F, unsigned i)
        {
            auto key = std::make_pair(F, i);
            auto it = rsum.find(key);
            if (it != rsum.end())
                return it->second;
            static const std::map<int64_t, Read> none;
            if (F->isDeclaration() || i >= F->arg_size() || ! ropen.insert(key).second)
                return none;
            std::map<int64_t, Read> r;
            readsOf(F->getArg(i), 0, r);
            ropen.erase(key);
            return rsum[key] = r;
        }
        // reads through pointer value V, which addresses the record at offset off
        void readsOf(Value * V, int64_t off, std::map<int64_t, Read> & r, int depth = 0)
        {
            if (depth > 12)
                return;
            for (User * U : V->users())
            {
                if (auto * L = dyn_cast<LoadInst>(U))
                {
                    if (! L->use_empty())
                        r.insert({ off, { (int64_t)DL.getTypeStoreSize(L->getType()), L } });
                }
                else if (auto * R = dyn_cast<AtomicRMWInst>(U))
                {
                    if (R->getPointerOperand() == V)
                        r.insert({ off, { (int64_t)DL.getTypeStoreSize(R->getType()), R } });
                }
                else if (auto * G = dyn_cast<GetElementPtrInst>(U))
                {
                    APInt o(64, 0);
                    if (G->getPointerOperand() == V && G->accumulateConstantOffset(DL, o))
                        readsOf(G, off + o.getSExtValue(), r, depth + 1);
                }
                else if (isa<BitCastInst>(U))
                    readsOf(U, off, r, depth + 1);
                else if (auto * S = dyn_cast<StoreInst>(U))
                {
                    // kept in a local variable
                    auto * A = dyn_cast<AllocaInst>(S->getPointerOperand()->stripPointerCasts());
                    if (A && S->getValueOperand() == V)
                        for (User * U2 : A->users())
                            if (auto * L = dyn_cast<LoadInst>(U2); L && L->getType()->isPointerTy())
                                readsOf(L, off, r, depth + 1);
                }
                else if (auto * CB = dyn_cast<CallBase>(U))
                {
                    for (unsigned k = 0; k < CB->arg_size(); k++)
                        if (CB->getArgOperand(k) == V)
                        {
                            Function * H = directCallee(CB);
                            if (H && ! H->isDeclaration() && X.inRepo(H))
                                for (auto & [o, x] : reads(H, k))
                                    r.insert({ off + o, x });
                            else if (H && (isa<MemCpyInst>(CB) || H->getName() == "memcpy") && k == 1)
                                r.insert({ off, { 1, CB } });
                        }
                }
            }
        }
        // pointers loaded from member `off` of the record *param of F (through helpers): who reads what they point to
        void pointees(Value * V, int64_t off, int64_t want, std::vector<Value *> & out, std::set<std::pair<Value *, int64_t>> & seen)
        {
            if (! seen.insert({ V, off }).second)
                return;
            for (User * U : V->users())
            {
                if (auto * L = dyn_cast<LoadInst>(U))
                {
                    if (off == want && L->getType()->isPointerTy())
                        out.push_back(L);
                }
                else if (auto * S = dyn_cast<StoreInst>(U))
                {
                    auto * A = dyn_cast<AllocaInst>(S->getPointerOperand()->stripPointerCasts());
                    if (A && S->getValueOperand() == V)
                        for (User * U2 : A->users())
                            if (auto * L = dyn_cast<LoadInst>(U2); L && L->getType()->isPointerTy())
                                pointees(L, off, want, out, seen);
                }
                else if (auto * G = dyn_cast<GetElementPtrInst>(U))
                {
                    APInt o(64, 0);
                    if (G->getPointerOperand() == V && G->accumulateConstantOffset(DL, o))
                        pointees(G, off + o.getSExtValue(), want, out, seen);
                }
                else if (auto * CB = dyn_cast<CallBase>(U))
                    if (Function * H = directCallee(CB))
                        if (! H->isDeclaration() && X.inRepo(H))
                            for (unsigned k = 0; k < CB->arg_size() && k < H->arg_size(); k++)
                                if (CB->getArgOperand(k) == V)
                                    pointees(H->getArg(k), off, want, out, seen);
            }
        }

        // ---- the submissions
        int64_t obligations = 0, submissions = 0, records = 0;
        std::set<std::string> said;
        void judge(Instruction * site, const Ptr & r, const Bytes & have, const std::map<int64_t, Read> & need, const std::string & what, bool item)
        {
            Function * F = site->getFunction();
            for (auto & [o, x] : need)
            {
                int64_t off = o - 0;
                obligations++;
                bool full = true;
                for (int64_t i = off; i < off + x.size; i++)
                    full &= i < 0 || i >= (int64_t)MAX || have.test(i);
                if (full)
                    continue;
                std::string m;
                if (item)
                    m = W.N.iName.count(off) ? W.N.iName[off] : "offset " + std::to_string(off);
                else
                    m = "at offset " + std::to_string(off);
                unsigned l = 0;
                std::string at = X.loc(x.at, &l);
                std::string key = "work:" + X.shortName(F) + ":unset:" + what + ":" + (item ? m : std::to_string(off));
                if (said.insert(key).second)
                    X.finding("work", key, site, F,
                              "the job is published before " + what + " member " + m + " is set on every path; its callback reads it (" + at + ":" +
                                  std::to_string(l) + ", " + X.shortName(x.at->getFunction()) + ")");
            }
            (void)r;
        }

        struct Pub
        {
            Bytes pre; // set by the publisher itself
        };
        std::map<std::pair<Function *, unsigned>, Pub> pubs;

        // functions stored in member `n` of the record r, in F
        void storedFns(Function * F, const Ptr & r, int64_t off, std::vector<Function *> & out, std::vector<unsigned> & params)
        {
            for (Instruction & I : instructions(*F))
                if (auto * S = dyn_cast<StoreInst>(&I))
                {
                    Ptr p = canon(S->getPointerOperand());
                    if (! p.same(r) || p.off != off)
                        continue;
                    std::vector<Value *> vs{ S->getValueOperand() };
                    std::set<Value *> seen;
                    while (! vs.empty())
                    {
                        Value * V = vs.back()->stripPointerCasts();
                        vs.pop_back();
                        if (! seen.insert(V).second)
                            continue;
                        if (auto * G = dyn_cast<Function>(V))
                            out.push_back(G);
                        else if (auto * A = dyn_cast<Argument>(V))
                            params.push_back(A->getArgNo());
                        else if (auto * P = dyn_cast<PHINode>(V))
                            for (Value * x : P->incoming_values())
                                vs.push_back(x);
                        else if (auto * Z = dyn_cast<SelectInst>(V))
                        {
                            vs.push_back(Z->getTrueValue());
                            vs.push_back(Z->getFalseValue());
                        }
                        else
                        {
                            SetVector<Function *> t;
                            bool c = true;
                            X.resolve(V, t, c);
                            for (Function * f : t)
                                out.push_back(f);
                        }
                    }
                }
        }

        // the record the callback argument points to: compare what the callback reads with what was set
        std::set<std::pair<Instruction *, Function *>> argDone;
        void judgeArg(Instruction * site, Value * arg, Function * cb, unsigned param)
        {
            if (! argDone.insert({ site, cb }).second)
                return;
            judgePointee(site, arg, { cb->getArg(param) }, X.shortName(cb));
            judgeGlobals(site, cb);
        }
        // records in static variables that the callback reads and the submitting function fills
        void judgeGlobals(Instruction * site, Function * cb)
        {
            std::map<GlobalVariable *, std::map<int64_t, Read>> need;
            std::set<Function *> seen;
            std::vector<Function *> w{ cb };
            while (! w.empty())
            {
                Function * F = w.back();
                w.pop_back();
                if (F->isDeclaration() || ! X.inRepo(F) || ! seen.insert(F).second)
                    continue;
                for (Instruction & I : instructions(*F))
                {
                    if (auto * L = dyn_cast<LoadInst>(&I))
                    {
                        Ptr p = canon(L->getPointerOperand());
                        auto * G = dyn_cast_or_null<GlobalVariable>(p.root);
                        if (G && ! p.held && ! G->isConstant() && G->getValueType()->isStructTy() && ! L->use_empty())
                            need[G].insert({ p.off, { (int64_t)DL.getTypeStoreSize(L->getType()), L } });
                    }
                    else if (auto * CB = dyn_cast<CallBase>(&I))
                        if (Function * H = directCallee(CB))
                            w.push_back(H);
                }
            }
            Function * F = site->getFunction();
            for (auto & [G, n] : need)
            {
                bool fills = false;
                Ptr r;
                r.ok = true;
                r.root = G;
                for (Instruction & I : instructions(*F))
                    if (auto * S = dyn_cast<StoreInst>(&I))
                        fills |= canon(S->getPointerOperand()).same(r);
                if (! fills)
                    continue;
                X.note("callback record", X.shortName(F) + ": " + G->getName().str() + ", " + std::to_string(n.size()) + " members read");
                records++;
                judge(site, r, at(site, r), n, "the callback's record", false);
            }
        }
        void judgePointee(Instruction * site, Value * arg, const std::vector<Value *> & ptrs, const std::string & cbName)
        {
            Ptr r = canon(arg);
            if (! r.ok || (isa<Argument>(r.root) && ! r.held) || isa<Function>(r.root) || isa<Constant>(r.root) && ! isa<GlobalVariable>(r.root))
            {
                X.note("record not followed", X.shortName(site->getFunction()) + ": " + cbName);
                return;
            }
            std::map<int64_t, Read> need;
            for (Value * V : ptrs)
            {
                std::map<int64_t, Read> n;
                readsOf(V, 0, n);
                need.insert(n.begin(), n.end());
            }
            std::map<int64_t, Read> shifted;
            for (auto & [o, x] : need)
                if (r.off + o >= 0)
                    shifted.insert({ r.off + o, x });
            records++;
            X.note("callback record", X.shortName(site->getFunction()) + ": " + cbName + ", " + std::to_string(shifted.size()) + " members read");
            Bytes have = at(site, r);
            if (auto * G = dyn_cast<GlobalVariable>(r.root))
                (void)G;
            judge(site, r, have, shifted, "the callback's record", false);
        }

        // a publication of the job record r at instruction `site`, which itself sets `pre`
        std::set<std::pair<Instruction *, Value *>> subDone;
        void submission(Instruction * site, const Ptr & r, const Bytes & pre)
        {
            if (! subDone.insert({ site, r.root }).second)
                return;
            Function * F = site->getFunction();
            std::vector<Function *> cbs, mts;
            std::vector<unsigned> prm, mtp, argp;
            storedFns(F, r, W.N.iOff["DoWorkCallback"], cbs, prm);
            Bytes have = at(site, r);
            have |= pre;
            if (cbs.empty())
            {
                if (auto * A = dyn_cast<Argument>(r.root); A && ! r.held)
                {
                    auto key = std::make_pair(F, A->getArgNo());
                    if (! pubs.count(key))
                    {
                        Bytes b(MAX);
                        // what this function sets before it hands the record on, relative to its parameter
                        for (int k = have.find_first(); k >= 0; k = have.find_next(k))
                            if (k - r.off >= 0)
                                b.set(k - r.off);
                        pubs[key].pre = b;
                        todo.push_back(key);
                    }
                    return;
                }
                // handed over by reference in a lambda
                if (viaLambda(F, pre))
                    return;
                unsigned l;
                std::string at = X.loc(site, &l);
                X.note("submission not followed", X.shortName(F) + " " + at + ":" + std::to_string(l));
                return;
            }
            submissions++;
            X.note("submission", X.shortName(F));
            std::map<int64_t, Read> need;
            for (Function * cb : cbs)
                for (auto & [o, x] : reads(cb, 0))
                    need.insert({ o, x });
            need.insert({ W.N.iOff["DoWorkCallback"], { 8, site } });
            std::map<int64_t, Read> sh;
            for (auto & [o, x] : need)
                sh.insert({ r.off + o, x });
            judge(site, r, have, sh, "the job's", true);
            for (Function * cb : cbs)
                judgeGlobals(site, cb);

            // what the callback argument points to
            int64_t argOff = W.N.iOff.count("WorkCallbackArg") ? W.N.iOff["WorkCallbackArg"] : -1;
            for (Instruction & I : instructions(*F))
                if (auto * S = dyn_cast<StoreInst>(&I))
                {
                    Ptr p = canon(S->getPointerOperand());
                    if (! p.same(r) || p.off - r.off != argOff || ! S->getValueOperand()->getType()->isPointerTy())
                        continue;
                    if (auto * A = dyn_cast<Argument>(S->getValueOperand()->stripPointerCasts()))
                    {
                        argp.push_back(A->getArgNo());
                        continue;
                    }
                    for (Function * cb : cbs)
                    {
                        std::vector<Value *> ptrs;
                        std::set<std::pair<Value *, int64_t>> seen;
                        if (cb->arg_size())
                            pointees(cb->getArg(0), 0, argOff, ptrs, seen);
                        judgePointee(site, S->getValueOperand(), ptrs, X.shortName(cb));
                    }
                }
            // functions that take the callback and its argument as parameters
            std::vector<Function *> dummy;
            for (auto & [n, o] : W.N.iOff)
                if (n.find('.') == std::string::npos && n != "DoWorkCallback" && n != "WorkCallbackArg")
                    storedFns(F, r, r.off + o, dummy, mtp);
            for (unsigned a : argp)
                for (unsigned c : mtp)
                    if (F->getArg(c)->getType()->isPointerTy())
                        for (CallBase * CB : X.callers(F))
                        {
                            if (directCallee(CB) != F || CB->arg_size() <= std::max(a, c))
                                continue;
                            SetVector<Function *> t;
                            bool cpl = true;
                            X.resolve(CB->getArgOperand(c), t, cpl);
                            for (Function * cb : t)
                                if (! cb->isDeclaration() && cb->arg_size())
                                    judgeArg(CB, CB->getArgOperand(a), cb, 0);
                        }
        }
        // F is a lambda that publishes a captured record: judge where the enclosing function hands the lambda on
        bool viaLambda(Function * F, const Bytes & pre)
        {
            DISubprogram * SP = F->getSubprogram();
            if (! SP)
                return false;
            auto * T = dyn_cast_or_null<DICompositeType>(SP->getScope());
            if (! T)
                return false;
            DIScope * P = T->getScope();
            while (P && ! isa<DISubprogram>(P))
                P = P->getScope();
            if (! P)
                return false;
            bool any = false;
            for (Function & G : W.M)
            {
                DISubprogram * Q = G.getSubprogram();
                if (! Q || (Q != P && Q->getDeclaration() != P && ! (Q->getName() == cast<DISubprogram>(P)->getName() && Q->getLine() == cast<DISubprogram>(P)->getLine())))
                    continue;
                // records published there: variables whose DoWorkCallback is set
                std::set<Value *> vars;
                for (Instruction & I : instructions(G))
                    if (auto * S = dyn_cast<StoreInst>(&I))
                        if (W.itemField(S->getPointerOperand(), "DoWorkCallback"))
                        {
                            Ptr r = canon(S->getPointerOperand());
                            if (r.held)
                                vars.insert(r.root);
                        }
                for (Value * A : vars)
                {
                    // objects that hold a reference to the variable
                    std::set<Value *> clos{ A };
                    for (int pass = 0; pass < 3; pass++)
                        for (Instruction & I : instructions(G))
                            if (auto * S = dyn_cast<StoreInst>(&I))
                                if (clos.count(S->getValueOperand()->stripPointerCasts()))
                                    clos.insert(getUnderlyingBase(S->getPointerOperand()));
                    for (Instruction & I : instructions(G))
                        if (auto * CB = dyn_cast<CallBase>(&I); CB && ! isa<IntrinsicInst>(CB))
                        {
                            bool uses = false;
                            for (Value * v : CB->args())
                                if (v->getType()->isPointerTy())
                                {
                                    Value * b = getUnderlyingBase(v);
                                    uses |= b != A && clos.count(b);
                                }
                            if (! uses)
                                continue;
                            Ptr r;
                            r.ok = true;
                            r.root = A;
                            r.held = true;
                            any = true;
                            submission(CB, r, pre);
                        }
                }
            }
            return any;
        }
        std::vector<std::pair<Function *, unsigned>> todo;

        void run()
        {
            for (Function & F : W.M)
                for (Instruction & I : instructions(F))
                {
                    Value * P;
                    if (W.atomicStep(&I, P) > 0 && W.ringField(P, "WorkIndex"))
                    {
                        X.count("publications");
                        // the records this function has in hand
                        std::set<Value *> roots;
                        for (Instruction & J : instructions(F))
                            if (auto * S = dyn_cast<StoreInst>(&J))
                            {
                                int64_t o;
                                Value * b;
                                if (W.itemOff(S->getPointerOperand(), o, b))
                                    if (roots.insert(b).second)
                                        submission(&I, canon(b), Bytes(MAX));
                            }
                        if (roots.empty())
                        {
                            // publishes what its callers filled: the ring's current record
                            X.note("publication without a record", X.shortName(&F));
                        }
                    }
                }
            while (! todo.empty())
            {
                auto key = todo.back();
                todo.pop_back();
                for (CallBase * CB : X.callers(key.first))
                    if (CB->arg_size() > key.second)
                    {
                        Ptr r = canon(CB->getArgOperand(key.second));
                        Bytes b(MAX);
                        Bytes & pre = pubs[key].pre;
                        for (int k = pre.find_first(); k >= 0; k = pre.find_next(k))
                            if (k + r.off < (int64_t)MAX && k + r.off >= 0)
                                b.set(k + r.off);
                        submission(CB, r, b);
                    }
            }
            X.count("submissions", submissions);
            X.count("callback_records", records);
            X.count("record_members_required", obligations);
        }
    };

    // ---- C, D: the worker's loop and the end of a submission ------------------------------------------------------------
    enum
    {
        ASLEEP = 0,
        AWAKE,
        READY // awake, and saw a job that is not withdrawn
    };
    struct Protocol
    {
        Ctx & X;
        Work & W;
        const std::vector<CallBase *> & starts;
        Protocol(Work & w, const std::vector<CallBase *> & s) : X(w.X), W(w), starts(s) {}
        std::set<std::string> said;
        void report(const char * kind, Instruction * I, const std::string & msg)
        {
            std::string key = std::string("work:") + X.shortName(I->getFunction()) + ":" + kind;
            if (said.insert(key).second)
                X.finding("work", key, I, I->getFunction(), msg);
        }
        bool isStart(Instruction * I)
        {
            auto * CB = dyn_cast<CallBase>(I);
            return CB && std::find(starts.begin(), starts.end(), CB) != starts.end();
        }
        // blocking wait of the operating system
        bool isWait(Instruction * I)
        {
            auto * CB = dyn_cast<CallBase>(I);
            Function * F = CB ? directCallee(CB) : nullptr;
            if (! F)
                return false;
            StringRef n = F->getName();
            if (n == "syscall" && CB->arg_size() >= 3)
            {
                auto * op = dyn_cast<ConstantInt>(CB->getArgOperand(2));
                auto * nr = dyn_cast<ConstantInt>(CB->getArgOperand(0));
                return nr && nr->getZExtValue() == 202 && op && (op->getZExtValue() & 127) == 0;
            }
            if (X.baseName(F) == "futex" && CB->arg_size() >= 2)
            {
                auto * op = dyn_cast<ConstantInt>(CB->getArgOperand(1));
                return op && (op->getZExtValue() & 127) == 0;
            }
            return n == "pthread_cond_wait" || n == "pthread_cond_timedwait" || n == "nanosleep" || n == "usleep";
        }
        Spec worker()
        {
            Spec S;
            S.isEvent = [this](Instruction * I)
            {
                Value * P;
                return (W.atomicStep(I, P) && W.ringField(P, "ThreadsAwakened")) || isStart(I) || isWait(I);
            };
            S.step = [this](Instruction * I, int s) -> int
            {
                Value * P;
                if (isStart(I))
                {
                    if (s == ASLEEP)
                        report("uncounted", I, "a worker takes part in a job while it is not counted as awake: the submitting thread can return before it is done");
                    else if (s == AWAKE)
                        report("stale", I, "a worker takes part in a job without having seen, since it woke up, that a job is published and not withdrawn");
                    return s == ASLEEP ? ASLEEP : AWAKE;
                }
                if (isWait(I))
                {
                    if (s != ASLEEP)
                        report("waits", I, "a worker waits while it is counted as awake: the thread that submits a job does not return");
                    return s;
                }
                int d = W.atomicStep(I, P);
                X.count("awake_transitions");
                if (d > 0)
                {
                    if (s != ASLEEP)
                        report("twice-awake", I, "a worker is counted as awake twice: the thread that submits a job does not return");
                    return AWAKE;
                }
                if (s == ASLEEP)
                    report("twice-asleep", I, "a worker that is not counted as awake is counted down: a job can end while another worker is in it");
                return ASLEEP;
            };
            S.observes = [this](Instruction * I) { return W.readsRing(I, "WorkIndexCompleted"); };
            S.refine = [this](Value * V, bool out, int s) -> int
            {
                if (s != AWAKE)
                    return KEEP;
                auto * I = dyn_cast<ICmpInst>(V);
                if (! I)
                    return KEEP;
                ICmpInst::Predicate p = out ? I->getPredicate() : I->getInversePredicate();
                Value * l = E->here(I->getOperand(0)), * r = E->here(I->getOperand(1));
                if (W.readsRing(l, "WorkIndexCompleted") && W.readsRing(r, "WorkIndex"))
                {
                    std::swap(l, r);
                    p = ICmpInst::getSwappedPredicate(p);
                }
                if (W.readsRing(l, "WorkIndex") && W.readsRing(r, "WorkIndexCompleted"))
                    if (p == ICmpInst::ICMP_SGT || p == ICmpInst::ICMP_UGT || p == ICmpInst::ICMP_NE)
                        return READY;
                return KEEP;
            };
            S.onReturn = [](Instruction *, int) {};
            return S;
        }
        Engine * E = nullptr;

        // submission: nothing published / published / withdrawn / all workers seen asleep
        Spec submitter()
        {
            Spec S;
            S.isEvent = [this](Instruction * I)
            {
                Value * P;
                return W.atomicStep(I, P) && (W.ringField(P, "WorkIndex") || W.ringField(P, "WorkIndexCompleted"));
            };
            S.step = [this](Instruction * I, int s) -> int
            {
                Value * P;
                W.atomicStep(I, P);
                if (W.ringField(P, "WorkIndex"))
                {
                    if (s == 1 || s == 2)
                        report("nested", I, "a job is published while the one before is not finished");
                    return 1;
                }
                if (s != 1)
                    report("withdrawn", I, "a job is withdrawn that is not published");
                return 2;
            };
            S.observes = [this](Instruction * I) { return W.readsRing(I, "ThreadsAwakened"); };
            S.refine = [this](Value * V, bool out, int s) -> int
            {
                if (s != 2)
                    return KEEP;
                if (auto * I = dyn_cast<ICmpInst>(V))
                {
                    auto * C = dyn_cast<ConstantInt>(I->getOperand(1));
                    ICmpInst::Predicate p = out ? I->getPredicate() : I->getInversePredicate();
                    if (C && W.readsRing(E->here(I->getOperand(0)), "ThreadsAwakened"))
                    {
                        int64_t c = C->getSExtValue();
                        if ((p == ICmpInst::ICMP_EQ && c == 0) || (p == ICmpInst::ICMP_SLE && c <= 0) || (p == ICmpInst::ICMP_ULE && c == 0) ||
                            ((p == ICmpInst::ICMP_SLT || p == ICmpInst::ICMP_ULT) && c == 1))
                            return 0;
                    }
                    return KEEP;
                }
                auto * CB = dyn_cast<CallBase>(V);
                Function * F = CB ? directCallee(CB) : nullptr;
                if (F && ! out && anyAwake(F))
                    return 0;
                return KEEP;
            };
            S.onReturn = [this](Instruction * I, int s)
            {
                if (s == 1)
                    report("return-published", I, "the submitting thread returns without withdrawing the job: workers that wake up later still take part in it");
                else if (s == 2)
                    report("return-joined", I, "the submitting thread returns without waiting until every worker has left the job");
            };
            return S;
        }
        // F returns true exactly if a worker is awake
        DenseMap<Function *, int> aw;
        bool anyAwake(Function * F)
        {
            auto it = aw.find(F);
            if (it != aw.end())
                return it->second;
            aw[F] = 0;
            if (F->isDeclaration())
                return false;
            bool any = false, all = true;
            for (BasicBlock & B : *F)
                if (auto * R = dyn_cast<ReturnInst>(B.getTerminator()))
                {
                    any = true;
                    auto * I = dyn_cast_or_null<ICmpInst>(R->getReturnValue() ? stripCasts(R->getReturnValue()) : nullptr);
                    auto * C = I ? dyn_cast<ConstantInt>(I->getOperand(1)) : nullptr;
                    all &= C && W.readsRing(I->getOperand(0), "ThreadsAwakened") &&
                           ((C->isZero() && (I->getPredicate() == ICmpInst::ICMP_NE || I->getPredicate() == ICmpInst::ICMP_SGT || I->getPredicate() == ICmpInst::ICMP_UGT)) ||
                            (C->isOne() && (I->getPredicate() == ICmpInst::ICMP_SGE || I->getPredicate() == ICmpInst::ICMP_UGE)));
                }
            return aw[F] = any && all;
        }
    };
}

static void runWork(Ctx & X)
{
    Work W(X);
    if (! W.init())
        return;
    Module & M = X.M;

    // callbacks: the functions stored in DoWorkCallback
    SetVector<Function *> cbs;
    std::vector<CallBase *> starts; // calls of the callback
    for (Function & F : M)
        for (Instruction & I : instructions(F))
        {
            if (auto * S = dyn_cast<StoreInst>(&I))
            {
                if (auto * G = dyn_cast<Function>(S->getValueOperand()->stripPointerCasts()))
                    if (W.itemField(S->getPointerOperand(), "DoWorkCallback"))
                        cbs.insert(G);
            }
            else if (auto * CB = dyn_cast<CallBase>(&I))
                if (! directCallee(CB))
                    if (auto * L = dyn_cast<LoadInst>(CB->getCalledOperand()->stripPointerCasts()))
                        if (W.itemField(L->getPointerOperand(), "DoWorkCallback"))
                        {
                            starts.push_back(CB);
                            bool c = true;
                            SetVector<Function *> t;
                            X.resolve(CB->getCalledOperand(), t, c);
                            for (Function * f : t)
                                if (! f->isDeclaration())
                                    cbs.insert(f);
                        }
        }
    {
        Worker A(W);
        Spec S = A.spec();
        Engine E(X, S);
        A.E = &E;
        for (Function * F : cbs)
            if (E.relevant(F))
            {
                E.run(F, IDLE, true);
                X.count("worker_callbacks");
                X.note("callback", X.shortName(F));
            }
            else
                X.note("callback that takes no block", X.shortName(F));
        int64_t n = 0;
        for (Function & F : M)
            for (Instruction & I : instructions(F))
                if (S.isEvent(&I))
                    n++;
        X.count("block_operations", n);
    }
    X.count("callback_starts", (int64_t)starts.size());
    {
        Protocol L(W, starts);
        Spec S = L.worker();
        Engine E(X, S);
        L.E = &E;
        // functions threads start in
        SetVector<Function *> loops;
        for (Function & F : M)
            for (Instruction & I : instructions(F))
                if (auto * CB = dyn_cast<CallBase>(&I))
                    if (Function * C = directCallee(CB))
                        if (C->getName() == "pthread_create" && CB->arg_size() > 2)
                        {
                            SetVector<Function *> t;
                            bool c = true;
                            X.resolve(CB->getArgOperand(2), t, c);
                            for (Function * f : t)
                                if (! f->isDeclaration())
                                    loops.insert(f);
                        }
        int n = 0;
        for (Function * F : loops)
        {
            bool ev = false;
            for (Function * e : X.reach({ F }, [&](Function * H) { return ! X.inRepo(H); }).order)
                for (CallBase * CB : starts)
                    ev |= CB->getFunction() == e;
            if (! ev)
                continue;
            n++;
            X.note("worker loop", X.shortName(F));
            E.run(F, ASLEEP, true);
        }
        if (! n)
            X.broken("no worker loop found");
    }
    {
        Protocol L(W, starts);
        Spec S = L.submitter();
        Engine E(X, S);
        L.E = &E;
        // outermost functions with publications: those whose callers contain nothing else of the protocol
        SetVector<Function *> roots;
        for (Function & F : M)
            for (Instruction & I : instructions(F))
            {
                Value * P;
                if (W.atomicStep(&I, P) > 0 && W.ringField(P, "WorkIndex"))
                    roots.insert(&F);
            }
        // a helper that only publishes is judged in its callers
        for (unsigned i = 0; i < roots.size(); i++)
        {
            Function * F = roots[i];
            bool fin = false;
            for (auto & [s, c] : E.run(F, 0, false))
                fin |= s == 0;
            if (! fin)
            {
                bool up = false;
                for (CallBase * CB : X.callers(F))
                    if (directCallee(CB) == F && roots.size() < 400)
                    {
                        bool more = false;
                        for (Instruction & I : instructions(*CB->getFunction()))
                            if (S.isEvent(&I))
                                more = true;
                            else if (auto * C2 = dyn_cast<CallBase>(&I))
                                if (Function * H = directCallee(C2))
                                    more |= H != F && E.relevant(H);
                        if (more)
                        {
                            roots.insert(CB->getFunction());
                            up = true;
                        }
                    }
                if (up)
                    continue;
            }
            E.memo.clear();
            E.run(F, 0, true);
            X.note("submitter", X.shortName(F));
            X.count("submitters");
        }
    }
    Records R(W);
    R.run();
}

static RuleReg reg("work", runWork);
