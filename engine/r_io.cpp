// Rule io: a file operation or (de)compression that fails is reported; it never ends in the outcome of success.
//
// For every call of an operation that can fail and each of the values it fails with, the paths from the call are simulated with that
// value known: branches it decides are followed one way, all others both ways, merged constants are carried along. A path ends well
// when an error is recorded (a Python or stored SDS error, a C++ exception, a failure flag in shared memory) or when the function
// returns a value it does not return on success; the function then is itself an operation that can fail with that value.
#include "core.h"
#include <algorithm>

namespace
{
const int64_t BADNUM = INT64_MIN + 7; // failed, number not known

struct Val
{
    enum K
    {
        Unk,
        Const,
        Bad,
        Good
    } k = Unk;
    int64_t c = 0;
    bool bad = false;
    bool dec = false; // a constant picked because of the failure
    bool operator<(const Val & o) const { return std::tie(k, c, bad, dec) < std::tie(o.k, o.c, o.bad, o.dec); }
    bool operator==(const Val & o) const { return k == o.k && c == o.c && bad == o.bad && dec == o.dec; }
    bool known() const { return k != Unk; }
};
typedef std::map<Value *, Val> Env;

struct Outcome
{
    Val v;
    Value * raw = nullptr;
    bool reported = false;
    bool decided = false; // some branch was taken because of the failure
    Instruction * at = nullptr;
    bool operator<(const Outcome & o) const { return std::tie(v, raw, reported, decided) < std::tie(o.v, o.raw, o.reported, o.decided); }
};

struct IO
{
    Ctx & X;
    std::map<Function *, std::set<int64_t>> status; // functions that fail with these values
    DenseMap<Function *, int> must;
    DenseSet<Function *> roots, recorders;
    explicit IO(Ctx & x) : X(x) {}

    static const std::set<int64_t> * base(StringRef n)
    {
        static const std::set<int64_t> xfer{ -1, 0, 1 }, neg{ -1 }, rec{ 0 }, z{ -20 };
        if (n == "pread" || n == "pwrite" || n == "read" || n == "write" || n == "pread64" || n == "pwrite64")
            return &xfer;
        if (n == "open" || n == "open64" || n == "shm_open" || n == "ftruncate" || n == "ftruncate64" || n == "mmap" || n == "mmap64" || n == "fstat" || n == "fstat64" ||
            n == "lseek" || n == "lseek64")
            return &neg;
        if (n == "fread" || n == "fwrite")
            return &rec;
        if (n == "ZSTD_compress" || n == "ZSTD_compressCCtx" || n == "ZSTD_compress2" || n == "ZSTD_decompress" || n == "ZSTD_decompressDCtx" || n == "ZSTD_decompressStream" || n == "ZSTD_compressStream" || n == "ZSTD_compressStream2" ||
            n == "ZSTD_endStream" || n == "ZSTD_flushStream")
            return &z;
        return nullptr;
    }
    // the values the call fails with
    std::set<int64_t> fails(CallBase * CB)
    {
        if (isa<IntrinsicInst>(CB))
            return {};
        if (Function * D = directCallee(CB))
        {
            if (D->isDeclaration())
            {
                auto * b = base(D->getName());
                return b ? *b : std::set<int64_t>{};
            }
            auto it = status.find(D);
            return it == status.end() ? std::set<int64_t>{} : it->second;
        }
        std::set<int64_t> r;
        SetVector<Function *> ts;
        bool complete = true;
        X.resolve(CB->getCalledOperand(), ts, complete);
        if (! complete)
            return {};
        for (Function * T : ts)
        {
            if (roots.count(T))
                return {};
            auto it = status.find(T);
            if (it != status.end())
                r.insert(it->second.begin(), it->second.end());
        }
        return r;
    }
    // the call can only fail because compression did
    bool compresses(CallBase * CB)
    {
        Function * D = directCallee(CB);
        return D && (D->isDeclaration() ? D->getName().starts_with("ZSTD_compress") : compressing.count(D) && ! otherwise.count(D));
    }
    DenseSet<Function *> compressing, otherwise;
    static bool raise(StringRef n)
    {
        static const char * r[] = { "PyErr_Format", "PyErr_SetString", "PyErr_SetObject", "PyErr_NoMemory", "PyErr_SetNone", "PyErr_SetFromErrno",
                                    "PyErr_SetFromErrnoWithFilename", "__cxa_throw", "abort", "exit", "_exit" };
        for (auto * s : r)
            if (n == s)
                return true;
        return n.starts_with("_ZSt9terminate") || (n.starts_with("_ZSt") && n.contains("__throw"));
    }
    // formats a message into a buffer that is handed to the interpreter as an exception somewhere
    void findRecorders()
    {
        DenseSet<GlobalVariable *> bufs;
        for (Function & F : X.M)
            for (Instruction & I : instructions(F))
                if (auto * CB = dyn_cast<CallBase>(&I))
                    if (Function * D = directCallee(CB); D && D->getName().starts_with("PyErr_"))
                        for (Value * A : CB->args())
                            if (auto * G = dyn_cast<GlobalVariable>(getUnderlyingBase(A)); G && ! G->isConstant())
                                bufs.insert(G);
        for (Function & F : X.M)
            for (Instruction & I : instructions(F))
                if (auto * CB = dyn_cast<CallBase>(&I))
                    if (Function * D = directCallee(CB); D && D->getName().contains("printf") && CB->arg_size())
                        if (auto * G = dyn_cast<GlobalVariable>(getUnderlyingBase(CB->getArgOperand(0))); G && bufs.count(G))
                            recorders.insert(&F);
    }
    bool records(Function * D)
    {
        if (raise(D->getName()) || recorders.count(D))
            return true;
        if (D->isDeclaration() || ! X.inRepo(D))
            return false;
        auto it = must.find(D);
        if (it != must.end())
            return it->second;
        must[D] = 0;
        if (D->size() > 60)
            return false;
        // every path to a return records
        DenseSet<BasicBlock *> seen;
        SmallVector<BasicBlock *, 16> w{ &D->getEntryBlock() };
        bool all = true, any = false;
        while (! w.empty() && all)
        {
            BasicBlock * B = w.pop_back_val();
            if (! seen.insert(B).second)
                continue;
            bool rec = false;
            for (Instruction & I : *B)
                if (auto * CB = dyn_cast<CallBase>(&I))
                    if (Function * E = directCallee(CB); E && ! isa<IntrinsicInst>(CB) && records(E))
                        rec = true;
            if (rec)
            {
                any = true;
                continue;
            }
            if (isa<ReturnInst>(B->getTerminator()))
                all = false;
            if (auto * IV = dyn_cast<InvokeInst>(B->getTerminator()))
                w.push_back(IV->getNormalDest());
            else
                for (BasicBlock * S : successors(B))
                    w.push_back(S);
        }
        return must[D] = all && any;
    }

    // can the function record an error
    DenseMap<Function *, int> mayRep;
    bool mayReport(Function * D)
    {
        if (D->isDeclaration() || ! X.inRepo(D))
            return false;
        auto it = mayRep.find(D);
        if (it != mayRep.end())
            return it->second;
        mayRep[D] = 0;
        bool r = recorders.count(D);
        for (auto & e : X.edges(D))
            if (! r && (recorders.count(e.callee) || e.callee->getName().starts_with("PyErr_") || mayReport(e.callee)))
                r = true;
        return mayRep[D] = r;
    }

    // a small function that counts or flags something in memory it is given
    bool writesArg(Function * D)
    {
        if (D->isDeclaration() || ! X.inRepo(D) || D->getInstructionCount() > 12)
            return false;
        for (Instruction & I : instructions(*D))
            if (auto * R = dyn_cast<AtomicRMWInst>(&I))
                if (isa<Argument>(getUnderlyingBase(R->getPointerOperand())))
                    return true;
        return false;
    }

    // ---- evaluation
    static int64_t norm(int64_t v, unsigned w) { return w >= 64 ? v : (int64_t)((uint64_t)v << (64 - w)) >> (64 - w); }
    static uint64_t uns(int64_t v, unsigned w) { return w >= 64 ? (uint64_t)v : (uint64_t)v & ((1ull << w) - 1); }
    static unsigned width(Type * T) { return T->isIntegerTy() ? std::min(64u, T->getIntegerBitWidth()) : 64; }
    static Val cst(int64_t c, bool bad = false) { return { Val::Const, c, bad }; }
    // a successful result, knowing what the operation returns when it fails
    std::vector<std::set<int64_t>> goodSets;
    Val good(const std::set<int64_t> & reps)
    {
        for (size_t i = 0; i < goodSets.size(); ++i)
            if (goodSets[i] == reps)
                return { Val::Good, (int64_t)i, false };
        goodSets.push_back(reps);
        return { Val::Good, (int64_t)goodSets.size() - 1, false };
    }
    Val get(Value * V, const Env & e)
    {
        auto it = e.find(V);
        if (it != e.end())
            return it->second;
        if (auto * K = dyn_cast<ConstantInt>(V); K && K->getBitWidth() <= 64)
            return cst(K->getSExtValue());
        if (isa<ConstantPointerNull>(V))
            return cst(0);
        if (auto * E = dyn_cast<ConstantExpr>(V); E && E->getOpcode() == Instruction::IntToPtr)
            if (auto * K = dyn_cast<ConstantInt>(E->getOperand(0)))
                return cst(K->getSExtValue());
        return {};
    }
    // 0 false, 1 true, -1 unknown
    int cmp(ICmpInst::Predicate P, Val a, Val b, unsigned w)
    {
        bool swap = false;
        auto tracked = [](const Val & v) { return v.k == Val::Good || v.k == Val::Bad || v.bad; };
        if (! tracked(a) && tracked(b))
        {
            std::swap(a, b);
            P = ICmpInst::getSwappedPredicate(P);
            swap = true;
        }
        (void)swap;
        bool eq = P == ICmpInst::ICMP_EQ, ne = P == ICmpInst::ICMP_NE;
        if (a.k == Val::Good)
        {
            if (eq || ne)
            {
                bool same = b.k == Val::Const && ! b.bad ? ! goodSets[a.c].count(b.c) : true;
                return eq ? same : ! same;
            }
            switch (P)
            {
            case ICmpInst::ICMP_SGT:
            case ICmpInst::ICMP_SGE:
            case ICmpInst::ICMP_UGT:
            case ICmpInst::ICMP_UGE:
                return b.k == Val::Const ? 1 : P == ICmpInst::ICMP_SGE || P == ICmpInst::ICMP_UGE;
            default:
                return b.k == Val::Const ? 0 : P == ICmpInst::ICMP_SLE || P == ICmpInst::ICMP_ULE;
            }
        }
        if (a.k == Val::Bad)
            return (eq || ne) && (b.k != Val::Const || b.c != 0) ? ne : -1;
        if (a.k != Val::Const)
            return -1;
        if (b.k == Val::Const)
        {
            int64_t x = norm(a.c, w), y = norm(b.c, w);
            uint64_t ux = uns(a.c, w), uy = uns(b.c, w);
            switch (P)
            {
            case ICmpInst::ICMP_EQ:
                return x == y;
            case ICmpInst::ICMP_NE:
                return x != y;
            case ICmpInst::ICMP_SLT:
                return x < y;
            case ICmpInst::ICMP_SLE:
                return x <= y;
            case ICmpInst::ICMP_SGT:
                return x > y;
            case ICmpInst::ICMP_SGE:
                return x >= y;
            case ICmpInst::ICMP_ULT:
                return ux < uy;
            case ICmpInst::ICMP_ULE:
                return ux <= uy;
            case ICmpInst::ICMP_UGT:
                return ux > uy;
            case ICmpInst::ICMP_UGE:
                return ux >= uy;
            default:
                return -1;
            }
        }
        if (! a.bad)
            return -1;
        // a failing result against the amount asked for
        bool huge = a.c < 0;
        switch (P)
        {
        case ICmpInst::ICMP_EQ:
            return 0;
        case ICmpInst::ICMP_NE:
            return 1;
        case ICmpInst::ICMP_SLT:
        case ICmpInst::ICMP_SLE:
            return 1;
        case ICmpInst::ICMP_SGT:
        case ICmpInst::ICMP_SGE:
            return 0;
        case ICmpInst::ICMP_ULT:
        case ICmpInst::ICMP_ULE:
            return ! huge;
        default:
            return huge;
        }
    }

    struct Sim
    {
        std::set<std::pair<BasicBlock *, Env>> seen;
        std::set<Outcome> out;
        CallBase * origin = nullptr;
        unsigned budget = 30000;
        bool overflow = false;
        DominatorTree * DT = nullptr;
        DenseSet<BasicBlock *> visited;
        const DenseSet<BasicBlock *> * good = nullptr; // blocks reached when everything succeeds
    };
    // follow every path from I (in B, after the call) with what is known
    struct St
    {
        BasicBlock * B;
        BasicBlock::iterator I;
        Env e;
        std::vector<std::pair<BasicBlock *, BasicBlock *>> decided; // edges a failing value chose
    };
    void eval(Instruction & I, Env & e, Sim & S)
    {
        if (auto * C = dyn_cast<CastInst>(&I))
        {
            Val v = get(C->getOperand(0), e);
            if (v.k == Val::Const && ! isa<Constant>(C->getOperand(0)))
            {
                unsigned from = width(C->getSrcTy()), to = width(C->getDestTy());
                if (isa<TruncInst>(C))
                    v.c = norm(v.c, to);
                else if (isa<ZExtInst>(C))
                    v.c = (int64_t)uns(v.c, from);
                else if (isa<SExtInst>(C))
                    v.c = norm(v.c, from);
                else if (! isa<BitCastInst>(C) && ! isa<PtrToIntInst>(C) && ! isa<IntToPtrInst>(C))
                    v = {};
            }
            else if (isa<Constant>(C->getOperand(0)))
                v = {};
            if (v.known())
                e[&I] = v;
            else
                e.erase(&I);
            return;
        }
        if (auto * F = dyn_cast<FreezeInst>(&I))
        {
            Val v = get(F->getOperand(0), e);
            if (v.known())
                e[&I] = v;
            return;
        }
        if (auto * C = dyn_cast<ICmpInst>(&I))
        {
            int r = cmp(C->getPredicate(), get(C->getOperand(0), e), get(C->getOperand(1), e), width(C->getOperand(0)->getType()));
            Val a = get(C->getOperand(0), e), b = get(C->getOperand(1), e);
            bool bad = a.bad || b.bad || a.k == Val::Bad || b.k == Val::Bad || a.k == Val::Good || b.k == Val::Good;
            if (r >= 0)
            {
                e[&I] = cst(r ? -1 : 0, bad);
                e[&I].dec = a.dec || b.dec;
            }
            else
                e.erase(&I);
            return;
        }
        if (auto * Se = dyn_cast<SelectInst>(&I))
        {
            Val c = get(Se->getCondition(), e);
            if (c.k == Val::Const)
            {
                Val v = get(c.c ? Se->getTrueValue() : Se->getFalseValue(), e);
                v.bad |= c.bad;
                v.dec |= c.dec;
                if (v.known())
                    e[&I] = v;
                else
                    e.erase(&I);
            }
            else
                e.erase(&I);
            return;
        }
        if (auto * B = dyn_cast<BinaryOperator>(&I))
        {
            Val a = get(B->getOperand(0), e), b = get(B->getOperand(1), e);
            bool i1 = I.getType()->isIntegerTy(1);
            if (i1 && (a.k == Val::Const || b.k == Val::Const))
            {
                bool ta = a.k == Val::Const, tb = b.k == Val::Const;
                if (B->getOpcode() == Instruction::Xor && ta && tb)
                {
                    e[&I] = cst((a.c != 0) != (b.c != 0) ? -1 : 0, a.bad || b.bad);
                    e[&I].dec = a.dec || b.dec;
                    return;
                }
                if (B->getOpcode() == Instruction::And && ((ta && ! a.c) || (tb && ! b.c)))
                {
                    e[&I] = cst(0, true);
                    return;
                }
                if (B->getOpcode() == Instruction::Or && ((ta && a.c) || (tb && b.c)))
                {
                    e[&I] = cst(-1, true);
                    return;
                }
                if ((B->getOpcode() == Instruction::Or || B->getOpcode() == Instruction::And) && ta && tb)
                {
                    e[&I] = cst(B->getOpcode() == Instruction::Or ? a.c | b.c : a.c & b.c, a.bad || b.bad);
                    return;
                }
                e.erase(&I);
                return;
            }
            if (a.k == Val::Good || b.k == Val::Good)
                e[&I] = a.k == Val::Good ? a : b;
            else if (a.k == Val::Bad || b.k == Val::Bad || a.bad || b.bad)
                e[&I] = Val{ Val::Bad, 0, true };
            else
                e.erase(&I);
            return;
        }
        if (auto * L = dyn_cast<LoadInst>(&I))
        {
            auto it = e.find(L->getPointerOperand());
            if (isa<AllocaInst>(L->getPointerOperand()) && it != e.end())
                e[&I] = it->second;
            else
                e.erase(&I);
            return;
        }
        if (! I.getType()->isVoidTy())
            e.erase(&I);
    }
    // does the callee answer whether its argument is an error code
    bool isErrorTest(Function * D, unsigned arg, int d = 0)
    {
        if (D->getName() == "ZSTD_isError" || D->getName() == "ERR_isError")
            return true;
        if (D->isDeclaration() || d > 3 || arg >= D->arg_size() || ! D->getReturnType()->isIntegerTy())
            return false;
        for (User * U : D->getArg(arg)->users())
            if (auto * CB = dyn_cast<CallBase>(U))
                if (Function * E = directCallee(CB))
                    for (unsigned i = 0; i < CB->arg_size(); ++i)
                        if (CB->getArgOperand(i) == U->getOperand(i) && CB->getArgOperand(i) == D->getArg(arg) && isErrorTest(E, i, d + 1))
                            return true;
        return false;
    }
    void run(St s0, Sim & S)
    {
        std::vector<St> work{ std::move(s0) };
        while (! work.empty())
        {
            St s = std::move(work.back());
            work.pop_back();
            if (S.budget-- == 0)
            {
                S.overflow = true;
                return;
            }
            bool stop = false;
            Outcome o;
            S.visited.insert(s.B);
            for (; ! stop && s.I != s.B->end(); ++s.I)
            {
                Instruction & I = *s.I;
                if (I.isTerminator() && ! isa<InvokeInst>(I))
                    break;
                if (auto * CB = dyn_cast<CallBase>(&I))
                {
                    if (isa<IntrinsicInst>(CB))
                        continue;
                    Function * D = directCallee(CB);
                    if (D && records(D))
                    {
                        o.reported = true;
                        o.at = &I;
                        stop = true;
                        break;
                    }
                    // another way is tried because this one failed; its own failures are judged where they happen
                    bool onlyFailing = S.origin && S.good && ! S.good->count(s.B);
                    if (onlyFailing && S.origin != CB && D && (! fails(CB).empty() || mayReport(D) || writesArg(D)))
                        o.reported = stop = true;
                    if (stop)
                        break;
                    bool retry = D && S.origin && S.origin != CB && ! s.decided.empty() && directCallee(S.origin) == D && D->isDeclaration();
                    if (retry)
                    {
                        o.reported = true;
                        stop = true;
                        break;
                    }
                    if (S.origin == CB)
                    {
                        // the operation is done again: because it failed, or on the next part
                        if (! s.decided.empty())
                        {
                            o.reported = true;
                            stop = true;
                            break;
                        }
                        s.e.erase(CB);
                        continue;
                    }
                    Val r;
                    for (unsigned i = 0; i < CB->arg_size(); ++i)
                    {
                        Val v = get(CB->getArgOperand(i), s.e);
                        if (isa<AllocaInst>(CB->getArgOperand(i)->stripPointerCasts()))
                            s.e.erase(CB->getArgOperand(i)->stripPointerCasts());
                        if (isa<Constant>(CB->getArgOperand(i)))
                            continue;
                        if (D && (v.k == Val::Good || v.k == Val::Bad || v.bad) && CB->getType()->isIntegerTy())
                        {
                            if (isErrorTest(D, i))
                            {
                                if (v.k == Val::Good)
                                    r = cst(0, true);
                                else if (v.c < 0 || v.k == Val::Bad)
                                {
                                    r = cst(CB->getType()->isIntegerTy(1) ? -1 : 1, true);
                                    // the test itself may record the error
                                    if (! D->isDeclaration())
                                        for (Instruction & J : instructions(*D))
                                            if (auto * C2 = dyn_cast<CallBase>(&J))
                                                if (Function * E = directCallee(C2); E && ! isa<IntrinsicInst>(C2) && records(E))
                                                {
                                                    o.reported = true;
                                                    stop = true;
                                                }
                                }
                            }
                        }
                    }
                    // when looking for the outcomes of success every operation succeeds
                    if (! S.origin && ! r.known())
                    {
                        std::set<int64_t> rs = fails(CB);
                        rs.erase(BADNUM);
                        if (! rs.empty())
                            r = good(rs);
                    }
                    if (r.known())
                        s.e[&I] = r;
                    else if (! I.getType()->isVoidTy())
                        s.e.erase(&I);
                    continue;
                }
                if (auto * St_ = dyn_cast<StoreInst>(&I))
                {
                    Value * P = St_->getPointerOperand();
                    Val v = get(St_->getValueOperand(), s.e);
                    if (isa<AllocaInst>(P))
                    {
                        if (v.known())
                            s.e[P] = v;
                        else
                            s.e.erase(P);
                    }
                    else if (! isa<AllocaInst>(getUnderlyingBase(P)) && S.origin)
                    {
                        // a failure noted where others can see it
                        if (v.bad || v.k == Val::Bad)
                            o.reported = stop = true;
                        else if (v.k == Val::Const && S.good && ! S.good->count(s.B))
                            o.reported = stop = true;
                    }
                    continue;
                }
                if (isa<AtomicRMWInst>(I) && S.good && ! S.good->count(s.B) && ! isa<AllocaInst>(getUnderlyingBase(I.getOperand(0))))
                {
                    o.reported = stop = true;
                    continue;
                }
                if (isa<PHINode>(I))
                    continue;
                eval(I, s.e, S);
            }
            if (stop)
            {
                S.out.insert(o);
                continue;
            }
            Instruction * T = s.B->getTerminator();
            if (auto * R = dyn_cast<ReturnInst>(T))
            {
                o.at = R;
                o.decided = ! s.decided.empty();
                if (Value * V = R->getReturnValue())
                {
                    o.v = get(V, s.e);
                    if (! o.v.known())
                        o.raw = V;
                }
                S.out.insert(o);
                continue;
            }
            SmallVector<std::pair<BasicBlock *, bool>, 4> next;
            if (auto * IV = dyn_cast<InvokeInst>(T))
                next.push_back({ IV->getNormalDest(), false });
            else if (auto * Br = dyn_cast<BranchInst>(T); Br && Br->isConditional())
            {
                Val c = get(Br->getCondition(), s.e);
                if (c.k == Val::Const)
                    next.push_back({ Br->getSuccessor(c.c ? 0 : 1), c.bad || c.dec });
                else
                {
                    next.push_back({ Br->getSuccessor(0), false });
                    next.push_back({ Br->getSuccessor(1), false });
                }
            }
            else if (auto * Sw = dyn_cast<SwitchInst>(T))
            {
                Val c = get(Sw->getCondition(), s.e);
                if (c.k == Val::Const)
                {
                    BasicBlock * d = Sw->getDefaultDest();
                    for (auto & cs : Sw->cases())
                        if (cs.getCaseValue()->getSExtValue() == norm(c.c, width(Sw->getCondition()->getType())))
                            d = cs.getCaseSuccessor();
                    next.push_back({ d, c.bad || c.dec });
                }
                else
                    for (unsigned i = 0; i < T->getNumSuccessors(); ++i)
                        next.push_back({ T->getSuccessor(i), false });
            }
            else
                for (unsigned i = 0; i < T->getNumSuccessors(); ++i)
                    next.push_back({ T->getSuccessor(i), false });
            for (auto & [N, dec] : next)
            {
                St n;
                n.B = N;
                n.I = N->begin();
                n.decided = s.decided;
                if (dec && T->getNumSuccessors() > 1)
                    n.decided.push_back({ s.B, N });
                Env e = s.e;
                for (PHINode & P : N->phis())
                {
                    Value * V = P.getIncomingValueForBlock(s.B);
                    Val v = get(V, s.e);
                    // a value chosen because the operation failed
                    if (v.k == Val::Const && S.DT && ! v.bad)
                        for (auto & ed : n.decided)
                            if ((ed.first == s.B && ed.second == N) || S.DT->dominates(BasicBlockEdge(ed.first, ed.second), s.B))
                                v.dec = true;
                    if (v.known())
                        e[&P] = v;
                    else
                        e.erase(&P);
                }
                // forget what is not needed any more
                for (auto it = e.begin(); it != e.end();)
                {
                    bool need = isa<AllocaInst>(it->first);
                    for (User * U : it->first->users())
                        if (auto * J = dyn_cast<Instruction>(U); need || (J && (J->getParent() != s.B || isa<PHINode>(J) || N == s.B)))
                        {
                            need = true;
                            break;
                        }
                    it = need ? std::next(it) : e.erase(it);
                }
                n.e = std::move(e);
                if (S.seen.insert({ N, n.e }).second)
                    work.push_back(std::move(n));
            }
        }
    }
    Sim simulate(CallBase * CB, Val v, DominatorTree * DT, const DenseSet<BasicBlock *> * goodBlocks)
    {
        Sim S;
        bool tracked = goodBlocks;
        S.good = goodBlocks;
        S.DT = DT;
        S.origin = tracked ? CB : nullptr;
        St s;
        if (auto * IV = dyn_cast<InvokeInst>(CB))
        {
            s.B = IV->getNormalDest();
            s.I = s.B->begin();
            for (PHINode & P : s.B->phis())
                if (P.getIncomingValueForBlock(IV->getParent()) == CB)
                    s.e[&P] = v;
        }
        else
        {
            s.B = CB->getParent();
            s.I = std::next(CB->getIterator());
        }
        s.e[CB] = v;
        run(s, S);
        return S;
    }
    void analyse(Function * F, bool report, bool & changed)
    {
        bool any = false;
        DominatorTree DT(*F);
        for (Instruction & I : instructions(*F))
        {
            auto * CB = dyn_cast<CallBase>(&I);
            if (! CB)
                continue;
            std::set<int64_t> reps = fails(CB);
            if (reps.empty())
                continue;
            any = true;
            std::set<int64_t> plain = reps;
            plain.erase(BADNUM);
            Sim G = simulate(CB, good(plain), &DT, nullptr);
            std::set<Val> gv;
            std::set<Value *> graw;
            for (auto & o : G.out)
                if (! o.reported)
                {
                    gv.insert({ o.v.k, o.v.k == Val::Const ? o.v.c : 0, false, false });
                    if (o.raw)
                        graw.insert(o.raw);
                }
            if (report)
                X.count("failing_calls_simulated");
            bool flagged = false;
            for (int64_t rep : reps)
            {
                Val v = rep == BADNUM ? Val{ Val::Bad, 0, true } : cst(rep, true);
                Sim S = simulate(CB, v, &DT, &G.visited);
                if (report)
                {
                    X.count("failure_values_simulated");
                    X.count("outcomes_judged", S.out.size());
                    if (S.overflow)
                    {
                        X.count("not_decided_too_many_paths");
                        X.note("not_decided", X.baseName(F) + " at " + X.loc(CB));
                    }
                }
                for (auto & o : S.out)
                {
                    if (o.reported)
                        continue;
                    bool failing = false;
                    if (! F->getReturnType()->isVoidTy() && ! roots.count(F))
                    {
                        if (o.raw)
                            failing = ! graw.count(o.raw);
                        else if (o.v.k == Val::Bad)
                            failing = true;
                        else if (o.v.k == Val::Const)
                            failing = ! gv.count({ Val::Const, o.v.c, false, false });
                    }
                    if (failing)
                    {
                        if (o.raw && ! F->getReturnType()->isIntegerTy())
                            continue; // something else is returned in its place
                        int64_t c = o.raw || o.v.k == Val::Bad ? BADNUM : o.v.c;
                        if (F->getReturnType()->isIntegerTy(1) && c != BADNUM)
                            c = c ? -1 : 0;
                        (compresses(CB) ? compressing : otherwise).insert(F);
                        if (status[F].size() < 8 && status[F].insert(c).second)
                        {
                            changed = true;
                            if (getenv("IO_DUMP"))
                                errs() << "STATUS " << X.baseName(F) << " " << c << " from " << (directCallee(CB) ? X.baseName(directCallee(CB)) : std::string("indirect")) << " at " << X.loc(CB) << "\n";
                        }
                        continue;
                    }
                    // data that does not compress is stored as it is
                    if (o.decided && compresses(CB))
                        continue;
                    if (report && ! flagged)
                    {
                        flagged = true;
                        Function * D = directCallee(CB);
                        std::string dn = D ? X.baseName(D) : "";
                        if (! D)
                            for (Function * T : X.targets(CB))
                                if (status.count(T))
                                    dn = X.baseName(T);
                        X.finding("io", "io:" + X.baseName(F) + ":" + dn, CB, F,
                                  "when " + dn + " fails (result " + (rep == BADNUM ? std::string("other than asked for") : std::to_string(rep)) + ") " + X.baseName(F) +
                                      " goes on as if it had succeeded, without reporting an error");
                    }
                }
            }
        }
        if (report && any)
            X.count("functions_with_failing_calls");
    }
    void go()
    {
        for (Function * F : X.workerRoots())
            roots.insert(F);
        // callbacks whose result no caller looks at: what they return reports nothing
        {
            DenseMap<Function *, bool> used;
            for (Function & F : X.M)
                for (Instruction & I : instructions(F))
                    if (auto * CB = dyn_cast<CallBase>(&I); CB && ! directCallee(CB) && ! CB->isInlineAsm() && CB->getType()->isIntegerTy())
                    {
                        SetVector<Function *> ts;
                        bool complete = true;
                        X.resolve(CB->getCalledOperand(), ts, complete);
                        if (complete)
                            for (Function * T : ts)
                                used[T] |= ! CB->use_empty();
                    }
            for (auto & kv : used)
                if (! kv.second)
                {
                    bool direct = false;
                    for (User * U : kv.first->users())
                        if (auto * CB = dyn_cast<CallBase>(U); CB && CB->getCalledOperand() == kv.first)
                            direct = true;
                    if (direct)
                        continue;
                    roots.insert(kv.first);
                }
        }
        findRecorders();
        if (recorders.empty())
            X.broken("io: no function records SDS errors");
        std::vector<Function *> fs;
        for (Function & F : X.M)
            if (! F.isDeclaration() && X.inRepo(&F))
                fs.push_back(&F);
        for (int r = 0; r < 8; ++r)
        {
            bool ch = false;
            for (Function * F : fs)
                analyse(F, false, ch);
            if (! ch)
                break;
        }
        bool ch = false;
        for (Function * F : fs)
            analyse(F, true, ch);
        for (auto & kv : status)
            if (! kv.second.empty())
            {
                X.count("operations_that_can_fail");
                X.note("operations", X.baseName(kv.first));
                if (getenv("IO_DUMP"))
                {
                    errs() << X.baseName(kv.first);
                    for (auto c : kv.second)
                        errs() << " " << c;
                    errs() << "\n";
                }
            }
    }
};
void run(Ctx & X)
{
    IO R(X);
    R.go();
}
RuleReg reg("io", run);
}
