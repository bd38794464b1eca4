// Rule gil: code that can run without the interpreter lock never enters the interpreter.
//
// State lattice per program point: lock held on every path (HELD) or not (UNHELD).
// Contexts: thread start routines begin UNHELD; functions entered from Python (address stored in a method table) begin
// HELD. PyGILState_Ensure / PyEval_RestoreThread acquire, PyGILState_Release / PyEval_SaveThread release, a true result of
// PyGILState_Check proves the lock held on that edge. Wrappers are summarised: exit state per (function, entry state).
#include "core.h"
#include <deque>

namespace
{
// A program point is described by the set of lock configurations that can reach it. A configuration is (lock held?, what
// the enclosing PyGILState_Ensure calls saved, innermost last, at most two deep).
typedef uint32_t St;
enum : St
{
    NONE = 0 // unreachable
};
// stacks: 0 = [], 1..2 = [x], 3..6 = [x,y]
unsigned cfg(unsigned held, unsigned stk)
{
    return stk * 2 + held;
}
const St UNHELD = 1u << 0; // the lock is not held, nothing saved
const St HELD = 1u << 1;
const St ANYUNHELD = 0x1555;
St mapCfg(St s, std::function<void(unsigned &, unsigned &)> f)
{
    St r = 0;
    for (unsigned i = 0; i < 14; ++i)
        if (s & (1u << i))
        {
            unsigned h = i & 1, k = i >> 1;
            f(h, k);
            r |= 1u << cfg(h, k);
        }
    return r;
}
St ensure(St s)
{
    return mapCfg(s, [](unsigned & h, unsigned & k) {
        if (k == 0)
            k = 1 + h;
        else if (k < 3)
            k = 3 + (k - 1) * 2 + h;
        h = 1;
    });
}
St release(St s)
{
    return mapCfg(s, [](unsigned & h, unsigned & k) {
        if (k == 0)
            h = 0;
        else if (k < 3)
            h = k - 1, k = 0;
        else
            h = (k - 3) & 1, k = 1 + ((k - 3) >> 1);
    });
}
St setHeld(St s, unsigned v)
{
    return mapCfg(s, [v](unsigned & h, unsigned &) { h = v; });
}
St onlyHeld(St s)
{
    return s & ~ANYUNHELD;
}
St onlyUnheld(St s)
{
    return s & ANYUNHELD;
}
bool maybeUnheld(St s)
{
    return (s & ANYUNHELD) != 0;
}

struct Gil
{
    Ctx & X;
    DenseSet<Function *> touches; // may change the state, transitively
    struct Ex
    {
        St ret = NONE, unw = NONE;
    };
    std::map<std::pair<Function *, St>, Ex> exitState;
    std::set<std::pair<Function *, St>> inProgress;

    explicit Gil(Ctx & x) : X(x) {}

    static int effect(Function * F) // 2 ensure, -2 release, 1 restore, -1 save, 0 none
    {
        StringRef n = F->getName();
        if (n == "PyGILState_Ensure")
            return 2;
        if (n == "PyGILState_Release")
            return -2;
        if (n == "PyEval_RestoreThread" || n == "PyEval_AcquireThread")
            return 1;
        if (n == "PyEval_SaveThread" || n == "PyEval_ReleaseThread")
            return -1;
        return 0;
    }
    static bool neutral(Function * F)
    {
        StringRef n = F->getName();
        return n == "PyGILState_Check" || n == "_Py_IsFinalizing" || n == "Py_IsFinalizing" || n == "Py_IsInitialized" ||
               n == "Py_AddPendingCall" || n == "PyErr_SetInterrupt" || n == "PyErr_SetInterruptEx";
    }
    bool isPyApi(Function * F)
    {
        StringRef n = F->getName();
        if (neutral(F) || effect(F))
            return false;
        if (F->isDeclaration())
            return (n.starts_with("Py") || n.starts_with("_Py")) && ! n.starts_with("PyMem_Raw");
        // static inline reference counting of Python.h
        if (! n.contains("Py_"))
            return false;
        std::string d = X.baseName(F);
        return d.rfind("Py_INCREF", 0) == 0 || d.rfind("Py_DECREF", 0) == 0 || d.rfind("Py_XINCREF", 0) == 0 ||
               d.rfind("Py_XDECREF", 0) == 0 || d.rfind("_Py_NewRef", 0) == 0 || d.rfind("_Py_XNewRef", 0) == 0;
    }
    // call through the numpy C API table
    static bool numpyCall(CallBase * CB)
    {
        auto * L = dyn_cast<LoadInst>(CB->getCalledOperand()->stripPointerCasts());
        if (! L)
            return false;
        Value * P = L->getPointerOperand();
        if (auto * G = dyn_cast<GEPOperator>(P))
            P = G->getPointerOperand();
        auto * T = dyn_cast<LoadInst>(P);
        if (! T)
            return false;
        auto * GV = dyn_cast<GlobalVariable>(T->getPointerOperand()->stripPointerCasts());
        return GV && GV->getName().contains("ARRAY_API");
    }

    void findTouches()
    {
        std::vector<Function *> w;
        for (Function & F : X.M)
            if (effect(&F))
                w.push_back(&F);
        DenseSet<Function *> seen(w.begin(), w.end());
        for (size_t i = 0; i < w.size(); ++i)
            for (CallBase * CB : X.callers(w[i]))
                if (directCallee(CB) == w[i] && seen.insert(CB->getFunction()).second)
                    w.push_back(CB->getFunction());
        touches = seen;
    }

    Ex callEffect(CallBase * CB, St s)
    {
        Ex r;
        if (s == NONE)
            return r;
        r.ret = r.unw = s;
        if (! directCallee(CB))
            return r; // indirect call: callees restore the state they were entered with, which is checked for each of them
        bool any = false;
        Ex m;
        for (Function * T : X.targets(CB))
        {
            any = true;
            int e = effect(T);
            Ex t;
            if (e)
                t.ret = t.unw = e == 2 ? ensure(s) : e == -2 ? release(s) : setHeld(s, e > 0);
            else if (touches.count(T) && ! T->isDeclaration())
                t = exitOf(T, s);
            else
                t.ret = t.unw = s;
            m.ret |= t.ret;
            m.unw |= t.unw;
        }
        return any ? m : r;
    }

    // state before each instruction of interest
    typedef std::function<void(CallBase *, St)> Visit;
    Ex flow(Function * F, St entry, Visit v)
    {
        DenseMap<BasicBlock *, St> in;
        in[&F->getEntryBlock()] = entry;
        std::deque<BasicBlock *> w{ &F->getEntryBlock() };
        Ex ex;
        auto xfer = [&](BasicBlock * B, St s, Visit * vv, std::function<void(BasicBlock *, St)> push)
        {
            for (Instruction & I : *B)
            {
                if (auto * CB = dyn_cast<CallBase>(&I))
                {
                    if (isa<IntrinsicInst>(CB))
                        continue;
                    if (vv)
                        (*vv)(CB, s);
                    Ex after = callEffect(CB, s);
                    s = after.ret;
                    if (auto * II = dyn_cast<InvokeInst>(CB))
                    {
                        push(II->getNormalDest(), s);
                        if (X.mayThrow(CB))
                            push(II->getUnwindDest(), after.unw);
                        return;
                    }
                    if (X.mayThrow(CB))
                        ex.unw |= after.unw;
                }
                if (isa<ReturnInst>(I))
                {
                    ex.ret |= s;
                    if (vv && onExit && s)
                        (*onExit)(cast<ReturnInst>(&I), s);
                }
                if (isa<ResumeInst>(I))
                    ex.unw |= s;
            }
            Instruction * T = B->getTerminator();
            auto * BR = dyn_cast<BranchInst>(T);
            if (BR && BR->isConditional())
            {
                // br (PyGILState_Check() != 0)
                Value * C = BR->getCondition();
                bool neg = false;
                CallBase *chk = nullptr, *fin = nullptr;
                for (int k = 0; k < 4 && C; ++k)
                {
                    if (auto * X = dyn_cast<BinaryOperator>(C))
                    {
                        if (X->getOpcode() == Instruction::Xor)
                        {
                            neg = ! neg;
                            C = X->getOperand(0);
                            continue;
                        }
                        break;
                    }
                    if (auto * IC = dyn_cast<ICmpInst>(C))
                    {
                        if (auto * K = dyn_cast<ConstantInt>(IC->getOperand(1)))
                        {
                            bool zero = K->isZero();
                            bool one = K->isOne();
                            if (IC->getPredicate() == ICmpInst::ICMP_NE && zero)
                                ;
                            else if (IC->getPredicate() == ICmpInst::ICMP_EQ && zero)
                                neg = ! neg;
                            else if (IC->getPredicate() == ICmpInst::ICMP_EQ && one)
                                ;
                            else if (IC->getPredicate() == ICmpInst::ICMP_NE && one)
                                neg = ! neg;
                            else
                                break;
                            C = stripCasts(IC->getOperand(0));
                            continue;
                        }
                        break;
                    }
                    C = stripCasts(C);
                    if (auto * CB = dyn_cast<CallBase>(C))
                    {
                        Function * D = directCallee(CB);
                        if (D && D->getName() == "PyGILState_Check")
                            chk = CB;
                        if (D && (D->getName() == "_Py_IsFinalizing" || D->getName() == "Py_IsFinalizing"))
                            fin = CB;
                        break;
                    }
                    break;
                }
                if (chk)
                {
                    push(BR->getSuccessor(neg ? 1 : 0), onlyHeld(s));
                    push(BR->getSuccessor(neg ? 0 : 1), onlyUnheld(s));
                    return;
                }
                if (fin)
                {
                    // a finalizing interpreter takes the lock away for good
                    push(BR->getSuccessor(neg ? 1 : 0), UNHELD);
                    push(BR->getSuccessor(neg ? 0 : 1), s);
                    return;
                }
            }
            for (BasicBlock * S : successors(B))
                push(S, s);
        };
        auto push = [&](BasicBlock * S, St s)
        {
            if (s == NONE)
                return;
            auto it = in.find(S);
            St n = it == in.end() ? s : (it->second | s);
            if (it == in.end() || n != it->second)
            {
                in[S] = n;
                w.push_back(S);
            }
        };
        while (! w.empty())
        {
            BasicBlock * B = w.front();
            w.pop_front();
            xfer(B, in[B], nullptr, push);
        }
        ex = Ex();
        for (BasicBlock & B : *F)
            if (in.count(&B))
                xfer(&B, in[&B], v ? &v : nullptr, [](BasicBlock *, St) {});
        return ex;
    }
    std::function<void(ReturnInst *, St)> * onExit = nullptr;
    Ex exitOf(Function * F, St entry)
    {
        auto k = std::make_pair(F, entry);
        auto it = exitState.find(k);
        if (it != exitState.end())
            return it->second;
        if (! inProgress.insert(k).second)
            return Ex{ entry, entry };
        Ex r = flow(F, entry, nullptr);
        inProgress.erase(k);
        return exitState[k] = r;
    }
};

// Files opened by the multi-file reader carry a constant mode, and with that mode opening a file stops before any array
// is allocated. Both halves are checked here; the worker -> allocation edge is dropped only when they hold.
struct ModeGuard
{
    Ctx & X;
    bool computed = false, ok = false;
    int64_t K = -1;
    StructType * ST = nullptr;
    unsigned field = 0;
    int64_t sites = 0;
    explicit ModeGuard(Ctx & x) : X(x) {}
    void compute()
    {
        computed = true;
        // constructor stores its i32 parameter into a field: find (ctor, arg, field)
        Function * ctor = nullptr;
        unsigned argNo = 0;
        for (Function & F : X.M)
        {
            if (F.isDeclaration() || X.baseName(&F) != "SDSDecompressFile" || F.getName().contains("D2Ev") || F.getName().contains("D1Ev"))
                continue;
            for (Instruction & I : instructions(F))
                if (auto * S = dyn_cast<StoreInst>(&I))
                    if (auto * A = dyn_cast<Argument>(S->getValueOperand()))
                        if (A->getType()->isIntegerTy(32))
                        {
                            ctor = &F;
                            argNo = A->getArgNo();
                            ST = gepStruct(S->getPointerOperand(), field);
                        }
        }
        if (! ctor || ! ST)
            return;
        // every construction inside a function from which the threaded open is started
        Function * cb = nullptr;
        for (Function & F : X.M)
            if (! F.isDeclaration() && X.baseName(&F) == "DecompressManyFiles" && X.addressTaken(&F))
                cb = &F;
        if (! cb)
            return;
        DenseSet<Function *> starters;
        std::vector<Function *> w;
        for (User * U : cb->users())
            if (auto * I = dyn_cast<Instruction>(U))
                if (starters.insert(I->getFunction()).second)
                    w.push_back(I->getFunction());
        for (size_t i = 0; i < w.size(); ++i)
            for (CallBase * CB : X.callers(w[i]))
                if (directCallee(CB) && starters.insert(CB->getFunction()).second)
                    w.push_back(CB->getFunction());
        bool all = true;
        for (CallBase * CB : X.callers(ctor))
        {
            if (! starters.count(CB->getFunction()))
                continue;
            auto * C = dyn_cast<ConstantInt>(CB->getArgOperand(argNo));
            if (! C)
            {
                all = false;
                continue;
            }
            if (K >= 0 && K != C->getSExtValue())
                all = false;
            K = C->getSExtValue();
            sites++;
        }
        ok = all && sites > 0;
    }
    bool excused(CallBase * CB)
    {
        if (! computed)
            compute();
        if (! ok)
            return false;
        // CB unreachable from entry once every test of the field against K takes the "equal" edge
        Function * F = CB->getFunction();
        std::vector<BasicBlock *> w{ &F->getEntryBlock() };
        DenseSet<BasicBlock *> seen{ &F->getEntryBlock() };
        for (size_t i = 0; i < w.size(); ++i)
        {
            BasicBlock * B = w[i];
            if (B == CB->getParent())
                return false;
            Instruction * T = B->getTerminator();
            auto isField = [&](Value * V)
            {
                auto * L = dyn_cast<LoadInst>(stripCasts(V));
                unsigned f;
                return L && gepStruct(L->getPointerOperand(), f) == ST && f == field;
            };
            BasicBlock * only = nullptr;
            if (auto * BR = dyn_cast<BranchInst>(T))
                if (BR->isConditional())
                    if (auto * IC = dyn_cast<ICmpInst>(BR->getCondition()))
                        if (auto * C = dyn_cast<ConstantInt>(IC->getOperand(1)))
                            if (isField(IC->getOperand(0)) && IC->isEquality())
                            {
                                bool eq = (C->getSExtValue() == K) == (IC->getPredicate() == ICmpInst::ICMP_EQ);
                                only = BR->getSuccessor(eq ? 0 : 1);
                            }
            if (auto * SW = dyn_cast<SwitchInst>(T))
                if (isField(SW->getCondition()))
                    only = SW->findCaseValue(cast<ConstantInt>(ConstantInt::get(SW->getCondition()->getType(), K)))->getCaseSuccessor();
            for (BasicBlock * S : successors(B))
                if (! only || S == only)
                    if (seen.insert(S).second)
                        w.push_back(S);
        }
        return true;
    }
};

void run(Ctx & X)
{
    Gil G(X);
    ModeGuard MG(X);
    G.findTouches();
    auto roots = X.workerRoots();
    if (roots.empty())
        X.broken("no thread start routine found");
    for (Function * F : roots)
        X.note("thread_roots", X.shortName(F).substr(0, 160));

    struct Ent
    {
        Function * F;
        St s;
    };
    std::map<std::pair<Function *, St>, std::pair<std::pair<Function *, St>, CallBase *>> pred;
    std::deque<Ent> w;
    auto add = [&](Function * F, St s, std::pair<Function *, St> from, CallBase * at)
    {
        if (F->isDeclaration())
            return;
        auto k = std::make_pair(F, s);
        if (pred.count(k))
            return;
        pred[k] = { from, at };
        w.push_back({ F, s });
    };
    for (Function * F : roots)
        add(F, UNHELD, { nullptr, 0 }, nullptr);
    // everything else that touches the state and can be entered from Python
    for (Function & F : X.M)
        if (! F.isDeclaration() && X.inRepo(&F) && G.touches.count(&F))
            add(&F, HELD, { nullptr, 0 }, nullptr);

    auto pathOf = [&](std::pair<Function *, St> k)
    {
        std::vector<std::string> p;
        int n = 0;
        while (k.first && n++ < 30)
        {
            unsigned line = 0;
            auto pr = pred[k];
            std::string l = pr.second ? X.loc(pr.second, &line) : "";
            if (X.inRepo(k.first) || ! pr.first.first)
                p.push_back(X.shortName(k.first).substr(0, 100) + (l.empty() ? "" : " [called at " + l + ":" + std::to_string(line) + "]"));
            k = pr.first;
        }
        std::string s;
        for (auto i = p.rbegin(); i != p.rend(); ++i)
            s += (s.empty() ? "" : " -> ") + *i;
        return s;
    };
    struct Late
    {
        Function * F;
        St s;
        std::function<void()> report;
    };
    std::vector<Late> late;
    int64_t workerFns = 0, calls = 0, regions = 0, exits = 0;
    std::set<std::string> reported;
    while (! w.empty())
    {
        Ent e = w.front();
        w.pop_front();
        auto k = std::make_pair(e.F, e.s);
        if (maybeUnheld(e.s))
            workerFns++;
        else
            regions++;
        auto visit = [&](CallBase * CB, St s)
        {
            calls++;
            if (maybeUnheld(s) && Gil::numpyCall(CB))
            {
                std::string key = "gil:" + X.baseName(e.F) + ":numpy-api";
                if (reported.insert(key).second)
                    X.finding("gil", key, CB, e.F, "call through the numpy C-API table without the interpreter lock; path: " + pathOf(k));
            }
            if (Gil::numpyCall(CB))
                return;
            for (Function * T : X.targets(CB))
            {
                if (maybeUnheld(s) && G.isPyApi(T))
                {
                    std::string key = "gil:" + X.baseName(e.F) + ":" + X.baseName(T);
                    if (reported.insert(key).second)
                        X.finding("gil", key, CB, e.F,
                                  "interpreter entry " + X.baseName(T) + " without the interpreter lock; path: " + pathOf(k));
                    continue;
                }
                if (G.isPyApi(T))
                    continue;
                if (maybeUnheld(s) && X.baseName(e.F) == "DecompressFileInternal" && X.inRepo(T) && MG.excused(CB))
                {
                    X.count("worker_call_sites_excluded_by_constant_mode");
                    continue;
                }
                if (G.touches.count(T))
                    add(T, s, k, CB);
                else if (maybeUnheld(s))
                    add(T, UNHELD, k, CB);
            }
        };
        // whoever is entered from outside (a thread start, a function called through a pointer or published to Python)
        // leaves the lock as it found it
        bool outer = X.addressTaken(e.F) && G.touches.count(e.F) && (e.s == UNHELD || e.s == HELD);
        std::function<void(ReturnInst *, St)> atExit = [&](ReturnInst * R, St s)
        {
            if (s == e.s)
                return;
            late.push_back({ e.F, e.s, [&X, &reported, pathOf, k, e, R]() {
            std::string key = "gil:" + X.baseName(e.F) + ":exit";
            if (reported.insert(key).second)
                X.finding("gil", key, R, e.F,
                          std::string("returns with the interpreter lock ") +
                              (maybeUnheld(e.s) ? "still held" : "released") + " on some path; path: " + pathOf(k));
            } });
        };
        if (outer)
            exits++;
        G.onExit = outer ? &atExit : nullptr;
        G.flow(e.F, e.s, visit);
        G.onExit = nullptr;
    }
    // a function started on a thread is never entered with the lock held
    for (auto & l : late)
        if (l.s == UNHELD || ! pred.count({ l.F, UNHELD }))
            l.report();
    X.count("functions_analysed_without_lock", workerFns);
    X.count("functions_analysed_with_lock", regions);
    X.count("call_sites_judged", calls);
    X.count("entry_points_that_change_the_lock", exits);
    if (workerFns < 1000)
        X.broken("worker-reachable code shrank to " + std::to_string(workerFns) + " functions");
}
RuleReg reg("gil", run);
}
