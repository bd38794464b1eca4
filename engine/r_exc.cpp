// Rule exc: a function called from Python returns NULL exactly when it has raised an exception.
//
// Abstract state per program point: which of {no exception pending, exception pending, unknown} is possible. Direct raises set it,
// PyErr_Clear resets it, the failing edge of a test on the result of a call that can raise sets it. Repository helpers are
// summarised per class of result (zero / non-zero) to a fixpoint. Return values are decomposed along the phi edges that merge them.
#include "core.h"
#include <deque>

namespace
{
enum
{
    CLR = 1,
    SET = 2,
    AMB = 4, // a helper that may or may not have raised
    CONV = 8 // a conversion of a Python object may have raised, and its result has not told
};
struct State
{
    unsigned m = 0;
    std::set<CallBase *> sites; // raises that may be pending
    bool unk = false;           // and others
    std::set<CallBase *> conv;  // conversions that may have raised
    bool join(const State & o)
    {
        unsigned om = m;
        size_t os = sites.size(), oc = conv.size();
        m |= o.m;
        sites.insert(o.sites.begin(), o.sites.end());
        conv.insert(o.conv.begin(), o.conv.end());
        bool ou = unk;
        unk |= o.unk;
        return ou != unk || m != om || sites.size() != os || conv.size() != oc;
    }
    bool operator!=(const State & o) const { return m != o.m || unk != o.unk || sites != o.sites || conv != o.conv; }
    void clear()
    {
        m = CLR;
        sites.clear();
        unk = false;
        conv.clear();
    }
};
struct Summary
{
    unsigned onZero = 0, onOther = 0; // states possible when the result is zero/negative, and otherwise
    uint64_t args = 0;                // parameters that may be the result
    bool operator==(const Summary & o) const { return onZero == o.onZero && onOther == o.onOther && args == o.args; }
};

struct Exc
{
    Ctx & X;
    std::map<Function *, Summary> sum;
    DenseMap<Function *, bool> raisesCache;
    // for functions without a result: states possible when a member of the object they fill in ends up NULL / not NULL
    struct FieldSum
    {
        unsigned onNull = 0, onOther = 0;
    };
    std::map<Function *, std::map<int64_t, FieldSum>> fields;
    explicit Exc(Ctx & x) : X(x) {}

    static int direct(StringRef n) // 1 raises, -1 clears
    {
        static const char * r[] = { "PyErr_Format", "PyErr_SetString", "PyErr_SetObject", "PyErr_NoMemory", "PyErr_SetNone",
                                    "PyErr_BadArgument", "PyErr_BadInternalCall", "_PyErr_BadInternalCall", "PyErr_SetFromErrno", "PyErr_Restore",
                                    "PyErr_SetFromErrnoWithFilename", "PyErr_FormatV", "PyErr_SetRaisedException" };
        for (auto * s : r)
            if (n == s)
                return 1;
        if (n == "PyErr_Clear" || n == "PyErr_Fetch" || n == "PyErr_Print" || n == "PyErr_PrintEx" || n == "PyErr_GetRaisedException" || n == "PyErr_WriteUnraisable")
            return -1;
        return 0;
    }
    // interpreter functions that never raise, or whose "failure" result is an answer
    static bool quiet(StringRef n)
    {
        if (n == "PyErr_CheckSignals" || n.starts_with("PyErr_Warn"))
            return false;
        if (n.starts_with("PyErr_") || n.contains("Check") || n.starts_with("PyType_Is") || n.starts_with("Py_Inc") || n.starts_with("Py_Dec") ||
            n.starts_with("_Py_Dealloc") || n.starts_with("PyGILState") || n.starts_with("PyEval_") || n.starts_with("PyThread") || n.starts_with("Py_Is"))
            return true;
        static const char * q[] = { "PyDict_GetItem", "PyDict_GetItemString", "PyObject_Type", "PyBytes_Size", "PyTuple_Size", "PyMem_Free", "PyObject_Free",
                                    "PyDict_Next", "PyFunction_GetCode", "PyObject_ClearWeakRefs", "PyOS_setsig", "PyOS_getsig", "PyWeakref_GetObject", "PyLong_AsVoidPtr", "PyList_Size", "PyCallable_Check", "PyMethod_Function", "PyMethod_Self",
                                    "PyTraceBack_Here", "PyFrame_GetBack", "PyObject_GC_UnTrack", "PyModule_GetDict" };
        for (auto * s : q)
            if (n == s)
                return true;
        return false;
    }
    bool numpyApi(CallBase * CB)
    {
        auto * L = dyn_cast<LoadInst>(CB->getCalledOperand()->stripPointerCasts());
        if (! L)
            return false;
        Value * P = L->getPointerOperand();
        if (auto * G = dyn_cast<GEPOperator>(P))
            P = G->getPointerOperand();
        auto * T = dyn_cast<LoadInst>(P);
        if (! T)
            return false;
        auto * GV = dyn_cast<GlobalVariable>(T->getPointerOperand()->stripPointerCasts());
        return GV && GV->getName().contains("ARRAY_API");
    }
    // can the call raise a Python exception
    bool apiRaises(CallBase * CB)
    {
        Function * D = directCallee(CB);
        if (! D)
            return numpyApi(CB);
        if (! D->isDeclaration())
            return false;
        StringRef n = D->getName();
        return (n.starts_with("Py") || n.starts_with("_Py")) && ! quiet(n);
    }
    // -1 with an exception pending, or -1 as a value
    static bool conversion(Function * D)
    {
        if (! D || ! D->isDeclaration())
            return false;
        StringRef n = D->getName();
        return (n.starts_with("PyLong_As") && n != "PyLong_AsVoidPtr") || n == "PyFloat_AsDouble" || n == "PyObject_IsTrue" || n == "PyNumber_AsSsize_t" ||
               n.starts_with("_PyLong_As") || n.starts_with("PyErr_Warn");
    }
    // the object was tested, on every path here, to be of a type whose values always convert
    bool argumentTested(CallBase * CB)
    {
        StringRef n = directCallee(CB)->getName();
        Value * A = stripCasts(CB->getArgOperand(0));
        bool onLong = n.contains("AndOverflow") || n.contains("Mask"), onFloat = n == "PyFloat_AsDouble", onBool = n == "PyObject_IsTrue";
        if (! onLong && ! onFloat && ! onBool)
            return false;
        Function * F = CB->getFunction();
        auto same = [&](Value * V)
        {
            V = stripCasts(V);
            if (V == A)
                return true;
            auto *L1 = dyn_cast<LoadInst>(V), *L2 = dyn_cast<LoadInst>(A);
            return L1 && L2 && stripCasts(L1->getPointerOperand()) == stripCasts(L2->getPointerOperand());
        };
        std::set<std::pair<BasicBlock *, BasicBlock *>> proving;
        for (Instruction & I : instructions(*F))
        {
            auto * C = dyn_cast<CallBase>(&I);
            if (! C || C->arg_size() < 2 || ! directCallee(C))
                continue;
            std::string d = X.baseName(directCallee(C));
            bool ok = false;
            if (d.rfind("PyType_HasFeature", 0) == 0)
            {
                auto * K = dyn_cast<ConstantInt>(C->getArgOperand(1));
                auto * T = dyn_cast<CallBase>(stripCasts(C->getArgOperand(0)));
                ok = (onLong || onBool) && K && K->getZExtValue() == (1u << 24) && T && T->arg_size() == 1 && same(T->getArgOperand(0));
            }
            else if (d.rfind("PyObject_TypeCheck", 0) == 0 || d.rfind("Py_IS_TYPE", 0) == 0)
            {
                if (! same(C->getArgOperand(0)))
                    continue;
                if (auto * G = dyn_cast<GlobalVariable>(C->getArgOperand(1)->stripPointerCasts()))
                {
                    StringRef g = G->getName();
                    ok = (onFloat && g == "PyFloat_Type") || (onLong && (g == "PyLong_Type" || g == "PyBool_Type")) ||
                         (onBool && (g == "PyBool_Type" || g == "PyLong_Type" || g == "PyFloat_Type"));
                }
                else if (int k = scalarType(C->getArgOperand(1)); k >= 0)
                    // numpy's scalar type objects, by their place in its table: bool, integer, floating and their parts
                    ok = onLong ? k == 8 || (k >= 12 && k <= 14) || (k >= 20 && k <= 29) : onFloat ? k == 8 || (k >= 12 && k <= 14) || k == 16 || (k >= 20 && k <= 32) : k == 8 || (k >= 10 && k <= 17) || (k >= 20 && k <= 35);
            }
            if (! ok)
                continue;
            std::vector<std::pair<Value *, bool>> w{ { C, true } }; // value, and whether being true proves
            for (size_t i = 0; i < w.size() && i < 20; ++i)
                for (User * U : w[i].first->users())
                {
                    auto * IC = dyn_cast<ICmpInst>(U);
                    if (IC && IC->isEquality() && isa<ConstantInt>(IC->getOperand(1)) && cast<ConstantInt>(IC->getOperand(1))->isZero())
                        w.push_back({ IC, w[i].second == (IC->getPredicate() == ICmpInst::ICMP_NE) });
                    else if (isa<CastInst>(U))
                        w.push_back({ U, w[i].second });
                    else if (auto * BO = dyn_cast<BinaryOperator>(U); BO && BO->getOpcode() == Instruction::Xor && isa<ConstantInt>(BO->getOperand(1)))
                        w.push_back({ BO, ! w[i].second });
                    else if (auto * BR = dyn_cast<BranchInst>(U); BR && BR->isConditional() && BR->getSuccessor(0) != BR->getSuccessor(1))
                        proving.insert({ BR->getParent(), BR->getSuccessor(w[i].second ? 0 : 1) });
                }
        }
        if (proving.empty())
            return false;
        DenseSet<BasicBlock *> seen;
        std::vector<BasicBlock *> w{ &F->getEntryBlock() };
        seen.insert(w[0]);
        for (size_t i = 0; i < w.size(); ++i)
            for (BasicBlock * S : successors(w[i]))
                if (! proving.count({ w[i], S }) && seen.insert(S).second)
                    w.push_back(S);
        return ! seen.count(CB->getParent());
    }
    // index of a type object loaded from numpy's table
    int scalarType(Value * V)
    {
        auto * L = dyn_cast<LoadInst>(V->stripPointerCasts());
        if (! L)
            return -1;
        Value * P = L->getPointerOperand();
        APInt off(64, 0);
        const DataLayout & DL = L->getModule()->getDataLayout();
        P = P->stripAndAccumulateConstantOffsets(DL, off, true);
        auto * T = dyn_cast<LoadInst>(P);
        auto * GV = T ? dyn_cast<GlobalVariable>(T->getPointerOperand()->stripPointerCasts()) : nullptr;
        if (! GV || ! GV->getName().contains("ARRAY_API"))
            return -1;
        return (int)(off.getSExtValue() / 8);
    }
    bool raises(Function * F, int d = 0)
    {
        auto it = raisesCache.find(F);
        if (it != raisesCache.end())
            return it->second;
        raisesCache[F] = false;
        bool r = false;
        if (! F->isDeclaration())
            for (Instruction & I : instructions(*F))
                if (auto * CB = dyn_cast<CallBase>(&I))
                {
                    if (isa<IntrinsicInst>(CB))
                        continue;
                    Function * D = directCallee(CB);
                    if ((D && direct(D->getName()) > 0) || apiRaises(CB))
                        r = true;
                    else if (D && ! D->isDeclaration() && X.inRepo(D) && d < 12 && raises(D, d + 1))
                        r = true;
                    if (r)
                        break;
                }
        return raisesCache[F] = r;
    }
    bool zeroFails(CallBase * CB) // result 0 means failure
    {
        if (CB->getType()->isPointerTy() || CB->getType()->isIntegerTy(1))
            return true;
        if (Function * D = directCallee(CB))
        {
            StringRef n = D->getName();
            return n.starts_with("PyArg_") || n.starts_with("_PyArg") || n.contains("Converter");
        }
        return false;
    }
    // does the edge "C is val" say that call Call failed / succeeded: -1 failed, 1 succeeded, 0 unknown
    int verdict(Value * V, ICmpInst::Predicate P, ConstantInt * K, CallBase * Call)
    {
        bool isNull = ! K; // comparison with null pointer
        if (Call->getType()->isPointerTy() || Call->getType()->isIntegerTy(1))
        {
            bool zero = isNull || K->isZero();
            if (! zero)
            {
                if (! K->isOne())
                    return 0;
                return P == ICmpInst::ICMP_EQ ? 1 : P == ICmpInst::ICMP_NE ? -1 : 0;
            }
            return P == ICmpInst::ICMP_EQ ? -1 : P == ICmpInst::ICMP_NE ? 1 : 0;
        }
        if (! K)
            return 0;
        if (zeroFails(Call))
        {
            if (K->isZero())
                return P == ICmpInst::ICMP_EQ ? -1 : P == ICmpInst::ICMP_NE ? 1 : 0;
            return 0;
        }
        // integer status: negative is failure, sometimes any non-zero value
        if (K->isZero())
        {
            switch (P)
            {
            case ICmpInst::ICMP_SLT:
            case ICmpInst::ICMP_NE:
            case ICmpInst::ICMP_SLE:
                return -1;
            case ICmpInst::ICMP_SGE:
            case ICmpInst::ICMP_SGT:
            case ICmpInst::ICMP_EQ:
                return 1;
            default:
                return 0;
            }
        }
        if (K->isMinusOne())
            return P == ICmpInst::ICMP_EQ ? -1 : P == ICmpInst::ICMP_NE ? 1 : 0;
        return 0;
    }
    // calls V may be the result of
    void origins(Value * V, std::set<CallBase *> & out, bool & pure, DenseSet<Value *> & seen)
    {
        V = stripCasts(V);
        if (! seen.insert(V).second)
            return;
        if (auto * CB = dyn_cast<CallBase>(V))
        {
            // reading an owning pointer: what it was given
            Function * D = directCallee(CB);
            auto * A = D && CB->arg_size() == 1 ? dyn_cast<AllocaInst>(CB->getArgOperand(0)->stripPointerCasts()) : nullptr;
            if (A && D->getName().starts_with("_ZNKSt10unique_ptr"))
            {
                for (User * U : A->users())
                    if (auto * C2 = dyn_cast<CallBase>(U); C2 && C2->arg_size() == 2 && C2->getArgOperand(0) == A)
                        if (Function * D2 = directCallee(C2); D2 && D2->getName().starts_with("_ZNSt10unique_ptr"))
                            origins(C2->getArgOperand(1), out, pure, seen);
                return;
            }
            out.insert(CB);
        }
        else if (auto * P = dyn_cast<PHINode>(V))
            for (Value * I : P->incoming_values())
                origins(I, out, pure, seen);
        else if (auto * S = dyn_cast<SelectInst>(V))
        {
            origins(S->getTrueValue(), out, pure, seen);
            origins(S->getFalseValue(), out, pure, seen);
        }
        else if (auto * L = dyn_cast<LoadInst>(V))
        {
            if (auto * A = dyn_cast<AllocaInst>(L->getPointerOperand()->stripPointerCasts()))
                for (User * U : A->users())
                    if (auto * St = dyn_cast<StoreInst>(U); St && St->getPointerOperand() == A)
                        origins(St->getValueOperand(), out, pure, seen);
            pure = false;
        }
        else if (! isa<Constant>(V))
            pure = false;
        else if (isa<ConstantPointerNull>(V))
            sawNull = true;
    }
    bool sawNull = false;

    void refine(Value * C, bool val, State & s, int d = 0)
    {
        if (d > 6)
            return;
        if (auto * B = dyn_cast<BinaryOperator>(C))
        {
            if (B->getOpcode() == Instruction::Xor && isa<ConstantInt>(B->getOperand(1)))
                refine(B->getOperand(0), ! val, s, d + 1);
            else if ((B->getOpcode() == Instruction::And && val) || (B->getOpcode() == Instruction::Or && ! val))
            {
                refine(B->getOperand(0), val, s, d + 1);
                refine(B->getOperand(1), val, s, d + 1);
            }
            else if (B->getOpcode() == Instruction::Or || B->getOpcode() == Instruction::And)
            {
                // one of the two: possible if each side alone explains it
                State a = s, b = s;
                refine(B->getOperand(0), val, a, d + 1);
                refine(B->getOperand(1), val, b, d + 1);
                s.m = a.m | b.m;
                s.sites.insert(a.sites.begin(), a.sites.end());
                s.sites.insert(b.sites.begin(), b.sites.end());
            }
            return;
        }
        if (auto * S = dyn_cast<SelectInst>(C))
        {
            auto * T = dyn_cast<ConstantInt>(S->getTrueValue());
            auto * F = dyn_cast<ConstantInt>(S->getFalseValue());
            if (F && F->isZero()) // a && b
            {
                if (val)
                {
                    refine(S->getCondition(), true, s, d + 1);
                    refine(S->getTrueValue(), true, s, d + 1);
                }
                else
                    either(S->getCondition(), S->getTrueValue(), false, s, d);
            }
            else if (T && T->isOne()) // a || b
            {
                if (! val)
                {
                    refine(S->getCondition(), false, s, d + 1);
                    refine(S->getFalseValue(), false, s, d + 1);
                }
                else
                    either(S->getCondition(), S->getFalseValue(), true, s, d);
            }
            return;
        }
        ICmpInst::Predicate P;
        Value * L;
        ConstantInt * K = nullptr;
        if (auto * IC = dyn_cast<ICmpInst>(C))
        {
            P = val ? IC->getPredicate() : IC->getInversePredicate();
            L = IC->getOperand(0);
            Value * R = IC->getOperand(1);
            if (isa<Constant>(L))
            {
                std::swap(L, R);
                P = ICmpInst::getSwappedPredicate(P);
            }
            if (! isa<ConstantPointerNull>(R))
            {
                K = dyn_cast<ConstantInt>(R);
                if (! K)
                    return;
            }
            Value * Z = stripCasts(L);
            if (Z->getType()->isIntegerTy(1) && Z != L && K && K->isZero() && (P == ICmpInst::ICMP_NE || P == ICmpInst::ICMP_EQ))
                return refine(Z, P == ICmpInst::ICMP_NE, s, d + 1);
        }
        else
        {
            L = stripCasts(C);
            if (L != C && (isa<ICmpInst>(L) || (L->getType()->isIntegerTy(1) && ! isa<CallBase>(L))))
                return refine(L, val, s, d + 1);
            if (! L->getType()->isIntegerTy())
                return;
            P = val ? ICmpInst::ICMP_NE : ICmpInst::ICMP_EQ;
            K = ConstantInt::get(cast<IntegerType>(L->getType()), 0);
        }
        // merged condition (a || b spilled into a phi)
        if (auto * Ph = dyn_cast<PHINode>(stripCasts(L)); Ph && Ph->getType()->isIntegerTy(1))
            return; // handled by edge splitting below where possible
        if (! K && (s.m & AMB) && (P == ICmpInst::ICMP_EQ || P == ICmpInst::ICMP_NE))
            if (auto * Ld = dyn_cast<LoadInst>(stripCasts(L)))
            {
                APInt off(64, 0);
                Value * B = Ld->getPointerOperand()->stripAndAccumulateConstantOffsets(Ld->getModule()->getDataLayout(), off, true);
                if (auto * A = dyn_cast<AllocaInst>(B))
                    for (User * U : A->users())
                        if (auto * CB = dyn_cast<CallBase>(U); CB && CB->arg_size() && CB->getArgOperand(0)->stripPointerCasts() == A && directCallee(CB))
                        {
                            auto it = fields.find(directCallee(CB));
                            if (it == fields.end() || ! it->second.count(off.getSExtValue()))
                                continue;
                            FieldSum & FS = it->second[off.getSExtValue()];
                            if (P == ICmpInst::ICMP_EQ && (FS.onNull & SET))
                            {
                                s.m = (FS.onNull & ~CLR) | ((FS.onNull & CLR) ? (unsigned)AMB : 0) | (s.m & CONV);
                                s.sites.insert(CB);
                            }
                        }
            }
        std::set<CallBase *> os;
        bool pure = true;
        DenseSet<Value *> seen;
        sawNull = false;
        origins(L, os, pure, seen);
        if (os.empty())
            return;
        bool nullConst = sawNull;
        bool failing = false, ok = false;
        for (CallBase * O : os)
        {
            Function * D = directCallee(O);
            if (D && D->getName() == "PyErr_Occurred")
            {
                int v = verdict(L, P, K, O);
                if (v == 1)
                {
                    s.m = SET;
                    s.unk = true;
                }
                else if (v == -1)
                    s.clear();
                return;
            }
            int v = verdict(L, P, K, O);
            if (conversion(D))
            {
                if (D->getName().starts_with("PyErr_Warn") && K && os.size() == 1 && (K->isZero() || K->isMinusOne()))
                {
                    // -1: the warning became an exception, 0: it did not
                    bool fail = K->isZero() ? P == ICmpInst::ICMP_NE || P == ICmpInst::ICMP_SLT : P == ICmpInst::ICMP_EQ || P == ICmpInst::ICMP_SLE;
                    s.conv.erase(O);
                    if (fail)
                    {
                        s.m = SET;
                        s.sites.insert(O);
                    }
                    else if (s.conv.empty())
                        s.m = s.m == CONV ? (unsigned)CLR : s.m & ~CONV;
                    continue;
                }
                if (K && K->isOne() && (P == ICmpInst::ICMP_EQ || P == ICmpInst::ICMP_SGE))
                    v = 1;
                if (v == -1 && os.size() == 1 && D->getName() == "PyObject_IsTrue" && K && (P == ICmpInst::ICMP_SLT || K->isMinusOne()))
                {
                    s.m = SET;
                    s.sites.insert(O);
                    s.conv.erase(O);
                    return;
                }
                if (v == 1 && os.size() == 1 && ! D->getReturnType()->isDoubleTy() && K && (K->isMinusOne() || P != ICmpInst::ICMP_EQ || K->isOne() || K->isZero()))
                {
                    s.conv.erase(O);
                    if (s.conv.empty())
                        s.m = s.m == CONV ? (unsigned)CLR : s.m & ~CONV;
                }
                continue;
            }
            if (v == 0)
                continue;
            if (v == 1 && (os.size() == 1 || (pure && O->getType()->isPointerTy())) && s.sites.erase(O) && s.sites.empty() && ! s.unk && (s.m & SET))
                s.m = (s.m & ~SET) ? (s.m & ~SET) : (unsigned)CLR; // the only exception possibly pending was this call's
            bool api = apiRaises(O);
            const Summary * S = nullptr;
            if (D && ! D->isDeclaration())
            {
                auto it = sum.find(D);
                if (it != sum.end())
                    S = &it->second;
            }
            if (v == -1 && (api || (S && S->onZero == SET)))
                failing = true;
            else if (v == -1 && S && (S->onZero & (SET | AMB)) && s.m != SET)
                s.m = S->onZero;
            if (v == 1 && S && (S->onOther & SET) == 0 && s.m == AMB)
                ok = true;
            if (v == 1 && S && os.size() == 1 && S->onOther == SET) // reports failure with a non-zero status
                failing = true;
            if (v == -1 && S && os.size() == 1 && S->onZero == CLR && s.m == AMB)
                ok = true;
        }
        if (failing)
        {
            s.m = SET;
            if (! nullConst) // otherwise none of the calls need have been made
                for (CallBase * O : os)
                    s.sites.insert(O);
            else
                s.unk = true;
        }
        else if (ok)
            s.m = CLR;
    }
    void either(Value * A, Value * B, bool val, State & s, int d)
    {
        State a = s, b = s;
        refine(A, val, a, d + 1);
        refine(A, ! val, b, d + 1);
        refine(B, val, b, d + 1);
        s = a;
        s.join(b);
    }

    struct Flow
    {
        DenseMap<BasicBlock *, State> in;
        std::map<std::pair<BasicBlock *, BasicBlock *>, State> edge;
    };
    void callEffect(CallBase * CB, State & s)
    {
        if (isa<IntrinsicInst>(CB))
            return;
        Function * D = directCallee(CB);
        if (! D)
            return;
        int e = direct(D->getName());
        if (e > 0)
        {
            s.m = SET;
            s.sites = { CB };
            return;
        }
        if (e < 0)
        {
            s.clear();
            return;
        }
        if (conversion(D) && ! argumentTested(CB))
        {
            s.m |= CONV;
            s.conv.insert(CB);
            return;
        }
        if (D->isDeclaration() || ! X.inRepo(D))
            return;
        auto it = sum.find(D);
        if (it == sum.end())
            return;
        unsigned all = it->second.onZero | it->second.onOther;
        if (it->second.onOther & CONV)
        {
            s.m |= CONV;
            s.conv.insert(CB);
        }
        if (D->getReturnType()->isVoidTy())
        {
            if (all == SET)
            {
                s.m = SET;
                s.sites = { CB };
            }
            else if (all & (SET | AMB))
                s.m = AMB | (s.m & (SET | CONV));
        }
        else if (it->second.onOther == SET && it->second.onZero == SET)
        {
            s.m = SET;
            s.sites = { CB };
        }
        else if (! D->getReturnType()->isPointerTy() && (it->second.onOther & (SET | AMB)) && (it->second.onZero & (CLR | AMB)))
            s.m = AMB | (s.m & (SET | CONV));
    }
    Flow flow(Function * F)
    {
        Flow R;
        State e;
        e.m = CLR;
        R.in[&F->getEntryBlock()] = e;
        std::deque<BasicBlock *> w{ &F->getEntryBlock() };
        DenseSet<BasicBlock *> inq;
        while (! w.empty())
        {
            BasicBlock * B = w.front();
            w.pop_front();
            inq.erase(B);
            State s = R.in[B];
            for (Instruction & I : *B)
                if (auto * CB = dyn_cast<CallBase>(&I))
                    callEffect(CB, s);
            Instruction * T = B->getTerminator();
            for (unsigned i = 0; i < T->getNumSuccessors(); ++i)
            {
                BasicBlock * S = T->getSuccessor(i);
                State n = s;
                if (auto * IV = dyn_cast<InvokeInst>(T); IV && i == 1)
                {
                    if (Function * D = directCallee(IV); D && D->isDeclaration() && (D->getName().starts_with("Py") || D->getName().starts_with("_Py")))
                        continue; // the interpreter does not throw
                    if (! X.mayThrow(IV))
                        continue;
                }
                if (auto * BR = dyn_cast<BranchInst>(T); BR && BR->isConditional() && BR->getSuccessor(0) != BR->getSuccessor(1))
                    refine(BR->getCondition(), i == 0, n);
                else if (auto * SW = dyn_cast<SwitchInst>(T))
                {
                    (void)SW;
                }
                auto & slot = R.edge[{ B, S }];
                slot = n;
                if (isa<SwitchInst>(T) || (isa<BranchInst>(T) && T->getNumSuccessors() == 2 && T->getSuccessor(0) == T->getSuccessor(1)))
                    slot = s;
                if (R.in.count(S) ? R.in[S].join(n) : (R.in[S] = n, true))
                    if (inq.insert(S).second)
                        w.push_back(S);
            }
        }
        return R;
    }
    // flow, separately for each value of a pointer member of the object F fills in
    void summariseFields(Function * F)
    {
        if (! F->getReturnType()->isVoidTy() || ! F->arg_size() || ! F->getArg(0)->getType()->isPointerTy() || F->size() > 400)
            return;
        const DataLayout & DL = F->getParent()->getDataLayout();
        auto at = [&](Value * P, int64_t & o)
        {
            APInt off(64, 0);
            Value * B = P->stripAndAccumulateConstantOffsets(DL, off, true);
            o = off.getSExtValue();
            return B == F->getArg(0);
        };
        std::set<int64_t> offs;
        int64_t o;
        for (Instruction & I : instructions(*F))
            if (auto * S = dyn_cast<StoreInst>(&I); S && isa<ConstantPointerNull>(S->getValueOperand()) && at(S->getPointerOperand(), o))
                offs.insert(o);
        enum { U, N, NN };
        for (int64_t f : offs)
        {
            std::map<std::pair<BasicBlock *, int>, State> in;
            State e;
            e.m = CLR;
            in[{ &F->getEntryBlock(), U }] = e;
            std::deque<std::pair<BasicBlock *, int>> w{ { &F->getEntryBlock(), U } };
            FieldSum FS;
            while (! w.empty())
            {
                auto [B, c] = w.front();
                w.pop_front();
                State s = in[{ B, c }];
                for (Instruction & I : *B)
                {
                    if (auto * S = dyn_cast<StoreInst>(&I); S && S->getValueOperand()->getType()->isPointerTy() && at(S->getPointerOperand(), o) && o == f)
                        c = isa<ConstantPointerNull>(S->getValueOperand()) ? N : U;
                    else if (auto * CB = dyn_cast<CallBase>(&I))
                        callEffect(CB, s);
                }
                Instruction * T = B->getTerminator();
                if (isa<ReturnInst>(T))
                {
                    if (c != NN)
                        FS.onNull |= s.m;
                    if (c != N)
                        FS.onOther |= s.m;
                }
                for (unsigned i = 0; i < T->getNumSuccessors(); ++i)
                {
                    State n = s;
                    int k = c;
                    if (isa<InvokeInst>(T) && i == 1)
                        continue;
                    if (auto * BR = dyn_cast<BranchInst>(T); BR && BR->isConditional() && BR->getSuccessor(0) != BR->getSuccessor(1))
                    {
                        auto * IC = dyn_cast<ICmpInst>(BR->getCondition());
                        auto * L = IC && IC->isEquality() && isa<ConstantPointerNull>(IC->getOperand(1)) ? dyn_cast<LoadInst>(IC->getOperand(0)) : nullptr;
                        if (L && at(L->getPointerOperand(), o) && o == f)
                        {
                            int v = (IC->getPredicate() == ICmpInst::ICMP_EQ) == (i == 0) ? N : NN;
                            if (k != U && k != v)
                                continue;
                            k = v;
                        }
                        refine(BR->getCondition(), i == 0, n);
                    }
                    auto key = std::make_pair(T->getSuccessor(i), k);
                    if (in.count(key) ? in[key].join(n) : (in[key] = n, true))
                        w.push_back(key);
                }
            }
            fields[F][f] = FS;
            if (getenv("EXC_DUMP"))
                errs() << "FIELD " << X.baseName(F) << " +" << f << " null=" << FS.onNull << " other=" << FS.onOther << "\n";
        }
    }
    // result classes
    struct Ret
    {
        Value * V;       // the returned value on this path
        State s;
        Instruction * at; // where the path was last distinguishable
        Instruction * loc = nullptr; // where the value was chosen
        bool nonNull = false;        // the path established that the value is not NULL
    };
    void returns(Function * F, Flow & R, std::vector<Ret> & out)
    {
        for (BasicBlock & B : *F)
        {
            auto * RI = dyn_cast<ReturnInst>(B.getTerminator());
            if (! RI || ! R.in.count(&B))
                continue;
            State s = R.in[&B];
            for (Instruction & I : B)
                if (auto * CB = dyn_cast<CallBase>(&I))
                    callEffect(CB, s);
            if (! RI->getReturnValue())
            {
                out.push_back({ nullptr, s, RI });
                continue;
            }
            std::set<std::pair<BasicBlock *, Value *>> seen;
            split(RI->getReturnValue(), &B, s, RI, R, out, seen, 0, nullptr);
        }
    }
    // decompose V as seen at the end of block B (state s) along phi edges
    void split(Value * V, BasicBlock * B, const State & s, Instruction * at, Flow & R, std::vector<Ret> & out,
               std::set<std::pair<BasicBlock *, Value *>> & seen, int d, Instruction * keep)
    {
        if (! seen.insert({ B, V }).second)
            return;
        auto * P = dyn_cast<PHINode>(V);
        // go back through blocks that do not touch the state
        bool neutral = true;
        for (Instruction & I : *B)
            if (auto * CB = dyn_cast<CallBase>(&I))
            {
                State t = R.in[B], u = t;
                callEffect(CB, u);
                if (u != t)
                    neutral = false;
            }
        if (d < 60 && neutral && pred_begin(B) != pred_end(B) && ((P && P->getParent() == B) || ! (isa<Instruction>(V) && cast<Instruction>(V)->getParent() == B)))
        {
            for (BasicBlock * Pr : predecessors(B))
            {
                auto it = R.edge.find({ Pr, B });
                if (it == R.edge.end())
                    continue;
                Value * W = P && P->getParent() == B ? P->getIncomingValueForBlock(Pr) : V;
                // the edge itself may decide a flag or the value
                splitEdge(W, Pr, B, it->second, R, out, seen, d + 1, P && P->getParent() == B && isa<Constant>(W) ? Pr->getTerminator() : keep);
            }
            return;
        }
        out.push_back({ V, s, at, keep ? keep : at });
    }
    void splitEdge(Value * W, BasicBlock * Pr, BasicBlock * B, const State & es, Flow & R, std::vector<Ret> & out,
                   std::set<std::pair<BasicBlock *, Value *>> & seen, int d, Instruction * keep)
    {
        Instruction * T = Pr->getTerminator();
        // value decided by the branch: W == null on this edge
        if (auto * BR = dyn_cast<BranchInst>(T); BR && BR->isConditional() && BR->getSuccessor(0) != BR->getSuccessor(1))
        {
            bool val = BR->getSuccessor(0) == B;
            if (auto * IC = dyn_cast<ICmpInst>(BR->getCondition()))
                if (IC->getOperand(0) == W && isNullConst(IC->getOperand(1)) && IC->isEquality())
                {
                    bool isNull = (IC->getPredicate() == ICmpInst::ICMP_EQ) == val;
                    if (isNull)
                    {
                        out.push_back({ Constant::getNullValue(W->getType()), es, T, keep ? keep : T });
                        return;
                    }
                    out.push_back({ W, es, T, keep ? keep : T, true });
                    return;
                }
            // refinement happened on this edge: stop here unless the state is the same as the block's
            State s = R.in[Pr];
            for (Instruction & I : *Pr)
                if (auto * CB = dyn_cast<CallBase>(&I))
                    callEffect(CB, s);
            // (a value merged before the branch: each of its sources has its own state there)
            if (s != es && ! (isa<PHINode>(W) && ! isa<PHINode>(&*B->begin())))
            {
                out.push_back({ W, es, T, keep ? keep : T });
                return;
            }
        }
        State s = R.in[Pr];
        for (Instruction & I : *Pr)
            if (auto * CB = dyn_cast<CallBase>(&I))
                callEffect(CB, s);
        split(W, Pr, s, T, R, out, seen, d, keep);
    }
    // classify a returned value: 0 zero/negative, 1 other, 2 either
    int cls(Value * V)
    {
        V = stripCasts(V);
        if (isNullConst(V))
            return 0;
        if (auto * K = dyn_cast<ConstantInt>(V))
            return K->isZero() || (K->isNegative() && ! K->getType()->isIntegerTy(1)) ? 0 : 1;
        if (isa<GlobalValue>(V) || isa<AllocaInst>(V))
            return 1;
        if (auto * CB = dyn_cast<CallBase>(V))
            if (Function * D = directCallee(CB); D && direct(D->getName()) > 0)
                return 0; // raise helpers return NULL
            else if (D && (D->getName() == "_Znwm" || D->getName() == "_Znam"))
                return 1;
        return 2;
    }
    // the value is known to be null (0) / not null (1) where the block starts
    int known(Value * V, BasicBlock * B, DominatorTree & DT, int d = 0)
    {
        if (! V || ! V->getType()->isPointerTy())
            return 2;
        if (auto * Ph = dyn_cast<PHINode>(V); Ph && d < 4)
        {
            bool all = true;
            for (unsigned i = 0; i < Ph->getNumIncomingValues() && all; ++i)
            {
                Value * W = Ph->getIncomingValue(i);
                BasicBlock * P = Ph->getIncomingBlock(i);
                bool nn = cls(W) == 1 || (W != V && known(W, P, DT, d + 1) == 1);
                if (auto * BR = dyn_cast<BranchInst>(P->getTerminator()); ! nn && BR && BR->isConditional() && BR->getSuccessor(0) != BR->getSuccessor(1))
                    if (auto * IC = dyn_cast<ICmpInst>(BR->getCondition()); IC && IC->isEquality() && IC->getOperand(0) == W && isNullConst(IC->getOperand(1)))
                        nn = (IC->getPredicate() == ICmpInst::ICMP_EQ) != (BR->getSuccessor(0) == Ph->getParent());
                all = nn;
            }
            if (all)
                return 1;
        }
        for (User * U : V->users())
            if (auto * IC = dyn_cast<ICmpInst>(U); IC && IC->isEquality() && isNullConst(IC->getOperand(1)))
                for (User * W : IC->users())
                    if (auto * BR = dyn_cast<BranchInst>(W); BR && BR->isConditional() && BR->getSuccessor(0) != BR->getSuccessor(1))
                        for (int k = 0; k < 2; ++k)
                            if (DT.dominates(BasicBlockEdge(BR->getParent(), BR->getSuccessor(k)), B))
                                return (IC->getPredicate() == ICmpInst::ICMP_EQ) == (k == 0) ? 0 : 1;
        // it was read through on every path here
        std::vector<Value *> w{ V };
        for (size_t i = 0; i < w.size() && i < 50; ++i)
            for (User * U : w[i]->users())
            {
                auto * I = dyn_cast<Instruction>(U);
                if (! I || ! DT.dominates(I->getParent(), B))
                    continue;
                if (isa<GetElementPtrInst>(I) && cast<GetElementPtrInst>(I)->getPointerOperand() == w[i])
                    w.push_back(I);
                else if (isa<LoadInst>(I) || (isa<StoreInst>(I) && cast<StoreInst>(I)->getPointerOperand() == w[i]))
                    return 1;
            }
        return 2;
    }
    // states when the value is the result of a call made on this path
    void tail(Value * V, const State & s, unsigned & z, unsigned & o, DominatorTree & DT)
    {
        V = stripCasts(V);
        z = s.m;
        o = s.m;
        if (auto * CB = dyn_cast<CallBase>(V); CB && CB->getType()->isPointerTy() && ! s.unk && s.sites.size() == 1 && s.sites.count(CB))
        {
            // the only exception that may be pending is the one the NULL itself reports
            z = SET;
            o = (s.m & ~SET) ? (s.m & ~SET) : (unsigned)CLR;
            return;
        }
        if (s.m & SET && ! (s.m & CLR))
            return;
        if (auto * CB = dyn_cast<CallBase>(V))
        {
            Function * D = directCallee(CB);
            if (apiRaises(CB))
                z = SET;
            else if (D && ! D->isDeclaration() && sum.count(D))
            {
                z = sum[D].onZero ? sum[D].onZero : (unsigned)CLR;
                o = sum[D].onOther ? sum[D].onOther : (unsigned)CLR;
                if (! sum[D].onZero)
                    z = SET; // never zero
                for (unsigned k = 0; k < CB->arg_size() && k < 64; ++k)
                    if (sum[D].args >> k & 1)
                        if (Value * A = CB->getArgOperand(k); cls(A) != 1 && known(A, CB->getParent(), DT) != 1)
                            z |= AMB;
            }
            else
                z = AMB;
        }
        else
        {
            // a local, argument or memory: zero-ness is not known here
            z = AMB;
        }
    }
    Summary summarise(Function * F)
    {
        Flow R = flow(F);
        std::vector<Ret> rs;
        returns(F, R, rs);
        DominatorTree DT(*F);
        Summary S;
        for (auto & r : rs)
        {
            if (! r.V)
            {
                S.onOther |= r.s.m;
                S.onZero |= r.s.m;
                continue;
            }
            int c = r.nonNull ? 1 : cls(r.V);
            if (c == 2)
                c = known(r.V, r.at->getParent(), DT);
            if (c == 0)
                S.onZero |= r.s.m;
            else if (c == 1)
                S.onOther |= r.s.m;
            else
            {
                unsigned z, o;
                Value * C = stripCasts(r.V);
                if (auto * IC = dyn_cast<ICmpInst>(C); IC && F->getReturnType()->isIntegerTy())
                {
                    // a status computed from another call's
                    State a = r.s, b = r.s;
                    refine(C, true, a, 0);
                    refine(C, false, b, 0);
                    S.onOther |= a.m;
                    S.onZero |= b.m;
                    continue;
                }
                tail(r.V, r.s, z, o, DT);
                if (auto * A = dyn_cast<Argument>(stripCasts(r.V)); A && A->getType()->isPointerTy() && A->getArgNo() < 64)
                    S.args |= 1ull << A->getArgNo();
                else
                    S.onZero |= z;
                S.onOther |= o;
            }
        }
        return S;
    }
};

void run(Ctx & X)
{
    Exc E(X);
    // functions called from Python
    std::vector<Function *> entries = X.methodFunctions();
    if (entries.size() < 20)
    {
        X.broken("exc: no method table found");
        return;
    }
    std::vector<Function *> fs;
    for (Function & F : X.M)
        if (! F.isDeclaration() && X.inRepo(&F) && E.raises(&F))
            fs.push_back(&F);
    // greatest fixpoint from "fails only with an exception": start optimistic, iterate
    for (Function * F : fs)
    {
        Summary S;
        S.onZero = SET;
        S.onOther = F->getReturnType()->isVoidTy() ? CLR : CLR;
        E.sum[F] = S;
    }
    for (int it = 0; it < 12; ++it)
    {
        bool ch = false;
        for (Function * F : fs)
        {
            Summary n = E.summarise(F);
            if (! (n == E.sum[F]))
            {
                E.sum[F] = n;
                ch = true;
            }
        }
        if (! ch)
            break;
    }
    for (Function * F : fs)
        if ((E.sum[F].onZero | E.sum[F].onOther) & (SET | AMB))
            E.summariseFields(F);
    if (getenv("EXC_DUMP"))
        for (auto & kv : E.sum)
            errs() << X.baseName(kv.first) << " z=" << kv.second.onZero << " o=" << kv.second.onOther << "\n";
    auto R = X.reach(entries);
    DenseSet<Function *> isEntry(entries.begin(), entries.end());
    std::set<std::string> keys;
    for (Function * F : fs)
    {
        bool entry = isEntry.count(F);
        if (! R.has(F) || ! F->getReturnType()->isPointerTy())
            continue;
        X.count(entry ? "entry_points_analysed" : "helpers_analysed");
        Exc::Flow fl = E.flow(F);
        std::vector<Exc::Ret> rs;
        E.returns(F, fl, rs);
        DominatorTree DT(*F);
        for (auto & r : rs)
        {
            X.count("return_paths_judged");
            int c = r.nonNull ? 1 : r.V ? E.cls(r.V) : 2;
            if (c == 2)
                c = E.known(r.V, r.at->getParent(), DT);
            unsigned z = r.s.m, o = r.s.m;
            if (c == 2)
                E.tail(r.V, r.s, z, o, DT);
            if (getenv("EXC_DUMP") && c != 1 && (z & CLR))
                errs() << "NULLCLR " << X.baseName(F) << " " << X.loc(r.loc ? r.loc : r.at) << ":" << ((r.loc ? r.loc : r.at)->getDebugLoc() ? (r.loc ? r.loc : r.at)->getDebugLoc().getLine() : 0) << " z=" << z << " v=" << (r.V ? *r.V : *r.at) << "\n";
            if (entry && c != 1 && (z & CLR))
            {
                std::string k = "exc:" + X.baseName(F) + ":null-without-exception";
                if (keys.insert(k + X.loc(r.loc ? r.loc : r.at)).second)
                    X.finding("exc", k, r.loc ? r.loc : r.at, F, "a path returns NULL without having raised an exception");
            }
            if (c == 1 || (c == 2 && ! isNullConst(r.V)))
                if ((r.s.m & SET) && c != 0)
                {
                    // a tail call keeps a pending exception only if raised before it
                    for (CallBase * S : r.s.sites)
                    {
                        if (c == 2 && r.V && S == stripCasts(r.V))
                            continue; // the result is NULL when that call failed
                        std::string k = "exc:" + X.baseName(F) + ":result-with-exception";
                        if (keys.insert(k + std::to_string(S->getDebugLoc() ? S->getDebugLoc().getLine() : 0)).second)
                            X.finding("exc", k, S, F, "after this raise a path returns a result instead of NULL");
                    }
                }
            if ((r.s.m & CONV) && c != 0)
                for (CallBase * S : r.s.conv)
                {
                    std::string k = "exc:" + X.baseName(F) + ":unchecked-conversion";
                    if (keys.insert(k + std::to_string(S->getDebugLoc() ? S->getDebugLoc().getLine() : 0)).second)
                        X.finding("exc", k, S, F, "after this conversion fails a path returns a result instead of NULL");
                }
        }
    }
}
RuleReg reg("exc", run);
}
