// Rule parse: every call that unpacks Python arguments or packs Python results passes, for each unit of its format string,
// an argument of the width the unit reads or writes; optional outputs are initialised first; keyword lists have one name
// per unit; the success result is tested.
// Rule mtable: entries of the module's method tables.
#include "core.h"

namespace
{
struct Unit
{
    std::string u;
    bool optional;
};
bool parseUnits(const std::string & f, std::vector<Unit> & out, std::string & err)
{
    bool opt = false;
    for (size_t i = 0; i < f.size(); ++i)
    {
        char c = f[i];
        if (c == '|')
        {
            opt = true;
            continue;
        }
        if (c == '$' || c == '(' || c == ')')
            continue;
        if (c == ':' || c == ';')
            return true;
        if (! strchr("szySUybBhHiIlkLKnfdDOpcCw", c))
        {
            err = std::string("unknown unit '") + c + "'";
            return false;
        }
        std::string u(1, c);
        if (i + 1 < f.size() && strchr("#*!&", f[i + 1]))
            u += f[++i];
        out.push_back({ u, opt });
    }
    return true;
}
uint64_t unitSize(char c)
{
    switch (c)
    {
    case 'b':
    case 'B':
    case 'c':
        return 1;
    case 'h':
    case 'H':
        return 2;
    case 'i':
    case 'I':
    case 'p':
    case 'f':
    case 'C':
        return 4;
    default:
        return 8;
    }
}
// kind of storage: 'i' integer, 'f' floating, 'p' pointer
char unitKind(char c)
{
    if (c == 'f' || c == 'd')
        return 'f';
    if (strchr("szyOSU", c))
        return 'p';
    return 'i';
}

Type * storageType(Ctx & X, Value * P)
{
    P = P->stripPointerCasts();
    if (auto * A = dyn_cast<AllocaInst>(P))
        return A->getAllocatedType();
    if (auto * G = dyn_cast<GEPOperator>(P))
        return G->getResultElementType();
    if (auto * G = dyn_cast<GlobalVariable>(P))
        return G->getValueType();
    return nullptr;
}
Type * leafType(Type * T)
{
    while (T)
    {
        if (auto * A = dyn_cast<ArrayType>(T))
            T = A->getElementType();
        else if (auto * S = dyn_cast<StructType>(T))
        {
            if (S->getNumElements() == 0)
                return T;
            T = S->getElementType(0);
        }
        else
            break;
    }
    return T;
}
char typeKind(Type * T)
{
    if (T->isPointerTy())
        return 'p';
    if (T->isFloatingPointTy())
        return 'f';
    return 'i';
}

struct Parse
{
    Ctx & X;
    const DataLayout & DL;
    explicit Parse(Ctx & x) : X(x), DL(x.M.getDataLayout()) {}

    bool initialisedBefore(Value * P, CallBase * CB)
    {
        P = P->stripPointerCasts();
        if (isa<GlobalVariable>(P))
            return true;
        Value * Base = getUnderlyingBase(P);
        auto * A = dyn_cast<AllocaInst>(Base);
        if (! A)
            return true; // storage owned by the caller: judged at its definition
        DominatorTree DT(*CB->getFunction());
        // any write into the object that dominates the call
        std::vector<Value *> w{ A };
        DenseSet<Value *> seen;
        while (! w.empty())
        {
            Value * V = w.back();
            w.pop_back();
            if (! seen.insert(V).second)
                continue;
            for (User * U : V->users())
            {
                auto * I = dyn_cast<Instruction>(U);
                if (! I)
                    continue;
                if (isa<GetElementPtrInst>(I) || isa<BitCastInst>(I))
                {
                    w.push_back(I);
                    continue;
                }
                bool wr = false;
                if (auto * S = dyn_cast<StoreInst>(I))
                    wr = S->getPointerOperand() == V;
                else if (auto * C = dyn_cast<CallBase>(I))
                    wr = C != CB && ! C->getCalledFunction()->isIntrinsic() ? true : isa<MemIntrinsic>(I);
                if (wr && I != CB && DT.dominates(I, CB))
                {
                    if (P != A || isa<CallBase>(I) || I->getOperand(1) == A || Base == A)
                        return true;
                }
            }
        }
        return false;
    }

    void parseCall(CallBase * CB, unsigned fmtArg, unsigned first, bool kw)
    {
        Function * F = CB->getFunction();
        std::string fmt = constStr(CB->getArgOperand(fmtArg));
        std::string where = X.baseName(F);
        if (fmt.empty() && ! isa<Constant>(CB->getArgOperand(fmtArg)))
        {
            X.finding("parse", "parse:" + where + ":nonconst", CB, F, "argument format is not a constant string");
            return;
        }
        X.count("parse_calls");
        std::vector<Unit> us;
        std::string err;
        if (! parseUnits(fmt, us, err))
        {
            X.finding("parse", "parse:" + where + ":" + fmt, CB, F, "argument format \"" + fmt + "\": " + err);
            return;
        }
        unsigned a = first, n = CB->arg_size();
        auto bad = [&](const std::string & what, const std::string & m)
        {
            X.finding("parse", "parse:" + where + ":" + fmt + ":" + what, CB, F, "format \"" + fmt + "\": " + m);
        };
        unsigned idx = 0;
        for (auto & u : us)
        {
            ++idx;
            std::vector<std::pair<Value *, char>> st; // storage, unit char
            unsigned need = (u.u.size() > 1 && (u.u[1] == '#' || u.u[1] == '!' || u.u[1] == '&')) ? 2 : 1;
            if (a + need > n)
            {
                bad("count", "fewer outputs than units (unit " + std::to_string(idx) + " '" + u.u + "' has none)");
                return;
            }
            if (u.u.size() > 1 && u.u[1] == '!')
                st.push_back({ CB->getArgOperand(a + 1), 'O' });
            else if (u.u.size() > 1 && u.u[1] == '&')
                ;
            else if (u.u.size() > 1 && u.u[1] == '#')
            {
                st.push_back({ CB->getArgOperand(a), 's' });
                st.push_back({ CB->getArgOperand(a + 1), 'n' });
            }
            else
                st.push_back({ CB->getArgOperand(a), u.u[0] });
            a += need;
            for (auto & s : st)
            {
                X.count("format_units_checked");
                Type * T = leafType(storageType(X, s.first));
                if (! T)
                {
                    X.count("format_units_with_opaque_storage");
                    continue;
                }
                uint64_t sz = DL.getTypeAllocSize(T);
                if (sz != unitSize(s.second))
                    bad("width" + std::to_string(idx), "unit " + std::to_string(idx) + " '" + u.u + "' writes " +
                                                           std::to_string(unitSize(s.second)) + " bytes into a variable of " +
                                                           std::to_string(sz) + " bytes");
                else if (typeKind(T) != unitKind(s.second))
                    bad("kind" + std::to_string(idx), "unit " + std::to_string(idx) + " '" + u.u +
                                                          "' stores a value of a different kind than its variable");
                if (u.optional && ! initialisedBefore(s.first, CB))
                    bad("init" + std::to_string(idx), "optional unit " + std::to_string(idx) + " '" + u.u +
                                                          "' leaves its variable uninitialised when the argument is omitted");
                if (u.optional)
                    X.count("optional_units_checked");
            }
        }
        if (a != n)
            bad("count", "more outputs (" + std::to_string(n - first) + ") than the format consumes (" + std::to_string(a - first) + ")");
        if (kw)
        {
            // keyword list: local array of strings, NULL terminated
            Value * K = getUnderlyingBase(CB->getArgOperand(3));
            std::map<uint64_t, std::string> names;
            int64_t terminator = -1;
            auto addSlot = [&](uint64_t slot, Value * V)
            {
                if (isNullConst(V))
                {
                    if (terminator < 0 || (int64_t)slot < terminator)
                        terminator = slot;
                }
                else
                    names[slot] = constStr(V);
            };
            std::function<void(Constant *, uint64_t)> fromInit = [&](Constant * C, uint64_t)
            {
                for (unsigned i = 0; i < C->getNumOperands(); ++i)
                    addSlot(i, C->getOperand(i));
                if (auto * AT = dyn_cast<ArrayType>(C->getType()))
                    if (C->getNumOperands() < AT->getNumElements() || isa<ConstantAggregateZero>(C))
                        if (terminator < 0)
                            terminator = C->getNumOperands();
            };
            bool known = false;
            if (auto * G = dyn_cast<GlobalVariable>(K))
            {
                if (G->hasInitializer())
                {
                    fromInit(G->getInitializer(), 0);
                    known = true;
                }
            }
            else if (auto * A = dyn_cast<AllocaInst>(K))
            {
                known = true;
                for (Instruction & I : instructions(*F))
                {
                    if (auto * MC = dyn_cast<MemTransferInst>(&I))
                        if (getUnderlyingBase(MC->getDest()) == A)
                            if (auto * G = dyn_cast<GlobalVariable>(getUnderlyingBase(MC->getSource())))
                                if (G->hasInitializer())
                                    fromInit(G->getInitializer(), 0);
                    if (auto * S = dyn_cast<StoreInst>(&I))
                        if (getUnderlyingBase(S->getPointerOperand()) == A)
                        {
                            APInt off(64, 0);
                            S->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, off, true);
                            addSlot(off.getZExtValue() / 8, S->getValueOperand());
                        }
                }
            }
            if (known)
            {
                X.count("keyword_lists_checked");
                if (terminator < 0)
                    bad("kwend", "keyword list has no terminator");
                else if ((size_t)terminator != us.size())
                    bad("kwlen", "keyword list names " + std::to_string(terminator) + " arguments, the format " + std::to_string(us.size()));
                std::set<std::string> seen;
                for (auto & kv : names)
                    if (! kv.second.empty() && ! seen.insert(kv.second).second)
                        bad("kwdup", "keyword \"" + kv.second + "\" appears twice");
            }
            else
                X.count("keyword_lists_opaque");
        }
        bool tested = false;
        for (User * U : CB->users())
            if (isa<ICmpInst>(U) || isa<BranchInst>(U) || isa<TruncInst>(U) || isa<SwitchInst>(U) || isa<ReturnInst>(U) || isa<PHINode>(U) || isa<CastInst>(U))
                tested = true;
        if (! tested)
            bad("untested", "result ignored: outputs are used although unpacking may have failed");
    }

    void buildCall(CallBase * CB)
    {
        Function * F = CB->getFunction();
        std::string fmt = constStr(CB->getArgOperand(0));
        std::string where = X.baseName(F);
        if (fmt.empty())
        {
            if (! isa<Constant>(CB->getArgOperand(0)))
                X.count("build_formats_opaque");
            return;
        }
        X.count("build_calls");
        unsigned a = 1, n = CB->arg_size(), idx = 0;
        auto bad = [&](const std::string & what, const std::string & m)
        {
            X.finding("parse", "build:" + where + ":" + fmt + ":" + what, CB, F, "build format \"" + fmt + "\": " + m);
        };
        int depth = 0;
        for (size_t i = 0; i < fmt.size(); ++i)
        {
            char c = fmt[i];
            if (strchr(" ,:\t", c))
                continue;
            if (strchr("([{", c))
            {
                depth++;
                continue;
            }
            if (strchr(")]}", c))
            {
                depth--;
                continue;
            }
            ++idx;
            bool two = i + 1 < fmt.size() && (fmt[i + 1] == '#' || fmt[i + 1] == '&');
            if (two)
                ++i;
            if (a >= n)
            {
                bad("count", "unit " + std::to_string(idx) + " has no argument");
                return;
            }
            Type * T = CB->getArgOperand(a)->getType();
            X.count("build_units_checked");
            uint64_t bits = T->isPointerTy() ? 64 : T->getPrimitiveSizeInBits();
            char k = typeKind(T);
            bool ok = true;
            if (strchr("sSzyOUN", c))
                ok = k == 'p';
            else if (strchr("iIbBhHcCp", c))
                ok = k == 'i' && bits == 32;
            else if (strchr("lkLKn", c))
                ok = k == 'i' && bits == 64;
            else if (strchr("fdD", c))
                ok = (c == 'D') ? k == 'p' : k == 'f' && bits == 64;
            else
                bad("unit", std::string("unknown unit '") + c + "'");
            if (! ok)
                bad("arg" + std::to_string(idx), std::string("unit ") + std::to_string(idx) + " '" + c +
                                                     "' receives an argument of a different width or kind");
            a += two ? 2 : 1;
        }
        if (depth)
            bad("nest", "unbalanced brackets");
        if (a < n)
            bad("count", "more arguments than units");
    }
};

void run(Ctx & X)
{
    Parse P(X);
    for (Function & F : X.M)
    {
        if (F.isDeclaration() || ! X.inRepo(&F))
            continue;
        if (! X.addressTaken(&F) && X.callers(&F).empty())
        {
            X.count("functions_never_called"); // cannot be observed
            continue;
        }
        for (Instruction & I : instructions(F))
            if (auto * CB = dyn_cast<CallBase>(&I))
            {
                Function * D = directCallee(CB);
                if (! D)
                    continue;
                StringRef n = D->getName();
                if (n == "PyArg_ParseTuple" || n == "_PyArg_ParseTuple_SizeT" || n == "PyArg_Parse" || n == "_PyArg_Parse_SizeT")
                    P.parseCall(CB, 1, 2, false);
                else if (n == "PyArg_ParseTupleAndKeywords" || n == "_PyArg_ParseTupleAndKeywords_SizeT")
                    P.parseCall(CB, 2, 4, true);
                else if (n == "Py_BuildValue" || n == "_Py_BuildValue_SizeT")
                    P.buildCall(CB);
            }
    }
}

void mtable(Ctx & X)
{
    std::map<std::string, Function *> names;
    int64_t entries = 0, tables = 0;
    for (GlobalVariable & G : X.M.globals())
    {
        if (! G.hasInitializer())
            continue;
        auto * AT = dyn_cast<ArrayType>(G.getValueType());
        if (! AT)
            continue;
        auto * ST = dyn_cast<StructType>(AT->getElementType());
        if (! ST || ! ST->hasName() || ! ST->getName().starts_with("struct.PyMethodDef"))
            continue;
        Constant * C = G.getInitializer();
        tables++;
        bool terminated = false;
        std::string tab = Ctx::demangleStr(G.getName());
        // the table may be filled by a static initialiser
        std::map<uint64_t, Constant *> stored;
        if (isa<ConstantAggregateZero>(C))
            for (Function & F : X.M)
            {
                if (! F.getName().starts_with("__cxx_global_var_init") && ! F.getName().starts_with("_GLOBAL__"))
                    continue;
                for (Instruction & I : instructions(F))
                    if (auto * S = dyn_cast<StoreInst>(&I))
                    {
                        APInt off(64, 0);
                        Value * B = S->getPointerOperand()->stripAndAccumulateConstantOffsets(X.M.getDataLayout(), off, true);
                        if (B == &G)
                            if (auto * K = dyn_cast<Constant>(S->getValueOperand()))
                                stored[off.getZExtValue()] = K;
                    }
            }
        uint64_t esz = X.M.getDataLayout().getTypeAllocSize(ST);
        auto elem = [&](unsigned i, unsigned f) -> Constant *
        {
            uint64_t o = i * esz + X.M.getDataLayout().getStructLayout(ST)->getElementOffset(f);
            auto it = stored.find(o);
            return it != stored.end() ? it->second : C->getAggregateElement(i)->getAggregateElement(f);
        };
        for (unsigned i = 0; i < AT->getNumElements(); ++i)
        {
            Constant * fnC = elem(i, 1);
            std::string nm = constStr(elem(i, 0));
            if (isNullConst(elem(i, 0)))
            {
                terminated = true;
                if (i + 1 != AT->getNumElements())
                    X.finding("mtable", "mtable:" + tab + ":early-end", nullptr, nullptr, tab + ": entries after the terminator are unreachable");
                break;
            }
            auto * Fn = dyn_cast<Function>(fnC->stripPointerCasts());
            auto * Fl = dyn_cast<ConstantInt>(elem(i, 2));
            if (! Fn || ! Fl)
            {
                X.finding("mtable", "mtable:" + nm, nullptr, nullptr, tab + ": entry " + nm + " has no function");
                continue;
            }
            entries++;
            unsigned fl = Fl->getZExtValue();
            unsigned conv = fl & (1 | 2 | 4 | 8 | 0x80);
            unsigned nargs = Fn->arg_size();
            bool ok = true;
            std::string want;
            if (conv == 1) // VARARGS
            {
                ok = nargs == 2;
                want = "two";
            }
            else if (conv == (1 | 2)) // VARARGS|KEYWORDS
            {
                ok = nargs == 3;
                want = "three";
            }
            else if (conv == 4 || conv == 8) // NOARGS / O
            {
                ok = nargs == 2;
                want = "two";
            }
            else if (conv == 0x80)
            {
                ok = nargs == 3;
                want = "three (vectorcall)";
            }
            else
            {
                X.finding("mtable", "mtable:" + nm + ":flags", nullptr, Fn, tab + ": entry " + nm + " has an impossible calling convention " + std::to_string(fl));
                continue;
            }
            // a one-parameter function taking only self is called with an extra argument: harmless on this ABI only for NOARGS
            if (! ok)
                X.finding("mtable", "mtable:" + nm + ":arity", nullptr, Fn,
                          tab + ": entry " + nm + " is called with " + want + " parameters, " + X.baseName(Fn) + " takes " + std::to_string(nargs));
            // what the body unpacks
            for (Instruction & I : instructions(*Fn))
                if (auto * CB = dyn_cast<CallBase>(&I))
                {
                    Function * D = directCallee(CB);
                    if (! D)
                        continue;
                    StringRef n = D->getName();
                    bool tup = n == "_PyArg_ParseTuple_SizeT" || n == "PyArg_ParseTuple";
                    bool kw = n == "_PyArg_ParseTupleAndKeywords_SizeT" || n == "PyArg_ParseTupleAndKeywords";
                    if (! tup && ! kw)
                        continue;
                    Value * A = CB->getArgOperand(0)->stripPointerCasts();
                    if (A != Fn->getArg(1))
                        continue;
                    if (conv == 4 || conv == 8)
                        X.finding("mtable", "mtable:" + nm + ":conv", CB, Fn,
                                  tab + ": entry " + nm + " unpacks an argument tuple but is registered without one");
                    if (kw && Fn->arg_size() < 3)
                        X.finding("mtable", "mtable:" + nm + ":kw", CB, Fn, tab + ": entry " + nm + " reads keywords it is never given");
                }
            auto it = names.find(tab + "/" + nm);
            if (it != names.end())
                X.finding("mtable", "mtable:" + nm + ":dup", nullptr, Fn, tab + ": name " + nm + " is registered twice (" + X.baseName(it->second) + ", " + X.baseName(Fn) + ")");
            names[tab + "/" + nm] = Fn;
            X.note("exports", nm);
        }
        if (! terminated)
            X.finding("mtable", "mtable:" + tab + ":noend", nullptr, nullptr, tab + ": method table has no terminator");
    }
    X.count("method_tables", tables);
    X.count("method_entries", entries);
    if (entries < 50)
        X.broken("method tables shrank to " + std::to_string(entries) + " entries");
}
RuleReg r1("parse", run);
RuleReg r2("mtable", mtable);
}
