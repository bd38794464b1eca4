// Rule dispatch: a branch taken for an element type selects code instantiated for that type.
#include "core.h"
#include "llvm/Analysis/CFG.h"
namespace
{
std::string norm(std::string s)
{
    if (s == "long long")
        return "long";
    if (s == "unsigned long long")
        return "unsigned long";
    if (s == "char")
        return "signed char";
    return s;
}
// element type codes of arrays
const char * typeOf(int64_t c)
{
    static const char * t[] = { "bool", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "long", "unsigned long",
                                "float", "double", "long double" };
    return c >= 0 && c < 14 ? t[c] : "";
}
int width(const std::string & t)
{
    if (t == "bool" || t == "signed char" || t == "unsigned char")
        return 1;
    if (t == "short" || t == "unsigned short")
        return 2;
    if (t == "int" || t == "unsigned int" || t == "float")
        return 4;
    if (t == "long" || t == "unsigned long" || t == "double")
        return 8;
    if (t == "long double")
        return 16;
    return 0;
}
bool matches(int64_t code, const std::string & t)
{
    // booleans are stored as bytes holding 0 or 1
    return t == typeOf(code) || (code == 0 && width(t) == 1);
}
// template arguments of the first template-id in a demangled name
std::vector<std::string> templArgs(const std::string & n)
{
    std::vector<std::string> out;
    size_t lt = n.find('<');
    if (lt == std::string::npos)
        return out;
    int d = 0;
    size_t st = lt + 1;
    auto put = [&](size_t e)
    {
        out.push_back(norm(StringRef(n).substr(st, e - st).trim().str()));
    };
    for (size_t i = lt; i < n.size(); ++i)
    {
        char c = n[i];
        if (c == '<' || c == '(')
            ++d;
        else if (c == '>' || c == ')')
        {
            if (--d == 0)
            {
                put(i);
                break;
            }
        }
        else if (c == ',' && d == 1)
        {
            put(i);
            st = i + 1;
        }
    }
    return out;
}
std::string templName(const std::string & n)
{
    size_t lt = n.find('<'), b = lt;
    while (b > 0 && (isalnum(n[b - 1]) || n[b - 1] == '_'))
        --b;
    std::string r = n.substr(b, lt - b);
    // member of a class template: include the member
    int d = 0;
    size_t i = lt;
    for (; i < n.size(); ++i)
    {
        if (n[i] == '<')
            ++d;
        else if (n[i] == '>' && --d == 0)
            break;
    }
    if (i + 2 < n.size() && n[i + 1] == ':')
    {
        size_t e = i + 3;
        while (e < n.size() && (isalnum(n[e]) || n[e] == '_' || n[e] == '~'))
            ++e;
        r += n.substr(i + 1, e - i - 1);
    }
    return r;
}
// ---- does the result of a kernel depend on the signedness (or, in copy mode, on anything but the width) of its elements -----
struct Agnostic
{
    Ctx & X;
    unsigned bits;
    bool copyOnly;
    std::map<std::tuple<Function *, uint64_t, std::vector<Function *>>, int> memo; // 1 returns no element, 2 returns an element, 3 not agnostic

    int visit(Function * F, uint64_t taintArgs, int depth, std::vector<Function *> bound = {})
    {
        if (F->isDeclaration() || depth > 6)
            return taintArgs || depth > 6 ? 3 : 1;
        auto k = std::make_tuple(F, taintArgs, bound);
        if (auto it = memo.find(k); it != memo.end())
            return it->second;
        memo[k] = 1;
        // t: elements; g: elements widened, only the low bits mean anything
        DenseSet<Value *> t, g;
        for (Argument & A : F->args())
            if (A.getArgNo() < 64 && (taintArgs >> A.getArgNo() & 1))
                t.insert(&A);
        bool ch = true, ok = true, ret = false;
        while (ch && ok)
        {
            ch = false;
            for (Instruction & I : instructions(F))
            {
                bool in = false;
                // code handed on: returned, stored, passed, or listed in a table
                for (Use & U : I.operands())
                {
                    auto * CB = dyn_cast<CallBase>(&I);
                    if (CB && CB->isCallee(&U))
                        continue;
                    if (isa<DbgInfoIntrinsic>(I))
                        continue;
                    if (auto * G = dyn_cast<Function>(U.get()->stripPointerCasts()); G && ! G->isDeclaration())
                        ok &= visit(G, 0, depth + 1) != 3;
                    else if (auto * T = dyn_cast<GlobalVariable>(getUnderlyingBase(U.get())); T && T->isConstant() && T->hasInitializer())
                        if (auto * A = dyn_cast<ConstantAggregate>(T->getInitializer()))
                            for (Value * O : A->operands())
                                if (auto * G = dyn_cast<Function>(O->stripPointerCasts()); G && ! G->isDeclaration())
                                    ok &= visit(G, 0, depth + 1) != 3;
                }
                for (Value * V : I.operands())
                    in |= t.count(V);
                bool out = false;
                bool inG = false;
                for (Value * V : I.operands())
                    inG |= g.count(V);
                if (inG && ! copyOnly)
                {
                    switch (I.getOpcode())
                    {
                    case Instruction::Add:
                    case Instruction::Sub:
                    case Instruction::Mul:
                    case Instruction::And:
                    case Instruction::Or:
                    case Instruction::Xor:
                    case Instruction::PHI:
                    case Instruction::Select:
                        ch |= g.insert(&I).second;
                        break;
                    case Instruction::Trunc:
                        if (I.getType()->getScalarSizeInBits() <= bits)
                            ch |= t.insert(&I).second;
                        else
                            ch |= g.insert(&I).second;
                        break;
                    case Instruction::ICmp:
                        // widened zero is zero
                        if (! (cast<ICmpInst>(&I)->isEquality() && isa<ConstantInt>(I.getOperand(1)) && cast<ConstantInt>(I.getOperand(1))->isZero() &&
                               isa<CastInst>(I.getOperand(0)) && t.count(cast<CastInst>(I.getOperand(0))->getOperand(0))))
                            ok = false;
                        break;
                    default:
                        ok &= isa<DbgInfoIntrinsic>(I);
                    }
                    continue;
                }
                if (auto * L = dyn_cast<LoadInst>(&I))
                {
                    Type * T = L->getType();
                    unsigned f;
                    out = (T->isVectorTy() || (T->isIntegerTy() && T->getScalarSizeInBits() == bits)) && ! gepStruct(L->getPointerOperand(), f) &&
                          ! isa<AllocaInst>(getUnderlyingBase(L->getPointerOperand())) && ! isa<GlobalVariable>(getUnderlyingBase(L->getPointerOperand()));
                    // an element parked in a local
                    if (auto * A = dyn_cast<AllocaInst>(getUnderlyingBase(L->getPointerOperand())))
                        out |= t.count(A);
                }
                else if (auto * S = dyn_cast<StoreInst>(&I))
                {
                    if (t.count(S->getValueOperand()))
                        if (auto * A = dyn_cast<AllocaInst>(getUnderlyingBase(S->getPointerOperand())))
                            ch |= t.insert(A).second;
                    continue;
                }
                else if (auto * CB = dyn_cast<CallBase>(&I))
                {
                    uint64_t ta = 0;
                    for (unsigned i = 0; i < CB->arg_size() && i < 64; ++i)
                        if (t.count(CB->getArgOperand(i)))
                            ta |= 1ull << i;
                    Function * G = directCallee(CB);
                    // an operation handed in as a parameter
                    if (! G)
                        if (auto * A = dyn_cast<Argument>(CB->getCalledOperand()); A && A->getArgNo() < bound.size())
                            G = bound[A->getArgNo()];
                    std::vector<Function *> b;
                    for (unsigned i = 0; i < CB->arg_size(); ++i)
                    {
                        auto * Fn = dyn_cast<Function>(CB->getArgOperand(i)->stripPointerCasts());
                        if (auto * A = dyn_cast<Argument>(CB->getArgOperand(i)); A && A->getArgNo() < bound.size())
                            Fn = bound[A->getArgNo()];
                        b.push_back(Fn);
                    }
                    if (isa<DbgInfoIntrinsic>(CB) || (G && G->isIntrinsic() && (G->getName().starts_with("llvm.lifetime") || G->getName().starts_with("llvm.mem"))))
                        continue;
                    if (G && ! G->isDeclaration())
                    {
                        int r = visit(G, ta, depth + 1, b);
                        ok &= r != 3;
                        out = r == 2;
                    }
                    else if (ta)
                    {
                        ok = false; // an operation whose meaning for the element is unknown
                    }
                }
                else if (in)
                {
                    out = true;
                    switch (I.getOpcode())
                    {
                    case Instruction::PHI:
                    case Instruction::BitCast:
                    case Instruction::Freeze:
                    case Instruction::InsertElement:
                    case Instruction::ExtractElement:
                    case Instruction::ShuffleVector:
                        break;
                    case Instruction::Select:
                        out = t.count(I.getOperand(1)) || t.count(I.getOperand(2));
                        break;
                    case Instruction::Ret:
                        ret = true;
                        break;
                    case Instruction::GetElementPtr:
                        ok = false; // an index
                        break;
                    case Instruction::ICmp:
                    {
                        out = false;
                        auto * C = cast<ICmpInst>(&I);
                        auto * K = dyn_cast<ConstantInt>(C->getOperand(1));
                        if (! C->isEquality() || (K && ! K->isZero()) || copyOnly)
                            ok = false;
                        break;
                    }
                    case Instruction::SDiv:
                    case Instruction::UDiv:
                    case Instruction::SRem:
                    case Instruction::URem:
                    case Instruction::AShr:
                    case Instruction::LShr:
                        ok = false;
                        break;
                    case Instruction::SExt:
                    case Instruction::ZExt:
                        out = false;
                        if (copyOnly)
                            ok = false;
                        else
                            ch |= g.insert(&I).second;
                        break;
                    case Instruction::SIToFP:
                    case Instruction::UIToFP:
                        ok = false;
                        break;
                    default:
                        ok &= ! copyOnly || I.isTerminator();
                    }
                }
                if (out)
                    ch |= t.insert(&I).second;
            }
        }
        int r = ! ok ? 3 : ret ? 2 : 1;
        memo[k] = r;
        return r;
    }
};
// may arrays of type code c be handed to kernel G written for type t of the same width
bool shareable(Ctx & X, Function * G, int64_t c, const std::string & t)
{
    std::string w = typeOf(c);
    if (width(w) != width(t))
        return false;
    bool fl = (w == "float" || w == "double" || w == "long double") || (t == "float" || t == "double" || t == "long double");
    Agnostic A{ X, unsigned(width(t) * 8), fl };
    return A.visit(G, 0, 0) != 3;
}
struct Entry
{
    std::vector<int64_t> codes;
    Function * G;
    std::vector<std::string> args;
    Instruction * at;
};

// kernels chosen together with the element type of their result: the two must agree
struct Result
{
    int64_t code;
    Function * G;
    std::vector<std::string> args;
    Instruction * at;
};
void results(Ctx & X, Function & F)
{
    // where a result type is recorded: a pointer parameter
    std::map<Value *, std::vector<StoreInst *>> recs;
    for (Instruction & I : instructions(F))
        if (auto * S = dyn_cast<StoreInst>(&I))
            if (S->getValueOperand()->getType()->isIntegerTy(32) && isa<Argument>(S->getPointerOperand()))
                recs[S->getPointerOperand()].push_back(S);
    if (recs.empty())
        return;
    DominatorTree DT(F);
    for (auto & r : recs)
    {
        std::map<std::string, std::vector<Result>> groups;
        auto add = [&](Function * G, Instruction * at, BasicBlock * B)
        {
            const std::string & nm = X.dem(G);
            if (! X.inRepo(G) || nm.find('<') == std::string::npos || ! width(templArgs(nm)[0]))
                return;
            // what was recorded before, on every path
            StoreInst * last = nullptr;
            for (StoreInst * S : r.second)
                if ((S->getParent() == B ? S->comesBefore(at) || isa<PHINode>(at) : DT.dominates(S->getParent(), B)) && (! last || DT.dominates(last, S)))
                    last = S;
            auto * K = last ? dyn_cast<ConstantInt>(last->getValueOperand()) : nullptr;
            if (! K || ! *typeOf(K->getSExtValue()))
                return;
            // recorded again in between
            for (StoreInst * S : r.second)
                if (S != last && DT.dominates(last, S) && isPotentiallyReachable(S, B->getTerminator(), nullptr, &DT))
                    return;
            groups[templName(nm)].push_back({ K->getSExtValue(), G, templArgs(nm), at });
        };
        for (BasicBlock & B : F)
        {
            for (Instruction & I : B)
            {
                if (isa<DbgInfoIntrinsic>(I))
                    continue;
                if (auto * N = dyn_cast<PHINode>(&I))
                {
                    for (unsigned i = 0; i < N->getNumIncomingValues(); ++i)
                        if (auto * G = dyn_cast<Function>(N->getIncomingValue(i)->stripPointerCasts()))
                            add(G, N->getIncomingBlock(i)->getTerminator(), N->getIncomingBlock(i));
                    continue;
                }
                for (Value * V : I.operands())
                    if (auto * G = dyn_cast<Function>(V->stripPointerCasts()))
                        add(G, &I, &B);
            }
        }
        for (auto & g : groups)
        {
            unsigned bestP = 0, bestD = 0, bestH = 0, tot = 0, bestE = 0;
            size_t np = 0;
            for (auto & u : g.second)
                np = std::max(np, u.args.size());
            for (unsigned p = 0; p < np; ++p)
            {
                std::set<std::string> dist;
                unsigned hit = 0, n = 0, eq = 0;
                for (auto & u : g.second)
                    if (p < u.args.size() && width(u.args[p]))
                    {
                        ++n;
                        eq += u.args[p] == typeOf(u.code);
                        if (matches(u.code, u.args[p]))
                        {
                            ++hit;
                            dist.insert(u.args[p]);
                        }
                    }
                if (dist.size() > bestD || (dist.size() == bestD && hit > bestH))
                    bestP = p, bestD = dist.size(), bestH = hit, tot = n, bestE = eq;
            }
            if (getenv("DISP_DUMP"))
                for (auto & u : g.second)
                    errs() << "RES " << X.baseName(&F) << " " << g.first << " p" << bestP << " d" << bestD << " " << bestH << "/" << tot << " " << typeOf(u.code) << " <- " << X.dem(u.G).substr(0, 80) << "\n";
            // follows the type, or is always of one type
            if (! (bestD >= 3 && bestH * 10 >= tot * 7) && ! (tot >= 5 && bestE * 10 >= tot * 8))
                continue;
            X.count("result_type_tables");
            for (auto & u : g.second)
            {
                if (bestP >= u.args.size() || ! width(u.args[bestP]))
                    continue;
                X.count("result_types_checked");
                if (! matches(u.code, u.args[bestP]))
                    X.finding("dispatch", "dispatch:" + X.baseName(&F) + ":" + g.first + ":result:" + typeOf(u.code) + ":" + u.args[bestP], u.at, &F,
                              std::string("the result array is made as ") + typeOf(u.code) + " (type code " + std::to_string(u.code) + ") but " + g.first + " produces " + u.args[bestP]);
            }
        }
    }
}

void run(Ctx & X)
{
    for (Function & F : X.M)
    {
        if (! X.inRepo(&F) || F.isDeclaration())
            continue;
        results(X, F);
        std::vector<SwitchInst *> sw;
        for (BasicBlock & B : F)
            if (auto * S = dyn_cast<SwitchInst>(B.getTerminator()))
                sw.push_back(S);
        if (sw.empty())
            continue;
        DominatorTree DT(F);
        // values known to hold an element type code: some table in this function follows them clearly
        DenseSet<Value *> typeCodes;
        for (int phase = 0; phase < 2; ++phase)
        for (SwitchInst * S : sw)
        {
            std::map<BasicBlock *, std::vector<int64_t>> cs;
            for (auto & c : S->cases())
                if (c.getCaseSuccessor() != S->getDefaultDest())
                    cs[c.getCaseSuccessor()].push_back(c.getCaseValue()->getSExtValue());
            std::map<std::string, std::vector<Entry>> groups;
            for (auto & kv : cs)
            {
                BasicBlock * E = kv.first;
                // one choice for many types is no table entry
                std::set<std::string> types;
                for (int64_t c : kv.second)
                    types.insert(typeOf(c));
                if (types.size() > 4)
                    continue;
                if (E->getUniquePredecessor() != S->getParent())
                {
                    // straight to the place where the choices meet
                    for (PHINode & N : E->phis())
                        if (auto * G = dyn_cast<Function>(N.getIncomingValueForBlock(S->getParent())->stripPointerCasts()); G && X.inRepo(G))
                            if (const std::string & nm = X.dem(G); nm.find('<') != std::string::npos)
                                groups[templName(nm)].push_back({ kv.second, G, templArgs(nm), S });
                    continue;
                }
                // a later branch on the same code says more
                auto refined = [&](BasicBlock * B)
                {
                    for (SwitchInst * S2 : sw)
                        if (S2 != S && S2->getCondition() == S->getCondition() && DT.dominates(E, S2->getParent()) && DT.dominates(S2->getParent(), B) && B != S2->getParent())
                            return true;
                    return false;
                };
                std::map<Function *, Instruction *> used;
                for (BasicBlock & B : F)
                {
                    if (DT.dominates(E, &B) && ! refined(&B))
                        for (Instruction & I : B)
                            if (! isa<PHINode>(I))
                                for (Value * V : I.operands())
                                    if (auto * G = dyn_cast<Function>(V->stripPointerCasts()))
                                        used.insert({ G, &I });
                    for (PHINode & N : B.phis())
                        for (unsigned i = 0; i < N.getNumIncomingValues(); ++i)
                            if (auto * G = dyn_cast<Function>(N.getIncomingValue(i)->stripPointerCasts()))
                                if (DT.dominates(E, N.getIncomingBlock(i)) && ! refined(N.getIncomingBlock(i)))
                                    used.insert({ G, N.getIncomingBlock(i)->getTerminator() });
                }
                for (auto & u : used)
                {
                    Function * G = u.first;
                    const std::string & nm = X.dem(G);
                    if (! X.inRepo(G) || nm.find('<') == std::string::npos)
                        continue;
                    groups[templName(nm)].push_back({ kv.second, G, templArgs(nm), u.second });
                }
            }
            for (auto & g : groups)
            {
                // the template parameter that follows the switched code
                unsigned bestP = 0, bestD = 0, bestH = 0, tot = 0, wHit = 0;
                bool byWidth = false;
                size_t np = 0;
                for (auto & u : g.second)
                    np = std::max(np, u.args.size());
                // tables that follow the size of an element
                bool sized = false;
                for (unsigned p = 0; p < np && ! sized; ++p)
                {
                    std::set<int> dist;
                    unsigned hit = 0, n = 0, th = 0;
                    for (auto & u : g.second)
                        if (p < u.args.size() && width(u.args[p]))
                            for (int64_t c : u.codes)
                            {
                                ++n;
                                if (c == width(u.args[p]))
                                {
                                    ++hit;
                                    dist.insert(c);
                                }
                                th += matches(c, u.args[p]);
                            }
                    if (dist.size() < 3 || hit * 10 < n * 7 || th >= hit || typeCodes.count(S->getCondition()))
                        continue;
                    sized = true;
                    if (phase == 0)
                        break;
                    X.count("tables_by_size");
                    X.note("size_tables", X.baseName(&F) + " -> " + g.first + " #" + std::to_string(p));
                    for (auto & u : g.second)
                        if (p < u.args.size() && width(u.args[p]))
                            for (int64_t c : u.codes)
                            {
                                X.count("dispatch_entries_checked");
                                if (c == width(u.args[p]))
                                    X.count("dispatch_entries_agreeing");
                                else
                                    X.finding("dispatch", "dispatch:" + X.baseName(&F) + ":" + g.first + ":size:" + std::to_string(c) + ":" + u.args[p], u.at, &F,
                                              "elements of " + std::to_string(c) + " bytes are handed to " + g.first + " for " + u.args[p]);
                            }
                }
                if (sized)
                    continue;
                for (unsigned p = 0; p < np; ++p)
                {
                    std::set<int64_t> dist, wdist;
                    unsigned hit = 0, n = 0, wh = 0;
                    for (auto & u : g.second)
                    {
                        if (p >= u.args.size() || ! width(u.args[p]))
                            continue;
                        bool known = false, h = false, w = false;
                        for (int64_t c : u.codes)
                        {
                            if (! *typeOf(c))
                                continue;
                            known = true;
                            if (width(typeOf(c)) == width(u.args[p]))
                            {
                                w = true;
                                wdist.insert(width(u.args[p]));
                            }
                            if (matches(c, u.args[p]))
                            {
                                h = true;
                                if (u.args[p] == typeOf(c))
                                    dist.insert(width(u.args[p]) * 100 + typeOf(c)[0]);
                            }
                        }
                        if (! known)
                            continue;
                        ++n;
                        hit += h;
                        wh += w;
                    }
                    // tables that select by width only: nearly all entries must agree to call it one
                    bool bw = dist.size() < 3 && wdist.size() >= 3 && wh * 10 >= n * 9;
                    if (bw && bestD < 3)
                    {
                        bestP = p;
                        bestD = wdist.size();
                        bestH = hit;
                        tot = n;
                        wHit = wh;
                        byWidth = true;
                    }
                    else if (dist.size() > bestD || (dist.size() == bestD && hit > bestH))
                    {
                        bestP = p;
                        bestD = dist.size();
                        bestH = hit;
                        tot = n;
                        wHit = wh;
                    }
                }
                bool clear = bestD >= 3 && wHit * 10 >= tot * 7;
                if (phase == 0)
                {
                    if (clear && ! byWidth)
                        typeCodes.insert(S->getCondition());
                    continue;
                }
                // a position that is the same in every branch does not follow the type
                std::set<std::string> kinds;
                for (auto & u : g.second)
                    if (bestP < u.args.size() && width(u.args[bestP]))
                        kinds.insert(u.args[bestP]);
                if (! clear && kinds.size() < 2)
                    continue;
                if (! clear && ! (typeCodes.count(S->getCondition()) && bestD >= 1 && bestH * 2 >= tot && wHit * 10 >= tot * 7))
                    continue;
                X.count("dispatch_tables");
                X.note(! byWidth ? "tables_by_type" : "tables_by_width", X.baseName(&F) + " -> " + g.first + " #" + std::to_string(bestP));
                for (auto & u : g.second)
                {
                    if (bestP >= u.args.size() || ! width(u.args[bestP]))
                        continue;
                    bool known = false;
                    bool bad = false;
                    for (int64_t c : u.codes)
                    {
                        if (! *typeOf(c))
                            continue;
                        known = true;
                        if (! matches(c, u.args[bestP]))
                        {
                            if (shareable(X, u.G, c, u.args[bestP]))
                            {
                                X.count("entries_sharing_a_kernel_of_their_width");
                                continue;
                            }
                            bad = true;
                            X.finding("dispatch", "dispatch:" + X.baseName(&F) + ":" + g.first + ":" + typeOf(c) + ":" + u.args[bestP], u.at, &F,
                                      std::string("arrays of ") + typeOf(c) + " (type code " + std::to_string(c) + ") are handed to " + g.first + " for " + u.args[bestP]);
                        }
                    }
                    if (known)
                    {
                        X.count("dispatch_entries_checked");
                        if (! bad)
                            X.count("dispatch_entries_agreeing");
                    }
                }
            }
        }
    }
}
RuleReg reg("dispatch", run);
}
