// Rule sds: SDS records are filled in completely on every path, and each field keeps its meaning between writer and reader.
#include "core.h"
#include "llvm/BinaryFormat/Dwarf.h"

namespace
{
// fields each writer must take from what it saves
const std::set<std::string> dynamicInWriter = {
    "NameBlockSize", "NameBlockOffset", "NameBlockCount", "MetaBlockSize", "MetaBlockOffset", "ArrayBlockSize", "ArrayBlockOffset",
    "ArrayFirstOffset", "BandSize", "FileOffset", "DType", "NDim", "ItemSize", "Flags", "Dimensions", "Strides", "ArrayDataOffset",
    "ArrayCompressedSize", "ArrayUncompressedSize",
};
// fields that must get such a value somewhere
const std::set<std::string> dynamicSomewhere = {
    "TimeStampUTCNanos", "ArraysWritten", "TotalArrayCompressedSize", "TotalArrayUncompressedSize", "TotalMetaCompressedSize",
    "TotalMetaUncompressedSize", "SectionBlockSize", "SectionBlockOffset", "SectionBlockReservedSize", "SectionBlockCount",
    "FileType", "StackType", "AuthorId", "CompMode", "CompType", "CompLevel", "ArrayBandCount", "ArrayBandSize",
};
// fields of small integer types with unrelated meanings
const std::set<std::string> plainFields = { "CompMode", "CompType", "CompLevel", "FileType", "StackType", "AuthorId", "DType",
                                            "NDim",     "ItemSize", "Flags",     "Dimensions", "Strides", "BandSize" };
// where a block lies, and the fields that say how long it is
const std::map<std::string, std::set<std::string>> blocks = {
    { "NameBlockOffset", { "NameBlockSize" } },
    { "MetaBlockOffset", { "MetaBlockSize", "TotalMetaCompressedSize" } },
    { "ArrayBlockOffset", { "ArrayBlockSize" } },
    { "SectionBlockOffset", { "SectionBlockSize", "SectionBlockReservedSize" } },
    { "BandBlockOffset", { "BandBlockSize" } },
    { "ArrayDataOffset", { "ArrayCompressedSize" } },
    { "ArrayFirstOffset", {} },
    { "FileOffset", {} },
};
const std::set<std::string> sizeFields = { "NameBlockSize", "NameBlockCount", "MetaBlockSize", "TotalMetaCompressedSize", "TotalMetaUncompressedSize",
                                           "ArrayBlockSize", "SectionBlockSize", "SectionBlockReservedSize", "SectionBlockCount", "BandBlockSize",
                                           "BandBlockCount", "BandSize", "ArraysWritten", "TotalArrayCompressedSize", "TotalArrayUncompressedSize",
                                           "ArrayCompressedSize", "ArrayUncompressedSize" };
// stored as they are, never computed
const std::set<std::string> verbatim = { "DType", "ItemSize", "Flags", "Dimensions", "Strides", "FileType", "StackType", "AuthorId" };
// 0 in released files where it is not set
bool optional(StringRef n)
{
    return n == "HeaderTag" || n == "ArrayBandCount" || n == "ArrayBandSize" || n == "Reserved";
}
// values found in released files
const std::map<std::string, std::vector<int64_t>> releasedValues = {
    { "VersionLow", { 0, 1, 2, 3, 4, 5, 6 } }, { "FileType", { 0, 1, 2, 3, 4, 5 } }, { "StackType", { 0, 1 } }, { "AuthorId", { 0, 1, 2, 3 } },
    { "CompType", { 0, 1 } },
};

std::string lower(StringRef s)
{
    return s.lower();
}

struct Store
{
    Instruction * I;   // the store, or the call that makes it
    Value * v;         // value as seen in the function, null when it is a constant or unknown there
    bool dynamic;      // not a constant
    bool whole = false; // memset of the record
};

struct Sds
{
    Ctx & X;
    std::vector<StructType *> ST;
    std::vector<const DICompositeType *> DT;
    std::vector<std::set<std::string>> all; // fields per record
    // per function, per record: stores of fields, the function's own
    struct Own
    {
        std::map<std::string, std::vector<Store>> f[2];
    };
    std::map<Function *, Own> own;
    // fields a function sets on every path, through the pointer it is given or any other
    std::map<Function *, std::map<std::string, int>> must[2]; // value: 1 constant, 2 dynamic
    // argument stored to a field
    std::map<Function *, std::map<std::string, std::set<unsigned>>> argStores[2];

    explicit Sds(Ctx & x) : X(x) {}

    // record and field P addresses
    bool field(Value * P, Type * T, int & rec, std::string & name)
    {
        unsigned f;
        Value * P0 = P;
        for (int d = 0; d < 4; ++d)
        {
            if (auto * S = gepStruct(P, f))
                for (int r = 0; r < 2; ++r)
                    if (X.debugType(S) == DT[r])
                    {
                        rec = r;
                        name = X.fieldName(S, f);
                        return true;
                    }
            auto * G = dyn_cast<GEPOperator>(P);
            if (! G || G->getNumIndices() > 2)
                break;
            P = G->getPointerOperand();
        }
        // first field: the record's own address
        if (T)
            if (Type * E = recordOf(P0))
                for (int r = 0; r < 2; ++r)
                    if (E == ST[r] && T == ST[r]->getElementType(0))
                    {
                        rec = r;
                        name = X.fieldName(ST[r], 0);
                        return true;
                    }
        return false;
    }
    DenseMap<Value *, Type *> recPtr;
    Type * recordOf(Value * P)
    {
        auto it = recPtr.find(P);
        return it == recPtr.end() ? nullptr : it->second;
    }
    void findRecordPointers(Function & F)
    {
        for (Instruction & I : instructions(F))
        {
            if (auto * G = dyn_cast<GetElementPtrInst>(&I))
                for (int r = 0; r < 2; ++r)
                    if (G->getSourceElementType() == ST[r])
                    {
                        auto * K = dyn_cast<ConstantInt>(G->getOperand(1));
                        if (G->getNumIndices() == 1)
                            recPtr[G] = ST[r];
                        else if (K && K->isZero())
                            recPtr[G->getPointerOperand()] = ST[r];
                    }
            if (auto * A = dyn_cast<AllocaInst>(&I))
                for (int r = 0; r < 2; ++r)
                    if (A->getAllocatedType() == ST[r])
                        recPtr[A] = ST[r];
        }
    }

    // ---- values ----------------------------------------------------------------
    static bool sameValue(Value * a, Value * b, int d = 0)
    {
        a = stripCasts(a);
        b = stripCasts(b);
        if (a == b)
            return true;
        if (d > 6)
            return false;
        auto *A = dyn_cast<Instruction>(a), *B = dyn_cast<Instruction>(b);
        if (! A || ! B)
        {
            auto *x = dyn_cast<ConstantInt>(a), *y = dyn_cast<ConstantInt>(b);
            return x && y && x->getSExtValue() == y->getSExtValue();
        }
        if (A->getOpcode() != B->getOpcode() || A->getNumOperands() != B->getNumOperands() || isa<CallBase>(A) || isa<AllocaInst>(A) || isa<PHINode>(A))
            return false;
        if (auto * G = dyn_cast<GetElementPtrInst>(A); G && G->getSourceElementType() != cast<GetElementPtrInst>(B)->getSourceElementType())
            return false;
        for (unsigned i = 0; i < A->getNumOperands(); ++i)
            if (! sameValue(A->getOperand(i), B->getOperand(i), d + 1))
                return false;
        return true;
    }
    // the values V may be here: through phis, selects and local variables
    static void alternatives(Value * V, SetVector<Value *> & out, int d = 0)
    {
        V = stripCasts(V);
        if (out.size() > 24 || ! out.insert(V) || d > 8)
            return;
        if (auto * P = dyn_cast<PHINode>(V))
        {
            for (Value * O : P->incoming_values())
                alternatives(O, out, d + 1);
        }
        else if (auto * S = dyn_cast<SelectInst>(V))
        {
            alternatives(S->getTrueValue(), out, d + 1);
            alternatives(S->getFalseValue(), out, d + 1);
        }
        else if (auto * M = dyn_cast<IntrinsicInst>(V))
        {
            Intrinsic::ID id = M->getIntrinsicID();
            if (id == Intrinsic::smin || id == Intrinsic::smax || id == Intrinsic::umin || id == Intrinsic::umax)
                for (unsigned i = 0; i < 2; ++i)
                    alternatives(M->getArgOperand(i), out, d + 1);
        }
        else if (auto * L = dyn_cast<LoadInst>(V))
        {
            if (auto * A = dyn_cast<AllocaInst>(L->getPointerOperand()))
                for (User * U : A->users())
                    if (auto * S = dyn_cast<StoreInst>(U); S && S->getPointerOperand() == A)
                        alternatives(S->getValueOperand(), out, d + 1);
        }
    }
    static bool isMerge(Value * V)
    {
        if (isa<PHINode>(V) || isa<SelectInst>(V))
            return true;
        if (auto * M = dyn_cast<IntrinsicInst>(V))
            return M->getIntrinsicID() == Intrinsic::smin || M->getIntrinsicID() == Intrinsic::smax || M->getIntrinsicID() == Intrinsic::umin ||
                   M->getIntrinsicID() == Intrinsic::umax;
        if (auto * L = dyn_cast<LoadInst>(V))
            return isa<AllocaInst>(L->getPointerOperand());
        return false;
    }
    // the same value here, whatever local variable holds it
    static bool agree(Value * a, Value * b)
    {
        if (sameValue(a, b))
            return true;
        SetVector<Value *> A, B;
        alternatives(a, A);
        alternatives(b, B);
        for (Value * x : A)
            if (! isa<Constant>(x))
                for (Value * y : B)
                    if (! isa<Constant>(y) && sameValue(x, y))
                        return true;
        return false;
    }

    // record fields whose load V is, and what else it adds to them
    struct Form
    {
        std::multiset<std::string> fields;
        int64_t k = 0;
        int others = 0;
    };
    void forms(Value * V, std::vector<Form> & out, int d, DenseSet<Value *> & seen)
    {
        V = stripCasts(V);
        if (out.size() > 16)
            return;
        if (auto * K = dyn_cast<ConstantInt>(V))
        {
            Form f;
            f.k = K->getSExtValue();
            out.push_back(f);
            return;
        }
        int rec;
        std::string name;
        if (auto * L = dyn_cast<LoadInst>(V))
            if (field(L->getPointerOperand(), L->getType(), rec, name))
            {
                Form f;
                f.fields.insert(name);
                out.push_back(f);
                return;
            }
        if (d > 12 || ! seen.insert(V).second)
        {
            Form f;
            f.others = 1;
            out.push_back(f);
            return;
        }
        if (auto * B = dyn_cast<BinaryOperator>(V); B && (B->getOpcode() == Instruction::Add || B->getOpcode() == Instruction::Sub))
        {
            std::vector<Form> a, b;
            forms(B->getOperand(0), a, d + 1, seen);
            forms(B->getOperand(1), b, d + 1, seen);
            for (auto & x : a)
                for (auto & y : b)
                {
                    if (out.size() > 16)
                        break;
                    Form f = x;
                    if (B->getOpcode() == Instruction::Add)
                    {
                        f.fields.insert(y.fields.begin(), y.fields.end());
                        f.k += y.k;
                    }
                    else
                    {
                        f.others += y.fields.size();
                        f.k -= y.k;
                    }
                    f.others += y.others;
                    out.push_back(f);
                }
        }
        else if (auto * A = dyn_cast<Argument>(V))
        {
            Function * F = A->getParent();
            size_t n = 0;
            if (! X.addressTaken(F))
                for (CallBase * CB : X.callers(F))
                    if (directCallee(CB) == F && A->getArgNo() < CB->arg_size() && ++n <= 8)
                        forms(CB->getArgOperand(A->getArgNo()), out, d + 4, seen);
            if (! n)
            {
                Form f;
                f.others = 1;
                out.push_back(f);
            }
        }
        else if (isMerge(V))
        {
            SetVector<Value *> alt;
            alternatives(V, alt);
            for (Value * x : alt)
                if (! isMerge(x))
                    forms(x, out, d + 1, seen);
        }
        else if (auto * CB = dyn_cast<CallBase>(V))
        {
            Function * G = directCallee(CB);
            size_t n = 0;
            if (G && X.inRepo(G) && ! G->isDeclaration())
                for (BasicBlock & B : *G)
                    if (auto * R = dyn_cast<ReturnInst>(B.getTerminator()); R && R->getReturnValue() && ++n <= 4)
                        forms(R->getReturnValue(), out, d + 4, seen);
            if (! n)
            {
                Form f;
                f.others = 1;
                out.push_back(f);
            }
        }
        else
        {
            Form f;
            f.others = 1;
            out.push_back(f);
        }
        seen.erase(V);
    }
    std::vector<Form> forms(Value * V)
    {
        std::vector<Form> r;
        DenseSet<Value *> seen;
        forms(V, r, 0, seen);
        return r;
    }

    // ---- stores ----------------------------------------------------------------
    void collect(Function & F)
    {
        auto & O = own[&F];
        auto add = [&](Value * P, Type * T, Instruction * I, Value * v)
        {
            int rec;
            std::string n;
            if (field(P, T, rec, n))
            {
                bool dyn = ! v || ! isa<Constant>(v);
                O.f[rec][n].push_back({ I, v, dyn });
                if (v)
                    if (auto * A = dyn_cast<Argument>(stripCasts(v)))
                        argStores[rec][&F][n].insert(A->getArgNo());
            }
        };
        for (Instruction & I : instructions(F))
        {
            if (auto * S = dyn_cast<StoreInst>(&I))
                add(S->getPointerOperand(), S->getValueOperand()->getType(), S, S->getValueOperand());
            else if (auto * R = dyn_cast<AtomicRMWInst>(&I))
                add(R->getPointerOperand(), R->getType(), R, nullptr);
            else if (auto * M = dyn_cast<MemIntrinsic>(&I))
            {
                auto * L = dyn_cast<ConstantInt>(M->getLength());
                // the record itself
                for (int r = 0; r < 2; ++r)
                    if (L && recordOf(M->getRawDest()) == ST[r] && L->getZExtValue() >= X.M.getDataLayout().getTypeAllocSize(ST[r]))
                    {
                        for (auto & n : all[r])
                            O.f[r][n].push_back({ M, nullptr, ! isa<MemSetInst>(M), true });
                    }
                int rec;
                std::string n;
                if (field(M->getRawDest(), nullptr, rec, n))
                    O.f[rec][n].push_back({ M, nullptr, ! isa<MemSetInst>(M) });
            }
            else if (auto * CB = dyn_cast<CallBase>(&I))
            {
                // address of a field handed to another function that may set it
                if (isa<IntrinsicInst>(CB))
                    continue;
                Function * G = directCallee(CB);
                if (G && (X.dem(G).find("logg") != std::string::npos || X.dem(G).find("spdlog") != std::string::npos || X.dem(G).find("fmt::") != std::string::npos))
                    continue;
                for (Value * A : CB->args())
                    if (A->getType()->isPointerTy() && isa<GetElementPtrInst>(A))
                    {
                        int rec;
                        std::string n;
                        if (field(A, nullptr, rec, n) && G && writesThrough(G, CB, A))
                            O.f[rec][n].push_back({ CB, nullptr, true });
                    }
            }
        }
    }
    bool writesThrough(Function * G, CallBase * CB, Value * A)
    {
        if (G->isDeclaration())
            return true;
        for (unsigned i = 0; i < CB->arg_size() && i < G->arg_size(); ++i)
            if (CB->getArgOperand(i) == A)
                for (User * U : G->getArg(i)->users())
                {
                    if (auto * S = dyn_cast<StoreInst>(U); S && S->getPointerOperand() == G->getArg(i))
                        return true;
                    if (isa<AtomicRMWInst>(U) || isa<AtomicCmpXchgInst>(U))
                        return true;
                    if (isa<CallBase>(U))
                        return true;
                }
        return false;
    }

    // all places in F that set field n: its own, and calls of functions that set it on every path
    std::vector<Store> places(Function * F, int r, const std::string & n)
    {
        std::vector<Store> v;
        if (auto it = own.find(F); it != own.end())
            if (auto jt = it->second.f[r].find(n); jt != it->second.f[r].end())
                v = jt->second;
        for (auto & E : X.edges(F))
            if (auto it = must[r].find(E.callee); it != must[r].end())
                if (auto jt = it->second.find(n); jt != it->second.end() && directCallee(E.site) == E.callee)
                {
                    Value * a = nullptr;
                    if (auto & AS = argStores[r][E.callee][n]; AS.size() == 1 && *AS.begin() < E.site->arg_size())
                        a = E.site->getArgOperand(*AS.begin());
                    v.push_back({ E.site, a, a ? ! isa<Constant>(a) : jt->second == 2 });
                }
        return v;
    }
    struct Loops
    {
        DominatorTree DT;
        DenseMap<BasicBlock *, std::vector<BasicBlock *>> latches; // header -> latches
        DenseMap<BasicBlock *, DenseSet<BasicBlock *>> body;       // header -> blocks
        explicit Loops(Function & F) : DT(F)
        {
            for (BasicBlock & B : F)
                for (BasicBlock * S : successors(&B))
                    if (DT.dominates(S, &B))
                    {
                        latches[S].push_back(&B);
                        auto & L = body[S];
                        L.insert(S);
                        std::vector<BasicBlock *> w{ &B };
                        while (! w.empty())
                        {
                            BasicBlock * C = w.back();
                            w.pop_back();
                            if (! L.insert(C).second)
                                continue;
                            for (BasicBlock * P : predecessors(C))
                                w.push_back(P);
                        }
                    }
        }
    };
    static bool arrayField(StringRef n)
    {
        return n == "Dimensions" || n == "Strides" || n == "Reserved";
    }
    // instructions at which the field counts as set. For loops over an array field: the loop's header.
    DenseSet<Instruction *> points(Function * F, const std::vector<Store> & S, const std::string & n, Loops & L, const DenseSet<Instruction *> & anchors)
    {
        DenseSet<Instruction *> r;
        for (auto & s : S)
            r.insert(s.I);
        if (! arrayField(n))
            return r;
        DenseSet<Instruction *> out;
        DenseMap<BasicBlock *, std::pair<DenseSet<BasicBlock *>, bool>> inLoop; // header -> blocks with stores, any dynamic
        for (auto & s : S)
        {
            // innermost loop without an anchor
            BasicBlock * best = nullptr;
            for (auto & kv : L.body)
                if (kv.second.count(s.I->getParent()))
                {
                    bool anch = false;
                    for (Instruction * A : anchors)
                        anch |= kv.second.count(A->getParent());
                    if (! anch && (! best || kv.second.size() < L.body[best].size()))
                        best = kv.first;
                }
            if (! best)
            {
                if (s.dynamic || s.whole)
                    out.insert(s.I);
                continue;
            }
            auto & P = inLoop[best];
            P.first.insert(s.I->getParent());
            P.second |= s.dynamic;
        }
        for (auto & kv : inLoop)
        {
            if (! kv.second.second)
                continue;
            // a round that sets nothing
            BasicBlock * H = kv.first;
            bool skips = false;
            DenseSet<BasicBlock *> seen;
            std::vector<BasicBlock *> w;
            for (BasicBlock * Sx : successors(H))
                if (L.body[H].count(Sx) && Sx != H)
                    w.push_back(Sx);
            if (kv.second.first.count(H))
                w.clear();
            while (! w.empty() && ! skips)
            {
                BasicBlock * B = w.back();
                w.pop_back();
                if (! seen.insert(B).second || kv.second.first.count(B))
                    continue;
                for (BasicBlock * Sx : successors(B))
                {
                    if (Sx == H)
                        skips = true;
                    else if (L.body[H].count(Sx))
                        w.push_back(Sx);
                }
            }
            if (! skips)
                out.insert(&*H->getFirstNonPHIIt());
        }
        return out;
    }
    // is there a way from just after (or, without I, from the entry) to a stop instruction or an exit that avoids the points
    bool avoids(Function * F, Instruction * I, const DenseSet<Instruction *> & pts, const DenseSet<Instruction *> & stops, bool exitStops)
    {
        DenseSet<BasicBlock *> seen;
        std::vector<Instruction *> w;
        w.push_back(I ? I->getNextNode() : &*F->getEntryBlock().begin());
        while (! w.empty())
        {
            Instruction * J = w.back();
            w.pop_back();
            bool ended = false;
            for (; J; J = J->getNextNode())
            {
                if (stops.count(J))
                    return true;
                if (pts.count(J))
                {
                    ended = true;
                    break;
                }
                if (J->isTerminator())
                {
                    if (isa<ReturnInst>(J) && exitStops)
                        return true;
                    for (BasicBlock * S : successors(J->getParent()))
                        if (seen.insert(S).second)
                            w.push_back(&*S->begin());
                    ended = true;
                    break;
                }
            }
            (void)ended;
        }
        return false;
    }
    void computeMust()
    {
        // fixed point over the functions that store anything
        for (int round = 0; round < 4; ++round)
        {
            bool changed = false;
            std::set<Function *> fs;
            for (auto & kv : own)
                if (! kv.second.f[0].empty() || ! kv.second.f[1].empty())
                    fs.insert(kv.first);
            for (int r = 0; r < 2; ++r)
                for (auto & kv : must[r])
                    for (CallBase * CB : X.callers(kv.first))
                        fs.insert(CB->getFunction());
            for (Function * F : fs)
            {
                Loops L(*F);
                for (int r = 0; r < 2; ++r)
                    for (auto & n : all[r])
                    {
                        auto S = places(F, r, n);
                        if (S.empty())
                            continue;
                        DenseSet<Instruction *> none;
                        auto P = points(F, S, n, L, none);
                        if (P.empty() || avoids(F, nullptr, P, none, true))
                            continue;
                        bool dyn = false;
                        for (auto & s : S)
                            dyn |= s.dynamic;
                        int v = dyn ? 2 : 1;
                        int & m = must[r][F][n];
                        if (m != v)
                        {
                            m = v;
                            changed = true;
                        }
                        for (auto & s : S)
                            if (s.v)
                                if (auto * A = dyn_cast<Argument>(stripCasts(s.v)))
                                    changed |= argStores[r][F][n].insert(A->getArgNo()).second;
                    }
            }
            if (! changed)
                break;
        }
    }

    void writers()
    {
        const char * stamp[2] = { "SDSHeaderMagic", "Magic" };
        for (int r = 0; r < 2; ++r)
        {
            std::set<std::string> need;
            for (auto & n : all[r])
                if (! optional(n))
                    need.insert(n);
            unsigned nw = 0;
            std::set<std::string> dyn; // set from data anywhere
            bool bandBoth = false;
            for (auto & kv : own)
                for (auto & f : kv.second.f[r])
                    for (auto & s : f.second)
                        if (s.dynamic && ! s.whole)
                            dyn.insert(f.first);
            std::set<Function *> cands;
            for (auto & kv : own)
                if (! kv.second.f[r].empty())
                    cands.insert(kv.first);
            for (auto & kv : must[r])
                cands.insert(kv.first);
            for (Function * F : cands)
            {
                // who stamps the record, itself or through a function that does it always
                auto A = places(F, r, stamp[r]);
                std::vector<Store> anchors;
                for (auto & s : A)
                    if (! s.whole)
                        anchors.push_back(s);
                if (anchors.empty())
                    continue;
                std::map<std::string, std::vector<Store>> P;
                unsigned have = 0, mine = 0;
                for (auto & n : need)
                {
                    P[n] = places(F, r, n);
                    bool some = false;
                    for (auto & s : P[n])
                        some |= ! s.whole;
                    have += some;
                    mine += own.count(F) && own[F].f[r].count(n);
                }
                // all of it comes from one function it calls: judged there
                if (have * 10 < need.size() * 6 || mine * 10 < need.size() * 2)
                    continue;
                ++nw;
                X.note("record_writers", std::string(r ? "SDS_ARRAY_BLOCK: " : "SDS_FILE_HEADER: ") + X.baseName(F));
                Loops L(*F);
                DenseSet<Instruction *> as;
                for (auto & s : anchors)
                    as.insert(s.I);
                auto judge = [&](const std::string & n, const std::vector<Store> & S)
                {
                    X.count("writer_paths_checked");
                    auto pts = points(F, S, n, L, as);
                    for (auto & a : anchors)
                    {
                        DenseSet<Instruction *> me;
                        me.insert(a.I);
                        if (pts.count(a.I))
                            continue;
                        bool before = avoids(F, nullptr, pts, me, false);
                        for (auto & b : anchors)
                            before = before || avoids(F, b.I, pts, me, false);
                        if (! before || ! avoids(F, a.I, pts, as, true))
                            continue;
                        X.finding("sds", "sds:" + X.baseName(F) + ":path:" + n, S.empty() ? a.I : S[0].I, F,
                                  "a record is filled in on a path that does not set " + n);
                        return;
                    }
                };
                for (auto & n : need)
                {
                    // set by who calls this function, or by a function it calls on some paths only: rule layout's business
                    if (P[n].empty())
                        continue;
                    judge(n, P[n]);
                    bool self = false;
                    if (own.count(F) && own[F].f[r].count(n))
                        self = true;
                    if (dynamicInWriter.count(n) && self)
                    {
                        bool d = false;
                        for (auto & s : P[n])
                            d |= s.dynamic;
                        for (CallBase * CB : X.callers(F))
                            for (auto & s : places(CB->getFunction(), r, n))
                                d |= s.dynamic && ! s.whole && s.I != CB;
                        if (! d)
                            X.finding("sds", "sds:" + X.baseName(F) + ":constant:" + n, P[n][0].I, F, n + " does not depend on what is saved");
                    }
                }
                if (r == 1)
                {
                    auto C = places(F, r, "ArrayBandCount"), Z = places(F, r, "ArrayBandSize");
                    bool c = false, z = false;
                    for (auto & s : C)
                        c |= s.dynamic && ! s.whole;
                    for (auto & s : Z)
                        z |= s.dynamic && ! s.whole;
                    if (c || z)
                    {
                        judge("ArrayBandCount", C);
                        judge("ArrayBandSize", Z);
                    }
                    bandBoth |= c && z;
                }
                values(F, r, P);
            }
            if (! nw)
                X.broken(std::string("sds: nobody fills in record ") + std::to_string(r));
            for (auto & n : dynamicSomewhere)
                if (all[r].count(n))
                {
                    X.count("data_fields_checked");
                    if (! dyn.count(n))
                        X.finding("sds", "sds:never:" + n, anyStore(r, n), nullptr, n + " is never set from what is saved");
                }
            if (r == 1 && nw && ! bandBoth)
                X.finding("sds", "sds:never:bands", anyStore(r, "ArrayBandCount"), nullptr, "no writer records both the number and the size of the bands");
        }
    }
    Instruction * anyStore(int r, const std::string & n)
    {
        for (auto & kv : own)
            if (auto it = kv.second.f[r].find(n); it != kv.second.f[r].end() && ! it->second.empty())
                return it->second[0].I;
        for (auto & kv : own)
            for (auto & f : kv.second.f[r])
                if (! f.second.empty())
                    return f.second[0].I;
        return nullptr;
    }

    // name of what a value is: a member of another structure, or a parameter
    std::string sourceName(Value * V)
    {
        V = stripCasts(V);
        unsigned f;
        if (auto * L = dyn_cast<LoadInst>(V))
        {
            Value * P = L->getPointerOperand();
            for (int d = 0; d < 3; ++d)
            {
                if (auto * S = gepStruct(P, f))
                    if (std::string n = X.fieldName(S, f); ! n.empty())
                        return n;
                auto * G = dyn_cast<GEPOperator>(P);
                if (! G)
                    break;
                P = G->getPointerOperand();
                if (auto * L2 = dyn_cast<LoadInst>(P))
                    P = L2->getPointerOperand();
            }
        }
        if (auto * A = dyn_cast<Argument>(V))
            return argName(A);
        return "";
    }
    DenseMap<Function *, std::map<unsigned, std::string>> argNames;
    std::string argName(Argument * A)
    {
        Function * F = A->getParent();
        auto it = argNames.find(F);
        if (it == argNames.end())
        {
            auto & m = argNames[F];
            for (Instruction & I : instructions(*F))
                if (auto * D = dyn_cast<DbgVariableIntrinsic>(&I); D && D->getVariable()->getArg() && ! I.getDebugLoc()->getInlinedAt())
                    m[D->getVariable()->getArg() - 1] = D->getVariable()->getName().str();
            it = argNames.find(F);
        }
        // the source's first parameter is the first here, unless a result is returned through memory
        unsigned n = A->getArgNo() - (F->hasStructRetAttr() ? 1 : 0);
        auto jt = it->second.find(n);
        return jt == it->second.end() ? "" : jt->second;
    }
    std::string plainName(const std::string & s)
    {
        std::string l = lower(s);
        if (l == "numpydtype")
            l = "dtype";
        if (l == "dims")
            l = "dimensions";
        for (auto & p : plainFields)
            if (lower(p) == l)
                return p;
        return "";
    }
    bool dependsOnCall(Value * V)
    {
        SetVector<Value *> w;
        w.insert(stripCasts(V));
        for (size_t i = 0; i < w.size() && i < 200; ++i)
        {
            Value * x = w[i];
            if (isa<CallBase>(x) && ! isa<IntrinsicInst>(x))
                return true;
            if (auto * I = dyn_cast<Instruction>(x))
            {
                if (auto * L = dyn_cast<LoadInst>(I))
                {
                    if (auto * A = dyn_cast<AllocaInst>(L->getPointerOperand()))
                        for (User * U : A->users())
                            if (auto * S = dyn_cast<StoreInst>(U); S && S->getPointerOperand() == A)
                                w.insert(stripCasts(S->getValueOperand()));
                    continue;
                }
                for (Value * o : I->operands())
                    if (! isa<Constant>(o) && ! isa<BasicBlock>(o))
                        w.insert(stripCasts(o));
            }
        }
        return false;
    }
    // what a writer stores
    void values(Function * F, int r, std::map<std::string, std::vector<Store>> & P)
    {
        for (auto & kv : P)
            for (auto & s : kv.second)
            {
                if (! s.v || isa<Constant>(s.v))
                    continue;
                X.count("stored_values_checked");
                SetVector<Value *> alt;
                alternatives(s.v, alt);
                if (kv.first == "CompressionType" && alt.size() > 1)
                    for (Value * v : alt)
                        if (auto * K = dyn_cast<ConstantInt>(v); K && (K->getSExtValue() < 0 || K->getSExtValue() > 1))
                            X.finding("sds", "sds:" + X.baseName(F) + ":code:" + kv.first, s.I, F,
                                      "CompressionType is written with a code no released reader knows: " + std::to_string(K->getSExtValue()));
                if (kv.first == "DType")
                    for (Value * v : alt)
                        if (isa<ConstantInt>(v))
                            X.finding("sds", "sds:" + X.baseName(F) + ":replaced:" + kv.first, s.I, F, "the element type recorded is not always the one of the data");
                for (Value * v : alt)
                {
                    if (isMerge(v))
                        continue;
                    if (verbatim.count(kv.first) && isa<BinaryOperator>(v))
                        X.finding("sds", "sds:" + X.baseName(F) + ":computed:" + kv.first, s.I, F, kv.first + " is stored changed: readers take it as it is");
                }
            }
        if (r == 1)
            for (auto & s : P["ArrayUncompressedSize"])
                if (s.v && dependsOnCall(s.v))
                    X.finding("sds", "sds:" + X.baseName(F) + ":uncompressed", s.I, F, "ArrayUncompressedSize depends on how well the data compresses");
    }
    // copies between a record and another structure, and what is passed for a field
    void names()
    {
        for (Function & F : X.M)
        {
            if (! X.inRepo(&F))
                continue;
            for (Instruction & I : instructions(F))
            {
                auto pair = [&](const std::string & to, const std::string & from)
                {
                    std::string a = plainName(to), b = plainName(from);
                    if (a.empty() || b.empty())
                        return;
                    X.count("field_copies_checked");
                    if (a != b && ! (a == "BandSize" || b == "BandSize") && ! (a == "Strides" && b == "ItemSize"))
                        X.finding("sds", "sds:" + X.baseName(&F) + ":mixed:" + a + ":" + b, &I, &F, from + " is stored as " + to);
                };
                if (auto * S = dyn_cast<StoreInst>(&I))
                {
                    int rec;
                    std::string n, m;
                    unsigned f;
                    if (field(S->getPointerOperand(), S->getValueOperand()->getType(), rec, n))
                    {
                        SetVector<Value *> alt;
                        alternatives(S->getValueOperand(), alt);
                        for (Value * v : alt)
                            if (! isMerge(v))
                                pair(n, sourceName(v));
                    }
                    else
                    {
                        // to another structure, from the record
                        std::string from;
                        SetVector<Value *> alt;
                        alternatives(S->getValueOperand(), alt);
                        Value * D = S->getPointerOperand();
                        std::string to;
                        for (int d = 0; d < 3 && to.empty(); ++d)
                        {
                            if (auto * T = gepStruct(D, f))
                                to = X.fieldName(T, f);
                            auto * G = dyn_cast<GEPOperator>(D);
                            if (! G)
                                break;
                            D = G->getPointerOperand();
                        }
                        if (! to.empty())
                            for (Value * v : alt)
                            {
                                if (isMerge(v))
                                    continue;
                                if (auto * L = dyn_cast<LoadInst>(v); L && field(L->getPointerOperand(), L->getType(), rec, n))
                                    pair(to, n);
                                else if (v->getType()->isPointerTy() && isa<GEPOperator>(v) && field(v, nullptr, rec, n))
                                    pair(to, n);
                            }
                    }
                }
                else if (auto * CB = dyn_cast<CallBase>(&I))
                {
                    Function * G = directCallee(CB);
                    if (! G)
                        continue;
                    for (int r = 0; r < 2; ++r)
                        if (auto it = argStores[r].find(G); it != argStores[r].end())
                            for (auto & kv : it->second)
                                for (unsigned a : kv.second)
                                    if (a < CB->arg_size())
                                        pair(kv.first, sourceName(CB->getArgOperand(a)));
                }
            }
        }
    }

    // ---- where blocks are read and written ----------------------------------------
    std::string ioName(CallBase * CB)
    {
        if (Function * G = directCallee(CB))
        {
            std::string n = X.baseName(G);
            return n.find("FileReadChunk") != std::string::npos ? "FileReadChunk" : n.find("FileWriteChunk") != std::string::npos ? "FileWriteChunk" : n;
        }
        if (CB->arg_size() < 5)
            return "";
        for (Function * G : X.targets(CB))
        {
            std::string n = X.baseName(G);
            if (n.find("FileReadChunk") != std::string::npos)
                return "FileReadChunk";
            if (n.find("FileWriteChunk") != std::string::npos)
                return "FileWriteChunk";
        }
        return "";
    }
    void offsets()
    {
        for (Function & F : X.M)
        {
            if (! X.inRepo(&F))
                continue;
            struct W
            {
                CallBase * CB;
                Value *off, *size;
            };
            std::vector<W> writes;
            for (Instruction & I : instructions(F))
            {
                auto * CB = dyn_cast<CallBase>(&I);
                if (! CB || isa<IntrinsicInst>(CB))
                    continue;
                std::string n = ioName(CB);
                Value *off = nullptr, *size = nullptr;
                if ((n == "FileReadChunk" || n == "FileWriteChunk") && CB->arg_size() >= 5)
                {
                    off = CB->getArgOperand(CB->arg_size() - 1);
                    size = CB->getArgOperand(CB->arg_size() - 2);
                    if (n == "FileWriteChunk")
                        writes.push_back({ CB, off, size });
                }
                else if (n == "GetMemoryOffset" && CB->arg_size() >= 1)
                    off = CB->getArgOperand(CB->arg_size() - 1);
                if (! off)
                    continue;
                auto fo = forms(off);
                std::string single;
                bool many = false;
                for (auto & f : fo)
                {
                    unsigned offs = 0, sizes = 0;
                    std::string which;
                    for (auto & x : f.fields)
                    {
                        if (blocks.count(x))
                        {
                            ++offs;
                            which = x;
                        }
                        else if (sizeFields.count(x))
                            ++sizes;
                    }
                    if (! offs)
                    {
                        if (sizes && ! f.others && ! f.k)
                            X.finding("sds", "sds:" + X.baseName(&F) + ":offset:" + *f.fields.begin(), CB, &F, *f.fields.begin() + " is used as a position in the file");
                        continue;
                    }
                    X.count("block_offsets_checked");
                    if (offs > 1 || f.k != 0)
                        X.finding("sds", "sds:" + X.baseName(&F) + ":offset:" + which, CB, &F,
                                  which + " is already the position in the file: something is added to it" + (f.k ? " (" + std::to_string(f.k) + ")" : ""));
                    if (! single.empty() && single != which)
                        many = true;
                    single = f.others || sizes ? "" : which;
                }
                if (single.empty() || many || ! size)
                    continue;
                for (auto & f : forms(size))
                    if (f.fields.size() == 1 && ! f.others && ! f.k && sizeFields.count(*f.fields.begin()))
                    {
                        X.count("block_sizes_checked");
                        auto & ok = blocks.at(single);
                        // an array that is not compressed
                        bool plain = single == "ArrayDataOffset" && *f.fields.begin() == "ArrayUncompressedSize" && comparesSizes(F, size, CB);
                        if (! ok.count(*f.fields.begin()) && ! plain)
                            X.finding("sds", "sds:" + X.baseName(&F) + ":size:" + single, CB, &F,
                                      "the block at " + single + " is " + (n == "FileReadChunk" ? "read" : "written") + " with the length " + *f.fields.begin());
                    }
            }
            if (writes.empty())
                continue;
            // what is written where, against what the header says
            for (auto & w : writes)
            {
                auto fo = forms(w.off);
                if (fo.size() != 1 || fo[0].fields.size() != 1 || fo[0].others)
                    continue;
                auto it = blocks.find(*fo[0].fields.begin());
                if (it == blocks.end())
                    continue;
                // the reserved length is written, the used one recorded beside it
                bool anyOf = it->first == "SectionBlockOffset", some = false, someOk = false;
                for (auto & sf : it->second)
                    for (int r = 0; r < 2; ++r)
                    {
                        auto P = places(&F, r, sf);
                        std::vector<Value *> vals;
                        for (auto & s : P)
                            if (s.v && s.I->getFunction() == &F)
                                vals.push_back(s.v);
                        if (vals.empty() || P.size() != vals.size())
                            continue;
                        X.count("recorded_sizes_checked");
                        bool ok = false, loaded = false;
                        for (auto & f : forms(w.size))
                            for (auto & x : f.fields)
                                loaded |= it->second.count(x);
                        for (Value * v : vals)
                            ok |= agree(v, w.size);
                        some = true;
                        someOk |= ok || loaded;
                        if (! ok && ! loaded && ! anyOf)
                            X.finding("sds", "sds:" + X.baseName(&F) + ":recorded:" + sf, w.CB, &F,
                                      "what is written at " + it->first + " has another length than " + sf + " records");
                    }
                if (anyOf && some && ! someOk)
                    X.finding("sds", "sds:" + X.baseName(&F) + ":recorded:" + it->first, w.CB, &F,
                              "what is written at " + it->first + " has another length than the header records");
            }
            // an array's data: the recorded position and length are those of the write
            auto O = places(&F, 1, "ArrayDataOffset"), Z = places(&F, 1, "ArrayCompressedSize");
            for (auto & o : O)
                if (o.v && o.dynamic)
                {
                    // moved together with the data
                    bool moved = false;
                    for (auto & f : forms(o.v))
                        moved |= f.fields.count("ArrayDataOffset");
                    if (moved)
                        continue;
                    X.count("recorded_sizes_checked");
                    CallBase * hit = nullptr;
                    bool sized = Z.empty();
                    for (auto & w : writes)
                        if (agree(o.v, w.off) || throughField(w.off, "ArrayDataOffset"))
                        {
                            hit = w.CB;
                            for (auto & z : Z)
                                sized |= ! z.v || agree(z.v, w.size) || throughField(w.size, "ArrayCompressedSize");
                        }
                    if (! hit)
                        X.finding("sds", "sds:" + X.baseName(&F) + ":recorded:ArrayDataOffset", o.I, &F, "the recorded position of the data is not where it is written");
                    else if (! sized)
                        X.finding("sds", "sds:" + X.baseName(&F) + ":recorded:ArrayCompressedSize", Z[0].I, &F, "the recorded length of the data is not what is written");
                }
        }
    }
    // F tests whether the array is compressed at all
    bool comparesSizes(Function & F, Value * size, CallBase * at)
    {
        DominatorTree DT(F);
        bool part = forms(size).size() > 1; // part of it: how much is computed
        for (Instruction & I : instructions(F))
            if (auto * C = dyn_cast<ICmpInst>(&I))
                for (int s = 0; s < 2; ++s)
                    if (throughField(C->getOperand(s), "ArrayUncompressedSize") && throughField(C->getOperand(1 - s), "ArrayCompressedSize"))
                    {
                        if (part || ! C->isEquality())
                            return true;
                        // the value, or a variable that holds it
                        std::vector<Value *> w{ C };
                        DenseSet<Value *> seen;
                        while (! w.empty())
                        {
                            Value * v = w.back();
                            w.pop_back();
                            if (! seen.insert(v).second)
                                continue;
                            for (User * U : v->users())
                            {
                                if (auto * B = dyn_cast<BranchInst>(U))
                                {
                                    for (int k = 0; k < 2; ++k)
                                        if (DT.dominates(BasicBlockEdge(B->getParent(), B->getSuccessor(k)), at->getParent()))
                                        {
                                            if (w.empty() && v == C && (k == 0) != (C->getPredicate() == ICmpInst::ICMP_EQ))
                                                continue;
                                            return true;
                                        }
                                }
                                else if (isa<CastInst>(U) || isa<PHINode>(U) || isa<SelectInst>(U) || isa<BinaryOperator>(U) || isa<LoadInst>(U))
                                    w.push_back(U);
                                else if (isa<ICmpInst>(U))
                                    w.push_back(U);
                                else if (auto * St = dyn_cast<StoreInst>(U); St && St->getValueOperand() == v && isa<AllocaInst>(St->getPointerOperand()))
                                    w.push_back(St->getPointerOperand());
                            }
                        }
                    }
        return false;
    }
    bool throughField(Value * V, const std::string & n)
    {
        for (auto & f : forms(V))
            if (f.fields.size() == 1 && ! f.others && ! f.k && *f.fields.begin() == n)
                return true;
        return false;
    }

    // ---- versions ------------------------------------------------------------------
    DenseMap<Function *, int> errMemo;
    bool setsError(Function * F, int d = 0)
    {
        if (! F)
            return false;
        StringRef n = F->getName();
        if (n.contains("SetErr") || n.starts_with("PyErr_"))
            return true;
        if (F->isDeclaration() || d > 3 || ! X.inRepo(F))
            return false;
        auto it = errMemo.find(F);
        if (it != errMemo.end())
            return it->second;
        errMemo[F] = 0;
        // on every path
        DenseSet<Instruction *> pts, none;
        for (Instruction & I : instructions(*F))
            if (auto * CB = dyn_cast<CallBase>(&I); CB && setsError(directCallee(CB), d + 1))
                pts.insert(&I);
        bool r = ! pts.empty() && ! avoids(F, nullptr, pts, none, true);
        errMemo[F] = r;
        return r;
    }
    // does every way from B end with an error being set
    bool fails(BasicBlock * B)
    {
        Function * F = B->getParent();
        DenseSet<Instruction *> pts, none;
        for (Instruction & I : instructions(*F))
            if (auto * CB = dyn_cast<CallBase>(&I); CB && setsError(directCallee(CB)))
                pts.insert(&I);
        if (pts.empty())
            return false;
        // like avoids(), from B
        DenseSet<BasicBlock *> seen;
        std::vector<BasicBlock *> w{ B };
        while (! w.empty())
        {
            BasicBlock * C = w.back();
            w.pop_back();
            if (! seen.insert(C).second)
                continue;
            bool ended = false;
            for (Instruction & I : *C)
                if (pts.count(&I))
                {
                    ended = true;
                    break;
                }
            if (ended)
                continue;
            if (isa<ReturnInst>(C->getTerminator()))
                return false;
            for (BasicBlock * S : successors(C))
                w.push_back(S);
        }
        return true;
    }
    static Value * baseOf(Value * P)
    {
        if (auto * G = dyn_cast<GEPOperator>(P))
            return G->getPointerOperand();
        return P;
    }
    // who says where the directory of sections lies says how much of it there is
    void groups()
    {
        static const char * const g[][2] = { { "SectionBlockSize", "SectionBlockCount" }, { "SectionBlockOffset", "SectionBlockReservedSize" } };
        for (auto & kv : own)
            for (auto & p : g)
            {
                auto it = kv.second.f[0].find(p[0]);
                if (it == kv.second.f[0].end())
                    continue;
                for (auto & a : it->second)
                {
                    auto * St = dyn_cast<StoreInst>(a.I);
                    if (! St || ! a.dynamic)
                        continue;
                    X.count("section_fields_checked");
                    DenseSet<Instruction *> pts, me, none;
                    for (auto & s : kv.second.f[0][p[1]])
                        if (auto * T = dyn_cast<StoreInst>(s.I); ! T || sameValue(baseOf(T->getPointerOperand()), baseOf(St->getPointerOperand())))
                            pts.insert(s.I);
                    for (auto & E : X.edges(kv.first))
                        if (auto jt = must[0].find(E.callee); jt != must[0].end() && jt->second.count(p[1]) && directCallee(E.site) == E.callee)
                            pts.insert(E.site);
                    me.insert(St);
                    if (avoids(kv.first, nullptr, pts, me, false) && avoids(kv.first, St, pts, none, true))
                        X.finding("sds", "sds:" + X.baseName(kv.first) + ":group:" + p[1], St, kv.first,
                                  std::string(p[0]) + " is set on a path that leaves " + p[1] + " as it was");
                }
            }
    }
    // what is set after the header was written for the last time is lost
    void late()
    {
        for (auto & kv : own)
        {
            Function * F = kv.first;
            std::vector<std::pair<CallBase *, Value *>> wr;
            DenseSet<Instruction *> closes;
            if (kv.second.f[0].empty())
                continue;
            for (Instruction & I : instructions(*F))
                if (auto * CB = dyn_cast<CallBase>(&I); CB && ! isa<IntrinsicInst>(CB))
                {
                    if (ioName(CB) == "FileWriteChunk" && CB->arg_size() >= 5)
                    {
                        auto * K = dyn_cast<ConstantInt>(stripCasts(CB->getArgOperand(CB->arg_size() - 2)));
                        if (K && K->getZExtValue() == X.M.getDataLayout().getTypeAllocSize(ST[0]))
                            wr.push_back({ CB, CB->getArgOperand(CB->arg_size() - 3) });
                    }
                    else
                        for (Function * G : X.targets(CB))
                            if (X.baseName(G).find("FileClose") != std::string::npos)
                                closes.insert(CB);
                }
            for (auto & f : kv.second.f[0])
                for (auto & s : f.second)
                {
                    auto * St = dyn_cast<StoreInst>(s.I);
                    if (! St)
                        continue;
                    Value * b = baseOf(St->getPointerOperand());
                    DenseSet<Instruction *> mine;
                    for (auto & w : wr)
                        if (sameValue(w.second, b))
                            mine.insert(w.first);
                    if (mine.empty())
                        continue;
                    X.count("late_stores_checked");
                    DenseSet<Instruction *> me, none;
                    me.insert(St);
                    bool after = true;
                    // every way here passes a write of this header
                    if (avoids(F, nullptr, mine, me, false))
                        after = false;
                    if (after && avoids(F, St, mine, closes, false))
                        X.finding("sds", "sds:" + X.baseName(F) + ":late:" + f.first, St, F, f.first + " is set after the header has been written, and never reaches the file");
                }
        }
    }
    // a file copied to another position: everything that says where something lies moves with it
    void relocations()
    {
        static const char * const offs[] = { "NameBlockOffset", "MetaBlockOffset", "ArrayBlockOffset", "ArrayFirstOffset", "FileOffset" };
        for (auto & kv : own)
        {
            struct Mv
            {
                Value *base, *delta;
                Instruction * I;
            };
            std::map<std::string, std::vector<Mv>> mv;
            for (auto & f : kv.second.f[0])
                for (auto & s : f.second)
                {
                    auto * St = dyn_cast<StoreInst>(s.I);
                    auto * B = s.v ? dyn_cast<BinaryOperator>(stripCasts(s.v)) : nullptr;
                    if (! St || ! B || B->getOpcode() != Instruction::Add)
                        continue;
                    for (int o = 0; o < 2; ++o)
                        if (auto * L = dyn_cast<LoadInst>(stripCasts(B->getOperand(o))); L && sameValue(L->getPointerOperand(), St->getPointerOperand()))
                        {
                            Value * P = St->getPointerOperand();
                            if (auto * G = dyn_cast<GEPOperator>(P))
                                P = G->getPointerOperand();
                            mv[f.first].push_back({ P, B->getOperand(1 - o), St });
                        }
                }
            std::vector<Value *> bases;
            for (auto & m : mv)
                for (auto & x : m.second)
                {
                    bool known = false;
                    for (Value * b : bases)
                        known |= sameValue(b, x.base);
                    if (! known)
                        bases.push_back(x.base);
                }
            for (Value * b : bases)
            {
                std::map<std::string, Value *> got;
                Instruction * at = nullptr;
                for (auto & m : mv)
                    for (auto & x : m.second)
                        if (sameValue(x.base, b) && blocks.count(m.first))
                        {
                            got[m.first] = x.delta;
                            at = x.I;
                        }
                if (got.size() < 3)
                    continue;
                X.note("relocations", X.baseName(kv.first));
                Value * d = nullptr;
                std::string dn;
                for (auto * o : offs)
                {
                    X.count("relocated_fields_checked");
                    if (! got.count(o))
                    {
                        X.finding("sds", "sds:" + X.baseName(kv.first) + ":moved:" + o, at, kv.first, std::string("the other offsets of this header are moved, ") + o + " is not");
                        continue;
                    }
                    if (d && ! agree(d, got[o]))
                        X.finding("sds", "sds:" + X.baseName(kv.first) + ":moved:" + o, at, kv.first, std::string(o) + " is moved by another distance than " + dn);
                    d = got[o];
                    dn = o;
                }
            }
        }
    }
    void versions()
    {
        for (Function & F : X.M)
        {
            if (! X.inRepo(&F))
                continue;
            for (Instruction & I : instructions(F))
            {
                auto * C = dyn_cast<ICmpInst>(&I);
                if (! C)
                    continue;
                for (int side = 0; side < 2; ++side)
                {
                    auto * L = dyn_cast<LoadInst>(stripCasts(C->getOperand(side)));
                    auto * K = dyn_cast<ConstantInt>(C->getOperand(1 - side));
                    int rec;
                    std::string n;
                    if (! L || ! K || ! field(L->getPointerOperand(), L->getType(), rec, n) || rec != 0)
                        continue;
                    auto rel = releasedValues.find(n);
                    if (rel == releasedValues.end())
                        continue;
                    X.count("version_tests");
                    ICmpInst::Predicate p = side ? C->getSwappedPredicate() : C->getPredicate();
                    bool can[2] = { false, false };
                    for (int64_t v : rel->second)
                        can[ICmpInst::compare(APInt(64, v, true), APInt(64, K->getSExtValue(), true), p)] = true;
                    // branches this result decides
                    std::vector<std::pair<Value *, int>> w{ { C, 0 } };
                    DenseSet<Value *> seen;
                    while (! w.empty())
                    {
                        Value * v = w.back().first;
                        w.pop_back();
                        if (! seen.insert(v).second)
                            continue;
                        for (User * U : v->users())
                        {
                            if (auto * B = dyn_cast<BranchInst>(U))
                            {
                                for (int s = 0; s < 2; ++s)
                                    if (can[1 - s] && fails(B->getSuccessor(s)) && ! fails(B->getSuccessor(1 - s)))
                                        X.finding("sds", "sds:" + X.baseName(&F) + ":version", &I, &F,
                                                  "files with a " + n + " of released ones are refused");
                            }
                            else if (isa<BinaryOperator>(U) || isa<SelectInst>(U) || isa<PHINode>(U))
                            {
                                if (U->getType()->isIntegerTy(1))
                                    w.push_back({ U, 0 });
                            }
                        }
                    }
                }
            }
        }
    }

    // ---- named codes ---------------------------------------------------------------
    void named()
    {
        for (GlobalVariable & G : X.M.globals())
        {
            StringRef n = G.getName();
            if (! n.consume_front("rt_code_") || ! G.hasInitializer())
                continue;
            auto * R = X.M.getGlobalVariable(("rt_released_" + n).str(), true);
            auto *a = dyn_cast<ConstantInt>(G.getInitializer()), *b = R && R->hasInitializer() ? dyn_cast<ConstantInt>(R->getInitializer()) : nullptr;
            if (! a || ! b)
                continue;
            X.count("named_codes_checked");
            if (a->getSExtValue() != b->getSExtValue())
                X.finding("sds", "sds:code:" + n.str(), anyStore(0, "SDSHeaderMagic"), nullptr,
                          n.str() + " is " + std::to_string(a->getSExtValue()) + "; in released files it is " + std::to_string(b->getSExtValue()));
        }
    }

    void run()
    {
        const char * names_[2] = { "SDS_FILE_HEADER", "SDS_ARRAY_BLOCK" };
        for (auto * n : names_)
        {
            StructType * S = StructType::getTypeByName(X.M.getContext(), std::string("struct.") + n);
            auto * C = S ? X.debugType(S) : nullptr;
            if (! C)
            {
                X.broken(std::string("sds: no type ") + n);
                return;
            }
            ST.push_back(S);
            DT.push_back(C);
            std::set<std::string> fs;
            for (auto * E : C->getElements())
                if (auto * M = dyn_cast<DIDerivedType>(E); M && M->getTag() == dwarf::DW_TAG_member && ! M->isStaticMember())
                    fs.insert(M->getName().str());
            all.push_back(fs);
        }
        for (Function & F : X.M)
            if (X.inRepo(&F) && ! F.isDeclaration())
            {
                findRecordPointers(F);
                collect(F);
            }
        computeMust();
        writers();
        names();
        offsets();
        groups();
        late();
        relocations();
        versions();
        named();
    }
};

void run(Ctx & X)
{
    Sds(X).run();
}
RuleReg reg("sds", run);
}
