#include "core.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Support/raw_ostream.h"
#include <cxxabi.h>

std::map<std::string, RuleFn> & ruleMap()
{
    static std::map<std::string, RuleFn> m;
    return m;
}
RuleReg::RuleReg(const char * name, RuleFn fn)
{
    ruleMap()[name] = fn;
}

std::string jsonEsc(const std::string & s)
{
    std::string o;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            o += '\\';
            o += c;
        }
        else if (c == '\n')
            o += "\\n";
        else if (c < 32 || c > 126)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        }
        else
            o += c;
    }
    return o;
}

Value * stripCasts(Value * V)
{
    while (true)
    {
        if (auto * C = dyn_cast<CastInst>(V))
            V = C->getOperand(0);
        else if (auto * FI = dyn_cast<FreezeInst>(V))
            V = FI->getOperand(0);
        else if (auto * CE = dyn_cast<ConstantExpr>(V))
        {
            if (CE->isCast())
                V = CE->getOperand(0);
            else
                return V;
        }
        else
            return V;
    }
}

bool isNullConst(const Value * V)
{
    return isa<ConstantPointerNull>(V);
}

StructType * gepStruct(Value * Ptr, unsigned & field)
{
    auto * G = dyn_cast<GEPOperator>(Ptr);
    if (! G)
        return nullptr;
    Type * T = G->getSourceElementType();
    StructType * last = nullptr;
    unsigned f = 0;
    auto it = G->idx_begin();
    if (it == G->idx_end())
        return nullptr;
    ++it;
    for (; it != G->idx_end(); ++it)
    {
        if (auto * ST = dyn_cast<StructType>(T))
        {
            auto * CI = dyn_cast<ConstantInt>(*it);
            if (! CI)
                return nullptr;
            last = ST;
            f = CI->getZExtValue();
            T = ST->getElementType(f);
        }
        else if (auto * AT = dyn_cast<ArrayType>(T))
            T = AT->getElementType(); // keep the enclosing struct field
        else
            return nullptr;
    }
    field = f;
    return last;
}

std::string constStr(Value * V)
{
    V = V->stripPointerCasts();
    auto * GV = dyn_cast<GlobalVariable>(V);
    if (! GV || ! GV->hasInitializer() || ! GV->isConstant())
        return "";
    if (auto * CDA = dyn_cast<ConstantDataArray>(GV->getInitializer()))
        if (CDA->isString(8))
        {
            StringRef s = CDA->getAsString();
            return s.split('\0').first.str();
        }
    return "";
}

std::string Ctx::demangleStr(StringRef n)
{
    // llvm-link renames clashing internals with ".N"
    std::string s = n.str();
    size_t dot = s.find('.');
    if (s.rfind("_Z", 0) == 0 && dot != std::string::npos)
    {
        // keep block suffixes out of the demangler
        std::string tail = s.substr(dot + 1);
        bool digits = ! tail.empty();
        for (char c : tail)
            if (! isdigit(c) && c != '.')
                digits = false;
        if (digits)
            s = s.substr(0, dot);
    }
    return llvm::demangle(s);
}

const std::string & Ctx::dem(const Function * F)
{
    auto it = demCache.find(F);
    if (it != demCache.end())
        return it->second;
    return demCache[F] = demangleStr(F->getName());
}

// cut "ret ns::name<args>(params) const" down to "ns::name<args>"
std::string Ctx::shortName(const Function * F)
{
    std::string d = dem(F);
    // "ret (*name<args>(params))(params of the result)": a function returning a function pointer
    {
        int dp = 0;
        for (size_t i = 0; i + 1 < d.size(); ++i)
        {
            if (d[i] == '<')
                ++dp;
            else if (d[i] == '>')
                --dp;
            else if (d[i] == '(' && dp == 0)
            {
                if (d[i + 1] == '*' && i > 0 && d[i - 1] == ' ')
                {
                    size_t b = i + 2;
                    int p = 1;
                    size_t j = i + 1;
                    for (; j < d.size(); ++j)
                    {
                        if (d[j] == '(')
                            ++p;
                        else if (d[j] == ')' && --p == 0)
                            break;
                    }
                    d = d.substr(b, j - b);
                }
                break;
            }
        }
    }
    // find parameter list: last '(' at template depth 0 whose match is at the end (modulo cv suffix)
    int depth = 0;
    size_t open = std::string::npos;
    for (size_t i = 0; i < d.size(); ++i)
    {
        char c = d[i];
        if (d.compare(i, 8, "operator") == 0)
        {
            i += 7;
            // skip the operator token
            while (i + 1 < d.size() && strchr("<>=!+-*/%&|^~[]", d[i + 1]))
                ++i;
            if (d.compare(i + 1, 2, "()") == 0)
                i += 2;
            continue;
        }
        if (c == '<')
            depth++;
        else if (c == '>')
            depth--;
        else if (c == '(' && depth == 0)
        {
            if (d.compare(i, 21, "(anonymous namespace)") == 0)
            {
                i += 20;
                continue;
            }
            // nested function scope like f(int)::'lambda'(..) : keep going
            int p = 0;
            size_t j = i;
            for (; j < d.size(); ++j)
            {
                if (d[j] == '(')
                    p++;
                else if (d[j] == ')' && --p == 0)
                    break;
            }
            if (d.compare(j + 1, 2, "::") == 0 || d.compare(j + 1, 8, " const::") == 0)
            {
                i = j;
                continue;
            }
            open = i;
            break;
        }
    }
    std::string s = open == std::string::npos ? d : d.substr(0, open);
    // drop return type: last space at depth 0
    depth = 0;
    size_t start = 0;
    for (size_t i = 0; i < s.size(); ++i)
    {
        if (s.compare(i, 8, "operator") == 0)
            break;
        if (s[i] == '<' || s[i] == '(' || s[i] == '{')
            depth++;
        else if (s[i] == '>' || s[i] == ')' || s[i] == '}')
            depth--;
        else if (s[i] == ' ' && depth == 0 && s.compare(i, 7, " const:") != 0)
            start = i + 1;
    }
    return s.substr(start);
}

std::string Ctx::baseName(const Function * F)
{
    std::string s = shortName(F);
    // drop template args
    std::string o;
    int depth = 0;
    size_t opPos = s.find("operator");
    for (size_t i = 0; i < s.size(); ++i)
    {
        if (opPos != std::string::npos && i >= opPos)
        {
            o += s[i];
            continue;
        }
        if (s[i] == '<' || s[i] == '(')
            depth++;
        if (depth == 0)
            o += s[i];
        if (s[i] == '>' || s[i] == ')')
            depth--;
    }
    size_t p = o.rfind("::");
    return p == std::string::npos ? o : o.substr(p + 2);
}

std::string Ctx::srcFile(const Function * F)
{
    DISubprogram * SP = F->getSubprogram();
    if (! SP)
        return "";
    std::string f = SP->getFilename().str();
    if (! f.empty() && f[0] != '/')
        f = SP->getDirectory().str() + "/" + f;
    if (f.rfind(repoPrefix, 0) == 0)
        return f.substr(repoPrefix.size());
    return f;
}

bool Ctx::inRepo(const Function * F)
{
    DISubprogram * SP = F->getSubprogram();
    if (! SP)
        return false;
    std::string f = SP->getFilename().str();
    if (! f.empty() && f[0] != '/')
        f = SP->getDirectory().str() + "/" + f;
    return f.rfind(repoPrefix, 0) == 0;
}

std::string Ctx::loc(const Instruction * I, unsigned * line)
{
    if (line)
        *line = 0;
    if (! I)
        return "";
    const DebugLoc & D = I->getDebugLoc();
    if (! D)
        return srcFile(I->getFunction());
    auto * S = D->getScope();
    std::string f = S->getFilename().str();
    if (! f.empty() && f[0] != '/')
        f = S->getDirectory().str() + "/" + f;
    if (f.rfind(repoPrefix, 0) == 0)
        f = f.substr(repoPrefix.size());
    if (line)
        *line = D.getLine();
    return f;
}

void Ctx::finding(const std::string & rule, const std::string & key, const Instruction * at, const Function * fn,
                  const std::string & msg)
{
    F f;
    f.rule = rule;
    f.key = key;
    f.line = 0;
    f.func = fn ? dem(fn) : "";
    f.file = at ? loc(at, &f.line) : (fn ? srcFile(fn) : "");
    if (! f.line && fn && fn->getSubprogram())
        f.line = fn->getSubprogram()->getLine();
    f.msg = msg;
    if (fn)
    {
        std::string b = baseName(fn);
        size_t at = key.find(":" + b + ":");
        if (at != std::string::npos)
        {
            auto it = callerNames.find(b);
            if (it == callerNames.end())
            {
                if (byBase.empty())
                    for (const Function & G : M)
                        if (G.getSubprogram())
                            byBase[baseName(&G)].push_back(&G);
                std::set<std::string> cs;
                for (const Function * G : byBase[b])
                    for (const User * U : G->users())
                    {
                        auto * CB = dyn_cast<CallBase>(U);
                        if (! CB || CB->getCalledOperand() != G)
                            cs.insert("?");
                        else if (std::string c = baseName(CB->getFunction()); c != b)
                            cs.insert(c);
                    }
                it = callerNames.insert({ b, cs.size() > 6 ? std::set<std::string>{ "?" } : cs }).first;
            }
            for (auto & c : it->second)
                f.callers.push_back(key.substr(0, at + 1) + c + key.substr(at + 1 + b.size()));
        }
    }
    findings.push_back(f);
}

void Ctx::dump()
{
    raw_ostream & o = outs();
    o << "{\n\"findings\":[";
    bool first = true;
    for (auto & f : findings)
    {
        o << (first ? "\n" : ",\n") << "{\"rule\":\"" << jsonEsc(f.rule) << "\",\"key\":\"" << jsonEsc(f.key) << "\",\"func\":\""
          << jsonEsc(f.func) << "\",\"file\":\"" << jsonEsc(f.file) << "\",\"line\":" << f.line << ",\"callers\":[";
        for (size_t i = 0; i < f.callers.size(); ++i)
            o << (i ? ",\"" : "\"") << jsonEsc(f.callers[i]) << "\"";
        o << "],\"msg\":\"" << jsonEsc(f.msg) << "\"}";
        first = false;
    }
    o << "],\n\"counts\":{";
    first = true;
    for (auto & c : counts)
    {
        o << (first ? "" : ",") << "\"" << jsonEsc(c.first) << "\":" << c.second;
        first = false;
    }
    o << "},\n\"notes\":{";
    first = true;
    for (auto & n : notes)
    {
        o << (first ? "\n" : ",\n") << "\"" << jsonEsc(n.first) << "\":[";
        bool f2 = true;
        for (auto & v : n.second)
        {
            o << (f2 ? "" : ",") << "\"" << jsonEsc(v) << "\"";
            f2 = false;
        }
        o << "]";
        first = false;
    }
    o << "},\n\"broken\":[";
    first = true;
    for (auto & b : brokenMsgs)
    {
        o << (first ? "" : ",") << "\"" << jsonEsc(b) << "\"";
        first = false;
    }
    o << "]\n}\n";
}

const DICompositeType * Ctx::debugType(StructType * T)
{
    if (! diBuilt)
    {
        diBuilt = true;
        DebugInfoFinder DF;
        DF.processModule(M);
        for (DIType * t : DF.types())
            if (auto * C = dyn_cast<DICompositeType>(t))
                if (! C->isForwardDecl() && C->getName() != "")
                {
                    std::string q = C->getName().str();
                    for (DIScope * S = C->getScope(); S && (isa<DINamespace>(S) || isa<DICompositeType>(S)); S = S->getScope())
                        q = S->getName().str() + "::" + q;
                    auto & slot = diTypes[q];
                    if (! slot || slot->getElements().size() < C->getElements().size())
                        slot = C;
                }
    }
    if (! T || ! T->hasName())
        return nullptr;
    std::string n = T->getName().str();
    for (const char * p : { "struct.", "class.", "union." })
        if (n.rfind(p, 0) == 0)
            n = n.substr(strlen(p));
    auto it = diTypes.find(n);
    while (it == diTypes.end())
    {
        size_t d = n.rfind('.');
        if (d == std::string::npos)
            return nullptr;
        n = n.substr(0, d); // renamed by the linker, or .base
        it = diTypes.find(n);
    }
    return it->second;
}

std::string Ctx::fieldName(StructType * T, unsigned idx)
{
    auto * C = debugType(T);
    if (! C || ! T->isSized() || idx >= T->getNumElements())
        return "";
    uint64_t off = M.getDataLayout().getStructLayout(T)->getElementOffsetInBits(idx);
    std::string r;
    for (auto * E : C->getElements())
        if (auto * D = dyn_cast<DIDerivedType>(E))
            if (D->getTag() == dwarf::DW_TAG_member && ! D->isStaticMember() && D->getOffsetInBits() == off)
                r = D->getName().str();
    return r;
}

// ---------------------------------------------------------------- indexing
bool Ctx::fieldOf(Value * Ptr, FieldKey & k)
{
    unsigned f;
    if (StructType * ST = gepStruct(Ptr, f))
    {
        k.T = ST;
        k.idx = f;
        return true;
    }
    return false;
}

void Ctx::buildIndex()
{
    if (indexed)
        return;
    indexed = true;
    // address-taken functions and stores
    for (Function & F : M)
    {
        if (F.isIntrinsic())
            continue;
        for (User * U : F.users())
        {
            auto * CB = dyn_cast<CallBase>(U);
            if (CB && CB->getCalledOperand() == &F)
            {
                directCallers[&F].push_back(CB);
                bool alsoArg = false;
                for (Value * A : CB->args())
                    if (A == &F)
                        alsoArg = true;
                if (! alsoArg)
                    continue;
            }
            if (auto * C = dyn_cast<Constant>(U))
                if (isa<GlobalAlias>(C) || C->getNumUses() == 0)
                    continue;
            if (auto * CE = dyn_cast<ConstantExpr>(U))
                if (CE->getOpcode() == Instruction::PtrToInt)
                    memPtrTaken.insert(&F);
            if (! addrTaken.count(&F))
            {
                addrTaken.insert(&F);
                byType[F.getFunctionType()].push_back(&F);
            }
        }
        for (Instruction & I : instructions(F))
        {
            if (auto * S = dyn_cast<StoreInst>(&I))
            {
                if (! S->getValueOperand()->getType()->isPointerTy())
                    continue;
                FieldKey k;
                Value * P = S->getPointerOperand();
                if (fieldOf(P, k))
                    fieldStores[k].push_back(S->getValueOperand());
                else if (auto * GV = dyn_cast<GlobalVariable>(getUnderlyingBase(P)))
                    globalStores[GV].push_back(S->getValueOperand());
                else if (auto * A = dyn_cast<Argument>(P); A || isa<AllocaInst>(P) || isa<LoadInst>(P) || isa<PHINode>(P))
                {
                    // store through the address of a struct: first field. Struct type unknown; handled through allocas only
                    if (auto * AI = dyn_cast<AllocaInst>(P))
                        if (auto * ST = dyn_cast<StructType>(AI->getAllocatedType()))
                        {
                            FieldKey k2{ ST, 0 };
                            fieldStores[k2].push_back(S->getValueOperand());
                        }
                }
            }
        }
    }
    // constant initialisers: struct fields
    std::function<void(Constant *)> walk = [&](Constant * C)
    {
        if (auto * CS = dyn_cast<ConstantStruct>(C))
        {
            for (unsigned i = 0; i < CS->getNumOperands(); ++i)
            {
                Constant * O = CS->getOperand(i);
                if (O->getType()->isPointerTy())
                    fieldStores[FieldKey{ CS->getType(), i }].push_back(O);
                else
                    walk(O);
            }
        }
        else if (auto * CA = dyn_cast<ConstantArray>(C))
            for (Value * O : CA->operands())
                walk(cast<Constant>(O));
    };
    for (GlobalVariable & G : M.globals())
    {
        if (G.hasInitializer())
            walk(G.getInitializer());
        if (G.getName().starts_with("_ZTV") && G.hasInitializer())
            if (auto * CS = dyn_cast<ConstantStruct>(G.getInitializer()))
                for (Value * Arr : CS->operands())
                    if (auto * CA = dyn_cast<ConstantArray>(Arr))
                        for (unsigned i = 2; i < CA->getNumOperands(); ++i)
                            if (auto * Fn = dyn_cast<Function>(CA->getOperand(i)->stripPointerCasts()))
                                vtSlots[{ i - 2, Fn->getFunctionType() }].push_back(Fn);
    }
}

Value * getUnderlyingBase(Value * P)
{
    while (true)
    {
        if (auto * G = dyn_cast<GEPOperator>(P))
            P = G->getPointerOperand();
        else if (auto * B = dyn_cast<BitCastOperator>(P))
            P = B->getOperand(0);
        else
            return P;
    }
}

static void collectConstFns(Constant * C, SetVector<Function *> & out, int depth = 0)
{
    if (depth > 8)
        return;
    if (auto * F = dyn_cast<Function>(C))
        out.insert(F);
    else if (isa<ConstantAggregate>(C))
        for (Value * O : C->operands())
            collectConstFns(cast<Constant>(O), out, depth + 1);
    else if (auto * CE = dyn_cast<ConstantExpr>(C))
        for (Value * O : CE->operands())
            collectConstFns(cast<Constant>(O), out, depth + 1);
}

void Ctx::resolveRec(Value * V, SetVector<Function *> & out, bool & complete, DenseSet<Value *> & seen, int depth)
{
    V = V->stripPointerCasts();
    if (! seen.insert(V).second)
        return;
    if (depth > 60)
    {
        complete = false;
        return;
    }
    if (auto * F = dyn_cast<Function>(V))
    {
        out.insert(F);
        return;
    }
    if (isa<ConstantPointerNull>(V) || isa<UndefValue>(V))
        return;
    if (auto * P = dyn_cast<PHINode>(V))
    {
        for (Value * I : P->incoming_values())
            resolveRec(I, out, complete, seen, depth + 1);
        return;
    }
    if (auto * S = dyn_cast<SelectInst>(V))
    {
        resolveRec(S->getTrueValue(), out, complete, seen, depth + 1);
        resolveRec(S->getFalseValue(), out, complete, seen, depth + 1);
        return;
    }
    if (auto * A = dyn_cast<Argument>(V))
    {
        Function * F = A->getParent();
        if (addrTaken.count(F))
            complete = false; // may be called from elsewhere too
        for (CallBase * CB : directCallers[F])
            if (A->getArgNo() < CB->arg_size())
                resolveRec(CB->getArgOperand(A->getArgNo()), out, complete, seen, depth + 1);
        return;
    }
    if (auto * CB = dyn_cast<CallBase>(V))
    {
        SetVector<Function *> cs;
        if (Function * D = directCallee(CB))
            cs.insert(D);
        else
        {
            bool c2 = true;
            resolveRec(CB->getCalledOperand(), cs, c2, seen, depth + 1);
            if (! c2)
                complete = false;
        }
        for (Function * C : cs)
        {
            if (C->isDeclaration())
            {
                complete = false;
                continue;
            }
            for (BasicBlock & B : *C)
                if (auto * R = dyn_cast<ReturnInst>(B.getTerminator()))
                    if (R->getReturnValue())
                        resolveRec(R->getReturnValue(), out, complete, seen, depth + 1);
        }
        return;
    }
    if (auto * L = dyn_cast<LoadInst>(V))
    {
        Value * P = L->getPointerOperand()->stripPointerCasts();
        FieldKey k;
        Value * base = getUnderlyingBase(P);
        if (auto * GV = dyn_cast<GlobalVariable>(base))
        {
            if (GV->hasInitializer())
            {
                FieldKey kk;
                if (fieldOf(P, kk))
                {
                    auto it = fieldStores.find(kk);
                    if (it != fieldStores.end())
                        for (Value * S : it->second)
                            resolveRec(S, out, complete, seen, depth + 1);
                }
                else
                    collectConstFns(GV->getInitializer(), out);
            }
            for (Value * S : globalStores[GV])
                resolveRec(S, out, complete, seen, depth + 1);
            return;
        }
        if (fieldOf(P, k))
        {
            auto it = fieldStores.find(k);
            if (it == fieldStores.end())
                complete = false;
            else
                for (Value * S : it->second)
                    resolveRec(S, out, complete, seen, depth + 1);
            return;
        }
        if (auto * AI = dyn_cast<AllocaInst>(base))
        {
            bool any = false;
            for (User * U : AI->users())
            {
                if (auto * S = dyn_cast<StoreInst>(U))
                {
                    if (S->getPointerOperand() == AI)
                    {
                        any = true;
                        resolveRec(S->getValueOperand(), out, complete, seen, depth + 1);
                    }
                    else
                        complete = false;
                }
                else if (auto * G = dyn_cast<GetElementPtrInst>(U))
                {
                    for (User * U2 : G->users())
                        if (auto * S2 = dyn_cast<StoreInst>(U2))
                            if (S2->getPointerOperand() == G)
                            {
                                any = true;
                                resolveRec(S2->getValueOperand(), out, complete, seen, depth + 1);
                            }
                }
            }
            if (! any)
                complete = false;
            return;
        }
        complete = false;
        return;
    }
    complete = false;
}

void Ctx::resolve(Value * V, SetVector<Function *> & out, bool & complete)
{
    buildIndex();
    DenseSet<Value *> seen;
    resolveRec(V, out, complete, seen, 0);
}

const SetVector<Function *> & Ctx::targets(CallBase * CB)
{
    auto it = tgtCache.find(CB);
    if (it != tgtCache.end())
        return it->second;
    buildIndex();
    SetVector<Function *> out;
    if (Function * D = directCallee(CB))
        out.insert(D);
    else if (! CB->isInlineAsm())
    {
        Value * V = CB->getCalledOperand()->stripPointerCasts();
        bool done = false;
        // virtual call: load (gep (load obj), k)
        if (auto * L = dyn_cast<LoadInst>(V))
        {
            Value * P = L->getPointerOperand();
            unsigned slot = 0;
            Value * vt = P;
            if (auto * G = dyn_cast<GetElementPtrInst>(P))
                if (G->getNumIndices() == 1 && G->getSourceElementType()->isPointerTy())
                    if (auto * CI = dyn_cast<ConstantInt>(G->getOperand(1)))
                    {
                        slot = CI->getZExtValue();
                        vt = G->getPointerOperand();
                    }
            if (auto * VL = dyn_cast<LoadInst>(vt))
                if (CB->arg_size() && VL->getPointerOperand()->stripPointerCasts() == CB->getArgOperand(0)->stripPointerCasts())
                {
                    auto vs = vtSlots.find({ slot, CB->getFunctionType() });
                    if (vs != vtSlots.end())
                        for (Function * F : vs->second)
                            out.insert(F);
                    done = true;
                    virtCalls.insert(CB);
                }
        }
        if (! done)
        {
            bool complete = true;
            SetVector<Function *> r;
            resolve(V, r, complete);
            for (Function * F : r)
                if (F->getFunctionType() == CB->getFunctionType() || F->isVarArg())
                    out.insert(F);
            if (! complete && out.empty())
            {
                // a call through a pointer to member can only reach functions whose member pointer was formed
                bool memfn = false;
                if (auto * P = dyn_cast<PHINode>(V))
                    for (Value * In : P->incoming_values())
                        if (isa<IntToPtrInst>(In))
                            memfn = true;
                for (Function * F : byType[CB->getFunctionType()])
                    if (! memfn || memPtrTaken.count(F))
                        out.insert(F);
                count("indirect_call_fallback_by_signature");
            }
        }
    }
    return tgtCache[CB] = out;
}

const std::vector<Ctx::CallEdge> & Ctx::edges(Function * F)
{
    auto it = edgeCache.find(F);
    if (it != edgeCache.end())
        return it->second;
    std::vector<CallEdge> es;
    for (Instruction & I : instructions(*F))
        if (auto * CB = dyn_cast<CallBase>(&I))
        {
            if (isa<IntrinsicInst>(CB))
                continue;
            for (Function * T : targets(CB))
                es.push_back({ CB, T });
        }
    return edgeCache[F] = es;
}

const std::vector<CallBase *> & Ctx::callers(Function * F)
{
    if (! callersBuilt)
    {
        callersBuilt = true;
        for (Function & G : M)
            for (auto & e : edges(&G))
                callerCache[e.callee].push_back(e.site);
    }
    return callerCache[F];
}

Ctx::Reach Ctx::reach(const std::vector<Function *> & roots, std::function<bool(Function *)> stop)
{
    Reach R;
    std::vector<Function *> work;
    for (Function * F : roots)
        if (! R.pred.count(F))
        {
            R.pred[F] = { nullptr, nullptr };
            work.push_back(F);
        }
    for (size_t i = 0; i < work.size(); ++i)
    {
        Function * F = work[i];
        R.order.push_back(F);
        if (stop && stop(F))
            continue;
        for (auto & e : edges(F))
            if (! R.pred.count(e.callee))
            {
                R.pred[e.callee] = { F, e.site };
                work.push_back(e.callee);
            }
    }
    return R;
}

std::string Ctx::path(const Reach & R, Function * F)
{
    std::vector<std::string> p;
    int n = 0;
    while (F && n++ < 40)
    {
        auto it = R.pred.find(F);
        if (it == R.pred.end())
            break;
        unsigned line = 0;
        std::string l = it->second.second ? loc(it->second.second, &line) : "";
        p.push_back(shortName(F).substr(0, 120) + (l.empty() ? "" : " [called at " + l + ":" + std::to_string(line) + "]"));
        F = it->second.first;
    }
    std::string s;
    for (auto i = p.rbegin(); i != p.rend(); ++i)
        s += (s.empty() ? "" : " -> ") + *i;
    return s;
}

std::vector<Function *> Ctx::workerRoots()
{
    buildIndex();
    SetVector<Function *> roots;
    for (Function & F : M)
    {
        StringRef n = F.getName();
        if (n == "pthread_create")
        {
            for (CallBase * CB : directCallers[&F])
            {
                bool c = true;
                resolve(CB->getArgOperand(2), roots, c);
            }
        }
        // libstdc++ threads and TBB tasks enter through virtual functions
        if (! F.isDeclaration())
        {
            if (n.starts_with("_ZNSt6thread11_State_impl") && n.contains("6_M_runEv"))
                roots.insert(&F);
            if (n.starts_with("_ZN3tbb6detail") && n.contains("7executeERN") && n.contains("execution_data"))
                roots.insert(&F);
        }
    }
    return std::vector<Function *>(roots.begin(), roots.end());
}

bool Ctx::isVirtualCall(CallBase * CB)
{
    targets(CB);
    return virtCalls.count(CB);
}

bool Ctx::mayThrow(Function * F)
{
    if (! throwBuilt)
    {
        throwBuilt = true;
        std::vector<Function *> w;
        for (Function & G : M)
        {
            if (G.isIntrinsic())
                continue;
            StringRef n = G.getName();
            bool src = false;
            if (G.isDeclaration())
                src = n == "__cxa_throw" || n == "__cxa_rethrow" || n == "_Znwm" || n == "_Znam" || n.starts_with("_ZSt") ||
                      n.starts_with("_ZNSt") || n.starts_with("_ZNKSt") || n.starts_with("_ZN3tbb") || n == "__cxa_guard_acquire" ||
                      n.starts_with("_ZNSs") || n.starts_with("_ZnwmSt") || n.starts_with("_ZnamSt");
            if (src && ! G.doesNotThrow())
                w.push_back(&G);
        }
        for (Function * G : w)
            throwSet.insert(G);
        for (size_t i = 0; i < w.size(); ++i)
            for (CallBase * CB : callers(w[i]))
            {
                Function * G = CB->getFunction();
                if (! G->doesNotThrow() && throwSet.insert(G).second)
                    w.push_back(G);
            }
    }
    return throwSet.count(F);
}
bool Ctx::mayThrow(CallBase * CB)
{
    if (CB->doesNotThrow())
        return false;
    for (Function * T : targets(CB))
        if (mayThrow(T))
            return true;
    return false;
}

const std::vector<Function *> & Ctx::methodFunctions()
{
    if (methodsBuilt)
        return methods;
    methodsBuilt = true;
    SetVector<Function *> out;
    for (GlobalVariable & G : M.globals())
    {
        auto * AT = dyn_cast<ArrayType>(G.getValueType());
        auto * ST = AT ? dyn_cast<StructType>(AT->getElementType()) : dyn_cast<StructType>(G.getValueType());
        if (! ST || ! ST->hasName() || ! ST->getName().starts_with("struct.PyMethodDef") || ! G.hasInitializer())
            continue;
        std::function<void(Value *)> walk = [&](Value * C)
        {
            if (auto * F = dyn_cast<Function>(C->stripPointerCasts()))
                out.insert(F);
            else if (isa<ConstantAggregate>(C))
                for (Value * O : cast<Constant>(C)->operands())
                    walk(O);
        };
        walk(G.getInitializer());
        for (Function & F : M)
            if (F.getName().starts_with("__cxx_global_var_init") || F.getName().starts_with("_GLOBAL__"))
                for (Instruction & I : instructions(F))
                    if (auto * S = dyn_cast<StoreInst>(&I))
                        if (getUnderlyingBase(S->getPointerOperand()) == &G)
                            walk(S->getValueOperand());
    }
    methods.assign(out.begin(), out.end());
    return methods;
}
