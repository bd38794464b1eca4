// Rule type: an object the caller handed in is tested to be of a type before it is used as one; a member of a sequence is
// read by position only where the sequence is known to be long enough.
//
// Forward analysis of "which types may this object have" and "how long is this sequence at least", from the tests on the
// edges. Helpers are summarised: what they require of a parameter they do not test themselves, what a test helper
// establishes, whether what they return is still untested.
#include "core.h"
#include <deque>

namespace
{
enum : unsigned
{
    ARR = 1,
    LST = 2,
    TUP = 4,
    DCT = 8,
    BYT = 16,
    UNI = 32,
    INT = 64,
    FLT = 128,
    TYP = 256,
    NON = 512, // None
    NUL = 1024,
    BOO = 2048,
    OTH = 4096,
    ALL = 8191,
    VAR = LST | TUP | BYT | INT | BOO | TYP | DCT, // have a length where the others have none
};
std::string typeNames(unsigned m)
{
    static const std::pair<unsigned, const char *> n[] = { { ARR, "array" }, { LST, "list" }, { TUP, "tuple" }, { DCT, "dict" }, { BYT, "bytes" }, { UNI, "str" }, { INT, "int" }, { FLT, "float" }, { TYP, "type" }, { NON, "None" }, { BOO, "bool" } };
    std::string s;
    for (auto & p : n)
        if (m & p.first)
            s += (s.empty() ? "" : "/") + std::string(p.second);
    return s.empty() ? "object" : s;
}
// interface slots of the array library whose parameters are arrays
const std::pair<unsigned, unsigned> apiSlots[] = {
    { 42, 1 }, // PyArray_INCREF
    { 43, 1 }, // PyArray_XDECREF
    { 47, 1 }, // PyArray_Zero
    { 48, 1 }, // PyArray_One
    { 49, 1 }, // PyArray_CastToType
    { 50, 3 }, // PyArray_CastTo
    { 51, 3 }, // PyArray_CastAnyTo
    { 76, 1 }, // PyArray_Return
    { 77, 1 }, // PyArray_GetField
    { 78, 1 }, // PyArray_SetField
    { 79, 1 }, // PyArray_Byteswap
    { 80, 1 }, // PyArray_Resize
    { 81, 3 }, // PyArray_MoveInto
    { 82, 3 }, // PyArray_CopyInto
    { 83, 3 }, // PyArray_CopyAnyInto
    { 84, 1 }, // PyArray_CopyObject
    { 85, 1 }, // PyArray_NewCopy
    { 86, 1 }, // PyArray_ToList
    { 87, 1 }, // PyArray_ToString
    { 88, 1 }, // PyArray_ToFile
    { 92, 1 }, // PyArray_UpdateFlags
    { 103, 1 }, // PyArray_FillObjectArray
    { 104, 1 }, // PyArray_FillWithScalar
    { 109, 1 }, // PyArray_FromArray
    { 113, 2 }, // PyArray_ScalarKind
    { 123, 1 }, // PyArray_Transpose
    { 124, 9 }, // PyArray_TakeFrom
    { 125, 1 }, // PyArray_PutTo
    { 126, 1 }, // PyArray_PutMask
    { 127, 1 }, // PyArray_Repeat
    { 128, 5 }, // PyArray_Choose
    { 129, 1 }, // PyArray_Sort
    { 130, 1 }, // PyArray_ArgSort
    { 131, 1 }, // PyArray_SearchSorted
    { 132, 5 }, // PyArray_ArgMax
    { 133, 5 }, // PyArray_ArgMin
    { 134, 1 }, // PyArray_Reshape
    { 135, 1 }, // PyArray_Newshape
    { 136, 1 }, // PyArray_Squeeze
    { 137, 1 }, // PyArray_View
    { 138, 1 }, // PyArray_SwapAxes
    { 139, 5 }, // PyArray_Max
    { 140, 5 }, // PyArray_Min
    { 141, 5 }, // PyArray_Ptp
    { 142, 9 }, // PyArray_Mean
    { 143, 33 }, // PyArray_Trace
    { 144, 1 }, // PyArray_Diagonal
    { 145, 9 }, // PyArray_Clip
    { 146, 3 }, // PyArray_Conjugate
    { 147, 1 }, // PyArray_Nonzero
    { 148, 9 }, // PyArray_Std
    { 149, 9 }, // PyArray_Sum
    { 150, 9 }, // PyArray_CumSum
    { 151, 9 }, // PyArray_Prod
    { 152, 9 }, // PyArray_CumProd
    { 153, 5 }, // PyArray_All
    { 154, 5 }, // PyArray_Any
    { 155, 9 }, // PyArray_Compress
    { 156, 1 }, // PyArray_Flatten
    { 157, 1 }, // PyArray_Ravel
    { 160, 1 }, // PyArray_GetPtr
    { 190, 5 }, // PyArray_Round
    { 199, 2 }, // PyArray_OutputConverter
    { 206, 1 }, // PyArray_CheckAxis
    { 270, 1 }, // PyArray_CountNonzero
    { 272, 1 }, // PyArray_MinScalarType
    { 273, 2 }, // PyArray_ResultType
    { 274, 1 }, // PyArray_CanCastArrayTo
    { 276, 68 }, // PyArray_EinsteinSum
    { 277, 1 }, // PyArray_NewLikeArray
    { 278, 64 }, // PyArray_GetArrayParamsFromObject
    { 282, 1 }, // PyArray_SetBaseObject
    { 284, 1 }, // PyArray_RemoveAxesInPlace
    { 285, 1 }, // PyArray_DebugPrint
    { 286, 1 }, // PyArray_FailUnlessWriteable
    { 287, 3 }, // PyArray_SetUpdateIfCopyBase
    { 293, 2 }, // PyArray_MapIterSwapAxes
    { 294, 1 }, // PyArray_MapIterArray
    { 296, 3 }, // PyArray_Partition
    { 297, 3 }, // PyArray_ArgPartition
    { 301, 9 }, // PyArray_MapIterArrayCopyIfOverlap
    { 302, 1 }, // PyArray_ResolveWritebackIfCopy
    { 303, 3 }, // PyArray_SetWritebackIfCopyBase
};

struct Facts
{
    std::map<Value *, unsigned> t;                 // possible types
    std::map<Value *, int64_t> len;                // least length of a sequence
    std::set<std::pair<Value *, Value *>> below;   // index < length of the sequence
    std::set<std::pair<Value *, Value *>> atmost;  // value <= length of the sequence
    std::map<Value *, Value *> holds;              // place that holds the length of a sequence
    bool operator==(const Facts & o) const { return t == o.t && len == o.len && below == o.below && atmost == o.atmost && holds == o.holds; }
};
typedef DenseMap<BasicBlock *, Facts> Flow;

struct Types
{
    Ctx & X;
    std::map<Function *, std::vector<unsigned>> req;     // allowed types of parameters
    std::map<Function *, std::vector<int64_t>> reqLen;   // needed length of sequence parameters
    std::map<Function *, unsigned> ret;                  // untested types a result may have
    std::map<std::pair<StructType *, unsigned>, unsigned> fieldUse; // what members of structures are used as
    std::map<Value *, std::vector<Value *>> stored;      // stores to plain pointer tables, by base
    DenseMap<Function *, unsigned> entryKind;            // METH_ flags
    std::map<unsigned, unsigned> api;
    bool report = false;
    Function * cur = nullptr;
    // per function
    std::map<std::pair<Value *, std::vector<Value *>>, Value *> reps;
    DenseMap<Value *, Value *> keyCache;
    explicit Types(Ctx & x) : X(x)
    {
        for (auto & p : apiSlots)
            api[p.first] = p.second;
    }
    static StringRef plain(Function * F)
    {
        StringRef n = F->getName();
        // local copies of the interpreter's inline helpers: _ZL<len>name...
        if (n.consume_front("_ZL"))
        {
            unsigned k = 0;
            if (n.consumeInteger(10, k) || k > n.size())
                return F->getName();
            return n.take_front(k);
        }
        return n;
    }
    static bool pyStruct(StructType * T)
    {
        return T && T->hasName() && (T->getName().starts_with("struct.Py") || T->getName().starts_with("struct.tagPy") || T->getName().starts_with("struct._object") || T->getName().starts_with("struct._Py") || T->getName().starts_with("struct._type"));
    }
    // the member addressed, the first one included
    static StructType * memberOf(Value * P, unsigned & fi)
    {
        if (StructType * T = gepStruct(P, fi))
            return T;
        auto * G = dyn_cast<GEPOperator>(P->stripPointerCasts());
        auto * ST = G && G->getNumIndices() == 1 ? dyn_cast<StructType>(G->getSourceElementType()) : nullptr;
        fi = 0;
        return ST && ST->hasName() && ST->getNumElements() && ST->getElementType(0)->isPointerTy() ? ST : nullptr;
    }
    static unsigned structType(StructType * T)
    {
        StringRef n = T && T->hasName() ? T->getName() : "";
        n.consume_front("struct.");
        n = n.split('.').first;
        if (n == "tagPyArrayObject_fields")
            return ARR;
        if (n == "PyListObject")
            return LST;
        if (n == "PyTupleObject")
            return TUP;
        if (n == "PyBytesObject")
            return BYT;
        if (n == "PyASCIIObject" || n == "PyCompactUnicodeObject" || n == "PyUnicodeObject")
            return UNI;
        if (n == "_longobject")
            return INT | BOO;
        if (n == "PyFloatObject")
            return FLT;
        if (n == "PyVarObject")
            return VAR;
        return 0;
    }
    static bool isApiLoad(Value * V, unsigned & slot)
    {
        auto * L = dyn_cast<LoadInst>(V->stripPointerCasts());
        if (! L)
            return false;
        Value * P = L->getPointerOperand()->stripPointerCasts();
        slot = 0;
        if (auto * G = dyn_cast<GEPOperator>(P))
        {
            if (G->getNumIndices() != 1)
                return false;
            auto * K = dyn_cast<ConstantInt>(G->getOperand(1));
            if (! K)
                return false;
            slot = K->getZExtValue();
            if (G->getSourceElementType()->isIntegerTy(8))
                slot /= 8;
            P = G->getPointerOperand()->stripPointerCasts();
        }
        auto * T = dyn_cast<LoadInst>(P);
        auto * GV = T ? dyn_cast<GlobalVariable>(T->getPointerOperand()->stripPointerCasts()) : nullptr;
        return GV && GV->getName().contains("ARRAY_API");
    }
    // the type object V stands for
    unsigned typeOf(Value * V)
    {
        V = V->stripPointerCasts();
        unsigned s;
        if (isApiLoad(V, s))
            return s == 2 ? ARR : OTH;
        if (auto * G = dyn_cast<GlobalVariable>(V))
        {
            StringRef n = G->getName();
            if (n == "PyList_Type")
                return LST;
            if (n == "PyTuple_Type")
                return TUP;
            if (n == "PyDict_Type")
                return DCT;
            if (n == "PyBytes_Type")
                return BYT;
            if (n == "PyUnicode_Type")
                return UNI;
            if (n == "PyLong_Type")
                return INT | BOO;
            if (n == "PyBool_Type")
                return BOO;
            if (n == "PyFloat_Type")
                return FLT;
            if (n == "PyType_Type")
                return TYP;
            return OTH;
        }
        if (auto * L = dyn_cast<LoadInst>(V))
            if (auto * G = dyn_cast<GlobalVariable>(L->getPointerOperand()->stripPointerCasts()))
                return G->getName().contains("FastArrayType") ? ARR : OTH;
        return 0;
    }
    static unsigned featureType(uint64_t bit)
    {
        switch (bit)
        {
        case 1u << 24:
            return INT | BOO;
        case 1u << 25:
            return LST;
        case 1u << 26:
            return TUP;
        case 1u << 27:
            return BYT;
        case 1u << 28:
            return UNI;
        case 1u << 29:
            return DCT;
        case 1u << 31:
            return TYP;
        }
        return 0;
    }
    // what stands for V: loads of the same place are one value
    Value * key(Value * V)
    {
        V = V->stripPointerCasts();
        auto it = keyCache.find(V);
        if (it != keyCache.end())
            return it->second;
        Value * r = V;
        keyCache[V] = V;
        if (auto * L = dyn_cast<LoadInst>(V); L && L->getFunction() == cur)
        {
            Value * P = L->getPointerOperand()->stripPointerCasts();
            if (isa<AllocaInst>(P))
                r = P;
            else
            {
                std::vector<Value *> idx;
                GEPOperator * G;
                while (idx.size() < 40 && (G = dyn_cast<GEPOperator>(P)))
                {
                    for (auto & I : G->indices())
                        idx.push_back(strip(I));
                    P = G->getPointerOperand()->stripPointerCasts();
                }
                idx.push_back(ConstantInt::get(Type::getInt64Ty(V->getContext()), idx.size()));
                Value * B = key(P);
                auto k = std::make_pair(B, idx);
                auto q = reps.find(k);
                if (q != reps.end())
                    r = q->second;
                else
                    reps[k] = V;
            }
        }
        return keyCache[V] = r;
    }
    static Value * strip(Value * V)
    {
        if (isa<Constant>(V))
        {
            if (auto * K = dyn_cast<ConstantInt>(V))
                return ConstantInt::get(Type::getInt64Ty(V->getContext()), K->getSExtValue(), true);
            return V;
        }
        return stripCasts(V);
    }
    // reads of members of sequences handed in
    static Value * sequenceOf(Value * V, Value ** index = nullptr, unsigned * kind = nullptr)
    {
        auto * L = dyn_cast<LoadInst>(V);
        if (! L)
            return nullptr;
        auto * G = dyn_cast<GEPOperator>(L->getPointerOperand()->stripPointerCasts());
        if (! G)
            return nullptr;
        // tuple: gep PyTupleObject, t, 0, 1, i; possibly in two steps
        Value * I = nullptr;
        Value * P = G;
        while (auto * H = dyn_cast<GEPOperator>(P->stripPointerCasts()))
        {
            auto * ST = dyn_cast<StructType>(H->getSourceElementType());
            if (ST && structType(ST) == TUP)
            {
                if (H->getNumIndices() >= 3 && ! I)
                    I = H->getOperand(H->getNumOperands() - 1);
                if (index)
                    *index = I;
                if (kind)
                    *kind = TUP;
                auto * f = H->getNumIndices() >= 2 ? dyn_cast<ConstantInt>(H->getOperand(2)) : nullptr;
                return f && f->getZExtValue() == 1 ? H->getPointerOperand()->stripPointerCasts() : nullptr;
            }
            if (H->getNumIndices() > 1 && isa<ArrayType>(H->getSourceElementType()) && I && isa<ConstantInt>(I) && cast<ConstantInt>(I)->isZero())
                I = nullptr;
            if (! I)
                I = H->getOperand(H->getNumOperands() - 1);
            P = H->getPointerOperand();
        }
        // list: gep ptr, (load gep PyListObject, l, 0, 1), i
        P = G->getPointerOperand()->stripPointerCasts();
        if (auto * LL = dyn_cast<LoadInst>(P))
            if (auto * H = dyn_cast<GEPOperator>(LL->getPointerOperand()->stripPointerCasts()))
            {
                auto * ST = dyn_cast<StructType>(H->getSourceElementType());
                if (ST && structType(ST) == LST)
                {
                    if (index)
                        *index = G->getOperand(G->getNumOperands() - 1);
                    if (kind)
                        *kind = LST;
                    return H->getPointerOperand()->stripPointerCasts();
                }
            }
        return nullptr;
    }
    // list's first member: load (load gep PyListObject) without an index
    static Value * firstOf(Value * V)
    {
        auto * L = dyn_cast<LoadInst>(V);
        auto * LL = L ? dyn_cast<LoadInst>(L->getPointerOperand()->stripPointerCasts()) : nullptr;
        if (! LL || ! L->getType()->isPointerTy())
            return nullptr;
        auto * H = dyn_cast<GEPOperator>(LL->getPointerOperand()->stripPointerCasts());
        auto * ST = H ? dyn_cast<StructType>(H->getSourceElementType()) : nullptr;
        auto * f = H && H->getNumIndices() >= 2 ? dyn_cast<ConstantInt>(H->getOperand(2)) : nullptr;
        return ST && structType(ST) == LST && f && f->getZExtValue() == 1 ? H->getPointerOperand()->stripPointerCasts() : nullptr;
    }
    static bool arrayDataCall(Value * V)
    {
        auto * CB = dyn_cast<CallBase>(V);
        Function * F = CB ? directCallee(CB) : nullptr;
        if (! F)
            return false;
        StringRef n = plain(F);
        return n == "PyArray_BYTES" || n == "PyArray_DATA" || n == "PyArray_GETPTR1" || n == "PyArray_GetPtr";
    }
    // possible types of V when nothing has been tested; 0: not something a caller handed in
    unsigned initial(Value * V)
    {
        if (isa<ConstantPointerNull>(V))
            return NUL;
        if (auto * A = dyn_cast<Argument>(V))
        {
            Function * F = A->getParent();
            auto it = entryKind.find(F);
            if (it != entryKind.end())
            {
                unsigned fl = it->second;
                if (A->getArgNo() == 0)
                    return 0;
                if (fl & 8) // METH_O
                    return ALL & ~NUL;
                if (A->getArgNo() == 1 && (fl & 1))
                    return TUP;
                if (A->getArgNo() == 2 && (fl & 2))
                    return DCT | NUL;
            }
            return ALL;
        }
        if (auto * G = dyn_cast<GlobalVariable>(V))
            return G->getName() == "_Py_NoneStruct" ? NON : 0;
        if (auto * CB = dyn_cast<CallBase>(V))
        {
            Function * F = directCallee(CB);
            if (! F)
                return 0;
            if (! F->isDeclaration())
            {
                auto it = ret.find(F);
                return it == ret.end() ? 0 : it->second;
            }
            StringRef n = F->getName();
            if (n == "PyTuple_GetItem" || n == "PyList_GetItem" || n == "PyDict_GetItem" || n == "PyDict_GetItemString" || n == "PyDict_GetItemWithError" || n == "PyObject_GetAttr" || n == "PyObject_GetAttrString" || n == "PySequence_GetItem" || n == "PyObject_GetItem" || n == "PyIter_Next" || n == "PyMapping_GetItemString")
                return ALL;
            if (n == "PySequence_Fast")
                return LST | TUP | NUL;
            if (n == "PyTuple_New" || n == "PyTuple_Pack" || n == "PyList_AsTuple" || n == "PySequence_Tuple" || n == "PyTuple_GetSlice")
                return TUP | NUL;
            if (n == "PyList_New" || n == "PySequence_List" || n == "PyDict_Keys" || n == "PyDict_Items" || n == "PyDict_Values")
                return LST | NUL;
            if (n == "PyDict_New" || n == "PyDict_Copy")
                return DCT | NUL;
            return 0;
        }
        if (auto * L = dyn_cast<LoadInst>(V))
        {
            if (! L->getType()->isPointerTy())
                return 0;
            if (Value * S = sequenceOf(V))
                return made(S) ? 0 : ALL & ~NUL;
            if (Value * S = firstOf(V))
                return made(S) ? 0 : ALL & ~NUL;
            // objects stored in the memory of an array
            Value * P = L->getPointerOperand()->stripPointerCasts();
            while (auto * G = dyn_cast<GEPOperator>(P))
                P = G->getPointerOperand()->stripPointerCasts();
            if (arrayDataCall(P))
                return ALL;
            if (ourMember(V))
                return ALL;
        }
        return 0;
    }
    // a member of one of our structures: judged where it is stored
    bool ourMember(Value * V)
    {
        auto * L = dyn_cast<LoadInst>(V);
        if (! L || ! L->getType()->isPointerTy())
            return false;
        unsigned fi = 0;
        StructType * T = memberOf(L->getPointerOperand(), fi);
        return T && ! pyStruct(T) && T->hasName();
    }
    // a container made here
    bool made(Value * S)
    {
        S = S->stripPointerCasts();
        if (auto * CB = dyn_cast<CallBase>(S))
        {
            Function * F = directCallee(CB);
            return F && (F->getName().contains("_New") || F->getName() == "Py_BuildValue" || F->getName() == "_Py_BuildValue_SizeT");
        }
        return false;
    }
    unsigned get(const Facts & f, Value * K)
    {
        auto it = f.t.find(K);
        return it != f.t.end() ? it->second : initial(K);
    }
    void narrow(Facts & f, Value * V, unsigned m)
    {
        Value * K = key(V);
        if (isa<Constant>(K))
            return;
        f.t[K] = get(f, K) & m;
        if ((m & OTH) == 0 && m != NUL && m != NON && ourMember(K))
        {
            unsigned fi = 0;
            StructType * T = memberOf(cast<LoadInst>(K)->getPointerOperand(), fi);
            testedFields.insert({ T, fi });
        }
    }
    // members of our structures whose type is tested where they are used (the outcome may be kept in a flag)
    std::set<std::pair<StructType *, unsigned>> testedFields;
    // a function that tests such a member tests it before every use
    // the object whose type V is
    static Value * typed(Value * V)
    {
        V = V->stripPointerCasts();
        if (auto * CB = dyn_cast<CallBase>(V))
        {
            Function * F = directCallee(CB);
            if (F && plain(F) == "Py_TYPE" && CB->arg_size() == 1)
                return CB->getArgOperand(0);
            return nullptr;
        }
        auto * L = dyn_cast<LoadInst>(V);
        auto * G = L ? dyn_cast<GEPOperator>(L->getPointerOperand()->stripPointerCasts()) : nullptr;
        if (! G)
            return nullptr;
        auto * ST = dyn_cast<StructType>(G->getSourceElementType());
        if (! pyStruct(ST))
            return nullptr;
        // the second member of the object header, however deep
        APInt o(64, 0);
        if (! G->accumulateConstantOffset(L->getModule()->getDataLayout(), o) || o != 8)
            return nullptr;
        return G->getPointerOperand();
    }
    // the sequence whose length V is
    Value * sized(Value * V)
    {
        V = stripCasts(V);
        if (auto * CB = dyn_cast<CallBase>(V))
        {
            Function * F = directCallee(CB);
            if (! F || CB->arg_size() < 1)
                return nullptr;
            StringRef n = plain(F);
            if (n == "Py_SIZE" || n == "PyTuple_GET_SIZE" || n == "PyList_GET_SIZE" || n == "PyTuple_Size" || n == "PyList_Size" || n == "PySequence_Size" || n == "PySequence_Length" || n == "PyObject_Size" || n == "PyObject_Length")
                return CB->getArgOperand(0);
            return nullptr;
        }
        auto * L = dyn_cast<LoadInst>(V);
        auto * G = L ? dyn_cast<GEPOperator>(L->getPointerOperand()->stripPointerCasts()) : nullptr;
        if (! G)
            return nullptr;
        auto * ST = dyn_cast<StructType>(G->getSourceElementType());
        if (! ST || ! structType(ST) || structType(ST) == ARR)
            return nullptr;
        APInt o(64, 0);
        if (! G->accumulateConstantOffset(L->getModule()->getDataLayout(), o) || o != 16)
            return nullptr;
        return G->getPointerOperand();
    }
    void either(Value * A, Value * B, bool val, Facts & f, const Flow & out, int d)
    {
        Facts a = f, b = f;
        // the second operand is looked at when the first is the other way
        learn(A, val, a, out, d + 1);
        learn(A, ! val, b, out, d + 1);
        learn(B, val, b, out, d + 1);
        meet(a, b);
        f = std::move(a);
    }
    void meet(Facts & a, const Facts & b)
    {
        for (auto & p : b.t)
            if (! a.t.count(p.first))
                a.t[p.first] = initial(p.first);
        for (auto it = a.t.begin(); it != a.t.end();)
        {
            it->second |= get(b, it->first);
            it = it->second == initial(it->first) ? a.t.erase(it) : std::next(it);
        }
        for (auto it = a.len.begin(); it != a.len.end();)
        {
            auto q = b.len.find(it->first);
            if (q == b.len.end())
                it = a.len.erase(it);
            else
            {
                it->second = std::min(it->second, q->second);
                ++it;
            }
        }
        for (auto it = a.below.begin(); it != a.below.end();)
            it = b.below.count(*it) ? std::next(it) : a.below.erase(it);
        for (auto it = a.atmost.begin(); it != a.atmost.end();)
            it = b.atmost.count(*it) ? std::next(it) : a.atmost.erase(it);
        for (auto it = a.holds.begin(); it != a.holds.end();)
        {
            auto q = b.holds.find(it->first);
            it = q != b.holds.end() && q->second == it->second ? std::next(it) : a.holds.erase(it);
        }
    }
    void adopt(Facts & f, const Facts & e)
    {
        for (auto & p : e.t)
            f.t[p.first] = get(f, p.first) & p.second;
        for (auto & p : e.len)
            f.len[p.first] = std::max(f.len[p.first], p.second);
        f.below.insert(e.below.begin(), e.below.end());
        f.atmost.insert(e.atmost.begin(), e.atmost.end());
    }
    // members of structures that only ever hold one value
    std::map<std::pair<StructType *, unsigned>, std::pair<bool, int64_t>> onlyValue;
    bool onlyBuilt = false;
    bool constant(Value * V, int64_t & k, int d = 0)
    {
        V = stripCasts(V);
        if (auto * K = dyn_cast<ConstantInt>(V); K && K->getBitWidth() <= 64)
            return k = K->getSExtValue(), true;
        if (d > 4)
            return false;
        if (auto * B = dyn_cast<BinaryOperator>(V))
        {
            int64_t a, b;
            if (! constant(B->getOperand(0), a, d + 1) || ! constant(B->getOperand(1), b, d + 1))
                return false;
            if (B->getOpcode() == Instruction::Add)
                return k = a + b, true;
            if (B->getOpcode() == Instruction::Sub)
                return k = a - b, true;
            return false;
        }
        auto * L = dyn_cast<LoadInst>(V);
        unsigned fi = 0;
        StructType * T = L ? memberOf(L->getPointerOperand(), fi) : nullptr;
        if (! T || pyStruct(T))
            return false;
        if (! onlyBuilt)
        {
            onlyBuilt = true;
            for (Function & F : X.M)
                for (Instruction & I : instructions(F))
                    if (auto * S = dyn_cast<StoreInst>(&I); S && S->getValueOperand()->getType()->isIntegerTy())
                    {
                        unsigned gi = 0;
                        StructType * G = memberOf(S->getPointerOperand(), gi);
                        if (! G)
                            continue;
                        auto * K = dyn_cast<ConstantInt>(S->getValueOperand());
                        bool ok = K && K->getBitWidth() <= 64;
                        auto r = onlyValue.insert({ { G, gi }, { ok, ok ? K->getSExtValue() : 0 } });
                        if (! r.second && (! ok || ! r.first->second.first || r.first->second.second != K->getSExtValue()))
                            r.first->second.first = false;
                    }
        }
        auto it = onlyValue.find({ T, fi });
        if (it == onlyValue.end() || ! it->second.first)
            return false;
        return k = it->second.second, true;
    }
    // L (a length) compared with a constant
    void lengthIs(Value * S, ICmpInst::Predicate P, int64_t k, Facts & f)
    {
        int64_t lo = -1;
        if (P == ICmpInst::ICMP_EQ || P == ICmpInst::ICMP_SGE || P == ICmpInst::ICMP_UGE)
            lo = k;
        else if (P == ICmpInst::ICMP_SGT || P == ICmpInst::ICMP_UGT)
            lo = k + 1;
        else if (P == ICmpInst::ICMP_NE && k == 0)
            lo = 1;
        if (lo > 0)
        {
            int64_t & n = f.len[key(S)];
            n = std::max(n, lo);
        }
    }
    static bool compare(int64_t a, ICmpInst::Predicate P, int64_t b)
    {
        switch (P)
        {
        case ICmpInst::ICMP_EQ:
            return a == b;
        case ICmpInst::ICMP_NE:
            return a != b;
        case ICmpInst::ICMP_SLT:
            return a < b;
        case ICmpInst::ICMP_SLE:
            return a <= b;
        case ICmpInst::ICMP_SGT:
            return a > b;
        case ICmpInst::ICMP_SGE:
            return a >= b;
        case ICmpInst::ICMP_ULT:
            return (uint64_t)a < (uint64_t)b;
        case ICmpInst::ICMP_ULE:
            return (uint64_t)a <= (uint64_t)b;
        case ICmpInst::ICMP_UGT:
            return (uint64_t)a > (uint64_t)b;
        case ICmpInst::ICMP_UGE:
            return (uint64_t)a >= (uint64_t)b;
        default:
            return true;
        }
    }
    // the sequence whose length V is, or is held in the place V was read from
    Value * lengthOf(Value * V, const Facts & f)
    {
        if (Value * S = sized(V))
            return S;
        auto it = f.holds.find(key(stripCasts(V)));
        return it == f.holds.end() ? nullptr : it->second;
    }
    void learn(Value * C, bool val, Facts & f, const Flow & out, int d)
    {
        if (d > 8)
            return;
        if (auto * IC = dyn_cast<ICmpInst>(C))
        {
            Value *L = IC->getOperand(0), *R = IC->getOperand(1);
            auto P = val ? IC->getPredicate() : IC->getInversePredicate();
            if (isa<Constant>(L) && ! isa<Constant>(R))
            {
                std::swap(L, R);
                P = ICmpInst::getSwappedPredicate(P);
            }
            bool eq = P == ICmpInst::ICMP_EQ, ne = P == ICmpInst::ICMP_NE;
            if (L->getType()->isPointerTy() && (eq || ne))
            {
                if (isa<ConstantPointerNull>(R))
                    return narrow(f, L, eq ? NUL : ~NUL);
                if (auto * G = dyn_cast<GlobalVariable>(R->stripPointerCasts()))
                {
                    if (G->getName() == "_Py_NoneStruct")
                        return narrow(f, L, eq ? NON : ~NON);
                    if (G->getName() == "_Py_TrueStruct" || G->getName() == "_Py_FalseStruct")
                        return eq ? narrow(f, L, BOO) : void();
                }
                for (int k = 0; k < 2; ++k, std::swap(L, R))
                    if (Value * O = typed(L))
                        if (unsigned t = typeOf(R); t && eq)
                            return narrow(f, O, t);
                return;
            }
            int64_t kc;
            if (L->getType()->isIntegerTy() && constant(L, kc) && ! isa<ConstantInt>(R))
            {
                std::swap(L, R);
                P = ICmpInst::getSwappedPredicate(P);
            }
            if (L->getType()->isIntegerTy() && constant(R, kc))
            {
                // length compared with a constant
                if (Value * S = lengthOf(L, f))
                    return lengthIs(S, P, kc, f);
                // a value that is the length only on some ways here
                if (auto * Ph = dyn_cast<PHINode>(stripCasts(L)))
                {
                    bool first = true;
                    Facts all;
                    for (unsigned i = 0; i < Ph->getNumIncomingValues(); ++i)
                    {
                        int64_t v;
                        if (constant(Ph->getIncomingValue(i), v) && ! compare(v, P, kc))
                            continue;
                        auto it = out.find(Ph->getIncomingBlock(i));
                        if (it == out.end())
                            continue;
                        Facts e = it->second;
                        edge(Ph->getIncomingBlock(i), Ph->getParent(), e, out, d + 1);
                        if (Value * S = lengthOf(Ph->getIncomingValue(i), e))
                            lengthIs(S, P, kc, e);
                        if (first)
                            all = e;
                        else
                            meet(all, e);
                        first = false;
                    }
                    if (! first)
                        adopt(f, all);
                }
            }
            if (auto * K = dyn_cast<ConstantInt>(R))
            {
                if ((eq || ne) && L->getType()->isIntegerTy(1))
                    return learn(L, eq == K->isOne(), f, out, d + 1);
                if ((eq || ne) && K->isZero())
                    return learn(stripCasts(L), ne, f, out, d + 1);
                // tests that answer 1
                if (K->isOne() && (eq || P == ICmpInst::ICMP_SGT || P == ICmpInst::ICMP_SGE))
                    return learn(stripCasts(L), true, f, out, d + 1);
            }
            // index compared with a length
            for (int k = 0; k < 2; ++k)
            {
                Value * r = key(strip(R));
                Value * l = key(strip(L));
                bool lt = P == ICmpInst::ICMP_SLT || P == ICmpInst::ICMP_ULT, le = P == ICmpInst::ICMP_SLE || P == ICmpInst::ICMP_ULE || P == ICmpInst::ICMP_EQ;
                std::vector<Value *> ss;
                if (Value * S = bound(R, f))
                    ss.push_back(key(S));
                for (auto & p : f.atmost)
                    if (p.first == r)
                        ss.push_back(p.second);
                for (Value * S : ss)
                {
                    if (lt)
                        f.below.insert({ l, S });
                    if (lt || le)
                        f.atmost.insert({ l, S });
                }
                if (lt || le)
                    for (auto & p : std::set<std::pair<Value *, Value *>>(f.below))
                        if (p.first == r)
                            f.below.insert({ l, p.second });
                std::swap(L, R);
                P = ICmpInst::getSwappedPredicate(P);
            }
            return;
        }
        if (auto * B = dyn_cast<BinaryOperator>(C))
        {
            if (B->getOpcode() == Instruction::Xor)
            {
                if (auto * K = dyn_cast<ConstantInt>(B->getOperand(1)))
                    learn(B->getOperand(0), K->isZero() ? val : ! val, f, out, d + 1);
            }
            else if ((B->getOpcode() == Instruction::And && val) || (B->getOpcode() == Instruction::Or && ! val))
            {
                learn(B->getOperand(0), val, f, out, d + 1);
                learn(B->getOperand(1), val, f, out, d + 1);
            }
            else if ((B->getOpcode() == Instruction::And || B->getOpcode() == Instruction::Or) && B->getType()->isIntegerTy(1))
                either(B->getOperand(0), B->getOperand(1), val, f, out, d);
            return;
        }
        if (auto * S = dyn_cast<SelectInst>(C))
        {
            auto * T = dyn_cast<ConstantInt>(S->getTrueValue());
            auto * F = dyn_cast<ConstantInt>(S->getFalseValue());
            if (F && F->isZero() && val)
            {
                learn(S->getCondition(), true, f, out, d + 1);
                learn(S->getTrueValue(), true, f, out, d + 1);
            }
            else if (T && ! T->isZero() && ! val)
            {
                learn(S->getCondition(), false, f, out, d + 1);
                learn(S->getFalseValue(), false, f, out, d + 1);
            }
            else if (F && F->isZero() && ! val)
                either(S->getCondition(), S->getTrueValue(), false, f, out, d);
            else if (T && ! T->isZero() && val)
                either(S->getCondition(), S->getFalseValue(), true, f, out, d);
            return;
        }
        if (auto * Z = dyn_cast<CastInst>(C))
        {
            if (Z->getType()->isIntegerTy() && Z->getOperand(0)->getType()->isIntegerTy())
                learn(Z->getOperand(0), val, f, out, d + 1);
            return;
        }
        if (auto * Fz = dyn_cast<FreezeInst>(C))
            return learn(Fz->getOperand(0), val, f, out, d + 1);
        if (auto * P = dyn_cast<PHINode>(C))
        {
            bool first = true;
            Facts all;
            for (unsigned i = 0; i < P->getNumIncomingValues(); ++i)
            {
                if (auto * K = dyn_cast<ConstantInt>(P->getIncomingValue(i)))
                    if ((! K->isZero()) != val)
                        continue;
                auto it = out.find(P->getIncomingBlock(i));
                if (it == out.end())
                    continue;
                Facts e = it->second;
                edge(P->getIncomingBlock(i), P->getParent(), e, out, d + 1);
                learn(P->getIncomingValue(i), val, e, out, d + 1);
                if (first)
                    all = e;
                else
                    meet(all, e);
                first = false;
            }
            if (! first)
            {
                adopt(f, all);
            }
            return;
        }
        if (auto * CB = dyn_cast<CallBase>(C))
        {
            Function * F = directCallee(CB);
            if (! F)
                return;
            StringRef n = plain(F);
            if ((n == "PyObject_TypeCheck" || n == "Py_IS_TYPE" || n == "PyObject_IsInstance") && CB->arg_size() == 2)
            {
                if (unsigned t = typeOf(CB->getArgOperand(1)))
                    narrow(f, CB->getArgOperand(0), val ? t : n == "PyObject_TypeCheck" && t != OTH && t != (INT | BOO) ? ~t : ~0u);
                return;
            }
            if (n == "PyType_IsSubtype" && CB->arg_size() == 2)
            {
                if (Value * O = typed(CB->getArgOperand(0)))
                    if (unsigned t = typeOf(CB->getArgOperand(1)))
                        narrow(f, O, val ? t : ~0u);
                return;
            }
            if ((n == "PyType_HasFeature" || n == "PyType_FastSubclass") && CB->arg_size() == 2)
            {
                auto * K = dyn_cast<ConstantInt>(CB->getArgOperand(1));
                Value * O = typed(CB->getArgOperand(0));
                if (K && O)
                    if (unsigned t = featureType(K->getZExtValue()))
                        narrow(f, O, val ? t : ~t);
                return;
            }
            if (! F->isDeclaration())
                for (unsigned i = 0; i < CB->arg_size() && i < F->arg_size(); ++i)
                    if (CB->getArgOperand(i)->getType()->isPointerTy())
                        narrow(f, CB->getArgOperand(i), answer(F, i, val));
        }
    }
    // something that is at most the length of a sequence
    Value * bound(Value * V, const Facts & f, int d = 0)
    {
        if (Value * S = lengthOf(V, f))
            return S;
        V = stripCasts(V);
        if (d < 4)
        {
            if (auto * P = dyn_cast<PHINode>(V))
            {
                Value * r = nullptr;
                SmallVector<unsigned, 4> with, without;
                for (unsigned i = 0; i < P->getNumIncomingValues(); ++i)
                {
                    Value * O = P->getIncomingValue(i);
                    if (auto * K = dyn_cast<ConstantInt>(O); K && K->isZero())
                        continue;
                    Value * b = isa<ConstantInt>(O) ? nullptr : bound(O, f, d + 1);
                    if (! b)
                    {
                        without.push_back(i);
                        continue;
                    }
                    if (r && key(b) != key(r))
                        return nullptr;
                    r = b;
                    with.push_back(i);
                }
                if (! r || without.empty())
                    return r;
                // a flag set on the same ways tells which one it was
                for (PHINode & Q : P->getParent()->phis())
                {
                    auto inc = [&](unsigned i) { return Q.getIncomingValueForBlock(P->getIncomingBlock(i)); };
                    bool ok = &Q != P && Q.getType()->isIntegerTy();
                    for (unsigned i : with)
                        ok = ok && isa<ConstantInt>(inc(i));
                    for (unsigned j : without)
                    {
                        ok = ok && isa<ConstantInt>(inc(j));
                        bool differs = false;
                        for (unsigned i : with)
                            differs |= ok && inc(i) != inc(j);
                        ok = ok && differs;
                    }
                    if (ok)
                        return r;
                }
                return nullptr;
            }
            if (auto * B = dyn_cast<BinaryOperator>(V); B && B->getOpcode() == Instruction::Sub)
                if (auto * K = dyn_cast<ConstantInt>(B->getOperand(1)); K && ! K->isNegative())
                    return bound(B->getOperand(0), f, d + 1);
            if (auto * B = dyn_cast<BinaryOperator>(V); B && B->getOpcode() == Instruction::Add)
                if (auto * K = dyn_cast<ConstantInt>(B->getOperand(1)); K && K->isNegative())
                    return bound(B->getOperand(0), f, d + 1);
        }
        return nullptr;
    }
    // may F write through its parameter
    std::map<std::pair<Function *, unsigned>, bool> wr;
    bool writes(Function * F, unsigned i, int d = 0)
    {
        if (F->isDeclaration())
            return ! F->getName().starts_with("Py");
        if (i >= F->arg_size() || d > 6)
            return true;
        auto k = std::make_pair(F, i);
        if (auto it = wr.find(k); it != wr.end())
            return it->second;
        wr[k] = false;
        SmallVector<Value *, 8> w{ F->getArg(i) };
        DenseSet<Value *> seen;
        while (! w.empty())
        {
            Value * V = w.pop_back_val();
            if (! seen.insert(V).second)
                continue;
            for (User * U : V->users())
            {
                if (isa<StoreInst>(U) || isa<AtomicRMWInst>(U) || isa<MemIntrinsic>(U))
                    return wr[k] = true;
                if (isa<GetElementPtrInst>(U) || isa<PHINode>(U) || isa<SelectInst>(U) || isa<BitCastInst>(U))
                    w.push_back(U);
                else if (auto * CB = dyn_cast<CallBase>(U); CB && ! isa<IntrinsicInst>(CB))
                {
                    unsigned slot;
                    if (isApiLoad(CB->getCalledOperand(), slot))
                        continue;
                    Function * D = directCallee(CB);
                    for (unsigned a = 0; a < CB->arg_size(); ++a)
                        if (CB->getArgOperand(a) == V && (! D || writes(D, a, d + 1)))
                            return wr[k] = true;
                }
            }
        }
        return false;
    }
    std::map<std::tuple<Function *, unsigned, bool>, unsigned> ans;
    // possible types of parameter i when F answers val
    unsigned answer(Function * F, unsigned i, bool val)
    {
        auto k = std::make_tuple(F, i, val);
        if (auto it = ans.find(k); it != ans.end())
            return it->second;
        ans[k] = ALL;
        if (! (F->getReturnType()->isIntegerTy() || F->getReturnType()->isPointerTy()) || F->size() > 40 || ! F->getArg(i)->getType()->isPointerTy())
            return ALL;
        Function * save = cur;
        auto sr = std::move(reps);
        auto sk = std::move(keyCache);
        reps.clear();
        keyCache.clear();
        cur = F;
        Flow out = flow(*F);
        unsigned m = 0;
        for (BasicBlock & B : *F)
            if (auto * R = dyn_cast<ReturnInst>(B.getTerminator()); R && out.count(&B) && R->getReturnValue())
            {
                Facts f = out[&B];
                Value * V = R->getReturnValue();
                if (V->getType()->isPointerTy())
                {
                    if (isa<ConstantPointerNull>(V) && val)
                        continue;
                }
                else if (auto * K = dyn_cast<ConstantInt>(V))
                {
                    if ((! K->isZero()) != val)
                        continue;
                }
                else
                    learn(V, val, f, out, 3);
                m |= get(f, F->getArg(i));
            }
        cur = save;
        reps = std::move(sr);
        keyCache = std::move(sk);
        return ans[k] = m ? m : ALL;
    }
    void edge(BasicBlock * A, BasicBlock * B, Facts & f, const Flow & out, int d = 0)
    {
        auto * T = A->getTerminator();
        if (auto * Br = dyn_cast<BranchInst>(T); Br && Br->isConditional() && Br->getSuccessor(0) != Br->getSuccessor(1))
            learn(Br->getCondition(), Br->getSuccessor(0) == B, f, out, d);
        if (auto * S = dyn_cast<SwitchInst>(T))
        {
            if (Value * Q = lengthOf(S->getCondition(), f))
            {
                int64_t lo = INT64_MAX;
                for (auto & c : S->cases())
                    if (c.getCaseSuccessor() == B)
                        lo = std::min(lo, c.getCaseValue()->getSExtValue());
                if (S->getDefaultDest() != B && lo > 0 && lo != INT64_MAX)
                {
                    int64_t & n = f.len[key(Q)];
                    n = std::max(n, lo);
                }
            }
        }
    }
    void forgetIndex(Facts & f, Value * V)
    {
        for (auto it = f.below.begin(); it != f.below.end();)
            it = it->first == V ? f.below.erase(it) : std::next(it);
        for (auto it = f.atmost.begin(); it != f.atmost.end();)
            it = it->first == V ? f.atmost.erase(it) : std::next(it);
    }
    // the stand-in for what is read from the place P, if it is read
    Value * placeOf(Value * P)
    {
        std::vector<Value *> idx;
        GEPOperator * G;
        while (idx.size() < 40 && (G = dyn_cast<GEPOperator>(P)))
        {
            for (auto & I : G->indices())
                idx.push_back(strip(I));
            P = G->getPointerOperand()->stripPointerCasts();
        }
        idx.push_back(ConstantInt::get(Type::getInt64Ty(P->getContext()), idx.size()));
        auto q = reps.find(std::make_pair(key(P), idx));
        return q == reps.end() ? nullptr : q->second;
    }
    // values whose meaning depends on V, which is about to be computed anew
    void forget(Facts & f, Value * V)
    {
        for (auto & r : reps)
            if (r.second != V && (r.first.first == V || is_contained(r.first.second, V)))
            {
                f.t.erase(r.second);
                f.len.erase(r.second);
            }
        forgetIndex(f, V);
        f.t.erase(V);
        f.len.erase(V);
    }
    static bool parses(CallBase * CB, unsigned & fmt, unsigned & first)
    {
        Function * D = directCallee(CB);
        if (! D)
            return false;
        StringRef n = D->getName();
        if (n == "PyArg_ParseTuple" || n == "_PyArg_ParseTuple_SizeT" || n == "PyArg_Parse" || n == "_PyArg_Parse_SizeT")
            return fmt = 1, first = 2, true;
        if (n == "PyArg_ParseTupleAndKeywords" || n == "_PyArg_ParseTupleAndKeywords_SizeT")
            return fmt = 2, first = 4, true;
        return false;
    }
    void transfer(Instruction & I, Facts & f)
    {
        if (auto * S = dyn_cast<StoreInst>(&I))
        {
            Value * P = S->getPointerOperand()->stripPointerCasts();
            Value * V = S->getValueOperand();
            Value * place = isa<AllocaInst>(P) ? P : placeOf(P);
            if (! place)
                return;
            if (V->getType()->isIntegerTy())
            {
                Value * Q = sized(V);
                forgetIndex(f, place);
                if (Q)
                    f.holds[place] = key(Q);
                else
                    f.holds.erase(place);
                return;
            }
            if (V->getType()->isPointerTy())
            {
                P = place;
                V = key(V);
                unsigned m = get(f, V);
                if (m == ALL && ((isa<Argument>(V) && ! entryKind.count(I.getFunction())) || ourMember(V)))
                    m = 0;
                f.t[P] = m;
                auto q = f.len.find(V);
                if (q != f.len.end())
                    f.len[P] = q->second;
                else
                    f.len.erase(P);
            }
            return;
        }
        auto * CB = dyn_cast<CallBase>(&I);
        if (! CB || isa<IntrinsicInst>(CB))
            return;
        unsigned fm, a;
        if (parses(CB, fm, a))
        {
            std::string s = constStr(CB->getArgOperand(fm));
            bool opt = false;
            for (size_t i = 0; i < s.size() && s[i] != ':' && s[i] != ';'; ++i)
            {
                if (strchr("|$()", s[i]))
                {
                    opt |= s[i] == '|';
                    continue;
                }
                char c = s[i], q = i + 1 < s.size() && strchr("#*!&", s[i + 1]) ? s[++i] : 0;
                unsigned m = c == 'O' ? ALL & ~NUL : c == 'U' ? UNI : c == 'S' ? BYT : 0;
                if (c == 'O' && q && q != '#')
                {
                    if (a >= CB->arg_size())
                        return;
                    m = q == '!' ? typeOf(CB->getArgOperand(a)) : 0;
                    ++a;
                }
                if (c == 'e')
                    ++a;
                if (a >= CB->arg_size())
                    return;
                Value * D = CB->getArgOperand(a++)->stripPointerCasts();
                if (q == '#')
                    ++a;
                if (isa<AllocaInst>(D))
                {
                    if (strchr("OUS", c))
                        f.t[D] = m | (opt ? get(f, D) : 0);
                    f.len.erase(D);
                }
            }
            return;
        }
        Function * D = directCallee(CB);
        StringRef n = D ? D->getName() : "";
        for (unsigned i = 0; i < CB->arg_size(); ++i)
            if (auto * A = dyn_cast<AllocaInst>(CB->getArgOperand(i)->stripPointerCasts()); A && A->getAllocatedType()->isIntegerTy())
            {
                unsigned slot;
                if (D ? writes(D, i) : ! isApiLoad(CB->getCalledOperand(), slot))
                {
                    forgetIndex(f, A);
                    f.holds.erase(A);
                }
            }
            else if (A && A->getAllocatedType()->isPointerTy())
            {
                f.t[A] = 0;
                if (n == "PyDict_Next" || n == "PyArg_UnpackTuple")
                    f.t[A] = ALL & ~NUL;
                f.len.erase(A);
            }
    }
    Flow flow(Function & F)
    {
        Flow out, in;
        std::deque<BasicBlock *> work;
        in[&F.getEntryBlock()] = Facts();
        work.push_back(&F.getEntryBlock());
        DenseMap<BasicBlock *, unsigned> visits;
        // loads that stand for a place must have their stand-in before facts are recorded
        for (Instruction & I : instructions(F))
            if (isa<LoadInst>(I) && (I.getType()->isPointerTy() || I.getType()->isIntegerTy()))
                key(&I);
        while (! work.empty())
        {
            BasicBlock * B = work.front();
            work.pop_front();
            if (++visits[B] > 12)
                continue;
            Facts f = in[B];
            for (PHINode & P : B->phis())
            {
                forget(f, &P);
                if (! P.getType()->isPointerTy())
                {
                    // index below the length on every way in
                    continue;
                }
                unsigned m = 0;
                int64_t n = INT64_MAX;
                for (unsigned i = 0; i < P.getNumIncomingValues(); ++i)
                {
                    auto it = out.find(P.getIncomingBlock(i));
                    if (it == out.end())
                        continue;
                    Facts e = it->second;
                    edge(P.getIncomingBlock(i), B, e, out);
                    Value * V = key(P.getIncomingValue(i));
                    m |= get(e, V);
                    auto q = e.len.find(V);
                    n = std::min(n, q == e.len.end() ? 0 : q->second);
                }
                f.t[&P] = m;
                if (n > 0 && n != INT64_MAX)
                    f.len[&P] = n;
            }
            for (Instruction & I : *B)
            {
                if (isa<PHINode>(I))
                    continue;
                if (isa<CallBase>(I) && I.getType()->isPointerTy())
                    forget(f, &I);
                step(I, f, out, false);
                transfer(I, f);
            }
            bool firstTime = ! out.count(B);
            if (! firstTime && out[B] == f)
                continue;
            out[B] = f;
            for (BasicBlock * S : successors(B))
            {
                Facts e = f;
                edge(B, S, e, out);
                auto it = in.find(S);
                if (it == in.end())
                {
                    in[S] = e;
                    work.push_back(S);
                }
                else
                {
                    Facts old = it->second;
                    meet(it->second, e);
                    if (! (it->second == old) || firstTime || ! S->phis().empty())
                        work.push_back(S);
                }
            }
        }
        return out;
    }
    // ---- uses ---------------------------------------------------------------------------------------
    void use(Value * V, unsigned want, Instruction & I, Facts & f, const Flow & out, bool judge, const std::string & what)
    {
        Value * K = key(V);
        unsigned m = get(f, K);
        if ((m & ~NUL & ~want) == 0)
        {
            if (judge && report && (m & ~NUL))
                X.count("typed_uses_of_tested_objects");
            return;
        }
        if (judge)
        {
            DenseSet<Value *> seen;
            origins(K, f, out, want, I, what, seen);
        }
        f.t[K] = m & (want | NUL);
    }
    std::set<std::pair<std::string, Instruction *>> done;
    void origins(Value * K, const Facts & f, const Flow & out, unsigned want, Instruction & I, const std::string & what, DenseSet<Value *> & seen)
    {
        K = key(K);
        unsigned m = get(f, K);
        if ((m & ~NUL & ~want) == 0 || ! seen.insert(K).second)
            return;
        if (auto * P = dyn_cast<PHINode>(K))
        {
            for (unsigned i = 0; i < P->getNumIncomingValues(); ++i)
            {
                auto it = out.find(P->getIncomingBlock(i));
                if (it == out.end())
                    continue;
                Facts e = it->second;
                edge(P->getIncomingBlock(i), P->getParent(), e, out);
                origins(P->getIncomingValue(i), e, out, want, I, what, seen);
            }
            return;
        }
        if (auto * S = dyn_cast<SelectInst>(K))
        {
            Facts a = f, b = f;
            learn(S->getCondition(), true, a, out, 0);
            learn(S->getCondition(), false, b, out, 0);
            origins(S->getTrueValue(), a, out, want, I, what, seen);
            origins(S->getFalseValue(), b, out, want, I, what, seen);
            return;
        }
        Function * F = I.getFunction();
        if (auto * A = dyn_cast<Argument>(K))
            if (! entryKind.count(F))
            {
                auto & r = req[F];
                r.resize(F->arg_size(), ALL);
                unsigned n = r[A->getArgNo()] & (want | NUL);
                if (n != r[A->getArgNo()])
                {
                    r[A->getArgNo()] = n;
                    changed = true;
                }
                return;
            }
        if (ourMember(K))
        {
            unsigned fi = 0;
            StructType * T = memberOf(cast<LoadInst>(K)->getPointerOperand(), fi);
            auto r = fieldUse.insert({ { T, fi }, ALL });
            unsigned n = r.first->second & (want | NUL);
            if (n != r.first->second)
            {
                r.first->second = n;
                changed = true;
            }
            return;
        }
        if (! report)
            return;
        // members of a list whose types were found equal beforehand
        if (! (want & (ARR | LST | TUP)) || (want & VAR) == VAR)
        {
            unsigned kd = 0;
            if (firstOf(K) || (sequenceOf(K, nullptr, &kd) && kd == LST))
                return;
        }
        std::string from = "an object handed in";
        if (auto * C = dyn_cast<CallBase>(K); C && directCallee(C))
            from = "the result of " + X.baseName(directCallee(C));
        else if (isa<AllocaInst>(K))
            from = "an argument";
        else if (sequenceOf(K) || firstOf(K))
            from = "a member of a sequence";
        std::string k = "type:" + X.baseName(F) + ":" + what;
        if (! done.insert({ k, &I }).second)
            return;
        X.finding("type", k, &I, F, from + " is used as " + typeNames(want) + " by " + what + " though it may be " + typeNames(m & ~want & ~NUL & ~OTH) + (m & OTH ? " or any other type" : ""));
    }
    void needLen(Value * S, Value * idx, Instruction & I, Facts & f, bool judge, const std::string & what)
    {
        Value * K = key(S);
        if (made(K))
            return;
        if (! judge)
            return;
        int64_t at = 0;
        if (! idx || constant(idx, at))
        {
            int64_t n = at + 1;
            auto q = f.len.find(K);
            if (q != f.len.end() && q->second >= n)
            {
                if (report)
                    X.count("positions_within_known_length");
                return;
            }
            lengthOrigins(K, n, I, what);
            return;
        }
        if (f.below.count({ key(strip(idx)), K }) || offsetBelow(idx, K, f))
        {
            if (report)
                X.count("positions_within_known_length");
            return;
        }
        if (report)
        {
            std::string k = "type:" + X.baseName(I.getFunction()) + ":position";
            if (done.insert({ k, &I }).second)
                X.finding("type", k, &I, I.getFunction(), "a member is read by " + what + " at a position not compared with the length of the sequence");
        }
    }
    // idx + c with idx < n - c; n - c; counting down from below n
    bool offsetBelow(Value * idx, Value * K, const Facts & f, int d = 0)
    {
        Value * V = stripCasts(idx);
        if (f.below.count({ key(V), K }))
            return true;
        if (d > 3)
            return false;
        if (auto * B = dyn_cast<BinaryOperator>(V))
        {
            auto * C = dyn_cast<ConstantInt>(B->getOperand(1));
            if (! C || (B->getOpcode() != Instruction::Add && B->getOpcode() != Instruction::Sub))
                return false;
            bool down = C->isNegative() != (B->getOpcode() == Instruction::Sub);
            Value * O = B->getOperand(0);
            if (! C->isZero() && down)
            {
                Value * b = bound(O, f);
                return (b && key(b) == K) || f.atmost.count({ key(strip(O)), K }) || offsetBelow(O, K, f, d + 1);
            }
            return f.below.count({ key(strip(O)), K });
        }
        if (auto * P = dyn_cast<PHINode>(V))
        {
            for (Value * O : P->incoming_values())
            {
                if (auto * B = dyn_cast<BinaryOperator>(stripCasts(O)); B && stripCasts(B->getOperand(0)) == P)
                {
                    auto * C = dyn_cast<ConstantInt>(B->getOperand(1));
                    if (C && ((B->getOpcode() == Instruction::Add && C->isNegative()) || (B->getOpcode() == Instruction::Sub && ! C->isNegative())))
                        continue;
                }
                if (! offsetBelow(O, K, f, d + 1))
                    return false;
            }
            return true;
        }
        return false;
    }
    void lengthOrigins(Value * K, int64_t n, Instruction & I, const std::string & what)
    {
        Function * F = I.getFunction();
        if (auto * A = dyn_cast<Argument>(K))
            if (! entryKind.count(F))
            {
                auto & r = reqLen[F];
                r.resize(F->arg_size(), 0);
                if (r[A->getArgNo()] < n)
                {
                    r[A->getArgNo()] = n;
                    changed = true;
                }
                return;
            }
        if (! report)
            return;
        std::string k = "type:" + X.baseName(F) + ":position" + std::to_string(n - 1);
        if (done.insert({ k, &I }).second)
            X.finding("type", k, &I, F, "member " + std::to_string(n - 1) + " is read by " + what + " though the sequence is not known to have " + std::to_string(n));
    }
    bool changed = false;
    void step(Instruction & I, Facts & f, const Flow & out, bool judge)
    {
        Value * P = nullptr;
        if (auto * L = dyn_cast<LoadInst>(&I))
            P = L->getPointerOperand();
        else if (auto * S = dyn_cast<StoreInst>(&I))
            P = S->getPointerOperand();
        if (P)
        {
            if (auto * G = dyn_cast<GEPOperator>(P->stripPointerCasts()))
            {
                // down to the object
                while (auto * H = dyn_cast<GEPOperator>(G->getPointerOperand()->stripPointerCasts()))
                    G = H;
                auto * ST = dyn_cast<StructType>(G->getSourceElementType());
                if (unsigned want = ST ? structType(ST) : 0)
                {
                    APInt o(64, 0);
                    bool c = cast<GEPOperator>(P->stripPointerCasts())->getPointerOperand()->stripPointerCasts() == G->getPointerOperand()->stripPointerCasts() && G->accumulateConstantOffset(X.M.getDataLayout(), o);
                    if (! (c && o.getZExtValue() < 16))
                    {
                        if (c && o.getZExtValue() < 24 && (want & VAR))
                            want = VAR; // only the length
                        use(G->getPointerOperand(), want, I, f, out, judge, "direct access");
                    }
                }
            }
            if (isa<LoadInst>(I) && I.getType()->isPointerTy())
            {
                Value * idx = nullptr;
                if (Value * S = sequenceOf(&I, &idx))
                    needLen(S, idx, I, f, judge, "direct access");
                else if (Value * S = firstOf(&I))
                    needLen(S, nullptr, I, f, judge, "direct access");
            }
            if (auto * S = dyn_cast<StoreInst>(&I); S && judge && S->getValueOperand()->getType()->isPointerTy())
            {
                unsigned fi = 0;
                StructType * T = memberOf(S->getPointerOperand(), fi);
                if (T && ! pyStruct(T))
                {
                    auto it = fieldUse.find({ T, fi });
                    if (it != fieldUse.end() && ! testedFields.count({ T, fi }))
                        use(S->getValueOperand(), it->second, I, f, out, true, "member " + X.fieldName(T, fi));
                }
            }
            // what members of structures are used as
            return;
        }
        auto * CB = dyn_cast<CallBase>(&I);
        if (! CB || isa<IntrinsicInst>(CB))
            return;
        unsigned slot;
        if (isApiLoad(CB->getCalledOperand(), slot))
        {
            auto it = api.find(slot);
            if (it != api.end())
                for (unsigned i = 0; i < CB->arg_size(); ++i)
                    if (it->second >> i & 1)
                        use(CB->getArgOperand(i), ARR, I, f, out, judge, "array interface " + std::to_string(slot));
            return;
        }
        Function * D = directCallee(CB);
        if (D && D->isDeclaration())
        {
            StringRef n = D->getName();
            if ((n == "PyTuple_GetItem" || n == "PyList_GetItem") && ! nullTested(CB))
                needLen(CB->getArgOperand(0), CB->getArgOperand(1), I, f, judge, n.str());
            return;
        }
        const SetVector<Function *> & ts = X.targets(CB);
        if (! D && ts.size() > 20)
            return;
        for (Function * T : ts)
        {
            auto it = req.find(T);
            if (it != req.end())
                for (unsigned i = 0; i < CB->arg_size() && i < it->second.size(); ++i)
                    if (it->second[i] != ALL && CB->getArgOperand(i)->getType()->isPointerTy())
                        use(CB->getArgOperand(i), it->second[i], I, f, out, judge, X.baseName(T));
            auto jt = reqLen.find(T);
            if (jt != reqLen.end())
                for (unsigned i = 0; i < CB->arg_size() && i < jt->second.size(); ++i)
                    if (jt->second[i])
                        needLen(CB->getArgOperand(i), ConstantInt::get(Type::getInt64Ty(X.M.getContext()), jt->second[i] - 1), I, f, judge, X.baseName(T));
        }
    }
    static bool nullTested(Value * V)
    {
        for (User * U : V->users())
        {
            if (auto * C = dyn_cast<ICmpInst>(U); C && isa<ConstantPointerNull>(C->getOperand(1)))
                return true;
            if (auto * P = dyn_cast<PHINode>(U))
                for (User * W : P->users())
                    if (auto * C = dyn_cast<ICmpInst>(W); C && isa<ConstantPointerNull>(C->getOperand(1)))
                        return true;
        }
        return false;
    }
    void analyse(Function & F)
    {
        cur = &F;
        reps.clear();
        keyCache.clear();
        Flow out = flow(F);
        unsigned rm = ret.count(&F) ? ret[&F] : 0, rm0 = rm;
        for (BasicBlock & B : F)
        {
            if (! out.count(&B))
                continue;
            Facts f;
            bool first = true;
            for (BasicBlock * P : predecessors(&B))
                if (out.count(P))
                {
                    Facts e = out[P];
                    edge(P, &B, e, out);
                    if (first)
                        f = e;
                    else
                        meet(f, e);
                    first = false;
                }
            for (PHINode & P : B.phis())
            {
                forget(f, &P);
                if (! P.getType()->isPointerTy())
                    continue;
                unsigned m = 0;
                int64_t n = INT64_MAX;
                for (unsigned i = 0; i < P.getNumIncomingValues(); ++i)
                {
                    auto it = out.find(P.getIncomingBlock(i));
                    if (it == out.end())
                        continue;
                    Facts e = it->second;
                    edge(P.getIncomingBlock(i), &B, e, out);
                    Value * V = key(P.getIncomingValue(i));
                    m |= get(e, V);
                    auto q = e.len.find(V);
                    n = std::min(n, q == e.len.end() ? 0 : q->second);
                }
                f.t[&P] = m;
                if (n > 0 && n != INT64_MAX)
                    f.len[&P] = n;
            }
            for (Instruction & I : B)
            {
                if (isa<PHINode>(I))
                    continue;
                if (isa<CallBase>(I) && I.getType()->isPointerTy())
                    forget(f, &I);
                step(I, f, out, true);
                transfer(I, f);
                if (auto * R = dyn_cast<ReturnInst>(&I); R && R->getReturnValue() && R->getReturnValue()->getType()->isPointerTy())
                {
                    Value * V = key(R->getReturnValue());
                    if (! isa<Argument>(V))
                        rm |= returned(V, f, out);
                }
            }
        }
        if (rm != rm0)
        {
            ret[&F] = rm;
            changed = true;
        }
    }
    unsigned returned(Value * V, const Facts & f, const Flow & out, int d = 0)
    {
        if (auto * P = dyn_cast<PHINode>(V); P && d < 4)
        {
            unsigned m = 0;
            for (unsigned i = 0; i < P->getNumIncomingValues(); ++i)
            {
                auto it = out.find(P->getIncomingBlock(i));
                if (it == out.end())
                    continue;
                Facts e = it->second;
                edge(P->getIncomingBlock(i), P->getParent(), e, out);
                Value * W = key(P->getIncomingValue(i));
                if (W != P)
                    m |= returned(W, e, out, d + 1);
            }
            return m;
        }
        if (isa<Argument>(V) || ourMember(V))
            return 0;
        return get(f, V);
    }
    void run()
    {
        for (GlobalVariable & G : X.M.globals())
        {
            auto * AT = G.hasInitializer() ? dyn_cast<ArrayType>(G.getValueType()) : nullptr;
            auto * ST = AT ? dyn_cast<StructType>(AT->getElementType()) : nullptr;
            if (! ST || ! ST->hasName() || ! ST->getName().starts_with("struct.PyMethodDef"))
                continue;
            Constant * C = G.getInitializer();
            std::map<uint64_t, Constant *> st;
            if (isa<ConstantAggregateZero>(C))
                for (Function & F : X.M)
                    if (F.getName().starts_with("__cxx_global_var_init") || F.getName().starts_with("_GLOBAL__"))
                        for (Instruction & I : instructions(F))
                            if (auto * S = dyn_cast<StoreInst>(&I))
                            {
                                APInt off(64, 0);
                                Value * B = S->getPointerOperand()->stripAndAccumulateConstantOffsets(X.M.getDataLayout(), off, true);
                                if (B == &G)
                                    if (auto * K = dyn_cast<Constant>(S->getValueOperand()))
                                        st[off.getZExtValue()] = K;
                            }
            uint64_t esz = X.M.getDataLayout().getTypeAllocSize(ST);
            for (unsigned i = 0; i < AT->getNumElements(); ++i)
            {
                auto elem = [&](unsigned f) -> Constant *
                {
                    auto it = st.find(i * esz + X.M.getDataLayout().getStructLayout(ST)->getElementOffset(f));
                    return it != st.end() ? it->second : C->getAggregateElement(i)->getAggregateElement(f);
                };
                auto * Fn = dyn_cast<Function>(elem(1)->stripPointerCasts());
                auto * Fl = dyn_cast<ConstantInt>(elem(2));
                if (Fn && Fl)
                    entryKind[Fn] = Fl->getZExtValue();
            }
        }
        X.count("entry_points", entryKind.size());
        std::vector<Function *> fs;
        for (Function & F : X.M)
            if (! F.isDeclaration() && ! F.getName().starts_with("_ZNSt") && ! F.getName().starts_with("_ZNKSt") && ! F.getName().starts_with("_ZN9__gnu"))
                fs.push_back(&F);
        // only what touches objects, and what calls that
        SetVector<Function *> rel;
        for (Function * F : fs)
        {
            bool py = entryKind.count(F);
            for (Instruction & I : instructions(*F))
            {
                if (auto * CB = dyn_cast<CallBase>(&I); CB && ! isa<IntrinsicInst>(CB))
                {
                    unsigned slot;
                    Function * D = directCallee(CB);
                    py |= D ? plain(D).starts_with("Py") || plain(D).starts_with("_Py") : isApiLoad(CB->getCalledOperand(), slot);
                }
                else if (auto * G = dyn_cast<GetElementPtrInst>(&I))
                    if (auto * ST = dyn_cast<StructType>(G->getSourceElementType()); ST && pyStruct(ST))
                        py = true;
                if (py)
                    break;
            }
            if (py)
                rel.insert(F);
        }
        for (unsigned i = 0; i < rel.size(); ++i)
            for (CallBase * CB : X.callers(rel[i]))
                if (! CB->getFunction()->getName().starts_with("_ZNSt"))
                    rel.insert(CB->getFunction());
        fs.assign(rel.begin(), rel.end());
        if (getenv("TYPE_DUMP"))
            errs() << "relevant " << fs.size() << "\n";
        for (int r = 0; r < 6; ++r)
        {
            changed = false;
            for (Function * F : fs)
                analyse(*F);
            if (! changed)
                break;
        }
        for (auto & p : fieldUse)
            if (p.second != (ALL))
                X.note("members_used_as_objects", (p.first.first->hasName() ? p.first.first->getName().str() : "?") + "." + X.fieldName(p.first.first, p.first.second) + ":" + typeNames(p.second & ~NUL));
        for (auto & p : req)
            if (X.addressTaken(p.first) && ! entryKind.count(p.first))
                for (unsigned i = 0; i < p.second.size(); ++i)
                    if (p.second[i] != ALL)
                    {
                        // the object whose type the function was installed for comes first
                        bool slot = p.first->arg_size() >= 1 && X.callers(p.first).empty();
                        if (slot && i > 0)
                            X.finding("type", "type:" + X.baseName(p.first) + ":operand", &*inst_begin(p.first), p.first, "operand " + std::to_string(i) + " is used as " + typeNames(p.second[i] & ~NUL) + " without a test");
                        X.note("requirements_of_functions_called_through_pointers", X.shortName(p.first));
                    }
        report = true;
        for (Function * F : fs)
            if (X.inRepo(F))
            {
                X.count("functions_analysed");
                analyse(*F);
            }
    }
};
void run(Ctx & X)
{
    Types T(X);
    T.run();
}
RuleReg reg("type", run);
}
