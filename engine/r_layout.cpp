// Rule layout: the on-disk SDS records keep their layout and codes.
#include "core.h"
#include "llvm/BinaryFormat/Dwarf.h"

namespace
{
// what a released file contains: field, byte offset, bytes, kind (u unsigned, i signed, c bytes), array count
struct FieldSpec
{
    const char * name;
    unsigned off, size;
    char kind;
    unsigned n;
};
const FieldSpec fileHeader[] = {
    { "SDSHeaderMagic", 0, 4, 'u', 1 },      { "VersionHigh", 4, 2, 'i', 1 },          { "VersionLow", 6, 2, 'i', 1 },
    { "CompMode", 8, 2, 'i', 1 },            { "CompType", 10, 2, 'i', 1 },            { "CompLevel", 12, 2, 'i', 1 },
    { "NameBlockSize", 16, 8, 'i', 1 },      { "NameBlockOffset", 24, 8, 'i', 1 },     { "NameBlockCount", 32, 8, 'i', 1 },
    { "FileType", 40, 2, 'i', 1 },           { "StackType", 42, 2, 'i', 1 },           { "AuthorId", 44, 4, 'i', 1 },
    { "MetaBlockSize", 48, 8, 'i', 1 },      { "MetaBlockOffset", 56, 8, 'i', 1 },     { "TotalMetaCompressedSize", 64, 8, 'i', 1 },
    { "TotalMetaUncompressedSize", 72, 8, 'i', 1 }, { "ArrayBlockSize", 80, 8, 'i', 1 }, { "ArrayBlockOffset", 88, 8, 'i', 1 },
    { "ArraysWritten", 96, 8, 'i', 1 },      { "ArrayFirstOffset", 104, 8, 'i', 1 },   { "TotalArrayCompressedSize", 112, 8, 'i', 1 },
    { "TotalArrayUncompressedSize", 120, 8, 'i', 1 }, { "BandBlockSize", 128, 8, 'i', 1 }, { "BandBlockOffset", 136, 8, 'i', 1 },
    { "BandBlockCount", 144, 8, 'i', 1 },    { "BandSize", 152, 8, 'i', 1 },           { "SectionBlockSize", 160, 8, 'i', 1 },
    { "SectionBlockOffset", 168, 8, 'i', 1 }, { "SectionBlockCount", 176, 8, 'i', 1 }, { "SectionBlockReservedSize", 184, 8, 'i', 1 },
    { "FileOffset", 192, 8, 'i', 1 },        { "TimeStampUTCNanos", 200, 8, 'u', 1 },
};
const FieldSpec arrayBlock[] = {
    { "HeaderTag", 0, 2, 'i', 1 },  { "HeaderLength", 2, 2, 'i', 1 }, { "Magic", 4, 1, 'u', 1 },   { "CompressionType", 5, 1, 'i', 1 },
    { "DType", 6, 1, 'i', 1 },      { "NDim", 7, 1, 'i', 1 },         { "ItemSize", 8, 4, 'i', 1 }, { "Flags", 12, 4, 'i', 1 },
    { "Dimensions", 16, 8, 'i', 5 }, { "Strides", 56, 8, 'i', 5 },    { "ArrayDataOffset", 96, 8, 'i', 1 },
    { "ArrayCompressedSize", 104, 8, 'i', 1 }, { "ArrayUncompressedSize", 112, 8, 'i', 1 }, { "ArrayBandCount", 120, 4, 'i', 1 },
    { "ArrayBandSize", 124, 4, 'i', 1 },
};
struct RecSpec
{
    const char * name;
    unsigned size;
    const FieldSpec * f;
    unsigned n;
};
const RecSpec recs[] = {
    { "SDS_FILE_HEADER", 512, fileHeader, sizeof(fileHeader) / sizeof(FieldSpec) },
    { "SDS_ARRAY_BLOCK", 128, arrayBlock, sizeof(arrayBlock) / sizeof(FieldSpec) },
};

const DIType * strip(const DIType * T)
{
    while (auto * D = dyn_cast_or_null<DIDerivedType>(T))
    {
        unsigned t = D->getTag();
        if (t != dwarf::DW_TAG_typedef && t != dwarf::DW_TAG_const_type && t != dwarf::DW_TAG_volatile_type && t != dwarf::DW_TAG_atomic_type)
            break;
        T = D->getBaseType();
    }
    return T;
}

std::string describe(const DIType * T0, unsigned & n, uint64_t & elem, char & kind)
{
    const DIType * T = strip(T0);
    n = 1;
    elem = 0;
    kind = '?';
    if (auto * C = dyn_cast_or_null<DICompositeType>(T))
    {
        if (C->getTag() == dwarf::DW_TAG_array_type)
        {
            for (auto * E : C->getElements())
                if (auto * S = dyn_cast<DISubrange>(E))
                    if (auto * K = dyn_cast_if_present<ConstantInt *>(S->getCount()))
                        n *= K->getZExtValue();
            T = strip(C->getBaseType());
        }
        else if (C->getTag() == dwarf::DW_TAG_enumeration_type)
            T = strip(C->getBaseType());
    }
    if (auto * B = dyn_cast_or_null<DIBasicType>(T))
    {
        elem = B->getSizeInBits() / 8;
        switch (B->getEncoding())
        {
        case dwarf::DW_ATE_signed:
        case dwarf::DW_ATE_signed_char:
            kind = 'i';
            break;
        case dwarf::DW_ATE_unsigned:
        case dwarf::DW_ATE_unsigned_char:
        case dwarf::DW_ATE_boolean:
            kind = 'u';
            break;
        case dwarf::DW_ATE_float:
            kind = 'f';
            break;
        }
    }
    return std::string(kind == 'i' ? "signed " : kind == 'u' ? "unsigned " : kind == 'f' ? "floating " : "other ") + std::to_string(elem) +
           " byte" + (n > 1 ? " x " + std::to_string(n) : "");
}
// codes a record field may be given or compared with
struct CodeSpec
{
    const char *rec, *field;
    std::vector<int64_t> codes;
};
const CodeSpec codes[] = {
    { "SDS_FILE_HEADER", "SDSHeaderMagic", { 0x20534453 } }, { "SDS_FILE_HEADER", "VersionHigh", { 4 } },
    { "SDS_FILE_HEADER", "FileType", { 0, 1, 2, 3, 4, 5 } }, { "SDS_FILE_HEADER", "StackType", { 0, 1 } },
    { "SDS_ARRAY_BLOCK", "CompressionType", { 0, 1 } },      { "SDS_ARRAY_BLOCK", "Magic", { 253, -3 } },
    { "SDS_ARRAY_BLOCK", "HeaderLength", { 128 } },
};
// codes with a fixed meaning: the constant a writer stores
const int64_t releasedVersionLow = 6;

// 0 in released files where it is not set
bool optional(StringRef n)
{
    return n == "HeaderTag" || n == "ArrayBandCount" || n == "ArrayBandSize";
}

void run(Ctx & X)
{
    for (auto & R : recs)
    {
        StructType * ST = StructType::getTypeByName(X.M.getContext(), std::string("struct.") + R.name);
        auto * C = X.debugType(ST);
        if (! C)
        {
            X.broken(std::string("layout: no type ") + R.name);
            continue;
        }
        // released name of the field at the offset where `name` lies now
        std::map<std::string, std::string> canon;
        for (auto * E : C->getElements())
            if (auto * M = dyn_cast<DIDerivedType>(E); M && M->getTag() == dwarf::DW_TAG_member && ! M->isStaticMember())
                for (unsigned i = 0; i < R.n; ++i)
                    if (M->getOffsetInBits() == R.f[i].off * 8)
                        canon[M->getName().str()] = R.f[i].name;
        // an instruction to report at: the first use of the record
        Instruction * at = nullptr;
        Function * atF = nullptr;
        std::map<Function *, std::set<std::string>> stored;
        std::map<Function *, Instruction *> firstStore;
        std::set<Function *> wholly; // clear or copy the record first; what they must set from data is rule sds' business
        for (Function & F : X.M)
        {
            if (! X.inRepo(&F))
                continue;
            DenseSet<Value *> bases;
            for (Instruction & I : instructions(F))
                if (auto * G = dyn_cast<GetElementPtrInst>(&I); G && G->getSourceElementType() == ST)
                {
                    if (auto * K = dyn_cast<ConstantInt>(G->getOperand(1)); K && K->isZero())
                        bases.insert(G->getPointerOperand());
                    if (! at)
                    {
                        at = G;
                        atF = &F;
                    }
                }
            auto field = [&](Value * P, Type * T) -> std::string
            {
                unsigned f;
                for (int d = 0; d < 4; ++d)
                {
                    if (auto * S = gepStruct(P, f))
                    {
                        if (X.debugType(S) == C)
                            return canon[X.fieldName(S, f)];
                    }
                    // element of an array field
                    auto * G = dyn_cast<GEPOperator>(P);
                    if (! G || G->getNumIndices() > 2)
                        break;
                    P = G->getPointerOperand();
                }
                if (bases.count(P) && T->isIntegerTy(ST->getElementType(0)->getIntegerBitWidth()))
                    return R.f[0].name;
                return "";
            };
            auto judge = [&](Instruction * I, const std::string & f, const APInt & v, bool store)
            {
                if (f.empty())
                    return;
                if (store && f == "VersionLow")
                {
                    X.count("format_codes_checked");
                    if (v.getSExtValue() != releasedVersionLow)
                        X.finding("layout", "layout:VersionLow:changed", I, &F, "files are written with another format version than released ones");
                }
                for (auto & S : codes)
                    if (f == S.field && std::string(R.name) == S.rec)
                    {
                        X.count("format_codes_checked");
                        bool ok = false;
                        for (int64_t c : S.codes)
                            ok |= v.getSExtValue() == c || v.getZExtValue() == (uint64_t)c;
                        if (! ok)
                            X.finding("layout", "layout:" + f + ":code:" + std::to_string(v.getSExtValue()), I, &F,
                                      f + (store ? " is written with a code no released reader knows: " : " is compared with a code released writers never use: ") +
                                          std::to_string(v.getSExtValue()));
                    }
            };
            for (Instruction & I : instructions(F))
            {
                if (auto * MS = dyn_cast<MemIntrinsic>(&I))
                    if (auto * L = dyn_cast<ConstantInt>(MS->getLength()); L && bases.count(MS->getRawDest()) && L->getZExtValue() >= R.size)
                        wholly.insert(&F);
                if (auto * S = dyn_cast<StoreInst>(&I))
                {
                    std::string f = field(S->getPointerOperand(), S->getValueOperand()->getType());
                    if (f.empty())
                        continue;
                    stored[&F].insert(f);
                    firstStore.insert({ &F, &I });
                    if (auto * K = dyn_cast<ConstantInt>(S->getValueOperand()))
                        judge(&I, f, K->getValue(), true);
                }
                else if (auto * S = dyn_cast<ICmpInst>(&I); S && S->isEquality())
                {
                    if (auto * K = dyn_cast<ConstantInt>(S->getOperand(1)))
                        if (auto * L = dyn_cast<LoadInst>(stripCasts(S->getOperand(0))))
                            judge(&I, field(L->getPointerOperand(), L->getType()), K->getValue(), false);
                }
                else if (auto * S = dyn_cast<SwitchInst>(&I))
                {
                    if (auto * L = dyn_cast<LoadInst>(stripCasts(S->getCondition())))
                        for (auto & c : S->cases())
                            judge(&I, field(L->getPointerOperand(), L->getType()), c.getCaseValue()->getValue(), false);
                }
            }
        }
        if (! at)
        {
            X.broken(std::string("layout: record unused: ") + R.name);
            continue;
        }
        if (C->getSizeInBits() / 8 != R.size)
            X.finding("layout", std::string("layout:") + R.name + ":size", at, atF,
                      std::string(R.name) + " is " + std::to_string(C->getSizeInBits() / 8) + " bytes, files have " + std::to_string(R.size));
        X.count("records_checked");
        for (unsigned i = 0; i < R.n; ++i)
        {
            const FieldSpec & fs = R.f[i];
            X.count("record_fields_checked");
            const DIDerivedType * D = nullptr;
            for (auto * E : C->getElements())
                if (auto * M = dyn_cast<DIDerivedType>(E))
                    if (M->getTag() == dwarf::DW_TAG_member && ! M->isStaticMember() && M->getOffsetInBits() == fs.off * 8)
                        D = M;
            std::string k = std::string("layout:") + R.name + "." + fs.name;
            if (! D)
            {
                X.finding("layout", k, at, atF, std::string("no field at offset ") + std::to_string(fs.off) + ", where files have " + fs.name);
                continue;
            }
            unsigned n;
            uint64_t e;
            char kind;
            std::string d = describe(D->getBaseType(), n, e, kind);
            if (e != fs.size || n != fs.n || kind != fs.kind)
                X.finding("layout", k, at, atF, std::string("the field at offset ") + std::to_string(fs.off) + " is " + d + ", files have " + fs.name + " there");
            // same record, another field in its place
            if (D->getName() != fs.name)
                for (unsigned j = 0; j < R.n; ++j)
                    if (j != i && D->getName() == R.f[j].name)
                        X.finding("layout", k, at, atF,
                                  std::string("offset ") + std::to_string(fs.off) + " holds " + D->getName().str() + ", files have " + fs.name + " there");
        }
        // writers: whoever stamps the record sets all of it
        std::set<std::string> need;
        for (unsigned i = 0; i < R.n; ++i)
            if (! optional(R.f[i].name))
                need.insert(R.f[i].name);
        std::map<Function *, std::set<std::string>> closure;
        for (auto & kv : stored)
        {
            auto & all = closure[kv.first];
            all = kv.second;
            for (Function * G : X.reach({ kv.first }).order)
                if (auto it = stored.find(G); it != stored.end())
                    all.insert(it->second.begin(), it->second.end());
        }
        unsigned writers = 0;
        for (auto & kv : stored)
        {
            std::set<std::string> all = closure[kv.first];
            unsigned have = 0;
            for (auto & n : need)
                have += all.count(n);
            // only who sets much of it by itself is a writer; a part factored out of one is not
            if (have * 10 < need.size() * 6 || kv.second.size() * 10 < need.size() * 4)
                continue;
            ++writers;
            for (CallBase * CB : X.callers(kv.first))
                if (auto it = stored.find(CB->getFunction()); it != stored.end())
                    all.insert(it->second.begin(), it->second.end());
            X.note("record_writers", std::string(R.name) + ": " + X.baseName(kv.first));
            for (auto & n : need)
            {
                X.count("writer_fields_checked");
                if (! all.count(n) && ! wholly.count(kv.first))
                    X.finding("layout", std::string("layout:") + X.baseName(kv.first) + ":unset:" + n, firstStore[kv.first], kv.first,
                              X.baseName(kv.first) + " fills in a " + R.name + " without setting " + n);
            }
        }
        if (! writers)
            X.broken(std::string("layout: nobody fills in ") + R.name);
    }
}
RuleReg reg("layout", run);
}
