// rtsa: repository-specific static analyser for riptide_cpp, over whole-program LLVM IR.
#pragma once
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/DenseSet.h"
#include "llvm/ADT/MapVector.h"
#include "llvm/ADT/SetVector.h"
#include "llvm/ADT/SmallVector.h"
#include "llvm/ADT/StringMap.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

struct Ctx
{
    Module & M;
    explicit Ctx(Module & m) : M(m) {}

    // ---- reporting -------------------------------------------------------
    void finding(const std::string & rule, const std::string & key, const Instruction * at, const Function * fn,
                 const std::string & msg);
    void count(const std::string & name, int64_t n = 1) { counts[name] += n; }
    void note(const std::string & name, const std::string & v)
    {
        auto & s = notes[name];
        if (s.size() < 4000)
            s.insert(v);
    }
    // an anchor the rule needs does not exist any more
    void broken(const std::string & why) { brokenMsgs.push_back(why); }
    void dump();

    struct F
    {
        std::string rule, key, func, file, msg;
        unsigned line;
        std::vector<std::string> callers; // the same key named after each function that calls this one
    };
    std::vector<F> findings;
    std::map<std::string, std::vector<const Function *>> byBase;
    std::map<std::string, std::set<std::string>> callerNames;
    std::map<std::string, int64_t> counts;
    std::map<std::string, std::set<std::string>> notes;
    std::vector<std::string> brokenMsgs;

    // ---- names -----------------------------------------------------------
    const std::string & dem(const Function * F);  // full demangled name
    std::string shortName(const Function * F);    // without parameters/return type
    std::string baseName(const Function * F);     // last component, without template arguments
    static std::string demangleStr(StringRef n);
    std::string srcFile(const Function * F);      // relative to src/, "" when unknown
    bool inRepo(const Function * F);              // source file lies in /repo
    std::string loc(const Instruction * I, unsigned * line = nullptr);

    // source-level name of a structure field (from debug info), "" when unknown
    std::string fieldName(StructType * T, unsigned idx);
    const DICompositeType * debugType(StructType * T);

    // ---- call graph --------------------------------------------------------
    // all functions V may denote. Sets complete=false when resolution fell back to signature matching.
    const SetVector<Function *> & targets(CallBase * CB);
    void resolve(Value * V, SetVector<Function *> & out, bool & complete);
    void buildIndex();
    struct CallEdge
    {
        CallBase * site;
        Function * callee;
    };
    const std::vector<CallEdge> & edges(Function * F);
    const std::vector<CallBase *> & callers(Function * F); // direct and resolved
    bool isVirtualCall(CallBase * CB); // resolved through vtable slots only
    bool mayThrow(Function * F); // can an exception leave F
    bool mayThrow(CallBase * CB);
    bool addressTaken(const Function * F) const { return addrTaken.count(const_cast<Function *>(F)); }

    // forward reachability. stop(F) true: F is visited but not expanded.
    struct Reach
    {
        DenseMap<Function *, std::pair<Function *, CallBase *>> pred;
        std::vector<Function *> order;
        bool has(Function * F) const { return pred.count(F); }
    };
    Reach reach(const std::vector<Function *> & roots, std::function<bool(Function *)> stop = nullptr);
    std::string path(const Reach & R, Function * F);

    // Functions published in the module's method table.
    const std::vector<Function *> & methodFunctions();

    // Functions that can run on a thread other than the one that entered from Python.
    std::vector<Function *> workerRoots();

private:
    struct FieldKey
    {
        Type * T;
        unsigned idx;
        bool operator<(const FieldKey & o) const { return T != o.T ? T < o.T : idx < o.idx; }
    };
    std::map<FieldKey, std::vector<Value *>> fieldStores;
    DenseMap<GlobalVariable *, std::vector<Value *>> globalStores;
    std::map<FunctionType *, std::vector<Function *>> byType;
    std::vector<Function *> methods;
    bool methodsBuilt = false;
    DenseSet<Function *> addrTaken, memPtrTaken, throwSet;
    bool throwBuilt = false;
    DenseMap<CallBase *, SetVector<Function *>> tgtCache;
    DenseSet<CallBase *> virtCalls;
    DenseMap<Function *, std::vector<CallEdge>> edgeCache;
    DenseMap<Function *, std::vector<CallBase *>> callerCache;
    DenseMap<Function *, std::vector<CallBase *>> directCallers;
    bool callersBuilt = false;
    DenseMap<const Function *, std::string> demCache;
    StringMap<const DICompositeType *> diTypes;
    bool diBuilt = false;
    bool indexed = false;
    std::map<std::pair<unsigned, FunctionType *>, std::vector<Function *>> vtSlots;
    bool fieldOf(Value * Ptr, FieldKey & k);
    void resolveRec(Value * V, SetVector<Function *> & out, bool & complete, DenseSet<Value *> & seen, int depth);
    std::string repoPrefix;

public:
    void setRepo(const std::string & p) { repoPrefix = p; }
    const std::string & repo() const { return repoPrefix; }
};

// value helpers
Value * stripCasts(Value * V);                 // int casts and pointer casts
bool isNullConst(const Value * V);
Value * getUnderlyingBase(Value * P);
StructType * gepStruct(Value * Ptr, unsigned & field); // struct type and field index addressed by Ptr
std::string constStr(Value * V);               // string constant, or ""
std::string jsonEsc(const std::string & s);
inline Function * directCallee(const CallBase * CB)
{
    return dyn_cast_or_null<Function>(CB->getCalledOperand()->stripPointerCastsAndAliases());
}

typedef void (*RuleFn)(Ctx &);
struct RuleReg
{
    RuleReg(const char * name, RuleFn fn);
};
std::map<std::string, RuleFn> & ruleMap();
