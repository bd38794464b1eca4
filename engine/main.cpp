#include "core.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"

int main(int argc, char ** argv)
{
    std::vector<std::string> files, rules;
    std::string repo = "/repo/";
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        if (a.rfind("--rule=", 0) == 0)
            rules.push_back(a.substr(7));
        else if (a.rfind("--repo=", 0) == 0)
            repo = a.substr(7);
        else if (a == "--list")
        {
            for (auto & r : ruleMap())
                outs() << r.first << "\n";
            return 0;
        }
        else
            files.push_back(a);
    }
    LLVMContext C;
    std::unique_ptr<Module> M;
    for (auto & f : files)
    {
        SMDiagnostic E;
        auto m = parseIRFile(f, E, C);
        if (! m)
        {
            E.print("rtsa", errs());
            return 3;
        }
        if (! M)
            M = std::move(m);
        else if (Linker::linkModules(*M, std::move(m)))
        {
            errs() << "link failed: " << f << "\n";
            return 3;
        }
    }
    if (! M)
        return 3;
    Ctx X(*M);
    X.setRepo(repo);
    X.buildIndex();
    int64_t nf = 0, ni = 0;
    for (Function & F : *M)
        if (! F.isDeclaration())
        {
            nf++;
            ni += F.getInstructionCount();
        }
    X.count("module_functions", nf);
    X.count("module_instructions", ni);
    for (auto & r : rules)
    {
        auto it = ruleMap().find(r);
        if (it == ruleMap().end())
        {
            errs() << "no rule " << r << "\n";
            return 3;
        }
        it->second(X);
    }
    X.dump();
    return 0;
}
