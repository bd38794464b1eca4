// Rule fmt: every printf-style message has, for each conversion, an argument that exists and is of the kind the conversion
// reads (pointer / floating / integer at least as wide as the conversion).
#include "core.h"

namespace
{
struct Conv
{
    char kind; // 'p' pointer, 'f' double, 'i' int
    int bits;
    std::string text;
};
void parseFmt(const std::string & f, std::vector<Conv> & out)
{
    for (size_t i = 0; i < f.size(); ++i)
    {
        if (f[i] != '%')
            continue;
        size_t s = i++;
        if (i < f.size() && f[i] == '%')
            continue;
        while (i < f.size() && strchr("-+ #0", f[i]))
            ++i;
        auto star = [&]
        {
            if (i < f.size() && f[i] == '*')
            {
                out.push_back({ 'i', 32, "*" });
                ++i;
            }
            while (i < f.size() && isdigit((unsigned char)f[i]))
                ++i;
        };
        star();
        if (i < f.size() && f[i] == '.')
        {
            ++i;
            star();
        }
        int bits = 32;
        while (i < f.size() && strchr("hlLqjzt", f[i]))
        {
            if (f[i] != 'h')
                bits = 64;
            ++i;
        }
        if (i >= f.size())
            break;
        char c = f[i];
        std::string t = f.substr(s, i - s + 1);
        if (strchr("diouxXc", c))
            out.push_back({ 'i', bits, t });
        else if (strchr("fFeEgGaA", c))
            out.push_back({ 'f', 64, t });
        else if (strchr("spSRAUVNTn", c))
        {
            out.push_back({ 'p', 64, t });
            if (c == 'V')
                out.push_back({ 'p', 64, t });
        }
    }
}
void run(Ctx & X)
{
    std::set<std::string> keys;
    for (Function & F : X.M)
    {
        if (F.isDeclaration() || ! X.inRepo(&F))
            continue;
        if (! X.addressTaken(&F) && X.callers(&F).empty())
            continue;
        for (Instruction & I : instructions(F))
        {
            auto * CB = dyn_cast<CallBase>(&I);
            if (! CB || ! CB->getFunctionType()->isVarArg())
                continue;
            Function * D = directCallee(CB);
            if (! D)
                continue;
            std::string n = X.baseName(D);
            unsigned fixed = CB->getFunctionType()->getNumParams();
            bool known = n == "PyErr_Format" || n == "PyUnicode_FromFormat" || n == "PyErr_WarnFormat" || n == "printf" || n == "fprintf" ||
                         n == "snprintf" || n == "sprintf" || n == "PySys_WriteStdout" || n == "PySys_WriteStderr";
            // the repository's own printf-like helpers forward to vsnprintf
            if (! known && ! D->isDeclaration())
                for (Instruction & J : instructions(*D))
                    if (auto * C = dyn_cast<CallBase>(&J))
                        if (Function * V = directCallee(C))
                            if (V->getName().contains("vsnprintf") || V->getName().contains("vsprintf") || V->getName() == "PyErr_FormatV")
                                known = true;
            if (! known || fixed == 0)
                continue;
            Value * FA = CB->getArgOperand(fixed - 1);
            std::vector<std::string> fmts;
            std::function<void(Value *, int)> collect = [&](Value * V, int d)
            {
                if (auto * P = dyn_cast<PHINode>(V); P && d < 3)
                    for (Value * In : P->incoming_values())
                        collect(In, d + 1);
                else if (auto * S = dyn_cast<SelectInst>(V); S && d < 3)
                {
                    collect(S->getTrueValue(), d + 1);
                    collect(S->getFalseValue(), d + 1);
                }
                else if (auto * GV = dyn_cast<GlobalVariable>(V->stripPointerCasts()); GV && GV->isConstant() && GV->hasInitializer())
                    fmts.push_back(constStr(V));
                else if (isNullConst(V))
                    return;
                else
                    fmts.push_back("\1");
            };
            collect(FA, 0);
            for (auto & f : fmts)
            {
                if (f == "\1")
                {
                    X.count("formats_not_constant");
                    std::string key = "fmt:" + X.baseName(&F) + ":nonconst";
                    if (keys.insert(key).second)
                        X.finding("fmt", key, CB, &F, "message format passed to " + n + " is not a constant string: its contents can contain conversions");
                    continue;
                }
                X.count("messages_checked");
                std::vector<Conv> cs;
                parseFmt(f, cs);
                unsigned a = fixed, idx = 0;
                for (auto & c : cs)
                {
                    ++idx;
                    X.count("conversions_checked");
                    std::string base = "fmt:" + X.baseName(&F) + ":" + f.substr(0, 60) + ":" + std::to_string(idx);
                    if (a >= CB->arg_size())
                    {
                        if (keys.insert(base).second)
                            X.finding("fmt", base, CB, &F, "message \"" + f + "\": conversion " + std::to_string(idx) + " (" + c.text + ") has no argument");
                        break;
                    }
                    Type * T = CB->getArgOperand(a++)->getType();
                    std::string why;
                    if (c.kind == 'p' && ! T->isPointerTy())
                        why = "reads a pointer, the argument is a number";
                    else if (c.kind == 'f' && ! T->isFloatingPointTy())
                        why = "reads a floating-point value, the argument is not";
                    else if (c.kind == 'i' && T->isFloatingPointTy())
                        why = "reads an integer, the argument is floating-point";
                    else if (c.kind == 'i' && T->isPointerTy() && c.bits < 64)
                        why = "reads a 32-bit integer, the argument is a pointer";
                    else if (c.kind == 'i' && T->isIntegerTy() && (int)T->getIntegerBitWidth() < c.bits)
                        why = "reads " + std::to_string(c.bits) + " bits, the argument has " + std::to_string(T->getIntegerBitWidth());
                    else if (c.kind == 'i' && T->isIntegerTy() && (int)T->getIntegerBitWidth() > c.bits)
                        why = "reads " + std::to_string(c.bits) + " bits, the argument has " + std::to_string(T->getIntegerBitWidth());
                    if (! why.empty() && keys.insert(base).second)
                        X.finding("fmt", base, CB, &F, "message \"" + f + "\": conversion " + std::to_string(idx) + " (" + c.text + ") " + why);
                }
                if (a < CB->arg_size() && ! cs.empty() && CB->getArgOperand(a))
                    X.count("messages_with_spare_arguments");
            }
        }
    }
}
RuleReg reg("fmt", run);
}
