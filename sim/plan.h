// A plan is one fully explicit simulated run: operations, operands and every fault. It is drawn
// from one seed, printed as text, and executing it is a pure function of the text and the code.
#ifndef SIM_PLAN_H
#define SIM_PLAN_H
#include <string>
#include <vector>
#include "machine.h"
struct Plan {
    std::string inst;
    int regs = 4;
    int threads = 0;           // schedsim only
    u64 seed = 0;
    std::vector<Op> ops;
};
std::string op_text(const Op& o);
std::string plan_text(const Plan& p);
bool parse_plans(std::istream& in, std::vector<Plan>& out, std::string& prop, std::string& err);
Plan generate(int prop, u64 seed, int tier);
#endif
