#include "second.hpp"
const char *prop = "C12"; long default_cases = 10000, thorough_cases = 100000;
using namespace rac;
void run_case(Ctx &ctx) { const bool big = ctx.rng.chance(1, 15); const bool huge = big && ctx.rng.chance(1, 10); history2_any(ctx, UNARY | BINARY | LINEAR | OPER | DENSE, COV, huge ? 12 : big ? 5 : 1, huge ? 40 : big ? 8 : 4, big ? 8 : 5); }
