#include "second.hpp"
const char *prop = "C10"; long default_cases = 12000, thorough_cases = 200000;
using namespace rac;
void run_case(Ctx &ctx) {
    const bool big = ctx.rng.chance(1, 15);
    const bool huge = big && ctx.rng.chance(1, 10);
    history2_any(ctx, UNARY | BINARY | OPER | SCALAR | COPY | (ctx.rng.chance(1, 3) ? ASSIGN : 0), MEAN | GRAD | HESS | PURE | IDS | (ctx.index % 8 == 0 ? MOM | MOMHI : 0), huge ? 12 : big ? 5 : 1, huge ? 40 : big ? 9 : ctx.index % 8 == 0 ? 2 : 4, big ? 12 : 6);
}
