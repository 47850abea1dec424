#include "second.hpp"
const char *prop = "C11"; long default_cases = 6000, thorough_cases = 60000;
using namespace rac;
void run_case(Ctx &ctx) {
    const bool big = ctx.rng.chance(1, 40);
    if (ctx.index % 3 == 0) { history2_any(ctx, DENSE, MOM | MOMHI | STATS, 4, ctx.index % 12 == 0 ? 5 : 4, 2); return; }
    history2_any(ctx, UNARY | BINARY | LINEAR | OPER | DENSE, MOM | MOMHI | STATS, big ? 5 : 1, big ? 7 : 4, big ? 4 : 5);
}
