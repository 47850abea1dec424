#include "first.hpp"
const char *prop = "C01"; long default_cases = 40000, thorough_cases = 600000;
using namespace rac;
void run_case(Ctx &ctx) { history_any(ctx, UNARY | BINARY | NARY | OPER | SCALAR | (ctx.rng.chance(1, 4) ? READ | COPY : 0), MEAN | SENS | PURE); }
