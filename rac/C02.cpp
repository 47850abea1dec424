#include "first.hpp"
const char *prop = "C02"; long default_cases = 40000, thorough_cases = 600000;
using namespace rac;
void run_case(Ctx &ctx) { history_any(ctx, ASSIGN | OPASSIGN | (ctx.rng.chance(1, 2) ? READ : 0) | (ctx.rng.chance(1, 2) ? BINARY | UNARY | COPY : 0), MEAN | SENS | VAR | COV | PURE); }
