#include "first.hpp"
const char *prop = "C03"; long default_cases = 40000, thorough_cases = 600000;
using namespace rac;
void run_case(Ctx &ctx) { history_any(ctx, UNARY | BINARY | NARY | READ | COPY | (ctx.rng.chance(1, 3) ? ASSIGN : 0), VAR | COV | CORR | SENS); }
