#include "first.hpp"
const char *prop = "C05"; long default_cases = 40000, thorough_cases = 600000;
using namespace rac;
void run_case(Ctx &ctx) { history_any(ctx, UNARY | BINARY | OPER | (ctx.rng.chance(1, 3) ? ASSIGN | READ | COPY : 0), GRAD, false); }
