#include "second.hpp"
const char *prop = "C13"; long default_cases = 15000, thorough_cases = 200000;
using namespace rac;
void run_case(Ctx &ctx) { history2_any(ctx, UNARY | BINARY | OPER | SCALAR | COPY, CHAIN, 1, 4, 8); }
