"""Strings of digits and powers of ten (for C18): the prover and the string values.

Numbers are normalised to linear combinations of a*10^i (a: an atom of the code or 1, i: a linear integer term), so that
multiplying by a power of ten is a shift of i; formulas become linear arithmetic over these terms, closed under
  A <=> A shifted by 10^u                      (for the shifts u that align two terms of the same atom)
  i <= j => 10^i <= 10^j,  i+1 <= j => 10*10^i <= 10^j,  10^i > 0,  i >= 0 => 10^i is an integer,
  i = 0 => a*10^i = a,  a*10^i has the sign of a,  log10 is increasing.
Every one of these is valid, so unsat is a proof; sat may be due to a missing instance and is not a refutation."""
from fractions import Fraction
import math
import time
import z3
import cross
from values import *

P10 = z3.Function('P10', I, R)     # 10^k
PI10 = z3.Function('PI10', I, I)   # 10^k for k >= 0
KEEP = {}                          # term id -> term (kept alive)
ONE = 0                            # the atom 1
CONSTS = {}                        # canonical key -> constant standing for floor, round, log10 ... of a term
LOGS = {}                          # id of a log10 constant -> its argument
STATS = {'queries': 0, 'time': 0.0}

def keep(t):
    KEEP[t.get_id()] = t
    return t.get_id()

def linI(t):
    """Integer term -> ({atom id: coefficient}, constant); None if not linear."""
    if z3.is_int_value(t):
        return {}, t.as_long()
    k = t.decl().kind() if z3.is_app(t) else None
    if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
        d, c = {}, 0
        for n, x in enumerate(t.children()):
            a, b = linI(x)
            s = -1 if (k == z3.Z3_OP_SUB and n > 0) else 1
            c += s * b
            for y, z in a.items():
                d[y] = d.get(y, 0) + s * z
        return {y: z for y, z in d.items() if z}, c
    if k == z3.Z3_OP_UMINUS:
        a, b = linI(t.arg(0))
        return {y: -z for y, z in a.items()}, -b
    if k == z3.Z3_OP_MUL:
        c, rest = 1, []
        for x in t.children():
            if z3.is_int_value(x):
                c *= x.as_long()
            else:
                rest.append(x)
        if len(rest) == 1:
            a, b = linI(rest[0])
            return {y: c * z for y, z in a.items() if c}, c * b
        if not rest:
            return {}, c
    if k == z3.Z3_OP_TO_INT:
        r = intval(t.arg(0))
        if r is not None:
            return linI(r)
    return {keep(t): 1}, 0

def idx(t):
    """Integer exponent -> (index key, power of ten of its constant part)."""
    a, c = linI(t)
    return tuple(sorted(a.items())), c

def idx_add(i, j):
    d = dict(i)
    for a, c in j:
        d[a] = d.get(a, 0) + c
    return tuple(sorted((a, c) for a, c in d.items() if c))

def idx_neg(i):
    return tuple((a, -c) for a, c in i)

def idx_term(i):
    return z3.Sum([c * KEEP[a] if c != 1 else KEEP[a] for a, c in i]) if len(i) > 1 else (i[0][1] * KEEP[i[0][0]] if i[0][1] != 1 else KEEP[i[0][0]]) if i else iv(0)

def addto(d, k, c):
    s = d.get(k, 0) + c
    if s:
        d[k] = s
    else:
        d.pop(k, None)

def ladd(a, b, s=1):
    d = dict(a)
    for k, c in b.items():
        addto(d, k, s * c)
    return d

def lscale(a, c):
    return {k: c * v for k, v in a.items()} if c else {}

def lmul(a, b):
    d = {}
    for (x, i), c in a.items():
        for (y, j), e in b.items():
            if x == ONE or y == ONE:
                z = y if x == ONE else x
            else:
                p, q = sorted((x, y))
                z = keep(KEEP[p] * KEEP[q])
            addto(d, (z, idx_add(i, j)), c * e)
    return d

MEMO = {}
def lin(t):
    r = MEMO.get(t.get_id())
    if r is None:
        keep(t)
        r = MEMO[t.get_id()] = lin_(t)
    return r

def lin_(t):
    if t.sort() == I:
        a, c = linI(t)
        d = {(keep(z3.ToReal(KEEP[y])), ()): Fraction(z) for y, z in a.items()}
        if c:
            d[(ONE, ())] = Fraction(c)
        return d
    if z3.is_rational_value(t):
        f = t.as_fraction()
        return {(ONE, ()): Fraction(f)} if f else {}
    k = t.decl().kind() if z3.is_app(t) else None
    if k == z3.Z3_OP_ADD:
        d = {}
        for x in t.children():
            d = ladd(d, lin(x))
        return d
    if k == z3.Z3_OP_SUB:
        d = dict(lin(t.arg(0)))
        for x in t.children()[1:]:
            d = ladd(d, lin(x), -1)
        return d
    if k == z3.Z3_OP_UMINUS:
        return lscale(lin(t.arg(0)), -1)
    if k == z3.Z3_OP_MUL:
        d = {(ONE, ()): Fraction(1)}
        for x in t.children():
            d = lmul(d, lin(x))
        return d
    if k == z3.Z3_OP_DIV:
        b = lin(t.arg(1))
        if len(b) == 1:
            ((a, i), c), = b.items()
            if a == ONE:
                return lmul(lin(t.arg(0)), {(ONE, idx_neg(i)): 1 / c})
        raise Unsupported('division by something else than a power of ten')
    if k == z3.Z3_OP_TO_REAL:
        return lin(t.arg(0))
    if t.decl().eq(P10):
        i, c = idx(t.arg(0))
        return {(ONE, i): Fraction(10) ** c}
    if k == z3.Z3_OP_ITE:
        raise Unsupported('conditional term')
    return {(keep(t), ()): Fraction(1)}

def key_of(t):
    return tuple(sorted((k, str(c)) for k, c in lin(t).items()))

def intval(t):
    """The integer term equal to a real term made of integers, or None."""
    out, c = [], 0
    for (a, i), k in lin(t).items():
        if i or k.denominator != 1:
            return None
        if a == ONE:
            c = int(k)
        else:
            x = KEEP[a]
            if x.decl().kind() != z3.Z3_OP_TO_REAL:
                return None
            out.append(x.arg(0) if k == 1 else int(k) * x.arg(0))
    if c or not out:
        out.append(iv(c))
    return simp(z3.Sum(out)) if len(out) > 1 else out[0]

def const_of(what, t, sort):
    """The constant standing for what(t)."""
    k = (what, key_of(t))
    if k not in CONSTS:
        CONSTS[k] = z3.Const('%s~%d' % (what, len(CONSTS)), sort)
        keep(CONSTS[k])
        if what == 'log10':
            LOGS[CONSTS[k].get_id()] = t
    return CONSTS[k]

# ------------------------------------------------------------------ prover
class Query:
    def __init__(self):
        self.terms = {}      # (atom, index) -> z3 term
        self.atoms = {}      # (linear form key, op) -> (linear form, op, z3 bool)
        self.out = []

    def term(self, a, i):
        r = self.terms.get((a, i))
        if r is None:
            if not i:
                r = rv(1) if a == ONE else KEEP[a]
            elif a == ONE:
                r = P10(idx_term(i))
            else:
                r = z3.Function('S@%d' % a, I, R)(idx_term(i))
            self.terms[(a, i)] = r
        return r

    def expr(self, L):
        ts = []
        for (a, i), c in L.items():
            t = self.term(a, i)
            ts.append(rv(c) if (a == ONE and not i) else rv(c) * t if c != 1 else t)
        return z3.Sum(ts) if len(ts) > 1 else ts[0] if ts else ZERO

    def ints(self, L):
        """The linear form over integers, if it is one."""
        ts, den = [], 1
        for (a, i), c in L.items():
            if i or (a != ONE and KEEP[a].decl().kind() != z3.Z3_OP_TO_REAL):
                return None
            den = den * c.denominator // math.gcd(den, c.denominator)
        for (a, i), c in L.items():
            k = int(c * den)
            ts.append(iv(k) if a == ONE else KEEP[a].arg(0) if k == 1 else k * KEEP[a].arg(0))
        return z3.Sum(ts) if len(ts) > 1 else ts[0] if ts else iv(0)

    def cmp(self, L, op):
        e = self.ints(L)
        if e is not None:
            return e <= 0 if op == '<=' else e <= -1 if op == '<' else e == 0
        e = self.expr(L)
        return e <= 0 if op == '<=' else e < 0 if op == '<' else e == 0

    def atom(self, L, op):
        k = (tuple(sorted(L.items())), op)
        if k not in self.atoms:
            self.expr(L)
            self.atoms[k] = (L, op, self.cmp(L, op))
        return self.atoms[k][2]

    def tr(self, f):
        if not z3.is_app(f):
            raise Unsupported('quantifier')
        k = f.decl().kind()
        ch = f.children()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR):
            c = [self.tr(x) for x in ch]
            return {z3.Z3_OP_AND: lambda: z3.And(*c), z3.Z3_OP_OR: lambda: z3.Or(*c), z3.Z3_OP_NOT: lambda: z3.Not(c[0]),
                    z3.Z3_OP_IMPLIES: lambda: z3.Implies(c[0], c[1]), z3.Z3_OP_XOR: lambda: z3.Xor(c[0], c[1])}[k]()
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF) and ch[0].sort() == B:
            return self.tr(ch[0]) == self.tr(ch[1])
        if k == z3.Z3_OP_ITE:
            return z3.If(self.tr(ch[0]), self.tr(ch[1]), self.tr(ch[2]))
        if k == z3.Z3_OP_DISTINCT and len(ch) == 2:
            return z3.Not(self.tr(ch[0] == ch[1]))
        op = {z3.Z3_OP_LE: '<=', z3.Z3_OP_GE: '>=', z3.Z3_OP_LT: '<', z3.Z3_OP_GT: '>', z3.Z3_OP_EQ: '=='}.get(k)
        if op and ch[0].sort() in (I, R):
            L = ladd(lin(ch[0]), lin(ch[1]), -1)
            if op in ('>=', '>'):
                L = lscale(L, -1)
                op = '<=' if op == '>=' else '<'
            self.out_int = ch[0].sort() == I
            return self.atom(L, op)
        return f

    def close(self, rounds=2, cap=4000):
        done = set()
        for r in range(rounds):
            if r < 2:
                ps = [i for (a, i) in self.terms if a == ONE and i]
                for a in {a for (a, i) in self.terms if i and a != ONE and KEEP[a].decl().kind() == z3.Z3_OP_TO_REAL}:
                    # an integer multiplied by a power of ten may itself be one
                    for i in ps:
                        self.atom({(a, ()): Fraction(1), (ONE, i): Fraction(-1)}, '<=')
                        self.atom({(a, ()): Fraction(-1), (ONE, i): Fraction(1)}, '<=')
            where = {}
            for (a, i) in list(self.terms):
                where.setdefault(a, set()).add(i)
            for k, (L, op, z) in list(self.atoms.items()):
                if len(L) > 9:
                    continue
                shifts = set()
                for (a, i) in L:
                    if a == ONE:
                        continue
                    for j in where.get(a, ()):
                        u = idx_add(j, idx_neg(i))
                        if u:
                            shifts.add(u)
                for u in shifts:
                    if (k, u) in done or len(done) > cap:
                        continue
                    done.add((k, u))
                    M = {(a, idx_add(i, u)): c for (a, i), c in L.items()}
                    self.out.append(z == self.atom(M, op))

    def lemmas(self):
        out = list(self.out)
        ps = [i for (a, i) in self.terms if a == ONE]
        if () not in ps:
            ps.append(())
        for i in ps:
            if i:
                p, t = self.term(ONE, i), idx_term(i)
                out += [p > 0, z3.Implies(t >= 0, z3.And(p == z3.ToReal(PI10(t)), PI10(t) >= 1)), z3.Implies(t >= 1, PI10(t) == 10 * PI10(t - 1))]
        for (a, i), x in list(self.terms.items()):
            if i:
                t = idx_term(i)
                y = rv(1) if a == ONE else KEEP[a]
                out += [z3.Implies(t == c, x == rv(Fraction(10) ** c) * y) for c in range(-7, 8)]
        for n, i in enumerate(ps):
            for j in ps[n + 1:]:
                p, q, s, t = self.term(ONE, i), self.term(ONE, j), idx_term(i), idx_term(j)
                out += [z3.Implies(s <= t, p <= q), z3.Implies(t <= s, q <= p), z3.Implies(s + 1 <= t, 10 * p <= q), z3.Implies(t + 1 <= s, 10 * q <= p),
                        z3.Implies(s + 2 <= t, 100 * p <= q), z3.Implies(t + 2 <= s, 100 * q <= p),
                        z3.Implies(s == t + 1, p == 10 * q), z3.Implies(t == s + 1, q == 10 * p)]
        by = {}
        for (a, i) in self.terms:
            if a != ONE:
                by.setdefault(a, []).append(i)
        for a in by:
            if KEEP[a].decl().kind() == z3.Z3_OP_TO_REAL:
                k = KEEP[a].arg(0)
                for i in ps:
                    if i:
                        p, t = self.term(ONE, i), idx_term(i)
                        for d in (0, 1):
                            n, q = PI10(t - d), p / 10 ** d
                            out.append(z3.Implies(t >= d, z3.Or(z3.And(k <= n - 1, KEEP[a] <= q - 1), z3.And(k == n, KEEP[a] == q), z3.And(k >= n + 1, KEEP[a] >= q + 1))))
        for a, l in by.items():
            if () not in l and any(l):
                l = l + [()]
            for n, i in enumerate(l):
                for j in l[n + 1:]:
                    x, y, s, t = self.term(a, i), self.term(a, j), idx_term(i), idx_term(j)
                    out += [(x > 0) == (y > 0), (x < 0) == (y < 0), z3.Implies(s == t, x == y),
                            z3.Implies(s == t + 1, x == 10 * y), z3.Implies(t == s + 1, y == 10 * x)]
        logs = [a for a in by if a in LOGS]
        for a in logs:
            x, L = lin(LOGS[a]), KEEP[a]
            for i in ps:
                if i:
                    for c in (-1, 0, 1, 2):
                        d, t = ladd(x, {(ONE, i): Fraction(10) ** c}, -1), z3.ToReal(idx_term(i) + c)
                        out += [self.cmp(d, '<') == (L < t), self.cmp(d, '<=') == (L <= t)]
        for n, a in enumerate(logs):
            for b in logs[n + 1:]:
                d = ladd(lin(LOGS[a]), lin(LOGS[b]), -1)
                out += [self.cmp(d, '<') == (KEEP[a] < KEEP[b]), self.cmp(lscale(d, -1), '<') == (KEEP[b] < KEEP[a])]
        return out

SOLVED = {}
def solve(forms, timeout=8000, rounds=2, first=0):
    """unsat: proved. The closure is tried with a growing number of rounds."""
    key = (frozenset(f.get_id() for f in forms), rounds, timeout)
    if key in SOLVED:
        return SOLVED[key]
    for f in forms:
        keep(f)
    r = m = None
    for n in range(first, rounds + 1):
        r, m = solve_(forms, timeout, n)
        if r == z3.unsat:
            break
    SOLVED[key] = (r, m)
    return r, m

ABOUT = {}
def about(f):
    """(whether powers of ten occur in the formula, the constants it uses as numbers rather than as exponents)."""
    r = ABOUT.get(f.get_id())
    if r is not None:
        return r
    keep(f)
    power, nums, seen, st = False, set(), set(), [(f, False)]
    while st:
        t, real = st.pop()
        if (t.get_id(), real) in seen or not z3.is_app(t):
            continue
        seen.add((t.get_id(), real))
        if t.num_args() == 0:
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and (t.sort() != I or real):
                nums.add(t.get_id())
                keep(t)
            continue
        p = t.decl().eq(P10)
        power = power or p
        st += [(c, real or t.decl().kind() == z3.Z3_OP_TO_REAL) if not p else (c, False) for c in t.children()]
    ABOUT[f.get_id()] = power, frozenset(nums)
    return ABOUT[f.get_id()]

def relevant(pc, goal):
    """The formulas without powers, and those about a number that occurs in the goal or is defined by the numbers there."""
    ns = about(goal)[1]
    for f in pc:
        if z3.is_eq(f) and about(f)[0] and about(f)[1] & about(goal)[1]:
            ns = ns | about(f)[1]
    return [f for f in pc if not about(f)[0] or about(f)[1] & ns]

def powerless(pc):
    return [f for f in pc if not about(f)[0]]

def solve_(forms, timeout, rounds):
    t = time.time()
    q = Query()
    fs = [q.tr(f) for f in forms]
    q.close(rounds)
    ls = q.lemmas()
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(*fs)
    s.add(*ls)
    r = s.check()
    STATS['queries'] += 1
    STATS['time'] += time.time() - t
    if r == z3.unsat and not cross.confirm(s):
        r = z3.unknown
    return r, (s.model() if r == z3.sat else None)

# ------------------------------------------------------------------ strings
class StrV:
    """A string: segments ('D', length, value) digits, ('R', length, value) digits least significant first, ('L', text) other
    characters, ('N', int) a decimal integer >= 0, ('S', name) an unknown string, ('E', int) format_exp, ('T', real) tostring."""
    __slots__ = ('segs',)
    def __init__(self, segs=()):
        self.segs = tuple(segs)
    def __repr__(self):
        return 'Str%r' % (self.segs,)

def from_text(s):
    out, i = [], 0
    while i < len(s):
        j = i
        while j < len(s) and s[j].isdigit() == s[i].isdigit():
            j += 1
        out.append(('D', iv(j - i), rv(int(s[i:j]))) if s[i].isdigit() else ('L', s[i:j]))
        i = j
    return StrV(out)

def same_str(a, b):
    if not (isinstance(a, StrV) and isinstance(b, StrV)) or len(a.segs) != len(b.segs):
        return False
    for x, y in zip(a.segs, b.segs):
        if x[0] != y[0] or any(not (p.eq(q) if isz(p) and isz(q) else p is q or p == q) for p, q in zip(x[1:], y[1:])):
            return False
    return True
