"""Deciding equality of multiple sums over the independent variables of a container.

A kernel computes a polynomial in sums  sum_{i1 in D} ... sum_{ib in D} [conditions] p(g, h, moments, T)  whose conditions
compare identities and ask whether mixed entries are stored. With at most b nested bound identities such an expression is,
for every set D, the sum over the subsets S of D with at most b elements of a function of the data of S alone; so is its
specification. Two of them agree for every D, of any size, exactly when they agree on the sets of 0, 1, ..., b elements
(inclusion-exclusion). There both are polynomials in the coefficients, with an indicator per stored entry, compared
coefficient by coefficient. The order of the identities is all that matters of their values: comparisons whose outcome is
not determined by the order are rejected."""
import z3
from fractions import Fraction
from itertools import product
from values import *
from prove import SUMS, walk

class P(dict):
    """Polynomial: {monomial (sorted tuple of (variable, exponent)): coefficient}; indicators ('t', ...), ('z', ...) are idempotent."""

def const(c):
    c = Fraction(c)
    return P({(): c}) if c else P()

def var(v):
    return P({((v, 1),): Fraction(1)})

def add(a, b, s=1):
    r = P(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r

def iadd(r, b):
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            del r[m]

MUL = {}
def mm(m, n):
    r = MUL.get((m, n))
    if r is None:
        d = dict(m)
        for v, e in n:
            d[v] = 1 if v[0] in 'tz' else d.get(v, 0) + e
        for v in list(d):
            if v[0] == 'z' and v[1] in d:       # z: indicator that the variable v[1] is zero
                r = False
                break
        else:
            r = tuple(sorted(d.items(), key=repr))
        if len(MUL) < 4000000:
            MUL[(m, n)] = r
    return r

def mul(a, b):
    r = P()
    if len(a) > len(b):
        a, b = b, a
    for m, c in a.items():
        for n, d in b.items():
            k = mm(m, n)
            if k is False:
                continue
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r

ONE_, ZERO_ = const(1), P()

class World:
    """k identities 1 < ... < k; member[name] is the set of identities the container name depends on."""
    def __init__(self, k, member, leaf):
        self.k, self.member, self.leaf = k, member, leaf
        self.memo = {}
        self.vid = {}

    # -------------------------------------------------------------- integers: ('id', i, c) or ('n', c)
    def int(self, e, env):
        if z3.is_int_value(e):
            return ('n', e.as_long())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = e.decl().name()
            if nm in env:
                return ('id', env[nm], 0)
            raise Unsupported('identity %s in a sum' % nm)
        k = e.decl().kind()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            vs = [self.int(c, env) for c in e.children()]
            if k == z3.Z3_OP_SUB and any(v[0] == 'id' for v in vs[1:]):
                raise Unsupported('difference of identities')
            ids = [v for v in vs if v[0] == 'id']
            if len(ids) > 1:
                raise Unsupported('sum of identities')
            sg = [1] + [1 if k == z3.Z3_OP_ADD else -1] * (len(vs) - 1)
            c = sum(s * v[-1] for s, v in zip(sg, vs))
            return ('id', ids[0][1], c) if ids else ('n', c)
        if k == z3.Z3_OP_ITE:
            c = self.bool(e.arg(0), env)
            if len(c) == 0:
                return self.int(e.arg(2), env)
            if c == ONE_:
                return self.int(e.arg(1), env)
        if k == z3.Z3_OP_MUL and e.num_args() == 2 and z3.is_int_value(e.arg(0)) and e.arg(0).as_long() == -1:
            v = self.int(e.arg(1), env)
            if v[0] == 'n':
                return ('n', -v[1])
            return ('neg', v[1], -v[2])
        raise Unsupported('integer expression %s in a sum' % e)

    def cmp(self, a, b, env):
        """The set of possible outcomes of a ? b: subset of {-1, 0, 1}."""
        # move terms so that each side is an identity plus a constant
        lhs, rhs, c = [], [], 0
        def put(e, s):
            nonlocal c
            if z3.is_app_of(e, z3.Z3_OP_ADD):
                for x in e.children():
                    put(x, s)
                return
            if z3.is_app_of(e, z3.Z3_OP_SUB):
                put(e.arg(0), s)
                for x in e.children()[1:]:
                    put(x, -s)
                return
            if z3.is_app_of(e, z3.Z3_OP_MUL) and z3.is_int_value(e.arg(0)) and abs(e.arg(0).as_long()) == 1:
                put(e.arg(1), s * e.arg(0).as_long())
                return
            v = self.int(e, env)
            if v[0] == 'n':
                c += s * v[1]
            else:
                c += s * v[2]
                (lhs if s > 0 else rhs).append(v[1])
        put(a, 1)
        put(b, -1)
        for x in list(lhs):
            if x in rhs:
                lhs.remove(x)
                rhs.remove(x)
        if not lhs and not rhs:
            return (c > 0) - (c < 0)
        if len(lhs) == 1 and len(rhs) == 1:     # id_i - id_j + c with id_i - id_j >= i - j or <= i - j, any integer beyond
            d = lhs[0] - rhs[0]
            if d > 0 and d + c > 0:
                return 1
            if d < 0 and d + c < 0:
                return -1
            if d > 0 and d + c == 0:
                raise Unsupported('comparison of identities not determined by their order')
            raise Unsupported('comparison of identities not determined by their order')
        if len(lhs) == 1 and not rhs and lhs[0] + c > 0:
            return 1                            # identities are positive
        if len(rhs) == 1 and not lhs and c - rhs[0] < 0:
            return -1
        raise Unsupported('comparison of identities with a constant')

    def le(self, a, b, env):
        # a <= b may be decided although the equality is not (a + 1 <= b)
        try:
            return self.cmp(a, b, env) <= 0
        except Unsupported:
            return self.cmp(a, z3.simplify(b + 1), env) < 0

    # -------------------------------------------------------------- conditions: polynomials in indicators
    def bool(self, e, env):
        if z3.is_true(e):
            return ONE_
        if z3.is_false(e):
            return ZERO_
        k = e.decl().kind()
        if k == z3.Z3_OP_AND:
            r = ONE_
            for c in e.children():
                r = mul(r, self.bool(c, env))
                if not r:
                    return r
            return r
        if k == z3.Z3_OP_OR:
            r = ONE_
            for c in e.children():
                r = mul(r, add(ONE_, self.bool(c, env), -1))
                if not r:
                    return ONE_
            return add(ONE_, r, -1)
        if k == z3.Z3_OP_NOT:
            return add(ONE_, self.bool(e.arg(0), env), -1)
        if k == z3.Z3_OP_IMPLIES:
            return add(ONE_, mul(self.bool(e.arg(0), env), add(ONE_, self.bool(e.arg(1), env), -1)), -1)
        if k == z3.Z3_OP_ITE:
            c = self.bool(e.arg(0), env)
            return add(mul(c, self.bool(e.arg(1), env)), mul(add(ONE_, c, -1), self.bool(e.arg(2), env)))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF, z3.Z3_OP_DISTINCT):
            a, b = e.arg(0), e.arg(1)
            if a.sort() == B:
                x, y = self.bool(a, env), self.bool(b, env)
                r = add(ONE_, add(add(x, y), mul(x, y), -2), -1)
            elif a.sort() == I:
                r = ONE_ if self.cmp(a, b, env) == 0 else ZERO_
            else:
                r = self.zero(add(self.real(a, env), self.real(b, env), -1))
            return r if k != z3.Z3_OP_DISTINCT else add(ONE_, r, -1)
        if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and e.arg(0).sort() == I:
            a, b = e.arg(0), e.arg(1)
            if k == z3.Z3_OP_LE:
                r = self.le(a, b, env)
            elif k == z3.Z3_OP_GE:
                r = self.le(b, a, env)
            elif k == z3.Z3_OP_LT:
                r = not self.le(b, a, env)
            else:
                r = not self.le(a, b, env)
            return ONE_ if r else ZERO_
        if k == z3.Z3_OP_UNINTERPRETED:
            nm = e.decl().name()
            if nm.startswith('in.1:') and nm.endswith('.D'):
                v = self.int(e.arg(0), env)
                if v[0] == 'id' and v[2] == 0:
                    return ONE_ if v[1] in self.member[nm[5:-2]] else ZERO_
            if nm.startswith('in.2:') and nm.endswith('.T'):
                a, b = self.int(e.arg(0), env), self.int(e.arg(1), env)
                if a[0] == b[0] == 'id' and a[2] == b[2] == 0:
                    return self.stored(nm[5:-2], a[1], b[1])
        raise Unsupported('condition %s in a sum' % str(e)[:100])

    def stored(self, name, a, b):
        if a < b and a in self.member[name] and b in self.member[name]:
            return var(('t', name, a, b))
        return ZERO_

    def zero(self, p):
        """Indicator of p == 0, for a single variable."""
        if not p:
            return ONE_
        if len(p) == 1:
            (m, c), = p.items()
            if not m:
                return ZERO_
            if len(m) == 1 and m[0][0][0] not in 'tz':
                return var(('z', m[0][0]))
        raise Unsupported('condition on the value of a coefficient')

    # -------------------------------------------------------------- values
    def real(self, e, env):
        if z3.is_rational_value(e):
            return const(e.as_fraction())
        k = e.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = P()
            for c in e.children():
                iadd(r, self.real(c, env))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.real(e.arg(0), env)
            for c in e.children()[1:]:
                r = add(r, self.real(c, env), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return add(P(), self.real(e.arg(0), env), -1)
        if k == z3.Z3_OP_MUL:
            r = ONE_
            for c in e.children():
                r = mul(r, self.real(c, env))
                if not r:
                    return r
            return r
        if k == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)) and e.arg(1).as_fraction().denominator == 1 and 0 <= e.arg(1).as_fraction() <= 8:
            r, b = ONE_, self.real(e.arg(0), env)
            for _ in range(int(e.arg(1).as_fraction())):
                r = mul(r, b)
            return r
        if k == z3.Z3_OP_DIV and z3.is_rational_value(e.arg(1)) and e.arg(1).as_fraction():
            return mul(self.real(e.arg(0), env), const(1 / e.arg(1).as_fraction()))
        if k == z3.Z3_OP_ITE:
            c = self.bool(e.arg(0), env)
            r = mul(c, self.real(e.arg(1), env)) if c else P()
            d = add(ONE_, c, -1)
            return add(r, mul(d, self.real(e.arg(2), env))) if d else r
        if k == z3.Z3_OP_UNINTERPRETED:
            nm = e.decl().name()
            if nm in SUMS:
                return self.sum(e, env)
            if nm.startswith('el.'):
                ids = [self.int(c, env) for c in e.children()]
                if all(v[0] == 'id' and v[2] == 0 for v in ids):
                    v = self.leaf(nm, tuple(v[1] for v in ids))
                    return var(v)
            if not e.children():
                return var(('c', nm))
        raise Unsupported('value %s in a sum' % str(e)[:100])

    def sum(self, e, env):
        nm = e.decl().name()
        bound, params, body = SUMS[nm]
        args = [self.int(c, env) for c in e.children()]
        if not all(v[0] == 'id' and v[2] == 0 for v in args):
            raise Unsupported('parameter of a sum')
        key = (nm,) + tuple(v[1] for v in args)
        r = self.memo.get(key)
        if r is None:
            r = P()
            base = {p.decl().name(): v[1] for p, v in zip(params, args)}
            for t in product(range(1, self.k + 1), repeat=len(bound)):
                iadd(r, self.real(body, dict(base, **{b.decl().name(): i for b, i in zip(bound, t)})))
            self.memo[key] = r
        return r

def depth(e, memo=None):
    """Bound identities nested or multiplied."""
    memo = {} if memo is None else memo
    i = e.get_id()
    if i in memo:
        return memo[i][1]
    ch = [depth(c, memo) for c in e.children()]
    k = e.decl().kind()
    if k == z3.Z3_OP_UNINTERPRETED and e.decl().name() in SUMS:
        b, _, body = SUMS[e.decl().name()]
        r = len(b) + depth(body, memo)
    elif k == z3.Z3_OP_MUL:
        r = sum(ch)
    elif k == z3.Z3_OP_POWER:
        r = ch[0] * int(e.arg(1).as_fraction()) if z3.is_rational_value(e.arg(1)) else 99
    else:
        r = max(ch) if ch else 0
    memo[i] = (e, r)
    return r
