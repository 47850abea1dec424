"""Polynomial normal form of real z3 terms; other terms are atoms."""
import z3
from fractions import Fraction

ATOMS = {}
LIMIT = 400

class TooBig(Exception):
    pass

def _atom(e):
    i = e.get_id()
    ATOMS[i] = e
    return {((i, 1),): Fraction(1)}

def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r

def mmul(m, n):
    d = dict(m)
    for i, e in n:
        d[i] = d.get(i, 0) + e
        if not d[i]:
            del d[i]
    return tuple(sorted(d.items()))

def pmul(a, b):
    if len(a) * len(b) > LIMIT * 4:
        raise TooBig
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > LIMIT:
        raise TooBig
    return r

def poly(e, memo=None):
    memo = {} if memo is None else memo
    i = e.get_id()
    if i in memo:
        return memo[i]
    k = e.decl().kind() if z3.is_app(e) else None
    if z3.is_rational_value(e):
        f = e.as_fraction()
        r = {(): Fraction(f)} if f else {}
    elif k == z3.Z3_OP_ADD:
        r = {}
        for c in e.children():
            r = padd(r, poly(c, memo))
    elif k == z3.Z3_OP_SUB:
        ch = e.children()
        r = poly(ch[0], memo)
        for c in ch[1:]:
            r = padd(r, poly(c, memo), -1)
    elif k == z3.Z3_OP_UMINUS:
        r = padd({}, poly(e.arg(0), memo), -1)
    elif k == z3.Z3_OP_MUL:
        r = {(): Fraction(1)}
        for c in e.children():
            r = pmul(r, poly(c, memo))
    elif k == z3.Z3_OP_DIV:
        a, b = poly(e.arg(0), memo), poly(e.arg(1), memo)
        if len(b) == 1:
            (m, c), = b.items()
            r = pmul(a, {tuple((j, -x) for j, x in m): 1 / c})
        else:
            j = e.arg(1)
            r = pmul(a, {((_atomid(j), -1),): Fraction(1)})
    elif k == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)) and e.arg(1).as_fraction().denominator == 1 and 0 <= e.arg(1).as_fraction() <= 8:
        b = poly(e.arg(0), memo)
        r = {(): Fraction(1)}
        for _ in range(int(e.arg(1).as_fraction())):
            r = pmul(r, b)
    else:
        r = _atom(e)
    memo[i] = r
    return r

def _atomid(e):
    ATOMS[e.get_id()] = e
    return e.get_id()

def term(c, m):
    out = z3.RealVal(str(c))
    fs = []
    den = []
    for i, e in m:
        (fs if e > 0 else den).extend([ATOMS[i]] * abs(e))
    if c != 1 or not fs:
        fs = [out] + fs
    r = fs[0] if len(fs) == 1 else z3.Product(*fs)
    if den:
        r = r / (den[0] if len(den) == 1 else z3.Product(*den))
    return r

def unpoly(p):
    if not p:
        return z3.RealVal(0)
    l = [term(c, m) for m, c in sorted(p.items())]
    return l[0] if len(l) == 1 else z3.Sum(*l)
