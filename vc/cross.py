"""A second opinion: queries that z3 calls unsatisfiable are given to cvc5 as well (an independent implementation).

The thorough tier sends all of them, the quick tier a sample. cvc5 may not decide a query in the time given (nonlinear
arithmetic); if it finds a model, the two solvers contradict each other and the query does not count as decided."""
import os
import random
from fractions import Fraction
STATS = {'asked': 0, 'confirmed': 0, 'undecided': 0, 'contradicted': 0, 'failed': 0, 'algebra': 0, 'algebra_wrong': 0}
EVERY = int(os.environ.get('VC_CROSS', '1'))      # 0: never, 1: all, n: one in n
LIMIT = int(os.environ.get('VC_CROSS_MS', '1000'))
_n = [0]

def reset():
    for k in STATS:
        STATS[k] = 0

def confirm(solver):
    """False iff cvc5 contradicts z3's 'unsat'."""
    if not EVERY:
        return True
    _n[0] += 1
    if _n[0] % EVERY:
        return True
    STATS['asked'] += 1
    try:
        import cvc5
        tm = cvc5.TermManager()
        s = cvc5.Solver(tm)
        s.setOption('tlimit-per', str(LIMIT))
        p = cvc5.InputParser(s)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, '(set-logic UFNIRA)\n' + solver.to_smt2(), 'q')
        sm = p.getSymbolManager()
        out = ''
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            out = str(c.invoke(s, sm)).strip() or out
    except Exception as e:
        STATS['failed'] += 1
        if os.environ.get('VC_CROSS_DEBUG'):
            print('cross', str(e)[:300])
        return True
    if out == 'unsat':
        STATS['confirmed'] += 1
    elif out == 'sat':
        STATS['contradicted'] += 1
        return False
    else:
        STATS['undecided'] += 1
    return True

_rnd = random.Random(1)
_point = {}

def vanishes(e):
    """A term whose polynomial normal form is zero: is it zero at a random rational point, too? (Schwartz-Zippel; the
    point gives a value to every atom: this does not use the normal form.)"""
    import z3
    memo = {}
    def ev(t):
        i = t.get_id()
        if i in memo:
            return memo[i]
        k = t.decl().kind() if z3.is_app(t) else None
        if z3.is_int_value(t):
            v = Fraction(t.as_long())
        elif z3.is_rational_value(t):
            f = t.as_fraction()
            v = Fraction(f.numerator, f.denominator)
        elif k == z3.Z3_OP_ADD:
            v = sum(ev(c) for c in t.children())
        elif k == z3.Z3_OP_SUB:
            v = ev(t.arg(0)) - sum(ev(c) for c in t.children()[1:])
        elif k == z3.Z3_OP_UMINUS:
            v = -ev(t.arg(0))
        elif k == z3.Z3_OP_MUL:
            v = Fraction(1)
            for c in t.children():
                v *= ev(c)
        elif k == z3.Z3_OP_DIV:
            v = ev(t.arg(0)) / ev(t.arg(1))
        elif k == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)) and t.arg(1).as_fraction().denominator == 1 and 0 <= t.arg(1).as_fraction() <= 8:
            v = ev(t.arg(0)) ** int(t.arg(1).as_fraction())
        elif k == z3.Z3_OP_ITE or k is None:
            raise NotImplementedError
        else:
            key = (t.sexpr(),) if not t.num_args() or k != z3.Z3_OP_UNINTERPRETED else (t.decl().name(), *[ev(c) for c in t.children()])
            if key not in _point:
                _point[key] = Fraction(_rnd.randint(2, 10**6), _rnd.randint(2, 10**6))
            v = _point[key]
        memo[i] = v
        return v
    try:
        v = ev(e)
    except (ZeroDivisionError, NotImplementedError):
        return True
    STATS['algebra'] += 1
    if v == 0:
        return True
    STATS['algebra_wrong'] += 1
    return False
