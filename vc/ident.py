"""Identities between expressions of elementary functions.

proved: the difference is a fraction whose numerator lies in the ideal generated by the defining relations of the atoms
(sqrt(a)^2 = a, sin^2 + cos^2 = 1, pow(x, y-1) x = pow(x, y), ...) and by the equations of the path, and whose denominators
are proved nonzero by z3. refuted: evaluation with 40 digits at a point of the domain gives a difference. unknown: neither."""
import random
import sympy
import mpmath
import z3
from values import *
import prove as P
from prove import SQRT, entails, bool_atoms, walk

mpmath.mp.dps = 40
PI = sympy.Symbol('pi', positive=True)
UFS = ('exp', 'exp2', 'expm1', 'log', 'log10', 'log2', 'log1p', 'cbrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan',
       'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'erf', 'erfc', 'round', 'floor', 'trunc', 'ceil', 'rint', 'nearbyint',
       'fmod', 'remainder', 'pow', 'hypot', 'atan2', 'sqrt')
ODD = ('sin', 'tan', 'sinh', 'tanh', 'asin', 'atan', 'asinh', 'atanh', 'erf', 'cbrt', 'round', 'trunc', 'rint', 'nearbyint')
EVEN = ('cos', 'cosh')

class Field:
    def __init__(self):
        self.atoms = {}
        self.rev = {}
        self.memo = {}

    def atom(self, name, args):
        args = tuple(sympy.cancel(a) for a in args)
        a0 = args[0]
        if name in ODD and a0.could_extract_minus_sign():
            return -self.atom(name, (-a0,))
        if name in EVEN and a0.could_extract_minus_sign():
            return self.atom(name, (-a0,))
        if name == 'exp' and a0.could_extract_minus_sign():
            return 1 / self.atom(name, (-a0,))
        if name == 'atan2' and args == (0, -1) or name == 'acos' and args == (-1,):
            return PI
        if name in ('exp', 'exp2', 'cos', 'cosh') and a0 == 0:
            return sympy.Integer(1)
        if name in ODD and a0 == 0:
            return sympy.Integer(0)
        if name == 'log' and a0 == 1:
            return sympy.Integer(0)
        if name == 'pow':
            b, q = args
            if q.is_Integer:
                return b ** q if q >= 0 else 1 / b ** (-q)
            if q == sympy.Rational(1, 2):
                return self.atom('sqrt', (b,))
        if name in ('rint', 'nearbyint'):
            name = 'round'
        if name == 'sqrt' and a0.is_Rational:
            r = sympy.sqrt(a0)
            if r.is_Rational:
                return r
        k = (name,) + args
        if k not in self.atoms:
            s = sympy.Symbol('a%d' % len(self.atoms))
            self.atoms[k] = s
            self.rev[s] = k
        return self.atoms[k]

    def conv(self, e):
        i = e.get_id()
        if i in self.memo:
            return self.memo[i]
        k = e.decl().kind()
        ch = e.children()
        if z3.is_rational_value(e):
            f = e.as_fraction()
            r = sympy.Rational(f.numerator, f.denominator)
        elif z3.is_int_value(e):
            r = sympy.Integer(e.as_long())
        elif k == z3.Z3_OP_ADD:
            r = sympy.Add(*[self.conv(c) for c in ch])
        elif k == z3.Z3_OP_SUB:
            r = self.conv(ch[0]) - sympy.Add(*[self.conv(c) for c in ch[1:]])
        elif k == z3.Z3_OP_UMINUS:
            r = -self.conv(ch[0])
        elif k == z3.Z3_OP_MUL:
            r = sympy.Mul(*[self.conv(c) for c in ch])
        elif k == z3.Z3_OP_DIV:
            r = self.conv(ch[0]) / self.conv(ch[1])
        elif k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].as_fraction().denominator == 1:
            r = self.conv(ch[0]) ** int(ch[1].as_fraction())
        elif k == z3.Z3_OP_TO_REAL:
            r = self.conv(ch[0])
        elif k == z3.Z3_OP_TO_INT:
            r = self.atom('floor', (self.conv(ch[0]),))
        elif k == z3.Z3_OP_UNINTERPRETED and not ch:
            r = PI if e.decl().name() == 'pi' else sympy.Symbol('v:' + e.decl().name())
        elif k == z3.Z3_OP_UNINTERPRETED:
            r = self.atom(e.decl().name(), tuple(self.conv(c) for c in ch))
        else:
            raise Unsupported('identity over %s' % e.decl())
        self.memo[i] = r
        return r

    def relations(self):
        out = []
        done = set()
        def rel(e):
            n = sympy.fraction(sympy.together(e))[0]
            if n != 0:
                out.append(sympy.expand(n))
        for rnd in range(3):
            for k, s in list(self.atoms.items()):
                if k in done:
                    continue
                done.add(k)
                nm, a = k[0], k[1:]
                if nm == 'sqrt':
                    rel(s ** 2 - a[0])
                    for q, t in list(self.atoms.items()):
                        if q[0] == 'sqrt' and q != k and q in done:
                            if sympy.cancel(a[0] * q[1]) == 1:
                                rel(s * t - 1)
                            c = sympy.cancel(a[0] / q[1])
                            if c.is_Rational and c > 0 and sympy.sqrt(c).is_Rational:
                                rel(s - sympy.sqrt(c) * t)
                if nm == 'cbrt':
                    rel(s ** 3 - a[0])
                has = lambda n: self.atoms.get((n,) + a)
                if nm in ('sin', 'cos', 'tan'):
                    if has('sin') is not None and has('cos') is not None:
                        rel(has('sin') ** 2 + has('cos') ** 2 - 1)
                    if has('tan') is not None:
                        c, n = self.atom('cos', a), self.atom('sin', a)
                        rel(has('tan') * c - n)
                        rel(c ** 2 * (1 + has('tan') ** 2) - 1)
                if nm in ('sinh', 'cosh', 'tanh'):
                    if has('sinh') is not None and has('cosh') is not None:
                        rel(has('cosh') ** 2 - has('sinh') ** 2 - 1)
                    if has('tanh') is not None:
                        c, n = self.atom('cosh', a), self.atom('sinh', a)
                        rel(has('tanh') * c - n)
                        rel(c ** 2 * (1 - has('tanh') ** 2) - 1)
                    if has('exp') is not None:
                        E = has('exp')
                        rel(2 * self.atom('cosh', a) * E - E ** 2 - 1)
                        rel(2 * self.atom('sinh', a) * E - E ** 2 + 1)
                if nm == 'expm1':
                    rel(s - self.atom('exp', a) + 1)
                if nm == 'log1p':
                    rel(s - self.atom('log', (1 + a[0],)))
                if nm == 'log10':
                    rel(s * self.atom('log', (sympy.Integer(10),)) - self.atom('log', a))
                if nm == 'log2':
                    rel(s * self.atom('log', (sympy.Integer(2),)) - self.atom('log', a))
                if nm == 'hypot':
                    rel(s ** 2 - a[0] ** 2 - a[1] ** 2)
                    t = self.atoms.get(('sqrt', sympy.cancel(a[0] ** 2 + a[1] ** 2)))
                    if t is not None:
                        rel(s - t)
                if nm == 'fmod':
                    rel(s - a[0] + a[1] * self.atom('trunc', (a[0] / a[1],)))
                if nm == 'remainder':
                    rel(s - a[0] + a[1] * self.atom('round', (a[0] / a[1],)))
                if nm == 'erfc':
                    rel(s + self.atom('erf', a) - 1)
                if nm == 'acos' and has('asin') is not None:
                    rel(2 * (s + has('asin')) - PI)
                if nm == 'pow':
                    for q, t in list(self.atoms.items()):
                        if q[0] == 'pow' and q != k and q[1] == a[0]:
                            d = sympy.cancel(a[1] - q[2])
                            if d.is_Integer and d > 0:
                                rel(s - t * a[0] ** d)
        return out

def cases(es, pc, schemas=(), limit=64):
    """(expressions without conditionals, extra conditions) for every feasible combination of the conditions."""
    out = []
    def rec(es, conds):
        if len(out) > limit:
            raise Unsupported('too many cases')
        es = [simp(e) for e in es]
        for e in es:
            a = bool_atoms(e)
            if a is not None:
                for val in (a, z3.Not(a)):
                    if entails(list(pc) + conds, z3.Not(val), schemas, timeout=1500, depth=2):
                        continue
                    rec([z3.substitute(x, (a, TRUE if val is a else FALSE)) for x in es], conds + [val])
                return
        out.append((es, conds))
    rec(list(es), [])
    return out

def axioms(es):
    """Inequalities for the atoms, to show that denominators do not vanish."""
    out = []
    for x in walk(es):
        if not z3.is_app(x) or x.decl().kind() != z3.Z3_OP_UNINTERPRETED or not x.num_args():
            continue
        nm, a = x.decl().name(), x.children()
        if nm == 'sqrt':
            out += [z3.Implies(a[0] >= 0, z3.And(x >= 0, x * x == a[0])), z3.Implies(a[0] > 0, x > 0)]
        elif nm == 'cbrt':
            out.append(x * x * x == a[0])
        elif nm in ('exp', 'exp2'):
            out.append(x > 0)
        elif nm == 'cosh':
            out.append(x >= 1)
        elif nm == 'hypot':
            out += [x >= 0, x * x == a[0] * a[0] + a[1] * a[1]]
        elif nm == 'log' and z3.is_rational_value(a[0]):
            out.append(x > 0 if a[0].as_fraction() > 1 else x < 0 if 0 < a[0].as_fraction() < 1 else x == 0 if a[0].as_fraction() == 1 else TRUE)
        elif nm == 'atan2' and all(z3.is_rational_value(y) for y in a) and a[0].as_fraction() == 0 and a[1].as_fraction() < 0:
            out.append(x > 3)
        elif nm == 'pow':
            out.append(z3.Implies(a[0] > 0, x > 0))
        elif nm == 'atan' and z3.is_rational_value(a[0]) and a[0].as_fraction() > 0:
            out.append(x > 0)
    out.append(z3.Real('pi') > 3)
    return out

def dens(es):
    return [x.arg(1) for x in walk(es) if z3.is_app_of(x, z3.Z3_OP_DIV) and not z3.is_rational_value(x.arg(1))]

def equal(code, spec, pc, domain, rng=None, samples=None, extra_rel=()):
    """(status, detail)"""
    hyp = list(pc) + list(domain)
    status, detail = 'proved', ''
    try:
        leaves_ = cases([code, spec], hyp)
    except Unsupported as e:
        leaves_ = None
        status, detail = 'unknown', str(e)
    for es, conds in leaves_ or ():
        s, d = leaf(es[0], es[1], hyp + conds, extra_rel)
        if s != 'proved':
            status, detail = s, d
            break
    if status == 'proved':
        return status, ''
    bad = sample(code, spec, hyp, samples, rng)
    if bad:
        return 'refuted', bad
    return 'unknown', detail + ' (agrees at every sampled point)'

def leaf(code, spec, hyp, extra_rel):
    ax = axioms(hyp + [code, spec])
    if any(z3.is_eq(h) for h in hyp):
        zero = [(x, ZERO) for x in walk([code]) if z3.is_app(x) and x.num_args() == 2 and x.decl().name() == 'pow' and
                entails(hyp, z3.And(x.arg(0) == 0, x.arg(1) > 0), timeout=1000, depth=2)]
        code = simp(z3.substitute(code, *zero)) if zero else code
    for d in dens([code]):
        if not entails(hyp + ax, d != 0, timeout=4000, depth=2):
            return 'unknown', 'denominator %s not shown to be nonzero' % str(d)[:100]
    F = Field()
    try:
        c, s = F.conv(code), F.conv(spec)
    except Unsupported as e:
        return 'unknown', str(e)
    diff = sympy.together(c - s)
    num = sympy.expand(sympy.fraction(diff)[0])
    if num == 0:
        return 'proved', ''
    rels = []
    st = list(hyp)
    while st:
        h = simp(st.pop())
        if z3.is_and(h):
            st.extend(h.children())
        elif z3.is_eq(h) and h.arg(0).sort() == R:
            try:
                rels.append(sympy.expand(sympy.fraction(sympy.together(F.conv(h.arg(0)) - F.conv(h.arg(1))))[0]))
            except Unsupported:
                pass
    rels += [F.conv(r.arg(0)) - F.conv(r.arg(1)) for r in extra_rel]
    # equations that fix a variable are substituted, so that applications of functions to it simplify
    sub = {}
    for r in rels:
        fs = [x for x in r.free_symbols]
        if len(fs) == 1 and sympy.degree(r, fs[0]) == 1:
            sub[fs[0]] = sympy.solve(r, fs[0])[0]
    if sub:
        return reduce_(resub(F, c - s, sub), [resub_e(F, r, sub) for r in rels])
    return reduce_((F, num), rels)

def resub(F, e, sub):
    G = Field()
    def go(x):
        if x in sub:
            return sub[x]
        if x in F.rev:
            k = F.rev[x]
            return G.atom(k[0], tuple(go(y) for y in k[1:]))
        if x.is_Symbol or x.is_number:
            return x
        return x.func(*[go(y) for y in x.args])
    r = go(e)
    return G, sympy.expand(sympy.fraction(sympy.together(r))[0])

def resub_e(F, e, sub):
    return e.subs(sub)

def reduce_(fn, rels):
    F, num = fn
    if num == 0:
        return 'proved', ''
    gens = [g for g in F.relations() + [r for r in rels if r != 0] if g != 0]
    syms = sorted(num.free_symbols | set().union(*[g.free_symbols for g in gens]) if gens else num.free_symbols, key=str)
    if not gens:
        return 'unknown', 'the difference %s is not identically zero' % str(num)[:160]
    if len(gens) > 14:
        return 'unknown', 'too many relations'
    G = sympy.groebner(gens, *syms, order='grevlex')
    if G.exprs == [1]:
        return 'proved', ''
    r = G.reduce(num)[1]
    if r == 0:
        return 'proved', ''
    return 'unknown', 'the difference reduces to %s' % str(r)[:160]

# ------------------------------------------------------------------ evaluation
def mround(v):
    f = mpmath.floor(abs(v) + mpmath.mpf(1) / 2)
    return f if v >= 0 else -f

def mpow(b, q):
    if b == 0:
        if q == 0:
            return mpmath.mpf(1)
        if q > 0:
            return mpmath.mpf(0)
        raise ZeroDivisionError
    if b < 0 and q != mpmath.floor(q):
        raise ValueError('pow')
    return mpmath.power(b, int(q)) if q == mpmath.floor(q) and abs(q) < 1000 else mpmath.power(b, q)

def real_only(v):
    if isinstance(v, mpmath.mpc):
        if v.imag != 0:
            raise ValueError('not real')
        v = v.real
    return v

def mtrunc(v):
    return mpmath.floor(v) if v >= 0 else mpmath.ceil(v)

FN = {'exp': mpmath.exp, 'exp2': lambda x: mpmath.power(2, x), 'expm1': mpmath.expm1, 'log': mpmath.log, 'log10': mpmath.log10,
      'log2': lambda x: mpmath.log(x, 2), 'log1p': mpmath.log1p, 'cbrt': lambda x: mpmath.cbrt(x) if x >= 0 else -mpmath.cbrt(-x),
      'sin': mpmath.sin, 'cos': mpmath.cos, 'tan': mpmath.tan, 'asin': mpmath.asin, 'acos': mpmath.acos, 'atan': mpmath.atan,
      'sinh': mpmath.sinh, 'cosh': mpmath.cosh, 'tanh': mpmath.tanh, 'asinh': mpmath.asinh, 'acosh': mpmath.acosh, 'atanh': mpmath.atanh,
      'erf': mpmath.erf, 'erfc': mpmath.erfc, 'round': mround, 'floor': mpmath.floor, 'ceil': mpmath.ceil, 'trunc': mtrunc,
      'rint': mpmath.nint, 'nearbyint': mpmath.nint, 'fmod': lambda x, y: x - y * mtrunc(x / y),
      'remainder': lambda x, y: x - y * mpmath.nint(x / y), 'pow': mpow, 'hypot': mpmath.hypot, 'atan2': mpmath.atan2, 'sqrt': mpmath.sqrt}

def ev(e, env):
    k = e.decl().kind()
    ch = e.children()
    if z3.is_rational_value(e):
        f = e.as_fraction()
        return mpmath.mpf(f.numerator) / f.denominator
    if z3.is_int_value(e):
        return mpmath.mpf(e.as_long())
    if k == z3.Z3_OP_TRUE:
        return True
    if k == z3.Z3_OP_FALSE:
        return False
    if k == z3.Z3_OP_ITE:
        return ev(ch[1] if ev(ch[0], env) else ch[2], env)
    if k == z3.Z3_OP_AND:
        return all(ev(c, env) for c in ch)
    if k == z3.Z3_OP_OR:
        return any(ev(c, env) for c in ch)
    if k == z3.Z3_OP_NOT:
        return not ev(ch[0], env)
    if k == z3.Z3_OP_IMPLIES:
        return not ev(ch[0], env) or ev(ch[1], env)
    if k == z3.Z3_OP_UNINTERPRETED and not ch:
        nm = e.decl().name()
        return mpmath.pi + 0 if nm == 'pi' else env[nm]
    if k == z3.Z3_OP_UNINTERPRETED:
        f = FN.get(e.decl().name()) or env.get(('fn', e.decl().name()))
        if f is None:
            raise KeyError(e.decl().name())
        return real_only(f(*[ev(c, env) for c in ch]))
    v = [ev(c, env) for c in ch]
    if k == z3.Z3_OP_ADD:
        return sum(v)
    if k == z3.Z3_OP_SUB:
        return v[0] - sum(v[1:])
    if k == z3.Z3_OP_UMINUS:
        return -v[0]
    if k == z3.Z3_OP_MUL:
        r = mpmath.mpf(1)
        for x in v:
            r = r * x
        return r
    if k == z3.Z3_OP_DIV:
        return v[0] / v[1]
    if k == z3.Z3_OP_POWER:
        return real_only(mpmath.power(v[0], v[1]))
    if k == z3.Z3_OP_TO_REAL:
        return v[0]
    if k == z3.Z3_OP_TO_INT:
        return mpmath.floor(v[0])
    if k == z3.Z3_OP_IS_INT:
        return v[0] == mpmath.floor(v[0])
    if k == z3.Z3_OP_LE:
        return v[0] <= v[1]
    if k == z3.Z3_OP_GE:
        return v[0] >= v[1]
    if k == z3.Z3_OP_LT:
        return v[0] < v[1]
    if k == z3.Z3_OP_GT:
        return v[0] > v[1]
    if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF):
        return v[0] == v[1]
    if k == z3.Z3_OP_DISTINCT:
        return v[0] != v[1]
    raise KeyError(str(e.decl()))

SPECIAL = [0, 1, 2, 3, -1, -2, -3, 4, 5, 10, -7]
def points(names, rng, n):
    for i in range(n):
        env = {}
        mode = rng.randrange(4)
        for nm in names:
            if rng.randrange(3) == 0:
                v = mpmath.mpf(rng.choice(SPECIAL))
            elif mode == 0:
                v = mpmath.mpf(rng.uniform(-1, 1))
            elif mode == 1:
                v = mpmath.mpf(rng.uniform(-8, 8))
            elif mode == 2:
                v = mpmath.mpf(rng.uniform(0, 4))
            else:
                v = mpmath.mpf(2) ** rng.uniform(-8, 5) * rng.choice((1, -1))
            env[nm] = v
        yield env

def sample(code, spec, hyp, samples=None, rng=None, want=40, tries=1500):
    rng = rng or random.Random(7)
    names = [n for n in P.free_consts(z3.And(TRUE, TRUE, code == spec, *hyp)) if n != 'pi']
    got = 0
    for env in points(names, rng, tries):
        env = dict(samples or {}, **env)
        try:
            if not all(ev(h, env) for h in hyp):
                continue
            s = ev(spec, env)
        except Exception:
            continue
        got += 1
        at = ', '.join('%s = %s' % (n, mpmath.nstr(env[n], 12)) for n in sorted(names))
        try:
            c = ev(code, env)
        except KeyError:
            return ''
        except Exception as e:
            return 'at %s the code gives no number (%s), the mathematical value is %s' % (at, type(e).__name__, mpmath.nstr(s, 12))
        if abs(c - s) > mpmath.mpf(10) ** -9 * max(abs(c), abs(s), mpmath.mpf(10) ** -12):
            return 'at %s the code gives %s, the mathematical value is %s' % (at, mpmath.nstr(c, 15), mpmath.nstr(s, 15))
        if got >= want:
            break
    return ''
