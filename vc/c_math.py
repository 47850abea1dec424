"""Contracts of the math functions (C07, C08) and of the wrappers around user functions (C09).

A variable is known to these functions only through its mean and through the contracts of unary, binary, binary_assign and
the constructor from a number (proved in C01, C02 and C10): the value of an expression is its mean, its first derivatives
with respect to the arguments x, y of the function under contract and, second order, its second derivatives."""
from spec import *
from c_ureal import common_assumptions, reals
import c_ureal2
import ident
import leanck
from prove import walk
import time, re

X_, Y_ = z3.Real('x'), z3.Real('y')
MUNAME = {}

def mun(ex, key):
    if key not in MUNAME:
        if key.startswith('UReal2'):
            MUNAME[key] = c_ureal2.ufields(ex, key[-3:-1])[1]
        else:
            MUNAME[key] = 'mu'
            if 'mu' not in [n for n, _, _, _ in ex.ast.fields(key)]:
                raise Missing('field mu of %s' % key)
    return MUNAME[key]

def var(ex, key, m, d, dd):
    return StructV(key, {mun(ex, key): m, '$d': ArrV(d), '$dd': ArrV(dd)})

def argument(ex, key, i, m):
    return var(ex, key, m, [rv(1 if i == j else 0) for j in range(2)], [ZERO] * 3)

def isv(v):
    return isinstance(v, StructV) and '$d' in v.f

def mean(v):
    return [x for n, x in v.f.items() if isz(x)][0]

def combine(ex, key, m, ops, cross):
    """ops: [(operand, first derivative, second derivative)]; cross: mixed second derivative of the two."""
    d = [simp(z3.Sum([c * o.f['$d'].items[j] for o, c, _ in ops])) for j in range(2)]
    dd = []
    for n, (i, j) in enumerate(((0, 0), (1, 1), (0, 1))):
        t = [c * o.f['$dd'].items[n] + cc * o.f['$d'].items[i] * o.f['$d'].items[j] for o, c, cc in ops]
        if cross is not None:
            a, b = ops[0][0].f['$d'].items, ops[1][0].f['$d'].items
            t.append(cross * (a[i] * b[j] + a[j] * b[i]))
        dd.append(simp(z3.Sum(t)))
    return var(ex, key, m, d, dd)

def real(ex, a):
    v = ex.rv_(a)
    if isinstance(v, list):
        v = ex.coerce(v, 'double')
    v = ex.coerce(v, 'double')
    if not isz(v):
        raise Unsupported('numerical argument %s' % type(v).__name__)
    return ex.toreal(v)

def hk_unary(ex, fn, this, args):
    k = fn.get('_cls') or ''
    two = k.startswith('UReal2<')
    if len(args) != (4 if two else 3) or not k.startswith('UReal'):
        return NotImplemented
    x = ex.rv_(args[0])
    if not isv(x):
        return NotImplemented
    v = [real(ex, a) for a in args[1:]] + ([] if two else [ZERO])
    return combine(ex, x.cls, v[0], [(x, v[1], v[2])], None)

def hk_binary(ex, fn, this, args):
    k = fn.get('_cls') or ''
    two = k.startswith('UReal2<')
    if len(args) != (8 if two else 5) or not k.startswith('UReal'):
        return NotImplemented
    x, y = ex.rv_(args[0]), ex.rv_(args[1])
    if not (isv(x) and isv(y)):
        return NotImplemented
    v = [real(ex, a) for a in args[2:]] + ([] if two else [ZERO] * 3)
    return combine(ex, x.cls, v[0], [(x, v[1], v[3]), (y, v[2], v[4])], v[5])

def hk_assign(ex, fn, this, args):
    k = fn.get('_cls') or ''
    if not k.startswith('UReal'):
        return NotImplemented
    if not k.startswith('UReal2<'):
        if this is None:
            return NotImplemented
        args = [this] + list(args)
    r = hk_binary(ex, fn, None, args)
    if r is NotImplemented:
        return r
    ex.put(args[0], r)
    return this if this is not None else args[0]

def hk_ctor(ex, fn, this, args):
    if len(args) == 1 and len(params(fn)) == 1 and ptypes(fn)[0].rstrip('&') in ('double', 'Real'):
        return var(ex, fn['_cls'], real(ex, args[0]), [ZERO] * 2, [ZERO] * 3)
    return NotImplemented

def hk_n(ex, fn, this, args):
    """n() of a second-order variable is the mean with the correction, not the point where functions are evaluated."""
    if (fn.get('_cls') or '').startswith('UReal2<') and this is not None and not args:
        v = ex.load(this)
        if isv(v):
            return z3.Const('n:' + str(mean(v)), R)
    return NotImplemented

HOOKS = {'unary': hk_unary, 'binary': hk_binary, 'binary_assign': hk_assign, 'ctor:UReal': hk_ctor, 'ctor:UReal2': hk_ctor, 'n': hk_n, 'nom': hk_n}

def uf(name, *a):
    if name == 'sqrt':
        return SQRT(*a)
    return z3.Function(name, *([R] * (len(a) + 1)))(*a)

def table():
    x, y = X_, Y_
    U = lambda n, a=x: uf(n, a)
    one, two = rv(1), rv(2)
    pi = z3.Real('pi')
    ln2, ln10 = U('log', rv(2)), U('log', rv(10))
    c = 2 / SQRT(pi) * U('exp', -(x * x))
    sq = lambda a: a * a
    T = {  # name: (domain, value, first derivative, second derivative)
        'abs': ([x != 0], z3.If(x >= 0, x, -x), z3.If(x > 0, one, -one), ZERO),
        'exp': ([], U('exp'), U('exp'), U('exp')),
        'exp2': ([], U('exp2'), ln2 * U('exp2'), ln2 * ln2 * U('exp2')),
        'expm1': ([], U('expm1'), U('exp'), U('exp')),
        'log': ([x > 0], U('log'), 1 / x, -1 / sq(x)),
        'log10': ([x > 0], U('log10'), 1 / (x * ln10), -1 / (sq(x) * ln10)),
        'log2': ([x > 0], U('log2'), 1 / (x * ln2), -1 / (sq(x) * ln2)),
        'log1p': ([x > -1], U('log1p'), 1 / (1 + x), -1 / sq(1 + x)),
        'sqrt': ([x > 0], SQRT(x), 1 / (2 * SQRT(x)), -1 / (4 * x * SQRT(x))),
        'cbrt': ([x != 0], U('cbrt'), 1 / (3 * sq(U('cbrt'))), -2 / (9 * x * sq(U('cbrt')))),
        'sin': ([], U('sin'), U('cos'), -U('sin')),
        'cos': ([], U('cos'), -U('sin'), -U('cos')),
        'tan': ([U('cos') != 0], U('tan'), 1 / sq(U('cos')), 2 * U('sin') / (sq(U('cos')) * U('cos'))),
        'asin': ([x > -1, x < 1], U('asin'), 1 / SQRT(1 - x * x), x / (SQRT(1 - x * x) * (1 - x * x))),
        'acos': ([x > -1, x < 1], U('acos'), -1 / SQRT(1 - x * x), -x / (SQRT(1 - x * x) * (1 - x * x))),
        'atan': ([], U('atan'), 1 / (1 + x * x), -2 * x / sq(1 + x * x)),
        'sinh': ([], U('sinh'), U('cosh'), U('sinh')),
        'cosh': ([], U('cosh'), U('sinh'), U('cosh')),
        'tanh': ([], U('tanh'), 1 / sq(U('cosh')), -2 * U('sinh') / (sq(U('cosh')) * U('cosh'))),
        'asinh': ([], U('asinh'), 1 / SQRT(x * x + 1), -x / (SQRT(x * x + 1) * (x * x + 1))),
        'acosh': ([x > 1], U('acosh'), 1 / SQRT(x * x - 1), -x / (SQRT(x * x - 1) * (x * x - 1))),
        'atanh': ([x > -1, x < 1], U('atanh'), 1 / (1 - x * x), 2 * x / sq(1 - x * x)),
        'erf': ([], U('erf'), c, -2 * x * c),
        'erfc': ([], U('erfc'), -c, 2 * x * c),
    }
    h = uf('hypot', x, y)
    p = uf('pow', x, y)
    L = U('log')
    half = z3.Not(z3.IsInt(x / y + rv('1/2')))
    d = x * x + y * y
    B = {  # name: [(case, domain, value, dx, dy, dxx, dyy, dxy)], None: not differentiable in that direction
        'fmod': [('', [y != 0, z3.Not(z3.IsInt(x / y))], uf('fmod', x, y), one, -U('trunc', x / y), ZERO, ZERO, ZERO)],
        'remainder': [('', [y != 0, half], uf('remainder', x, y), one, -U('round', x / y), ZERO, ZERO, ZERO)],
        'fmax': [('', [x != y], z3.If(x >= y, x, y), z3.If(x > y, one, ZERO), z3.If(x > y, ZERO, one), ZERO, ZERO, ZERO)],
        'fmin': [('', [x != y], z3.If(x <= y, x, y), z3.If(x < y, one, ZERO), z3.If(x < y, ZERO, one), ZERO, ZERO, ZERO)],
        'hypot': [('', [z3.Or(x != 0, y != 0)], h, x / h, y / h, y * y / (h * h * h), x * x / (h * h * h), -x * y / (h * h * h))],
        'atan2': [('', [z3.Or(x != 0, y > 0)], uf('atan2', x, y), y / d, -x / d, -2 * x * y / sq(d), 2 * x * y / sq(d), (x * x - y * y) / sq(d))],
        'pow': [('positive base', [x > 0], p, y * p / x, p * L, y * (y - 1) * p / (x * x), p * L * L, p / x + y * p * L / x),
                ('negative base, integer exponent', [x < 0, z3.IsInt(y)], p, y * p / x, None, y * (y - 1) * p / (x * x), None, None)] +
               [('zero base, exponent %s' % n, [x == 0, y == n], rv(1 if n == 0 else 0), rv(1 if n == 1 else 0), None, rv(2 if n == 2 else 0), None, None)
                for n in (0, 1, 2)] +
               [('zero base, integer exponent above 2', [x == 0, z3.IsInt(y), y >= 3], ZERO, ZERO, None, ZERO, None, None)],
    }
    for n, (dom, f, fx, fxx) in T.items():
        B[n] = [('', dom, f, fx, None, fxx, None, None)]
    return B

BINARY = ('fmod', 'remainder', 'fmax', 'fmin', 'hypot', 'atan2', 'pow')
NAMES = ('abs', 'fmod', 'remainder', 'fmax', 'fmin', 'exp', 'exp2', 'expm1', 'log', 'log10', 'log2', 'log1p', 'pow', 'sqrt', 'cbrt', 'hypot',
         'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'erf', 'erfc')

def find(ast, name, key, n):
    for (sc, nm), l in ast.names.items():
        if nm == name:
            for f in l:
                t = [x.rstrip('&').replace('UReal2<double,(Prop)0>', 'UReal2<double,P0>') for x in ptypes(f)]
                if len(t) == n and all(q == key for q in t):
                    return f
    raise Missing('%s(%s)' % (name, key))

DNAME = ('value', 'derivative with respect to x', 'derivative with respect to y', 'second derivative with respect to x',
         'second derivative with respect to y', 'mixed second derivative')

def v_math(ctx, ast, name, key):
    n = 2 if name in BINARY else 1
    fn = find(ast, name, key, n)
    second = key.startswith('UReal2')
    for case, dom, *spec in table()[name]:
        lab = '%s(%s)%s [%s]' % (name, 'x, y' if n == 2 else 'x', ', ' * bool(case) + case, key)
        c = Case(ctx, ast, lab, hooks=HOOKS)
        c.ex.pc = list(dom) + ident.axioms(dom)
        vs = [argument(c.ex, key, i, v) for i, v in enumerate((X_, Y_)[:n])]
        ls = [c.ex.alloc(v, nm) for v, nm in zip(vs, 'xy')]
        for o in c.run(lambda: c.ex.call_body(fn, None, ls)):
            c.at(o)
            if o.kind in ('throw', 'abort'):
                c.goal('%s: no exception' % name, FALSE, o)
                continue
            r = c.ex.rv_(o.val)
            if not isv(r) or r.cls != key:
                raise Unsupported('result of %s' % name)
            got = [mean(r)] + r.f['$d'].items + r.f['$dd'].items
            for i in range(6 if second else 3):
                if spec[i] is None and n == 1:
                    if i in (2, 4, 5):
                        continue
                if spec[i] is None:
                    continue
                t0 = time.time()
                st, det = ident.equal(simp(got[i]), simp(spec[i]), [q for q in o.pc], dom)
                ctx.add('%s: %s%s' % (name, DNAME[i], (' (%s)' % case) if case else ''), lab, st, time.time() - t0, det, found(det), 'Groebner basis and z3')
            for l, v in zip(ls, vs):
                c.flag('%s: operand not modified' % name, same_value(c.ex.load(l), v))

def found(det):
    return [float(v) for v in re.findall(r'\b[xy] = (-?[\d.e+-]+\d|-?\d+)', det)] if det else []

def same_math(ast):
    A, Bb = [], []
    for m, acc in (('P0', A), ('P1', Bb)):
        for nm in NAMES:
            c_ureal2.shape(find(ast, nm, 'UReal2<double,%s>' % m, 2 if nm in BINARY else 1), acc)
    return A == Bb

def math_assumptions(ctx):
    common_assumptions(ctx)
    ctx.assume('the functions of <cmath> are the real functions of the same name (vc/lean/defs.lean states the definitions)')
    ctx.assume('unary, binary, binary_assign and the arithmetic operators propagate as in C01, C02 and C10')

def check_table(ctx):
    """The derivative table against numerical differentiation of the functions (bounded, a check of the specification)."""
    import mpmath, random
    rng = random.Random(3)
    bad = []
    n = 0
    for name, rows in table().items():
        for case, dom, f, *ds in rows:
            if case.startswith('zero base') or case.startswith('negative base'):
                continue
            cnt = 0
            for env in ident.points(['x', 'y'], rng, 60):
                try:
                    if not all(ident.ev(q, env) for q in dom) or cnt >= 4:
                        continue
                    F = lambda a, b=env['y']: ident.ev(f, {'x': a, 'y': b})
                    G = lambda b, a=env['x']: ident.ev(f, {'x': a, 'y': b})
                    H = lambda a, b: ident.ev(f, {'x': a, 'y': b})
                    num = [mpmath.diff(F, env['x']), mpmath.diff(G, env['y']), mpmath.diff(F, env['x'], 2), mpmath.diff(G, env['y'], 2),
                           mpmath.diff(H, (env['x'], env['y']), (1, 1)) if ds[4] is not None else None]
                    cnt += 1
                    for a, d in zip(num, ds):
                        if d is not None:
                            n += 1
                            b = ident.ev(d, env)
                            if abs(a - b) > mpmath.mpf(10) ** -7 * max(1, abs(a), abs(b)):
                                bad.append('%s at %s' % (name, env))
                except (ValueError, ZeroDivisionError):
                    continue
    if bad:
        ctx.unsupported.append(dict(function='(table of derivatives)', why='disagrees with numerical differentiation: ' + bad[0]))
    ctx.vacuity.append('%d entries of the derivative table agree with numerical differentiation' % n)

def c07(ctx):
    ast = AST(['VC_UREAL', 'VC_MATH'])
    leanck.lemmas(ctx, 'table', 'ident')
    for nm in NAMES:
        guarded(ctx, nm, lambda: v_math(ctx, ast, nm, 'UReal<double>'))
    guarded(ctx, '(table of derivatives)', lambda: check_table(ctx))
    math_assumptions(ctx)

def c08(ctx):
    ast = AST(['VC_UREAL2', 'VC_MATH'])
    leanck.lemmas(ctx, 'table', 'ident')
    modes = c_ureal2.MODES if ctx.thorough or not same_math(ast) else c_ureal2.MODES[:1]
    for m in modes:
        for nm in NAMES:
            guarded(ctx, nm, lambda: v_math(ctx, ast, nm, 'UReal2<double,%s>' % m))
    if len(modes) == 1:
        ctx.add('the two propagation modes instantiate the same code', ', '.join(NAMES), 'proved', backend='syntactic')
    guarded(ctx, '(table of derivatives)', lambda: check_table(ctx))
    math_assumptions(ctx)

# ------------------------------------------------------------------ C09
def quotients(first, kind, F, h):
    """The documented derivatives: kind names what the user supplies."""
    x, y = X_, Y_
    f = lambda i, *a: z3.Function(F[i], *([R] * (len(a) + 1)))(*a)
    if kind == 'u1 df':
        return f(0, x), [f(1, x)]
    if kind == 'u1':
        return f(0, x), [(f(0, x + h) - f(0, x)) / h]
    if kind == 'b1 df':
        return f(0, x, y), [f(1, x, y), f(2, x, y)]
    if kind == 'b1':
        return f(0, x, y), [(f(0, x + h, y) - f(0, x, y)) / h, (f(0, x, y + h) - f(0, x, y)) / h]
    if kind == 'u2 df ddf':
        return f(0, x), [f(1, x), f(2, x)]
    if kind == 'u2 df':
        return f(0, x), [f(1, x), (f(1, x + h) - f(1, x)) / h]
    if kind == 'u2':
        return f(0, x), [(f(0, x + h) - f(0, x - h)) / (2 * h), (f(0, x + h) + f(0, x - h) - 2 * f(0, x)) / (h * h)]
    if kind == 'b2 df ddf':
        return f(0, x, y), [f(i, x, y) for i in range(1, 6)]
    if kind == 'b2 df':
        return f(0, x, y), [f(1, x, y), f(2, x, y), (f(1, x + h, y) - f(1, x, y)) / h, (f(2, x, y + h) - f(2, x, y)) / h, (f(1, x, y + h) - f(1, x, y)) / h]
    c, rc, lc, cr, cl = f(0, x, y), f(0, x + h, y), f(0, x - h, y), f(0, x, y + h), f(0, x, y - h)
    rr, ll = f(0, x + h, y + h), f(0, x - h, y - h)
    return c, [(rc - lc) / (2 * h), (cr - cl) / (2 * h), (rc + lc - 2 * c) / (h * h), (cr + cl - 2 * c) / (h * h),
               (rr + ll - rc - lc - cr - cl + 2 * c) / (2 * h * h)]

BUILD = [  # builder, callables, step?, kind
    ('uunary', 2, False, 'u1 df'), ('uunary', 1, True, 'u1'), ('ubinary', 3, False, 'b1 df'), ('ubinary', 1, True, 'b1'),
    ('uunary2', 3, False, 'u2 df ddf'), ('uunary2', 2, True, 'u2 df'), ('uunary2', 1, True, 'u2'),
    ('ubinary2', 6, False, 'b2 df ddf'), ('ubinary2', 3, True, 'b2 df'), ('ubinary2', 1, True, 'b2')]

def targs(fn):
    """Template arguments of an instantiated function; None for the uninstantiated template."""
    t = [c for c in fn.get('inner', []) if c.get('kind') == 'TemplateArgument']
    return [norm_type(c['type']['qualType']) if 'type' in c else 'P%s' % c.get('value') for c in t] or None

def instances(ast, name):
    out, seen = [], set()
    for (sc, n), l in ast.names.items():
        if n == name:
            for f in l:
                k = f['type']['qualType']
                if targs(f) and k not in seen:
                    seen.add(k)
                    out.append(f)
    return out

def hk_step(ex, fn, this, args):
    """default_step: verified by itself; its callers know that it is positive and a root of epsilon."""
    n = const_int(ex.rv_(args[0])) if args else 1
    if n is None:
        raise Unsupported('default_step of a variable order')
    return z3.Const('step:%d' % n, R)

def v_build(ctx, ast, fn, nf, kind, key, default):
    two = '2' in kind.split()[0]
    nv = 1 if kind[0] == 'u' else 2
    lab = '%s(%s%s) [%s]' % (fn['name'], 'f' + ', derivatives' * (nf > 1), ', default step' if default else '', key)
    c = Case(ctx, ast, lab, hooks=dict(HOOKS, default_step=hk_step))
    F = ['f', 'f1', 'f2', 'f3', 'f4', 'f5'][:nf]
    h = z3.Const('step:2' if kind in ('u2', 'b2') else 'step:1', R) if default else z3.Real('h')
    c.ex.pc.append(h != 0)
    args = [c.ex.alloc(FunV(n), n) for n in F]
    if len(params(fn)) > nf and not default:
        args.append(c.ex.alloc(h, 'step'))
    vs = [argument(c.ex, key, i, v) for i, v in enumerate((X_, Y_)[:nv])]
    ls = [c.ex.alloc(v, nm) for v, nm in zip(vs, 'xy')]
    def run():
        w = c.ex.rv_(c.ex.call_body(fn, None, args))
        for a in args:          # the wrapper must not refer to the caller's objects after the builder returned
            c.ex.store[a.loc] = X.Poison('an argument of the builder after it returned')
        return c.ex.apply(w, ls)
    value, spec = quotients(not two, kind, F, h)
    for o in c.run(run):
        c.at(o)
        who = fn['name']
        if o.kind in ('throw', 'abort'):
            c.goal('%s: no exception' % who, FALSE, o)
            continue
        r = c.ex.rv_(o.val)
        if not isv(r):
            raise Unsupported('result of the function made by %s' % who)
        c.goal('%s: the function is evaluated at the mean' % who, mean(r) == value, o)
        d, dd = r.f['$d'].items, r.f['$dd'].items
        want = list(zip((d[0], d[1])[:nv], spec)) if not two else list(zip([d[0], dd[0]] if nv == 1 else d + dd, spec))
        names = [DNAME[1], DNAME[2]][:nv] if not two else [DNAME[1], DNAME[3]] if nv == 1 else list(DNAME[1:])
        for (g, w), nm in zip(want, names):
            c.goal('%s: %s' % (who, nm), g == w, o)
        for l, v in zip(ls, vs):
            c.flag('%s: operand not modified' % who, same_value(c.ex.load(l), v))

def v_step(ctx, ast):
    fn = [f for f in instances(ast, 'default_step') if ptypes(f) == ['int']]
    if not fn:
        raise Missing('default_step')
    fn = fn[0]
    eps = z3.Const('epsilon:double', R)
    DS = z3.Function('default_step', I, R)
    first = [True]
    def hook(ex, f, this, args):
        if not args:
            raise Unsupported('recursion of default_step with its default order')
        n = ex.rv_(args[0])
        ex.oblige('default_step: the order decreases and stays non-negative in the recursive call', z3.And(n >= 0, n < N))
        return DS(n)
    N = z3.Int('order')
    c = Case(ctx, ast, 'default_step(order)', hooks={'default_step': hook})
    c.ex.pc.append(eps > 0)
    c.ex.schemas = [Schema(1, lambda k: z3.Implies(z3.And(k[0] >= 0, k[0] < N), z3.And(DS(k[0]) > 0, z3.Implies(k[0] == 0, DS(k[0]) == eps))), 'induction')]
    for o in c.run(lambda: c.ex.call_body(fn, None, [c.ex.alloc(N, 'order')])):
        c.at(o)
        if o.kind in ('throw', 'abort'):
            c.goal('default_step: no exception', FALSE, o)
            continue
        r = c.ex.rv_(o.val)
        c.goal('default_step: epsilon for order zero', z3.Implies(N == 0, r == eps), o)
        c.goal('default_step: the square root of the step of the previous order', z3.Implies(N > 0, z3.And(r >= 0, r * r == DS(N - 1))), o, keys=[(simp(N - 1),)])
    for n in (1, 2):
        c = Case(ctx, ast, 'default_step(%d)' % n)
        c.ex.pc.append(eps > 0)
        for o in c.run(lambda: c.ex.call_body(fn, None, [c.ex.alloc(iv(n), 'order')])):
            c.at(o)
            r = c.ex.rv_(o.val)
            p = r * r if n == 1 else r * r * r * r
            c.goal('default_step(%d): epsilon to the power 1/%d' % (n, 2 ** n), z3.And(r >= 0, p == eps), o)
    c = Case(ctx, ast, 'default_step()')
    for o in c.run(lambda: c.ex.call_body(fn, None, [])):
        c.at(o)
        c.goal('default_step(): the order is one', z3.Implies(eps > 0, c.ex.rv_(o.val) * c.ex.rv_(o.val) == eps), o)

def v_poly(ctx):
    """Exactness on polynomials: substituting a polynomial in the documented quotient gives its derivative."""
    x, y, h = X_, Y_, z3.Real('h')
    a = [z3.Real('a%d' % i) for i in range(7)]
    def check(name, g, w):
        t0 = time.time()
        st, det = ident.equal(g, w, [h != 0], [])
        ctx.add(name, '(lemma)', st, time.time() - t0, det, backend='Groebner basis and z3')
    def q(kind, f):
        v, sp = quotients(True, kind, ['f'] * 6, h)
        F1, F2 = z3.Function('f', R, R), z3.Function('f', R, R, R)
        out = []
        for e in sp:
            sub = []
            for t in walk([e]):
                if z3.is_app(t) and t.num_args() and t.decl().name() == 'f':
                    sub.append((t, f(*t.children())))
            out.append(z3.substitute(e, *sub))
        return out
    lin = lambda s: a[0] + a[1] * s
    d1, = q('u1', lin)
    check('forward difference: exact on linear functions', d1, a[1])
    quad = lambda s: a[0] + a[1] * s + a[2] * s * s
    d1, d2 = q('u2', quad)
    check('central difference: exact on quadratic functions', d1, a[1] + 2 * a[2] * x)
    check('second difference: exact on quadratic functions', d2, 2 * a[2])
    f2 = lambda s, t: a[0] + a[1] * s + a[2] * t + a[3] * s * s + a[4] * t * t + a[5] * s * t
    ds = q('b2', f2)
    for e, w, nm in zip(ds, (a[1] + 2 * a[3] * x + a[5] * y, a[2] + 2 * a[4] * y + a[5] * x, 2 * a[3], 2 * a[4], a[5]), DNAME[1:]):
        check('%s: exact on quadratic functions of two variables' % nm, e, w)

def c09(ctx):
    ast = AST(['VC_UREAL', 'VC_UREAL2', 'VC_FUNCTIONS'])
    for name, nf, step, kind in BUILD:
        num = lambda t: t.rstrip('&') == 'double'
        fs = [f for f in instances(ast, name) if len(ptypes(f)) == nf + step and not any(num(t) for t in ptypes(f)[:nf])
              and (not step or num(ptypes(f)[-1]))]
        if not fs:
            ctx.unsupported.append(dict(function=name, why='the overload with %d callables is not in the source' % nf))
        for f in fs:
            keys = ['UReal<double>']
            if '2' in name:
                k = [t for t in targs(f) if t in ('P0', 'P1')]
                keys = ['UReal2<double,%s>' % t for t in k]
                if not keys:
                    ctx.unsupported.append(dict(function=name, why='propagation mode of the overload'))
            for key in keys:
                for default in ((False, True) if step else (False,)):
                    guarded(ctx, '%s/%d [%s]' % (name, nf, key), lambda: v_build(ctx, ast, f, nf, kind, key, default))
    guarded(ctx, 'default_step', lambda: v_step(ctx, ast))
    guarded(ctx, '(lemma) difference quotients', lambda: v_poly(ctx))
    common_assumptions(ctx)
    ctx.assume('a user callable is a function of its numerical arguments without side effects; std::function calls what it was given')
    ctx.assume('unary and binary propagate as in C01, C02 and C10')
