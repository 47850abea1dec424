"""Distribution factories and conversions between raw, central and standardized moments (C15)."""
from c_ureal2 import *
import ident
from prove import walk, entails
import math as _m
import sympy
import time

def dist(key, mean, sd, std):
    """The contract of the constructors (C14): an independent variable with these mean, deviation and standardized moments."""
    return StructV(key, {'$mean': mean, '$sd': sd, '$std': ArrV(std)})

def hk_ctor(ex, fn, this, args):
    key = fn['_cls']
    sig = [re.sub(r'\s', '', t).replace('UL', '').rstrip('&') for t in ptypes(fn)]
    def num(a):
        return ex.toreal(ex.coerce(ex.rv_(a), 'double'))
    def vec(a):
        return [ex.toreal(x) for x in ex.rv_(a).items]
    def threshold(i):
        if len(args) > i:
            return num(args[i])
        p = params(fn)[i]
        init = [c for c in p.get('inner', []) if 'Comment' not in c.get('kind', '')]
        return ex.toreal(ex.coerce(ex.rv_(ex.ev(init[0])), 'double')) if init else ZERO
    if sig == ['double'] and len(args) == 1:
        return dist(key, num(args[0]), ZERO, [ZERO] * 6)
    if sig == ['double', 'double', 'std::array<double,6>', 'double']:
        n, s, m, t = num(args[0]), num(args[1]), vec(args[2]), threshold(3)
        if ex.branch(s < 0):
            raise X.Thr('std::invalid_argument')
        possible(ex, m, t)
        return dist(key, n, s, m)
    if sig == ['double', 'std::array<double,7>', 'double']:
        n, m, t = num(args[0]), vec(args[1]), threshold(2)
        if ex.branch(m[0] < 0):
            raise X.Thr('std::invalid_argument')
        s = SQRT(m[0])
        p, std = m[0], []
        for x in m[1:]:
            p = p * s
            std.append(x / p)
        return dist(key, n, s, std)
    return NotImplemented

def possible(ex, std, t):
    """Moments that the specification of the factory proves to be those of a distribution pass the check (see v_psd)."""

def same(ctx, lab, name, code, spec, pc, dom):
    t0 = time.time()
    for v in {x.get_id(): x for x in walk([code, spec]) if x.sort() == I and z3.is_const(x) and not z3.is_int_value(x)}.values():
        if entails(list(pc), v == 0):           # an integer fixed by the path (zero degrees of freedom)
            code, spec = (z3.substitute(e, (v, iv(0))) for e in (code, spec))
    st, det = ident.equal(simp(code), simp(spec), list(pc), dom)
    import re as _re
    ctx.add(name, lab, st, time.time() - t0, det, [float(v) for v in _re.findall(r' = (-?\d+\.?\d*)', det)][:6] if det else [], 'Groebner basis and z3')

def raw(v):
    return not (isinstance(v, StructV) and '$mean' in v.f)

def cumulants_to_central(k):
    m = [1, 0]
    for n in range(2, 9):
        m.append(sum(_m.comb(n - 1, j) * (0 if j == 0 else k[j + 1]) * m[n - 1 - j] for j in range(n)))
    return m

def instance(ast, name, key, n):
    for (sc, nm), l in ast.names.items():
        if nm == name:
            for f in l:
                if len(params(f)) == n and [c for c in f.get('inner', []) if c.get('kind') == 'TemplateArgument'] and \
                        norm_type(f['type']['qualType']).split('(')[0].replace('UReal2<double,(Prop)0>', 'UReal2<double,P0>').replace('UReal2<double,(Prop)1>', 'UReal2<double,P1>') == key:
                    return f
    raise Missing('%s<%s>' % (name, key))

def v_factory(ctx, ast, name, key):
    c = Case(ctx, ast, '%s [%s]' % (name, key), hooks={'ctor:UReal2': hk_ctor})
    if name == 'chisquare':
        k = z3.Int('k')
        K = z3.ToReal(k)
        args = [c.ex.alloc(k, 'k')]
        bad, mean, var_ = k < 0, K, 2 * K
        cu, f = [0, K], K
        for n in range(2, 9):
            f = f * (2 * (n - 1))
            cu.append(f)
        cm = [simp(x) if isz(x) else rv(x) for x in cumulants_to_central(cu)]
    else:
        (l1, l2), (a, b) = reals(c, *(('mu', 'sigma') if name == 'normal' else ('left', 'right')))
        args = [l1, l2]
        if name == 'normal':
            bad, mean, var_ = b < 0, a, b * b
            cm, p = [], rv(1)
            for n in range(9):
                cm.append(p * rv([1, 0, 1, 0, 3, 0, 15, 0, 105][n]))
                p = p * b
        else:
            bad, mean, h = a > b, (a + b) / 2, (b - a) / 2
            var_ = h * h / 3
            cm, p = [], rv(1)
            for n in range(9):
                cm.append(p / (n + 1) if n % 2 == 0 else ZERO)
                p = p * h
    for o in c.run(lambda: c.ex.call_body(instance(ast, name, key, len(args)), None, args)):
        c.at(o)
        if o.kind == 'abort':
            c.goal('%s: no assertion' % name, FALSE, o)
            continue
        if o.kind == 'throw':
            c.flag('%s: throws only std::invalid_argument' % name, o.val == 'std::invalid_argument', str(o.val))
            c.goal('%s: throws only for invalid parameters' % name, bad, o)
            continue
        c.goal('%s: invalid parameters are rejected' % name, z3.Not(bad), o)
        r = c.ex.rv_(o.val)
        if raw(r):
            raise Unsupported('result of %s' % name)
        S, std = r.f['$sd'], r.f['$std'].items
        pc = list(o.pc)
        same(ctx, c.label, '%s: mean' % name, r.f['$mean'], mean, pc, [])
        same(ctx, c.label, '%s: variance' % name, S * S, var_, pc, [])
        c.goal('%s: the standard deviation is not negative' % name, S >= 0, o)
        p = S * S
        for n in range(3, 9):
            p = p * S
            same(ctx, c.label, '%s: central moment %d' % (name, n), std[n - 3] * p, cm[n], pc, [])

def v_psd(ctx):
    """The specified moments are those of a distribution: their 5x5 matrix is positive definite (not negative for
    chisquare), by Sylvester's criterion."""
    t0 = time.time()
    k = sympy.Symbol('k', positive=True)
    def moments(name):
        if name == 'normal':
            return [1, 0, 1, 0, 3, 0, 15, 0, 105], 1
        if name == 'uniform':
            return [sympy.Rational(1, n + 1) if n % 2 == 0 else 0 for n in range(9)], 1
        cu = [0, k]
        for n in range(2, 9):
            cu.append(cu[-1] * 2 * (n - 1))
        return cumulants_to_central(cu), k
    for name in ('normal', 'uniform', 'chisquare'):
        m, _ = moments(name)
        M = sympy.Matrix(5, 5, lambda i, j: m[i + j])
        ok = True
        for n in range(1, 6):
            d = sympy.factor(M[:n, :n].det())
            if d.free_symbols:
                q = sympy.Poly(sympy.expand(d), k)
                ok = ok and all(x > 0 for x in q.coeffs())
            else:
                ok = ok and d > 0
        ctx.add('%s: the matrix of the specified moments is positive definite' % name, '(lemma)', 'proved' if ok else 'unknown', time.time() - t0, backend='sympy')

def v_central(ctx, ast):
    fn = template_instance(ast, 'central_moments')
    c = Case(ctx, ast, 'central_moments(raw moments)')
    z = [z3.Real('z%d' % (i + 1)) for i in range(8)]
    la = c.ex.alloc(ArrV(z), 'zm')
    raw_ = [rv(1)] + z
    for o in no_throw(c, 'central_moments', c.run(lambda: c.ex.call_body(fn, None, [la]))):
        c.at(o)
        r = c.ex.rv_(o.val)
        for n in range(2, 9):
            t = []
            for k in range(n + 1):
                p = rv(_m.comb(n, k) * (-1) ** (n - k)) * raw_[k]
                for _ in range(n - k):
                    p = p * z[0]
                t.append(p)
            same(ctx, c.label, 'central_moments: moment %d is E[(x - E x)^%d]' % (n, n), c.ex.toreal(r.items[n - 2]), z3.Sum(t), o.pc, [])
        c.flag('central_moments: argument not modified', same_value(ArrV(z), c.ex.load(la)))

def v_std(ctx, ast):
    fn = template_instance(ast, 'std_moments')
    c = Case(ctx, ast, 'std_moments(central moments)')
    m = [z3.Real('m%d' % (i + 2)) for i in range(7)]
    la = c.ex.alloc(ArrV(m), 'm')
    c.ex.pc.append(m[0] > 0)
    for o in no_throw(c, 'std_moments', c.run(lambda: c.ex.call_body(fn, None, [la]))):
        c.at(o)
        r = c.ex.rv_(o.val)
        s = SQRT(m[0])
        p = m[0]
        for n in range(3, 9):
            p = p * s
            same(ctx, c.label, 'std_moments: moment %d over the deviation to the power %d' % (n, n), c.ex.toreal(r.items[n - 3]), m[n - 2] / p, o.pc, [m[0] > 0])
        c.flag('std_moments: argument not modified', same_value(ArrV(m), c.ex.load(la)))

def template_instance(ast, name):
    for (sc, nm), l in ast.names.items():
        if nm == name:
            for f in l:
                t = [norm_type(c['type']['qualType']) for c in f.get('inner', []) if c.get('kind') == 'TemplateArgument' and 'type' in c]
                if t == ['double']:
                    return f
    raise Missing(name)

def v_binom(ctx, ast):
    fn = pick(ast, '', 'binom_coeff')
    c = Case(ctx, ast, 'binom_coeff(n, k)')
    for n in range(9):
        for k in range(n + 1):
            for o in no_throw(c, 'binom_coeff', c.run(lambda: c.ex.call_body(fn, None, [c.ex.alloc(iv(n), 'n'), c.ex.alloc(iv(k), 'k')]))):
                c.at(o)
                c.goal('binom_coeff(%d, %d) = %d' % (n, k, _m.comb(n, k)), c.ex.rv_(o.val) == _m.comb(n, k), o)

def c15(ctx):
    ast = AST(['VC_UREAL2', 'VC_CORE', 'VC_DISTR'])
    for m in MODES:
        for nm in ('normal', 'chisquare', 'uniform'):
            guarded(ctx, '%s [%s]' % (nm, m), lambda: v_factory(ctx, ast, nm, cls(m)))
    guarded(ctx, 'central_moments', lambda: v_central(ctx, ast))
    guarded(ctx, 'std_moments', lambda: v_std(ctx, ast))
    guarded(ctx, 'binom_coeff', lambda: v_binom(ctx, ast))
    guarded(ctx, '(lemma)', lambda: v_psd(ctx))
    common_assumptions(ctx)
    ctx.assume('the constructors of UReal2 give an independent variable with the moments they are passed and accept the moments of a distribution (C14)')
