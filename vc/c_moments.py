"""Moments and covariance of the quadratic expansion (C11, C12)."""
from c_ureal2 import *
from itertools import product, combinations
import symsum as S
import leanck
import time

def leafname(nm, ids):
    """el.1:x.grad -> ('g', x, i); moments are common to all containers."""
    t = nm.split(':', 1)[1]
    if nm.startswith('el.2:'):
        return ('e', t[:-2], ids[0], ids[1])
    name, f = t.split('.', 1)
    if f == 'grad':
        return ('g', name, ids[0])
    if f == 'hhess':
        return ('h', name, ids[0])
    if f.startswith('mom.'):
        return ('m', int(f.rsplit('.', 1)[1]) + 3, ids[0])
    raise Unsupported('coefficient %s' % nm)

def form(w, name):
    """The quadratic form g.v + v.h.v: {exponents of v: polynomial in the coefficients}."""
    q = {}
    def put(i, j, p):
        e = [0] * w.k
        e[i - 1] += 1
        if j:
            e[j - 1] += 1
        q[tuple(e)] = S.add(q.get(tuple(e), S.P()), p)
    mem = sorted(w.member[name])
    for i in mem:
        put(i, 0, S.var(('g', name, i)))
        put(i, i, S.var(('h', name, i)))
    for i, j in combinations(mem, 2):
        put(i, j, S.mul(S.const(2), S.mul(w.stored(name, i, j), S.var(('e', name, i, j)))))
    return q

def times(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(x + y for x, y in zip(m, n))
            p = S.mul(c, d)
            r[k] = S.add(r[k], p) if k in r else p
    return r

def expect(q):
    """Expectation for independent v with mean 0, variance 1 and moments 3 to 8."""
    r = S.P()
    for m, c in q.items():
        t = c
        for i, e in enumerate(m):
            if e == 1:
                t = None
                break
            if e >= 3:
                t = S.mul(t, S.var(('m', e, i + 1)))
        if t is not None:
            S.iadd(r, t)
    return r

def centred(w, q):
    z = tuple([0] * w.k)
    q = dict(q)
    q[z] = S.add(q.get(z, S.P()), expect(q), -1)
    return q

def spec_m(w, name, n):
    q = form(w, name)
    if n == 1:
        return expect(q)
    q = centred(w, q)
    r = q
    for _ in range(n - 1):
        r = times(r, q)
    return expect(r)

def spec_cov(w, a, b):
    return expect(times(centred(w, form(w, a)), centred(w, form(w, b))))

def witness(d):
    """Small values at which a non-zero polynomial does not vanish."""
    import random
    rng = random.Random(1)
    vs = sorted({v for m in d for v, _ in m}, key=repr)
    for _ in range(50):
        env = {v: (1 if v[0] == 't' else 0 if v[0] == 'z' else rng.choice([1, 2, -1, 3, S.Fraction(1, 2)])) for v in vs}
        t = 0
        for m, c in d.items():
            for v, e in m:
                c = c * env[v] ** e
            t += c
        if t:
            return env, t
    return None, None

def mono(m):
    return '*'.join('%s%s' % ('_'.join(map(str, v)), '^%d' % e if e > 1 else '') for v, e in m) or '1'

def decide(c, who, e, o, spec, names, least):
    """One obligation per number of identities and pattern of dependence."""
    B_ = max(S.depth(e), least)
    if B_ > 6:
        raise Unsupported('%d nested sums' % B_)
    subs = [[n for n, b in zip(names, bits) if b] for bits in product([0, 1], repeat=len(names))][1:]
    if any(n.startswith('lb') for n in {x.decl().name() for x in allterms(e) if z3.is_app(x)}):
        raise Unsupported('the value depends on the position of an iterator')
    for k in range(B_ + 1):
        pats = list(product(subs, repeat=k))
        if k <= 1:
            pats += list(product(subs + [[]], repeat=k + 1))
        t0 = time.time()
        bad = None
        for pat in pats:
            w = S.World(len(pat), {n: {i + 1 for i, s in enumerate(pat) if n in s} for n in names}, leafname)
            d = S.add(w.real(e, {}), spec(w), -1)
            if d:
                bad = (pat, d)
                break
        det, st, vals = '', 'proved', []
        if bad:
            env, t = witness(bad[1])
            st = 'refuted' if env else 'unknown'
            det = '%s differs from the specification with %d independent variables in %d monomials: %s' % (
                who, len(bad[0]), len(bad[1]), '; '.join('%s: %s too much' % (mono(m), cf) for m, cf in sorted(bad[1].items(), key=lambda x: len(x[0]))[:4]))
            if env:
                det += '; e.g. at %s by %s' % (', '.join('%s=%s' % ('_'.join(map(str, v)), x) for v, x in list(env.items())[:24]), t)
                vals = [float(x) for x in env.values()][:20]
        c.ctx.add('%s: every coefficient, %d independent variable%s' % (who, k, 's' * (k != 1)), c.label, st, time.time() - t0, det, vals, 'symbolic summation')
        if bad:
            return

def allterms(e):
    seen, out, st = set(), [], [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        out.append(x)
        st.extend(x.children())
        if z3.is_app(x) and x.decl().name() in SUMS_():
            st.append(SUMS_()[x.decl().name()][2])
    return out

def SUMS_():
    return P.SUMS

def v_m(ctx, ast, mode, n):
    fn = pick(ast, cls(mode), 'm', lambda f: len(params(f)) == 1)
    c = Case(ctx, ast, 'm(%d) [%s]' % (n, mode), hooks=c_hg.HOOKS)
    lx, x = new_u2(c, 'x', mode)
    for o in no_throw(c, 'm', c.run(lambda: c.ex.call_body(fn, lx, [c.ex.alloc(iv(n), 'n')]))):
        c.at(o)
        decide(c, 'm(%d)' % n, c.ex.toreal(c.ex.rv_(o.val)), o, lambda w: spec_m(w, 'x', n), ['x'], n)
        untouched(c, 'm(%d)' % n, x, lx, o)

def friend(ast, mode, name, n):
    fns = [f for (sc, nm), l in ast.names.items() if nm == name for f in l if len(params(f)) == n and all(
        'UReal2<double' in t and args_of(t) and mode_of(args_of(t)[2]) == mode for t in ptypes(f)) and body(f) is not None]
    if not fns:
        raise Missing(name)
    return fns[0]

def v_cov2(ctx, ast, mode, alias):
    c = Case(ctx, ast, 'cov(%s) [%s]' % ('x, x' if alias else 'x, y', mode), hooks=c_hg.HOOKS)
    (lx, x), (ly, y) = two2(c, mode, alias)
    fn = friend(ast, mode, 'cov', 2)
    names = ['x'] if alias else ['x', 'y']
    for o in no_throw(c, 'cov', c.run(lambda: c.ex.call_body(fn, None, [lx, ly]))):
        c.at(o)
        decide(c, 'cov', c.ex.toreal(c.ex.rv_(o.val)), o, lambda w: spec_cov(w, 'x', names[-1]), names, 2)
        untouched(c, 'cov', x, lx, o)
        untouched(c, 'cov', y, ly, o)

def c11(ctx):
    ast = AST(['VC_UREAL2', 'VC_CORE'])
    leanck.lemmas(ctx, 'sums', 'loops')
    modes = MODES if ctx.thorough or not same_instance(ast, ('m',)) else MODES[:1]
    for m in modes:
        for n in (4, 3, 2, 1):
            guarded(ctx, 'm(%d) [%s]' % (n, m), lambda: v_m(ctx, ast, m, n))
    if len(modes) == 1:
        ctx.add('the two propagation modes instantiate the same code', 'm', 'proved', backend='syntactic')
    c_hg.iterators(ctx, ast, ('tri',))
    c_hg_accessors(ctx, ast)
    c_hg.soften(ctx)
    common_assumptions(ctx)

def v_var2(ctx, ast, mode):
    c = Case(ctx, ast, 'var(x) [%s]' % mode, hooks=c_hg.HOOKS)
    lx, x = new_u2(c, 'x', mode)
    for o in no_throw(c, 'var', c.run(lambda: c.ex.call_body(friend(ast, mode, 'var', 1), None, [lx]))):
        c.at(o)
        decide(c, 'var', c.ex.toreal(c.ex.rv_(o.val)), o, lambda w: spec_cov(w, 'x', 'x'), ['x'], 2)

def v_corr2(ctx, ast, mode, alias):
    COV = z3.Function('cov', I, I, R)
    def hook_cov(ex, fn, this, args):
        if len(args) != 2 or not all(is_u2(ex.load(a)) for a in args):
            return NotImplemented
        return COV(*[iv(id(hg(ex.load(a)))) for a in args])
    def hook_s(ex, fn, this, args):
        if this is None or not is_u2(ex.load(this)):
            return NotImplemented
        return SQRT(COV(*[iv(id(hg(ex.load(this))))] * 2))
    def hook_var(ex, fn, this, args):
        return hook_cov(ex, fn, None, list(args) * 2) if len(args) == 1 else NotImplemented
    def hook_mm(ex, fn, this, args):
        n = simp(ex.rv_(args[0])) if len(args) == 1 else None
        if this is None or n is None or not n.eq(iv(2)):
            return NotImplemented
        return hook_cov(ex, fn, None, [this, this])
    c = Case(ctx, ast, 'corr(%s) [%s]' % ('x, x' if alias else 'x, y', mode), hooks=dict(c_hg.HOOKS, cov=hook_cov, s=hook_s, var=hook_var, m=hook_mm))
    (lx, x), (ly, y) = two2(c, mode, alias)
    a, b = iv(id(hg(x))), iv(id(hg(y)))
    c.ex.pc += [COV(a, a) > 0, COV(b, b) > 0]
    for o in no_throw(c, 'corr', c.run(lambda: c.ex.call_body(friend(ast, mode, 'corr', 2), None, [lx, ly]))):
        c.at(o)
        c.goal('corr: the covariance over the product of the standard deviations', c.ex.rv_(o.val) * (SQRT(COV(a, a)) * SQRT(COV(b, b))) == COV(a, b), o)
        untouched(c, 'corr', x, lx, o)
        untouched(c, 'corr', y, ly, o)

def c12(ctx):
    ast = AST(['VC_UREAL2', 'VC_CORE'])
    leanck.lemmas(ctx, 'sums', 'cov', 'loops')
    for m in MODES:
        guarded(ctx, 'var [%s]' % m, lambda: v_var2(ctx, ast, m))
        for al in (False, True):
            guarded(ctx, 'corr [%s]' % m, lambda: v_corr2(ctx, ast, m, al))
        for al in (False, True):
            guarded(ctx, 'cov [%s]' % m, lambda: v_cov2(ctx, ast, m, al))
    c_hg.iterators(ctx, ast, ('tri',))
    c_hg.soften(ctx)
    common_assumptions(ctx)
    ctx.assume('the expectation of a product of functions of different independent variables is the product of the expectations (definition of independence)')
