"""Contracts of the first-order class UReal (C01-C06).

Abstraction: a variable u denotes its mean and its sensitivity function k |-> coef(u, k) (derivative with respect to the
independent variable k times its standard deviation) with support dep(u, .).
  coef(u,k) = id > 0 ? (k == id ? sdev : 0) : id < 0 ? (k in sigma ? sigma[k] : 0) : 0
Representation invariant RI(u):
  -1 <= id < MAXID; id == 0 => sdev == 0; id >= 0 => sigma empty; keys of sigma in [1, MAXID);
  id < 0 and sdev >= 0 => sdev^2 == sum of sigma^2 (a valid cache).
"""
import leanck
from spec import *

CLS = 'UReal<double>'

def coef(u, k):
    id, sd, sg = u.f['id'], u.f['sdev'], u.f['sigma']
    e = sg.elem((k,))
    return z3.If(id > 0, z3.If(k == id, sd, ZERO), z3.If(id < 0, z3.If(sg.dom.has((k,)), e, ZERO), ZERO))

def dep(u, k):
    id, sg = u.f['id'], u.f['sigma']
    return z3.If(id > 0, k == id, z3.And(id < 0, sg.dom.has((k,))))

def sumsq(u):
    k = fresh(I, 'k')
    return mksum((k,), z3.If(u.f['sigma'].dom.has((k,)), u.f['sigma'].elem((k,)) * u.f['sigma'].elem((k,)), ZERO))

def cov_sum(u, v):
    k = fresh(I, 'k')
    return mksum((k,), coef(u, k) * coef(v, k))

def ri_ground(u):
    id, sd = u.f['id'], u.f['sdev']
    return [id >= -1, id < MAXID, z3.Implies(id == 0, sd == 0)]

def ri_key(u, k):
    id, d = u.f['id'], u.f['sigma'].dom.has((k,))
    return z3.And(z3.Implies(d, z3.And(k >= 1, k < MAXID)), z3.Implies(id >= 0, z3.Not(d)))

def ri_cache(u):
    return z3.Implies(z3.And(u.f['id'] < 0, u.f['sdev'] >= 0), u.f['sdev'] * u.f['sdev'] == sumsq(u))

def new_ureal(name):
    """A fresh symbolic variable and the schemas and ground facts of its representation invariant."""
    d = z3.Function('in.1:%s.sigma' % name, I, B)
    e = z3.Function('el.1:%s.sigma' % name, I, R)
    m = MapV(DomV(1, lambda k: d(*k), name=name), lambda k: e(*k), ('double', None))
    u = StructV(CLS, {'id': z3.Int(name + '.id'), 'sdev': z3.Real(name + '.sdev'), 'mu': z3.Real(name + '.mu'), 'sigma': m})
    return u, [Schema(1, lambda k, u=u: ri_key(u, k[0]), 'RI ' + name)], ri_ground(u) + [ri_cache(u)]

def need_fields(ast):
    f = {n: t for n, t, _, _ in ast.fields(CLS)}
    for n in ('id', 'sdev', 'mu', 'sigma'):
        if n not in f:
            raise Missing('field %s of %s' % (n, CLS))
    if set(f) != {'id', 'sdev', 'mu', 'sigma'}:
        raise Missing('representation of %s changed: %s' % (CLS, sorted(f)))

# ------------------------------------------------------------------ contract hooks
def is_u(v):
    return isinstance(v, StructV) and v.cls == CLS

def result_ureal(ex, tag, mu, coef_spec, dep_spec, idspec=None):
    """A fresh variable known only through the callee's contract."""
    u, sch, pc = new_ureal(fresh_name(tag))
    ex.schemas = ex.schemas + sch + [Schema(1, lambda k: z3.And(coef(u, k[0]) == coef_spec(k[0]), z3.Implies(dep(u, k[0]), dep_spec(k[0]))), 'contract of ' + tag)]
    for c in pc:
        ex.assume(c)
    ex.assume(u.f['mu'] == mu)
    return u

def require_ri(ex, who, *us):
    for u in us:
        k = fresh(I, 'k')
        ex.oblige('%s: operand satisfies the representation invariant' % who, z3.And(*(ri_ground(u) + [ri_key(u, k), ri_cache(u)])))

def real(ex, a):
    v = ex.rv_(a)
    if isinstance(v, list):
        v = ex.coerce(v, 'double')
    return ex.toreal(v)

def hook_unary(ex, fn, this, args):
    if fn.get('_cls') != CLS or len(args) != 3:
        return NotImplemented
    x, mu, dx = ex.rv_(args[0]), real(ex, args[1]), real(ex, args[2])
    if not is_u(x):
        return NotImplemented
    require_ri(ex, 'unary', x)
    if getattr(ex, 'seen_calls', None) is not None:
        ex.seen_calls.append(('unary', x, mu, dx))
    return result_ureal(ex, 'unary', mu, lambda k: dx * coef(x, k), lambda k: dep(x, k))

def hook_binary(ex, fn, this, args):
    if fn.get('_cls') != CLS or len(args) != 5:
        return NotImplemented
    x, y = ex.rv_(args[0]), ex.rv_(args[1])
    mu, dx, dy = [real(ex, a) for a in args[2:]]
    if not (is_u(x) and is_u(y)):
        return NotImplemented
    require_ri(ex, 'binary', x, y)
    return result_ureal(ex, 'binary', mu, lambda k: dx * coef(x, k) + dy * coef(y, k), lambda k: z3.Or(dep(x, k), dep(y, k)))

def hook_assign(ex, fn, this, args):
    if fn.get('_cls') != CLS or len(args) != 4 or this is None:
        return NotImplemented
    t, x = ex.load(this), ex.rv_(args[0])
    mu, dt, dx = [real(ex, a) for a in args[1:]]
    if not (is_u(x) and is_u(t)):
        return NotImplemented
    require_ri(ex, 'binary_assign', t, x)
    ex.put(this, result_ureal(ex, 'binary_assign', mu, lambda k: dt * coef(t, k) + dx * coef(x, k), lambda k: z3.Or(dep(t, k), dep(x, k))))
    return this

def hook_cov(ex, fn, this, args):
    if fn.get('_cls') != CLS or len(args) != 2:
        return NotImplemented
    x, y = ex.rv_(args[0]), ex.rv_(args[1])
    if not (is_u(x) and is_u(y)):
        return NotImplemented
    require_ri(ex, 'cov', x, y)
    return COV(ex, x, y)

def COV(ex, x, y):
    m = ex.__dict__.setdefault('covmemo', {})
    k = (id(x), id(y)) if id(x) <= id(y) else (id(y), id(x))
    if k not in m:
        m[k] = (x, y, cov_sum(x, y))
    return m[k][2]

def hook_s(ex, fn, this, args):
    if fn.get('_cls') != CLS or this is None or args:
        return NotImplemented
    x = ex.load(this)
    if not is_u(x):
        return NotImplemented
    require_ri(ex, 's', x)
    return S(ex, x)

def S(ex, x):
    m = ex.__dict__.setdefault('smemo', {})
    if id(x) not in m:
        v = fresh(R, 's')
        m[id(x)] = (x, v)
    v = m[id(x)][1]
    ex.pc.append(z3.And(v >= 0, v * v == COV(ex, x, x)))
    return v

HOOKS = {'unary': hook_unary, 'binary': hook_binary, 'binary_assign': hook_assign}

# ------------------------------------------------------------------ common checks
def ri_goals(c, who, u, o, cached=True):
    k = fresh(I, 'k')
    c.goal('%s: representation invariant' % who, z3.And(*(ri_ground(u) + [ri_key(u, k)])), o, keys=[(k,)])
    if cached:
        c.goal('%s: a cached standard deviation is the current one' % who, ri_cache(u), o)

def law(c, who, u, spec, deps, mu, o):
    k = fresh(I, 'k')
    c.goal('%s: sensitivities' % who, coef(u, k) == spec(k), o, keys=[(k,)])
    c.goal('%s: no dependence on anything else' % who, z3.Implies(dep(u, k), deps(k)), o, keys=[(k,)])
    c.goal('%s: mean' % who, u.f['mu'] == mu, o)

def unchanged(c, who, old, new, o):
    """Frame: the object denotes the same variable and, field by field, is the same."""
    if same_value(old, new):
        c.flag('%s: operand not modified' % who, True)
        return
    k = fresh(I, 'k')
    c.goal('%s: operand not modified' % who, z3.And(old.f['id'] == new.f['id'], old.f['mu'] == new.f['mu'], coef(old, k) == coef(new, k),
           dep(old, k) == dep(new, k)), o, keys=[(k,)])
    ri_goals(c, who + ': operand', new, o)

def two(c, alias=False, names=('x', 'y')):
    ex = c.ex
    out = []
    for i, nm in enumerate(names):
        if alias and i == 1:
            out.append(out[0])
            continue
        u, sch, pc = new_ureal(nm)
        ex.schemas = ex.schemas + sch
        ex.pc = ex.pc + pc
        out.append((ex.alloc(u, nm), u))
    return out

def reals(c, *names):
    return [c.ex.alloc(z3.Real(n), n) for n in names], [z3.Real(n) for n in names]

def no_throw(c, who, outs):
    bad = [o for o in outs if o.kind in ('throw', 'abort')]
    for o in bad:
        c.goal('%s: no exception' % who, FALSE, o)
    if not bad:
        c.flag('%s: no exception' % who, True)
    return [o for o in outs if o.kind in ('normal', 'return')]

# ------------------------------------------------------------------ C01
def c01(ctx):
    ast = AST(['VC_UREAL', 'VC_CORE'])
    leanck.lemmas(ctx, 'loops')
    need_fields(ast)
    guarded(ctx, 'unary', lambda: v_unary(ctx, ast))
    for al in (False, True):
        guarded(ctx, 'binary' + al * ' (same object)', lambda: v_binary(ctx, ast, al))
    guarded(ctx, 'nary', lambda: v_nary(ctx, ast))
    for op in '+-*/':
        for al in (False, True):
            guarded(ctx, 'operator%s(x, y)%s' % (op, ' (same object)' * al), lambda: v_op2(ctx, ast, op, al))
    for op in '+-':
        guarded(ctx, 'operator%s(x)' % op, lambda: v_op1(ctx, ast, op))
    guarded(ctx, 'UReal(n)', lambda: v_ctor(ctx, ast, 'number'))
    common_assumptions(ctx)

def common_assumptions(ctx):
    ctx.assume('machine arithmetic treated as exact real arithmetic (rounding is property C21, not claimed)')
    ctx.assume('identities stay below 2^31-1 (fewer than 2^31-1 independent variables are constructed)')
    ctx.trust('std::map, std::vector, std::atomic, std::array and the standard math functions behave as specified by the C++ standard')
    ctx.assume('all objects are valid (representation invariant, established by the constructors and preserved by every operation verified here)')

def v_unary(ctx, ast):
    fn = pick(ast, CLS, 'unary', lambda f: len(params(f)) == 3)
    c = Case(ctx, ast, 'unary')
    (lx, x), = two(c, names=('x',))
    a, (mu, dx) = reals(c, 'mu', 'dx')
    for o in no_throw(c, 'unary', c.run(lambda: c.ex.call_body(fn, None, [lx] + a))):
        c.at(o)
        r = c.ex.rv_(o.val)
        law(c, 'unary', r, lambda k: dx * coef(x, k), lambda k: dep(x, k), mu, o)
        k = fresh(I, 'k')
        c.goal('unary: result depends on what the operand depends on', z3.Implies(z3.And(dep(x, k), dx != 0), dep(r, k)), o, keys=[(k,)])
        ri_goals(c, 'unary', r, o)
        unchanged(c, 'unary', x, c.ex.load(lx), o)

def v_binary(ctx, ast, alias):
    fn = pick(ast, CLS, 'binary', lambda f: len(params(f)) == 5)
    c = Case(ctx, ast, 'binary' + alias * ' (same object)')
    (lx, x), (ly, y) = two(c, alias)
    a, (mu, dx, dy) = reals(c, 'mu', 'dx', 'dy')
    for o in no_throw(c, 'binary', c.run(lambda: c.ex.call_body(fn, None, [lx, ly] + a))):
        c.at(o)
        r = c.ex.rv_(o.val)
        law(c, 'binary', r, lambda k: dx * coef(x, k) + dy * coef(y, k), lambda k: z3.Or(dep(x, k), dep(y, k)), mu, o)
        ri_goals(c, 'binary', r, o)
        unchanged(c, 'binary', x, c.ex.load(lx), o)
        unchanged(c, 'binary', y, c.ex.load(ly), o)

def vec_ureal(c, name, n):
    """A vector of n symbolic variables, all satisfying the representation invariant."""
    fid = z3.Function('%s.id' % name, I, I)
    fsd = z3.Function('%s.sdev' % name, I, R)
    fmu = z3.Function('%s.mu' % name, I, R)
    fin = z3.Function('in.2:%s.sigma' % name, I, I, B)
    fel = z3.Function('el.2:%s.sigma' % name, I, I, R)
    ip = z3.Int('elem.' + name)
    D = DomV(1, lambda k: fin(ip, *k), params=(ip,), name=name)
    def elem(i):
        dom = DomV(1, lambda k: fin(i, *k), params=(i,), uid=D.uid)
        return StructV(CLS, {'id': fid(i), 'sdev': fsd(i), 'mu': fmu(i), 'sigma': MapV(dom, lambda k: fel(i, *k), ('double', None))})
    def inv(ik):
        u = elem(ik[0])
        return z3.And(*(ri_ground(u) + [ri_key(u, ik[1])]))
    c.ex.schemas = c.ex.schemas + [Schema(2, inv, 'RI of elements')]
    return VecV(n, elem, CLS), elem

def v_nary(ctx, ast):
    fn = pick(ast, CLS, 'nary', lambda f: len(params(f)) == 4)
    c = Case(ctx, ast, 'nary')
    n = z3.Int('n')
    c.ex.pc = [n >= 0]
    vec, elem = vec_ureal(c, 'xs', n)
    fd = z3.Function('ds', I, R)
    dv = VecV(n, lambda i: fd(i), 'double')
    lv, ld = c.ex.alloc(vec, 'xs'), c.ex.alloc(dv, 'ds')
    mu = z3.Real('mu')
    args = [VecIter(lv, iv(0)), VecIter(lv, n), mu, VecIter(ld, iv(0))]
    for o in no_throw(c, 'nary', c.run(lambda: c.ex.call_body(fn, None, args))):
        c.at(o)
        r = c.ex.rv_(o.val)
        k = fresh(I, 'k')
        i = fresh(I, 'i')
        spec = lambda q: mksum((i,), z3.If(z3.And(i >= 0, i < n), fd(i) * coef(elem(i), q), ZERO), [q])
        c.goal('nary: sensitivities', coef(r, k) == spec(k), o, keys=[(k,)])
        c.goal('nary: mean', r.f['mu'] == mu, o)
        c.goal('nary: representation invariant', z3.And(*(ri_ground(r) + [ri_key(r, k)])), o, keys=[(k,)])
        c.goal('nary: a cached standard deviation is the current one', ri_cache(r), o)
        c.flag('nary: operands not modified', same_value(vec, c.ex.load(lv)) and same_value(dv, c.ex.load(ld)))

OPS = {'+': (lambda a, b: a + b, lambda a, b: (rv(1), rv(1))),
       '-': (lambda a, b: a - b, lambda a, b: (rv(1), rv(-1))),
       '*': (lambda a, b: a * b, lambda a, b: (b, a)),
       '/': (lambda a, b: a / b, lambda a, b: (1 / b, -a / (b * b)))}

def v_op2(ctx, ast, op, alias, cached=True):
    fn = pick(ast, CLS, 'operator' + op, lambda f: len(params(f)) == 2)
    c = Case(ctx, ast, 'operator%s(x, y)%s' % (op, ' (same object)' * alias), hooks=HOOKS)
    (lx, x), (ly, y) = two(c, alias)
    if op == '/':
        c.ex.pc.append(y.f['mu'] != 0)
    f, d = OPS[op]
    a, b = x.f['mu'], y.f['mu']
    for o in no_throw(c, 'operator' + op, c.run(lambda: c.ex.call_body(fn, None, [lx, ly]))):
        c.at(o)
        r = c.ex.rv_(o.val)
        da, db = d(a, b)
        law(c, 'operator' + op, r, lambda k: da * coef(x, k) + db * coef(y, k), lambda k: z3.Or(dep(x, k), dep(y, k)), f(a, b), o)
        ri_goals(c, 'operator' + op, r, o, cached)
        unchanged(c, 'operator' + op, x, c.ex.load(lx), o)
        unchanged(c, 'operator' + op, y, c.ex.load(ly), o)

def v_op1(ctx, ast, op):
    fn = pick(ast, CLS, 'operator' + op, lambda f: len(params(f)) == 1 and f['kind'] != 'CXXMethodDecl')
    c = Case(ctx, ast, 'operator%s(x)' % op, hooks=HOOKS)
    (lx, x), = two(c, names=('x',))
    s = rv(-1 if op == '-' else 1)
    for o in no_throw(c, 'unary ' + op, c.run(lambda: c.ex.call_body(fn, None, [lx]))):
        c.at(o)
        r = c.ex.rv_(o.val)
        law(c, 'unary ' + op, r, lambda k: s * coef(x, k), lambda k: dep(x, k), s * x.f['mu'], o)
        ri_goals(c, 'unary ' + op, r, o)
        unchanged(c, 'unary ' + op, x, c.ex.load(lx), o)

# ------------------------------------------------------------------ C02
def c02(ctx):
    ast = AST(['VC_UREAL', 'VC_CORE'])
    leanck.lemmas(ctx, 'loops')
    need_fields(ast)
    for sc in ('distinct objects', 'same object', 'arguments inside the operands', 'same object, arguments inside it', 'mean argument inside the target'):
        guarded(ctx, 'binary_assign (%s)' % sc, lambda: v_assign(ctx, ast, sc))
    for op in '+-*/':
        for al in (False, True):
            guarded(ctx, 'operator%s=%s' % (op, ' (same object)' * al), lambda: v_opassign(ctx, ast, op, al))
    # reading afterwards: the contracts of the observers, from any state satisfying the invariant
    guarded(ctx, 's() and var', lambda: v_s(ctx, ast))
    guarded(ctx, 'cov', lambda: v_cov(ctx, ast))
    common_assumptions(ctx)

def v_assign(ctx, ast, sc):
    fn = pick(ast, CLS, 'binary_assign', lambda f: len(params(f)) == 4)
    c = Case(ctx, ast, 'binary_assign (%s)' % sc)
    (lt, t), (lx, x) = two(c, 'same' in sc, names=('t', 'x'))
    a, (mu, dt, dx) = reals(c, 'mu', 'dt', 'dx')
    if 'arguments inside' in sc:
        a = [a[0], lx.sub(('f', 'mu')), lt.sub(('f', 'mu'))]
        dt, dx = x.f['mu'], t.f['mu']
    elif 'mean argument' in sc:
        a = [lt.sub(('f', 'mu')), a[1], a[2]]
        mu = t.f['mu']
    for o in no_throw(c, 'binary_assign', c.run(lambda: c.ex.call_body(fn, lt, [lx] + a))):
        c.at(o)
        r = c.ex.load(lt)
        law(c, 'binary_assign', r, lambda k: dt * coef(t, k) + dx * coef(x, k), lambda k: z3.Or(dep(t, k), dep(x, k)), mu, o)
        ri_goals(c, 'binary_assign', r, o)
        if 'same' not in sc:
            unchanged(c, 'binary_assign', x, c.ex.load(lx), o)
        c.flag('binary_assign: returns the target', isinstance(o.val, LV) and is_t(o.val.same(lt)))

def v_opassign(ctx, ast, op, alias):
    fn = pick(ast, CLS, 'operator%s=' % op, lambda f: len(params(f)) == 1)
    c = Case(ctx, ast, 'operator%s=%s' % (op, ' (same object)' * alias), hooks=HOOKS)
    (lt, t), (lx, x) = two(c, alias, names=('t', 'x'))
    if op == '/':
        c.ex.pc.append(x.f['mu'] != 0)
    f, d = OPS[op]
    a, b = t.f['mu'], x.f['mu']
    for o in no_throw(c, 'operator%s=' % op, c.run(lambda: c.ex.call_body(fn, lt, [lx]))):
        c.at(o)
        r = c.ex.load(lt)
        da, db = d(a, b)
        law(c, 'operator%s=' % op, r, lambda k: da * coef(t, k) + db * coef(x, k), lambda k: z3.Or(dep(t, k), dep(x, k)), f(a, b), o)
        ri_goals(c, 'operator%s=' % op, r, o)
        if not alias:
            unchanged(c, 'operator%s=' % op, x, c.ex.load(lx), o)
        c.flag('operator%s=: returns the target' % op, isinstance(o.val, LV) and is_t(o.val.same(lt)))

# ------------------------------------------------------------------ C03
def v_cov(ctx, ast):
    fn = pick(ast, CLS, 'cov', lambda f: len(params(f)) == 2)
    for al in (False, True):
        c = Case(ctx, ast, 'cov' + al * ' (same object)')
        (lx, x), (ly, y) = two(c, al)
        for o in no_throw(c, 'cov', c.run(lambda: c.ex.call_body(fn, None, [lx, ly]))):
            c.at(o)
            r = c.ex.rv_(o.val)
            c.goal('cov: sum over the independent variables of the products of the sensitivities', r == cov_sum(x, y), o)
            unchanged(c, 'cov', x, c.ex.load(lx), o)
            unchanged(c, 'cov', y, c.ex.load(ly), o)

def v_s(ctx, ast):
    for name, sq in (('s', False), ('var', True)):
        for fn in overloads(ast, CLS, name):
            meth = fn['kind'] == 'CXXMethodDecl'
            if len(params(fn)) != (0 if meth else 1):
                continue
            const = is_const_method(fn) if meth else pquals(fn)[0].startswith('const')
            lab = '%s (%s)' % (name, 'const' if const else 'non-const')
            c = Case(ctx, ast, lab)
            (lx, x), = two(c, names=('x',))
            for o in no_throw(c, lab, c.run(lambda: c.ex.call_body(fn, lx if meth else None, [] if meth else [lx]))):
                c.at(o)
                r = c.ex.rv_(o.val)
                spec = cov_sum(x, x)
                if sq:
                    c.goal('%s: var(x) == cov(x, x)' % lab, r == spec, o)
                else:
                    c.goal('%s: s(x)^2 == cov(x, x)' % lab, r * r == spec, o)
                    c.goal('%s: s(x) >= 0' % lab, r >= 0, o)
                unchanged(c, lab, x, c.ex.load(lx), o)

def c03(ctx):
    ast = AST(['VC_UREAL', 'VC_CORE'])
    leanck.lemmas(ctx, 'loops')
    need_fields(ast)
    guarded(ctx, 'cov', lambda: v_cov(ctx, ast))
    guarded(ctx, 's and var', lambda: v_s(ctx, ast))
    guarded(ctx, 'corr', lambda: v_corr(ctx, ast))
    guarded(ctx, 'sdev(x)', lambda: v_free(ctx, ast, ('sdev',)))
    guarded(ctx, 'lemmas', lambda: lemmas_cov(ctx, ast))
    common_assumptions(ctx)

def v_corr(ctx, ast):
    fn = pick(ast, CLS, 'corr', lambda f: len(params(f)) == 2)
    for al in (False, True):
        c = Case(ctx, ast, 'corr' + al * ' (same object)', hooks={'cov': hook_cov, 's': hook_s})
        (lx, x), (ly, y) = two(c, al)
        for o in no_throw(c, 'corr', c.run(lambda: c.ex.call_body(fn, None, [lx, ly]))):
            c.at(o)
            r = c.ex.rv_(o.val)
            sx, sy = S(c.ex, x), S(c.ex, y)
            c.goal('corr: cov(x,y)/(s(x) s(y))', z3.Implies(z3.And(sx > 0, sy > 0), r * sx * sy == COV(c.ex, x, y)), o)
            unchanged(c, 'corr', x, c.ex.load(lx), o)
            unchanged(c, 'corr', y, c.ex.load(ly), o)

def lemmas_cov(ctx, ast):
    c = Case(ctx, ast, 'lemma')
    (lx, x), (ly, y) = two(c)
    c.goal('lemma: cov is symmetric', cov_sum(x, y) == cov_sum(y, x))
    k = fresh(I, 'k')
    c2 = Case(ctx, ast, 'lemma')
    (lx, x), (ly, y) = two(c2)
    c2.ex.schemas = c2.ex.schemas + [Schema(1, lambda k: z3.Not(z3.And(dep(x, k[0]), dep(y, k[0]))), 'nothing in common')]
    c2.goal('lemma: cov is zero without common variables', cov_sum(x, y) == 0)
    c2.goal('lemma: var(x) >= 0', cov_sum(x, x) >= 0)

# ------------------------------------------------------------------ C04
def v_ctor(ctx, ast, which):
    want = {'number': ['double'], 'default': [], 'independent': ['double', 'double']}[which]
    ctors = [f for f in ast.ctors(CLS) if not f.get('isImplicit') and [t.rstrip('&') for t in ptypes(f)] == want]
    if not ctors:
        raise Missing('constructor of %s' % CLS)
    c = Case(ctx, ast, 'UReal(%s)' % which)
    c.ex.pc = []
    a, (n, s) = reals(c, 'n', 's')
    outs = c.run(lambda: c.ex.construct(CLS, ctors[0], a[:len(want)]))
    for o in outs:
        c.at(o)
        if o.kind == 'abort':
            c.goal('UReal(): no assertion', FALSE, o)
            continue
        if o.kind == 'throw':
            c.flag('UReal(): throws only std::invalid_argument', o.val == 'std::invalid_argument', str(o.val))
            c.goal('UReal(): throws only for a negative standard deviation', s < 0 if which == 'independent' else FALSE, o)
            continue
        r = o.val
        k = fresh(I, 'k')
        c.goal('UReal(): mean', r.f['mu'] == (n if which != 'default' else ZERO), o)
        c.goal('UReal(): depends on nothing but itself', z3.Not(r.f['sigma'].dom.has((k,))), o, keys=[(k,)])
        if which == 'independent':
            c.goal('UReal(): a negative standard deviation is rejected', s >= 0, o)
            c.goal('UReal(): standard deviation', r.f['sdev'] == s, o)
            c.flag('UReal(): draws exactly one identity', len(o.ids) == 1)
            if len(o.ids) == 1:
                id_goal(c, ctx, ast, 'UReal()', r.f['id'], o)
        else:
            c.goal('UReal(): a constant has identity 0 and no uncertainty', z3.And(r.f['id'] == 0, r.f['sdev'] == 0), o)
            c.flag('UReal(): no identity is drawn', len(o.ids) == 0)

def counter_init(ast):
    def lit(n):
        if n.get('kind') == 'IntegerLiteral':
            return int(n['value'])
        for x in n.get('inner', []):
            r = lit(x)
            if r is not None:
                return r
    for d in ast.decl.values():
        if d.get('kind') == 'VarDecl' and d.get('name') == 'last_id':
            for x in d.get('inner', []):
                if x.get('kind') and 'Attr' not in x['kind'] and 'Comment' not in x['kind']:
                    return lit(x)
    return None

def id_goal(c, ctx, ast, who, id, o):
    """The identity is the value of the shared counter after (or before) its atomic increment, always the same way."""
    new = o.ids[0]
    sh = 0 if simp(id).eq(new) else -1 if simp(id - new).eq(iv(-1)) else None
    if sh is None:
        c.goal('%s: its identity is the fresh one' % who, id == new, o)
        return
    c.goal('%s: its identity is the fresh one' % who, id == new + sh, o)
    i0 = counter_init(ast)
    c.flag('%s: identities are positive' % who, i0 is not None and i0 + 1 + sh >= 1, 'initial counter %s, identity is the counter %s the increment' % (i0, 'after' if sh == 0 else 'before'))
    prev = getattr(ctx, 'id_shift', sh)
    ctx.id_shift = sh
    c.flag('%s: every constructor takes its identity the same way' % who, prev == sh)

def c04(ctx):
    ast = AST(['VC_UREAL', 'VC_CORE'])
    need_fields(ast)
    for w in ('independent', 'number', 'default'):
        guarded(ctx, 'UReal(%s)' % w, lambda: v_ctor(ctx, ast, w))
    guarded(ctx, 'copies', lambda: v_copies(ctx, ast, CLS))
    guarded(ctx, 'indepid and isindep', lambda: v_indepid(ctx, ast))
    guarded(ctx, 'last_id', lambda: v_counter(ctx, ast))
    # the identity of results follows from their support
    guarded(ctx, 'unary', lambda: v_unary(ctx, ast))
    guarded(ctx, 'binary', lambda: v_binary(ctx, ast, False))
    common_assumptions(ctx)
    import c_ureal2
    c_ureal2.c04(ctx)

def v_copies(ctx, ast, cls):
    """Copy construction and assignment are the implicit member-wise ones."""
    c = Case(ctx, ast, 'copy of ' + cls)
    base = cls.split('<')[0]
    bad = []
    for f in [x for x in ast.cls[cls].get('inner', []) if x.get('kind') in ('CXXConstructorDecl', 'CXXMethodDecl')]:
        if f.get('isImplicit') or f.get('explicitlyDefaulted'):
            continue
        pt = [t.rstrip('&') for t in ptypes(f)]
        if f['kind'] == 'CXXConstructorDecl' and len(pt) == 1 and pt[0] in (cls, base):
            bad.append('copy constructor')
        if f.get('name') == 'operator=' and len(pt) == 1 and pt[0] in (cls, base):
            bad.append('copy assignment')
    if bad:
        raise Unsupported('user-provided ' + ', '.join(bad))
    c.flag('copies are member-wise, so they keep identity, sensitivities and mean', True)

def v_counter(ctx, ast):
    c = Case(ctx, ast, 'last_id')
    ds = [d for d in ast.decl.values() if d.get('kind') == 'VarDecl' and d.get('name') == 'last_id']
    c.flag('the counter of identities is atomic', bool(ds) and all('atomic<' in norm_type(d['type']['qualType']) for d in ds),
           str([d['type']['qualType'] for d in ds]), soft=True)
    # no function of the library but the constructors touches it
    users = set()
    def uses(n):
        if n.get('kind') == 'DeclRefExpr' and (n.get('referencedDecl') or {}).get('name') == 'last_id':
            return True
        return any(uses(x) for x in n.get('inner', []))
    for f in ast.fdef.values():
        if uses(f):
            users.add(f.get('kind'))
    c.flag('only constructors use the counter', users <= {'CXXConstructorDecl'}, str(users), soft=True)

def v_indepid(ctx, ast):
    for name in ('indepid', 'isindep'):
        fn = pick(ast, CLS, name, lambda f: not params(f))
        c = Case(ctx, ast, name)
        (lx, x), = two(c, names=('x',))
        for o in no_throw(c, name, c.run(lambda: c.ex.call_body(fn, lx, []))):
            c.at(o)
            r = c.ex.rv_(o.val)
            k, k2 = fresh(I, 'k'), fresh(I, 'k')
            sz = x.f['sigma'].dom.size()
            count = z3.If(x.f['id'] > 0, 1, z3.If(x.f['id'] < 0, sz, 0))
            if name == 'isindep':
                c.goal('isindep: depends on at most one variable', r == (count <= 1), o)
            else:
                c.goal('indepid: 0 exactly when it depends on nothing', (r == 0) == (count == 0), o)
                c.goal('indepid: the only variable it depends on', z3.Implies(count == 1, z3.And(dep(x, r), z3.Implies(dep(x, k), k == r))), o, keys=[(k,), (r,)])
                c.goal('indepid: invalid when it depends on several', z3.Implies(count >= 2, r == -1), o)
            unchanged(c, name, x, c.ex.load(lx), o)

# ------------------------------------------------------------------ C05
def c05(ctx):
    ast = AST(['VC_UREAL', 'VC_CORE'])
    need_fields(ast)
    for al in (False, True):
        guarded(ctx, 'grad' + al * ' (same object)', lambda: v_grad(ctx, ast, al))
    common_assumptions(ctx)

def v_grad(ctx, ast, alias):
    fn = pick(ast, CLS, 'grad', lambda f: len(params(f)) == 1)
    c = Case(ctx, ast, 'grad' + alias * ' (same object)')
    (ly, y), (lx, x) = two(c, alias, names=('f', 'x'))
    sz = x.f['sigma'].dom.size()
    count = z3.If(x.f['id'] > 0, 1, z3.If(x.f['id'] < 0, sz, 0))
    for o in c.run(lambda: c.ex.call_body(fn, ly, [lx])):
        c.at(o)
        if o.kind == 'throw':
            c.flag('grad: throws only std::invalid_argument', o.val == 'std::invalid_argument', str(o.val))
            c.goal('grad: throws only if x depends on no or on several variables', count != 1, o)
            unchanged(c, 'grad', y, c.ex.load(ly), o)
            continue
        if o.kind == 'abort':
            c.goal('grad: no assertion', FALSE, o)
            continue
        r = c.ex.rv_(o.val)
        k = fresh(I, 'k')
        c.goal('grad: throws if x depends on no or on several variables', count == 1, o)
        c.goal('grad: ratio of the sensitivities', z3.Implies(z3.And(dep(x, k), coef(x, k) != 0), r * coef(x, k) == coef(y, k)), o, keys=[(k,)])
        c.goal('grad: 0 if it does not depend on the variable', z3.Implies(z3.And(dep(x, k), z3.Not(dep(y, k))), r == 0), o, keys=[(k,)])
        unchanged(c, 'grad', y, c.ex.load(ly), o)
        unchanged(c, 'grad', x, c.ex.load(lx), o)

# ------------------------------------------------------------------ C06
def c06(ctx):
    ast = AST(['VC_UREAL', 'VC_CORE'])
    need_fields(ast)
    guarded(ctx, 'conversion', lambda: v_conv(ctx, ast))
    guarded(ctx, 'change_nom', lambda: v_change(ctx, ast))
    guarded(ctx, 'accessors', lambda: v_free(ctx, ast, ('nom', 'sdev', 'n')))
    guarded(ctx, 's', lambda: v_s(ctx, ast))
    guarded(ctx, 'operator+(x)', lambda: v_op1(ctx, ast, '+'))
    common_assumptions(ctx)
    ctx.assume('the conversion of one number to the other numerical type is taken as exact')

def v_conv(ctx, ast):
    done = 0
    for key in (CLS, 'UReal<float>'):
        for fn in ast._members(key):
            if fn['kind'] != 'CXXConversionDecl':
                continue
            fn = ast.function(fn['id'])
            if fn is None or body(fn) is None:
                continue
            done += 1
            c = Case(ctx, ast, 'conversion %s' % norm_type(fn['type']['qualType'])[:30])
            c.ex.exact_casts = True
            (lx, x), = two(c, names=('x',))
            if key != CLS:
                x = StructV(key, x.f)
                c.ex.store[lx.loc] = x
            for o in no_throw(c, 'conversion', c.run(lambda: c.ex.call_body(fn, lx, []))):
                c.at(o)
                r = c.ex.rv_(o.val)
                k = fresh(I, 'k')
                c.goal('conversion: mean', r.f['mu'] == x.f['mu'], o)
                c.goal('conversion: identity', r.f['id'] == x.f['id'], o)
                c.goal('conversion: sensitivities', z3.And(coef(r, k) == coef(x, k), dep(r, k) == dep(x, k)), o, keys=[(k,)])
                ri_goals(c, 'conversion', r, o)
                c.flag('conversion: operand not modified', same_value(x, c.ex.load(lx)))
    if not done:
        raise Missing('conversion operator')

def v_change(ctx, ast):
    fn = pick(ast, CLS, 'change_nom', lambda f: len(params(f)) == 2)
    c = Case(ctx, ast, 'change_nom')
    (lx, x), = two(c, names=('x',))
    a, (n,) = reals(c, 'n')
    for o in no_throw(c, 'change_nom', c.run(lambda: c.ex.call_body(fn, None, [lx] + a))):
        c.at(o)
        r = c.ex.rv_(o.val)
        k = fresh(I, 'k')
        c.goal('change_nom: mean', r.f['mu'] == n, o)
        c.goal('change_nom: otherwise the same', z3.And(r.f['id'] == x.f['id'], coef(r, k) == coef(x, k), dep(r, k) == dep(x, k)), o, keys=[(k,)])
        ri_goals(c, 'change_nom', r, o)
        unchanged(c, 'change_nom', x, c.ex.load(lx), o)

def v_free(ctx, ast, names):
    for nm in names:
        if nm == 'n':
            fns = [pick(ast, CLS, 'n', lambda f: not params(f))]
        else:
            fns = [f for (sc, n), l in ast.names.items() if n == nm for f in l if len(params(f)) == 1 and 'UReal<double>' in ptypes(f)[0] and 'Number' not in ptypes(f)[0]]
            if not fns:
                raise Missing(nm)
        for fn in fns[:1]:
            c = Case(ctx, ast, nm, hooks={'s': hook_s})
            (lx, x), = two(c, names=('x',))
            for o in no_throw(c, nm, c.run(lambda: c.ex.call_body(fn, lx if nm == 'n' else None, [] if nm == 'n' else [lx]))):
                c.at(o)
                r = c.ex.rv_(o.val)
                if nm == 'sdev':
                    c.goal('sdev: the standard deviation', r == S(c.ex, x), o)
                else:
                    c.goal('%s: the mean' % nm, r == x.f['mu'], o)
                unchanged(c, nm, x, c.ex.load(lx), o)
