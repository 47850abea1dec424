"""Contracts of the second-order class UReal2 (C04 part, C10, C11, C12, C13, C19)."""
import leanck
from spec import *
from c_ureal import common_assumptions, no_throw, reals, is_const_method, id_goal
from c_hg import *
import c_hg
import eigen

MODES = ('P0', 'P1')

def cls(mode, real='double'):
    return 'UReal2<%s,%s>' % (real, mode)

def ufields(ex, mode):
    f = {n: t for n, t, _, _ in ex.ast.fields(cls(mode))}
    hgn = [n for n, t in f.items() if ex.resolve_cls(t, cls(mode)) == HG or 'HessGrad' in t]
    mun = [n for n in f if n not in hgn]
    if len(hgn) != 1 or len(mun) != 1:
        raise Missing('representation of UReal2 changed: %s' % sorted(f))
    return hgn[0], mun[0]

def new_u2(c, name, mode):
    ex = c.ex
    hgn, mun = ufields(ex, mode)
    h, sch = new_hg(ex, name)
    ex.schemas = ex.schemas + sch
    u = StructV(cls(mode), {hgn: h, mun: z3.Real(name + '.mu')})
    return ex.alloc(u, name), u

def hg(u):
    return [v for v in u.f.values() if isinstance(v, StructV)][0]

def mu(u):
    return [v for v in u.f.values() if isz(v)][0]

def two2(c, mode, alias=False, names=('x', 'y')):
    a = new_u2(c, names[0], mode)
    if alias:
        return a, a
    b = new_u2(c, names[1], mode)
    c.ex.schemas = c.ex.schemas + [compat(hg(a[1]), hg(b[1]))]
    return a, b

def untouched(c, who, u, lv, o):
    v = c.ex.load(lv)
    if same_value(u, v):
        c.flag('%s: operand not modified' % who, True)
        return
    k, a, b = fresh(I, 'k'), fresh(I, 'a'), fresh(I, 'b')
    c.goal('%s: operand not modified' % who, z3.And(mu(u) == mu(v), D(hg(u), k) == D(hg(v), k), g(hg(u), k) == g(hg(v), k), H(hg(u), k, k) == H(hg(v), k, k),
           z3.Implies(D(hg(u), k), same_mom(hg(u), k, hg(v), k)), T(hg(u), a, b) == T(hg(v), a, b), z3.Implies(a < b, H(hg(u), a, b) == H(hg(v), a, b))), o, keys=[(k,), (a, b)])

# ------------------------------------------------------------------ C10
def chain(c, who, r, o, m, ops, cross=None):
    """ops: [(u, d, dd)]; cross: (ux, uy, dxy)."""
    k, a, b = fresh(I, 'k'), fresh(I, 'a'), fresh(I, 'b')
    h = hg(r)
    c.goal('%s: first-order mean' % who, mu(r) == m, o)
    c.goal('%s: depends on the variables of the operands' % who, D(h, k) == z3.Or(*[D(hg(u), k) for u, _, _ in ops]), o, keys=[(k,)])
    c.goal('%s: gradient' % who, g(h, k) == z3.Sum([d * g(hg(u), k) for u, d, _ in ops]), o, keys=[(k,)])
    for u, _, _ in ops:
        c.goal('%s: moments carried over' % who, z3.Implies(D(hg(u), k), same_mom(h, k, hg(u), k)), o, keys=[(k,)])
    spec = lambda a, b: hspec(ops, cross, a, b)
    c.goal('%s: diagonal of the Hessian' % who, H(h, k, k) == spec(k, k), o, keys=[(k,), (k, k)])
    c.goal('%s: mixed entries of the Hessian' % who, z3.Implies(a < b, H(h, a, b) == spec(a, b)), o, keys=[(a,), (b,), (a, b)], extra=[a < b])
    c_hg.ri_goals(c, who, h, o)

def v_unary(ctx, ast, mode):
    fn = pick(ast, cls(mode), 'unary', lambda f: len(params(f)) == 4)
    c = Case(ctx, ast, 'unary [%s]' % mode, hooks=c_hg.HOOKS)
    lx, x = new_u2(c, 'x', mode)
    a, (m, d, dd) = reals(c, 'fx', 'dfdx', 'ddfdxdx')
    for o in no_throw(c, 'unary', c.run(lambda: c.ex.call_body(fn, None, [lx] + a))):
        c.at(o)
        chain(c, 'unary', c.ex.rv_(o.val), o, m, [(x, d, dd)])
        untouched(c, 'unary', x, lx, o)

def v_binary(ctx, ast, mode, alias):
    fn = pick(ast, cls(mode), 'binary', lambda f: len(params(f)) == 8)
    c = Case(ctx, ast, 'binary [%s]%s' % (mode, ' (same object)' * alias), hooks=c_hg.HOOKS)
    (lx, x), (ly, y) = two2(c, mode, alias)
    a, (m, dx, dy, dxx, dyy, dxy) = reals(c, 'fxy', 'dfdx', 'dfdy', 'ddfdxdx', 'ddfdydy', 'ddfdxdy')
    for o in no_throw(c, 'binary', c.run(lambda: c.ex.call_body(fn, None, [lx, ly] + a))):
        c.at(o)
        chain(c, 'binary', c.ex.rv_(o.val), o, m, [(x, dx, dxx), (y, dy, dyy)], (x, y, dxy))
        untouched(c, 'binary', x, lx, o)
        untouched(c, 'binary', y, ly, o)

def is_u2(v):
    return isinstance(v, StructV) and v.cls.startswith('UReal2<')

def require(ex, who, *us):
    k, a, b = fresh(I, 'k'), fresh(I, 'a'), fresh(I, 'b')
    for u in us:
        ex.oblige('%s: operand satisfies the representation invariant' % who, z3.And(ri1(hg(u), k), ri2(hg(u), a, b)))
    if len(us) == 2 and us[0] is not us[1]:
        ex.oblige('%s: operands agree on the moments of common variables' % who, z3.Implies(z3.And(D(hg(us[0]), k), D(hg(us[1]), k)), same_mom(hg(us[0]), k, hg(us[1]), k)))

def result_u2(ex, mode, tag, m, ops, cross=None):
    """A fresh variable known only through the contract of unary or binary."""
    hgn, mun = ufields(ex, mode)
    nm = fresh_name(tag)
    h, sch = new_hg(ex, nm)
    def s1(k):
        k = k[0]
        t = [D(h, k) == z3.Or(*[D(hg(u), k) for u, _, _ in ops]),
             g(h, k) == z3.Sum([d * g(hg(u), k) for u, d, _ in ops]), H(h, k, k) == hspec(ops, cross, k, k)]
        return z3.And(*(t + [z3.Implies(D(hg(u), k), same_mom(h, k, hg(u), k)) for u, _, _ in ops]))
    ex.schemas = ex.schemas + sch + [Schema(1, s1, 'contract of ' + tag),
        Schema(2, lambda k: z3.Implies(k[0] < k[1], H(h, *k) == hspec(ops, cross, *k)), 'contract of ' + tag)]
    return StructV(cls(mode), {hgn: h, mun: m})

def hspec(ops, cross, a, b):
    t = [d * H(hg(u), a, b) + dd / 2 * g(hg(u), a) * g(hg(u), b) for u, d, dd in ops]
    if cross:
        ux, uy, dxy = cross
        t.append(dxy / 2 * (g(hg(ux), a) * g(hg(uy), b) + g(hg(ux), b) * g(hg(uy), a)))
    return z3.Sum(t)

def real(ex, a):
    return ex.toreal(ex.coerce(ex.rv_(a), 'double'))

def hook_unary(ex, fn, this, args):
    if not (fn.get('_cls') or '').startswith('UReal2<') or len(args) != 4:
        return NotImplemented
    x = ex.rv_(args[0])
    m, d, dd = [real(ex, a) for a in args[1:]]
    if not is_u2(x):
        return NotImplemented
    require(ex, 'unary', x)
    return result_u2(ex, x.cls[-3:-1], 'unary', m, [(x, d, dd)])

def hook_binary(ex, fn, this, args):
    if not (fn.get('_cls') or '').startswith('UReal2<') or len(args) != 8:
        return NotImplemented
    x, y = ex.rv_(args[0]), ex.rv_(args[1])
    m, dx, dy, dxx, dyy, dxy = [real(ex, a) for a in args[2:]]
    if not (is_u2(x) and is_u2(y)):
        return NotImplemented
    require(ex, 'binary', x, y)
    return result_u2(ex, x.cls[-3:-1], 'binary', m, [(x, dx, dxx), (y, dy, dyy)], (x, y, dxy))

UHOOKS = {'unary': hook_unary, 'binary': hook_binary}

def v_assign(ctx, ast, mode, alias, inside):
    fn = pick(ast, cls(mode), 'binary_assign', lambda f: len(params(f)) == 8)
    c = Case(ctx, ast, 'binary_assign [%s]%s%s' % (mode, ' (same object)' * alias, ' (arguments inside the operands)' * inside), hooks=UHOOKS)
    (lx, x), (ly, y) = two2(c, mode, alias)
    a, (m, dx, dy, dxx, dyy, dxy) = reals(c, 'fxy', 'dfdx', 'dfdy', 'ddfdxdx', 'ddfdydy', 'ddfdxdy')
    if inside:
        mun = ufields(c.ex, mode)[1]
        a = [a[0], ly.sub(('f', mun)), lx.sub(('f', mun))] + a[3:]
        dx, dy = mu(y), mu(x)
    for o in no_throw(c, 'binary_assign', c.run(lambda: c.ex.call_body(fn, None, [lx, ly] + a))):
        c.at(o)
        chain(c, 'binary_assign', c.ex.load(lx), o, m, [(x, dx, dxx), (y, dy, dyy)], (x, y, dxy))
        if not alias:
            untouched(c, 'binary_assign', y, ly, o)

OPS = {'+': lambda a, b: (a + b, rv(1), rv(1), ZERO, ZERO, ZERO), '-': lambda a, b: (a - b, rv(1), rv(-1), ZERO, ZERO, ZERO),
       '*': lambda a, b: (a * b, b, a, ZERO, ZERO, rv(1)),
       '/': lambda a, b: (a / b, 1 / b, -a / (b * b), ZERO, 2 * a / (b * b * b), -1 / (b * b))}

def v_op2(ctx, ast, mode, op, alias):
    fn = pick(ast, cls(mode), 'operator' + op, lambda f: len(params(f)) == 2)
    c = Case(ctx, ast, 'operator%s(x, y) [%s]%s' % (op, mode, ' (same object)' * alias), hooks=UHOOKS)
    (lx, x), (ly, y) = two2(c, mode, alias)
    if op == '/':
        c.ex.pc.append(mu(y) != 0)
    f, dx, dy, dxx, dyy, dxy = OPS[op](mu(x), mu(y))
    for o in no_throw(c, 'operator' + op, c.run(lambda: c.ex.call_body(fn, None, [lx, ly]))):
        c.at(o)
        chain(c, 'operator' + op, c.ex.rv_(o.val), o, f, [(x, dx, dxx), (y, dy, dyy)], (x, y, dxy))
        untouched(c, 'operator' + op, x, lx, o)
        untouched(c, 'operator' + op, y, ly, o)

def v_op1(ctx, ast, mode, op):
    fn = pick(ast, cls(mode), 'operator' + op, lambda f: len(params(f)) == 1)
    c = Case(ctx, ast, 'operator%s(x) [%s]' % (op, mode), hooks=UHOOKS)
    lx, x = new_u2(c, 'x', mode)
    s = rv(-1 if op == '-' else 1)
    for o in no_throw(c, 'unary ' + op, c.run(lambda: c.ex.call_body(fn, None, [lx]))):
        c.at(o)
        chain(c, 'unary ' + op, c.ex.rv_(o.val), o, s * mu(x), [(x, s, ZERO)])
        untouched(c, 'unary ' + op, x, lx, o)

def v_number(ctx, ast, mode, which):
    want = {'number': ['double'], 'default': []}[which]
    ct = [f for f in ast.ctors(cls(mode)) if not f.get('isImplicit') and [t.rstrip('&') for t in ptypes(f)] == want]
    if not ct:
        raise Missing('constructor of UReal2')
    c = Case(ctx, ast, 'UReal2(%s) [%s]' % (which, mode))
    a, (n,) = reals(c, 'n')
    for o in no_throw(c, 'UReal2()', c.run(lambda: c.ex.construct(cls(mode), ast.function(ct[0]['id']) or ct[0], a[:len(want)]))):
        c.at(o)
        r = c.ex.rv_(o.val)
        k, b = fresh(I, 'k'), fresh(I, 'b')
        c.goal('UReal2(): mean', mu(r) == (n if want else ZERO), o)
        c.goal('UReal2(): a plain number depends on nothing', z3.And(z3.Not(D(hg(r), k)), z3.Not(T(hg(r), k, b))), o, keys=[(k,), (k, b)])
        c.flag('UReal2(): no identity is drawn', len(o.ids) == 0)

def c10(ctx):
    ast = AST(['VC_UREAL2', 'VC_CORE'])
    leanck.lemmas(ctx, 'loops')
    modes = MODES if ctx.thorough else MODES[:1] + tuple(m for m in MODES[1:] if not same_instance(ast, ('unary', 'binary', 'binary_assign', 'operator+', 'operator-', 'operator*', 'operator/')))
    for m in modes:
        for al in (False, True):
            guarded(ctx, 'binary [%s]%s' % (m, ' (same object)' * al), lambda: v_binary(ctx, ast, m, al))
    for m in modes:
        guarded(ctx, 'unary [%s]' % m, lambda: v_unary(ctx, ast, m))
    c_hg.iterators(ctx, ast, ('hess',))
    for m in modes:
        for al in (False, True):
            for ins in (False, True):
                guarded(ctx, 'binary_assign [%s]%s' % (m, ' (same object)' * al), lambda: v_assign(ctx, ast, m, al, ins))
            for op in '+-*/':
                guarded(ctx, 'operator%s [%s]%s' % (op, m, ' (same object)' * al), lambda: v_op2(ctx, ast, m, op, al))
        for op in '+-':
            guarded(ctx, 'operator%s(x) [%s]' % (op, m), lambda: v_op1(ctx, ast, m, op))
        for w in ('number', 'default'):
            guarded(ctx, 'UReal2(%s) [%s]' % (w, m), lambda: v_number(ctx, ast, m, w))
    if len(modes) == 1:
        join(ctx)
        ctx.obs.append(dict(name='the two propagation modes instantiate the same code', function='unary, binary, binary_assign, operators', status='proved', time=0.0, detail='', values=[], backend='syntactic'))
    c_hg.soften(ctx)
    common_assumptions(ctx)
    ctx.assume('an independent variable has the same moments in every variable that depends on it (established by construction, preserved by the contracts)')

def shape(n, acc):
    k = n.get('kind')
    if not k or 'Comment' in k:
        return
    r = n.get('referencedDecl') or {}
    acc.append((k, n.get('name'), n.get('opcode'), str(n.get('value')), n.get('castKind'), norm_type((n.get('type') or {}).get('qualType', '')).replace('P1', 'P0'),
                r.get('kind'), r.get('name'), n.get('isPostfix')))
    for x in n.get('inner', []):
        shape(x, acc)

def same_instance(ast, names):
    """The code of the members is the same in both propagation modes, up to the mode in the type of the variables."""
    for nm in names:
        A, Bb = [], []
        for m, acc in (('P0', A), ('P1', Bb)):
            for f in sorted(overloads(ast, cls(m), nm), key=lambda f: (len(params(f)), f['type']['qualType'].replace('P1', 'P0'))):
                shape(f, acc)
        if not A or A != Bb:
            return False
    return True


# ------------------------------------------------------------------ C04, C14: constructors
def moment_matrix(ms):
    """The lower triangle of M[i][j] = moment i+j (moments 0 and 1 are 1 and 0; standardized: moment 2 is 1)."""
    m = [rv(1), ZERO] + ([rv(1)] if len(ms) == 6 else []) + list(ms)
    return [m[i + j] for i in range(5) for j in range(i + 1)]

def rejected(ms, thr):
    """The matrix of moments is not positive semidefinite within the threshold. Returns (condition, facts)."""
    low = moment_matrix(ms)
    ev = eigen.eigenvalues(low, 5)
    ok = z3.Function('diagonalized.5', *([R] * 15 + [B]))(*low)
    # the largest eigenvalue is at least M[0][0] = 1
    return z3.And(ev[0] < 0, ev[0] < -thr * ev[4]), [ok] + eigen.eigen_facts(low, 5, ev)

def hook_check(ex, fn, this, args):
    """Identities only: a check that accepts or rejects."""
    if len(args) != 2:
        return NotImplemented
    m, thr = ex.rv_(args[0]), real(ex, args[1])
    if not isinstance(m, ArrV):
        return NotImplemented
    if ex.branch(z3.Bool(fresh_name('impossible'))):
        raise X.Thr('std::invalid_argument')
    return None

def ctor_of(ast, mode, want):
    ct = [f for f in ast.ctors(cls(mode)) if not f.get('isImplicit') and [re.sub(r'\s', '', t).replace('UL', '').rstrip('&') for t in ptypes(f)] == want]
    if not ct:
        raise Missing('constructor of UReal2 from %s' % want)
    return ast.function(ct[0]['id']) or ct[0]

SIG = {'moments': ['double', 'std::array<double,7>', 'double'], 'std_moments': ['double', 'double', 'std::array<double,6>', 'double']}

def v_ctor2(ctx, ast, mode, which, sid):
    lab = 'UReal2(n, %s) [%s]' % ('central moments' if which == 'moments' else 's, standardized moments', mode)
    c = Case(ctx, ast, lab, hooks={'check_moments_throw': hook_check} if sid else {})
    fn = ctor_of(ast, mode, SIG[which])
    N = 7 if which == 'moments' else 6
    ms = [z3.Real('mom.%d' % i) for i in range(N)]
    la = c.ex.alloc(ArrV(ms), 'moments')
    a, (n, s, thr) = reals(c, 'n', 's', 'thr')
    args = [a[0], la, a[2]] if which == 'moments' else [a[0], a[1], la, a[2]]
    bad, fs = rejected(ms, thr)
    bad = z3.And(z3.Not(thr < 0), bad)
    if not sid:
        c.ex.pc += fs
    neg = s < 0 if which != 'moments' else FALSE
    for o in c.run(lambda: c.ex.construct(cls(mode), fn, args)):
        c.at(o)
        if o.kind == 'abort':
            c.goal('UReal2(): no assertion', FALSE, o)
            continue
        if o.kind == 'throw':
            c.flag('UReal2(): throws only std::invalid_argument', o.val == 'std::invalid_argument', str(o.val))
            if not sid:
                c.goal('UReal2(): throws only for a negative standard deviation or impossible moments', z3.Or(neg, bad), o)
            c.flag('UReal2(): no identity drawn when it throws', not o.ids, soft=True)
            continue
        r = c.ex.rv_(o.val)
        h = hg(r)
        k, q = fresh(I, 'k'), fresh(I, 'q')
        if not sid:
            c.goal('UReal2(): a negative standard deviation is rejected', z3.Not(neg), o)
            c.goal('UReal2(): impossible moments are rejected, unless the check is disabled', z3.Not(bad), o)
        c.goal('UReal2(): first-order mean', mu(r) == n, o)
        c.flag('UReal2(): draws exactly one identity', len(o.ids) == 1)
        if len(o.ids) != 1:
            continue
        id = None
        for d in (0, -1):
            if entails(o.pc, D(h, o.ids[0] + d), o.schemas, keys=[(o.ids[0] + d,)]):
                id = simp(o.ids[0] + d)
        if id is None:
            c.goal('UReal2(): depends on the new variable', D(h, o.ids[0]), o)
            continue
        if sid:
            id_goal(c, ctx, ast, 'UReal2()', id, o)
        c.goal('UReal2(): depends on nothing but itself', z3.And(D(h, k) == (k == id), z3.Not(T(h, k, q))), o, keys=[(k,), (k, q), (id,)])
        c.goal('UReal2(): it is its own coordinate: no curvature', H(h, id, id) == 0, o, keys=[(id,)])
        G, M = g(h, id), mom(h, id)
        if which == 'moments':
            c.goal('UReal2(): the standard deviation squared is the second moment', z3.Implies(ms[0] >= 0, z3.And(G >= 0, G * G == ms[0])), o, keys=[(id,)])
            for i in range(6):
                pw = ms[0]
                for _ in range(i + 1):
                    pw = pw * G
                # M[i] * s^(i+3) == central moment i+3, with s*s == ms[0]
                c.goal('UReal2(): standardized moment %d' % (i + 3), z3.Implies(G > 0, M[i] == ms[i + 1] / pw), o, keys=[(id,)])
        else:
            c.goal('UReal2(): standard deviation', G == s, o, keys=[(id,)])
            c.goal('UReal2(): standardized moments', z3.And([x == y for x, y in zip(M, ms)]), o, keys=[(id,)])
        c.flag('UReal2(): arguments not modified', same_value(ArrV(ms), c.ex.load(la)))

def v_const2(ctx, ast, mode):
    """The constructor from a number gives a constant."""
    fn = ctor_of(ast, mode, ['double'])
    c = Case(ctx, ast, 'UReal2(number) [%s]' % mode)
    a, (n,) = reals(c, 'n')
    for o in no_throw(c, 'UReal2(number)', c.run(lambda: c.ex.construct(cls(mode), fn, a))):
        c.at(o)
        r = c.ex.rv_(o.val)
        k, q = fresh(I, 'k'), fresh(I, 'q')
        c.goal('UReal2(number): mean', mu(r) == n, o)
        c.goal('UReal2(number): depends on nothing', z3.And(z3.Not(D(hg(r), k)), z3.Not(T(hg(r), k, q))), o, keys=[(k,), (k, q)])

def c14(ctx):
    ast = AST(['VC_UREAL2', 'VC_CORE'])
    for m in MODES:
        for w in SIG:
            guarded(ctx, 'UReal2(%s) [%s]' % (w, m), lambda: v_ctor2(ctx, ast, m, w, False))
        guarded(ctx, 'UReal2(number) [%s]' % m, lambda: v_const2(ctx, ast, m))
    common_assumptions(ctx)
    ctx.assume('Eigen: SelfAdjointEigenSolver succeeds and returns the eigenvalues of the symmetric matrix whose lower triangle it is given, in increasing order')

def v_indepid2(ctx, ast, mode):
    for name in ('indepid', 'isindep'):
        fn = pick(ast, cls(mode), name, lambda f: not params(f))
        c = Case(ctx, ast, 'UReal2::%s [%s]' % (name, mode))
        lx, x = new_u2(c, 'x', mode)
        d = [v for v in hg(x).f.values() if v.dom.arity == 1][0].dom
        for o in no_throw(c, name, c.run(lambda: c.ex.call_body(fn, lx, []))):
            c.at(o)
            r = c.ex.rv_(o.val)
            k, n = fresh(I, 'k'), d.size()
            if name == 'isindep':
                c.goal('isindep: depends on at most one variable', r == (n <= 1), o)
            else:
                c.goal('indepid: 0 exactly when it depends on nothing', (r == 0) == (n == 0), o)
                c.goal('indepid: the only variable it depends on', z3.Implies(n == 1, z3.And(D(hg(x), r), z3.Implies(D(hg(x), k), k == r))), o, keys=[(k,), (r,)])
                c.goal('indepid: invalid when it depends on several', z3.Implies(n >= 2, r == -1), o)
            untouched(c, name, x, lx, o)

def c04(ctx):
    ast = AST(['VC_UREAL2', 'VC_CORE'])
    from c_ureal import v_copies
    for m in MODES:
        guarded(ctx, 'constructors of UReal2 [%s]' % m, lambda: [v_ctor2(ctx, ast, m, w, True) for w in SIG])
        for w in ('number', 'default'):
            guarded(ctx, 'UReal2(%s) [%s]' % (w, m), lambda: v_number(ctx, ast, m, w))
        guarded(ctx, 'copies', lambda: v_copies(ctx, ast, cls(m)))
        guarded(ctx, 'UReal2::indepid and isindep [%s]' % m, lambda: v_indepid2(ctx, ast, m))
    guarded(ctx, 'copies', lambda: v_copies(ctx, ast, HG))

# ------------------------------------------------------------------ C13
def single(h):
    d = [v for v in h.f.values() if v.dom.arity == 1][0].dom
    return d.size() == 1, d.lb(d.lowest())[1][0]

def v_grad2(ctx, ast, mode, alias):
    fn = pick(ast, cls(mode), 'grad', lambda f: len(params(f)) == 1)
    c = Case(ctx, ast, 'UReal2::grad [%s]%s' % (mode, ' (same object)' * alias))
    (lf, f), (lx, x) = two2(c, mode, alias, ('f', 'x'))
    one, k = single(hg(x))
    for o in c.run(lambda: c.ex.call_body(fn, lf, [lx])):
        c.at(o)
        if o.kind == 'abort':
            c.goal('grad: no assertion', FALSE, o)
            continue
        if o.kind == 'throw':
            c.flag('grad: throws only std::invalid_argument', o.val == 'std::invalid_argument', str(o.val))
            c.goal('grad: throws only when x does not depend on exactly one variable', z3.Not(one), o)
        else:
            r = c.ex.rv_(o.val)
            c.goal('grad: throws when x does not depend on exactly one variable', one, o)
            c.goal('grad: derivative with respect to x', z3.Implies(g(hg(x), k) != 0, r * g(hg(x), k) == g(hg(f), k)), o, keys=[(k,)])
            untouched(c, 'grad', f, lf, o)
            untouched(c, 'grad', x, lx, o)

def v_hess(ctx, ast, mode, sc):
    fn = pick(ast, cls(mode), 'hess', lambda f: len(params(f)) == 2)
    c = Case(ctx, ast, 'UReal2::hess [%s] (%s)' % (mode, sc))
    lf, f = new_u2(c, 'f', mode)
    lx, x = (lf, f) if sc == 'f.hess(f, y)' else new_u2(c, 'x', mode)
    ly, y = (lx, x) if sc == 'f.hess(x, x)' else new_u2(c, 'y', mode)
    hf, hx, hy = hg(f), hg(x), hg(y)
    (ox, kx), (oy, ky) = single(hx), single(hy)
    gx, gy, same = g(hx, kx), g(hy, ky), kx == ky
    keys = [(kx,), (ky,), (kx, ky), (ky, kx)]
    differ = z3.And(same, z3.Or(gx != gy, H(hx, kx, kx) != H(hy, ky, ky)))
    for o in c.run(lambda: c.ex.call_body(fn, lf, [lx, ly])):
        c.at(o)
        if o.kind == 'abort':
            c.goal('hess: no assertion', FALSE, o)
            continue
        if o.kind == 'throw':
            c.flag('hess: throws only std::invalid_argument', o.val == 'std::invalid_argument', str(o.val))
            c.goal('hess: throws only when x or y is not a function of one variable, or they are different functions of the same one',
                   z3.Or(z3.Not(ox), z3.Not(oy), differ), o, keys=keys)
            continue
        r = c.ex.rv_(o.val)
        c.goal('hess: throws when x or y does not depend on exactly one variable', z3.And(ox, oy), o, keys=keys)
        c.goal('hess: throws when x and y are different functions of the same variable', z3.Not(differ), o, keys=keys)
        c.goal('hess: second derivative with respect to two variables', z3.Implies(z3.And(z3.Not(same), gx != 0, gy != 0),
               r * gx * gy == 2 * H(hf, z3.If(kx < ky, kx, ky), z3.If(kx < ky, ky, kx))), o, keys=keys)
        c.goal('hess: second derivative under change of variable', z3.Implies(z3.And(same, gx != 0),
               r == (2 * H(hf, kx, kx) - g(hf, kx) / gx * 2 * H(hx, kx, kx)) / (gx * gx)), o, keys=keys)
        for l, v in ((lf, f), (lx, x), (ly, y)):
            untouched(c, 'hess', v, l, o)

def c13(ctx):
    ast = AST(['VC_UREAL2', 'VC_CORE'])
    leanck.lemmas(ctx, 'loops')
    for m in MODES:
        for al in (False, True):
            guarded(ctx, 'UReal2::grad [%s]' % m, lambda: v_grad2(ctx, ast, m, al))
        for sc in ('distinct objects', 'f.hess(x, x)', 'f.hess(f, y)'):
            guarded(ctx, 'UReal2::hess [%s] (%s)' % (m, sc), lambda: v_hess(ctx, ast, m, sc))
    common_assumptions(ctx)
    ctx.assume('every dependent variable carries the derivatives of the composed function (property C10)')

# ------------------------------------------------------------------ C19
def conv_cast(src, dst):
    """What one number becomes."""
    f = z3.Function('fl32', R, R)
    return (lambda v: f(v)) if dst == 'float' and src == 'double' else (lambda v: v)

def args_of(t):
    m = re.match(r'(?:const )?(?:\w+::)*(UReal2|HessGrad)<(float|double)(?:, ?\(?(?:\w+::)*(?:Prop\))?(?:P)?(\w+))?>', t)
    return m.groups() if m else None

def new_conv(c, name, key, real, mode=None):
    """A symbolic HessGrad or UReal2 over the given numerical type."""
    h, sch = new_hg(c.ex, name, 'HessGrad<%s>' % real)
    c.ex.schemas = c.ex.schemas + sch
    v = h
    if mode is not None:
        hgn, mun = ufields(c.ex, mode)
        v = StructV(key, {hgn: h, mun: z3.Real(name + '.mu')})
    return c.ex.alloc(v, name), v

def conv_goals(c, who, h, r, cast, o):
    k, a, b = fresh(I, 'k'), fresh(I, 'a'), fresh(I, 'b')
    z = lambda p, v: z3.If(p, cast(v), ZERO)
    e, f = _el(h, k), _el(r, k)
    c.goal('%s: the same variables' % who, D(r, k) == D(h, k), o, keys=[(k,)])
    c.goal('%s: gradient' % who, g(r, k) == z(D(h, k), e.f['grad']), o, keys=[(k,)])
    c.goal('%s: diagonal of the Hessian' % who, H(r, k, k) == z(D(h, k), e.f['hhess']), o, keys=[(k,)])
    c.goal('%s: moments' % who, z3.Implies(D(h, k), z3.And([x == cast(y) for x, y in zip(mom(r, k), mom(h, k))])), o, keys=[(k,)])
    c.goal('%s: mixed entries of the Hessian' % who, z3.Implies(a < b, H(r, a, b) == z(T(h, a, b), c_hg._maps(h)[1].elem((a, b)))), o, keys=[(a, b)])
    c_hg.ri_goals(c, who, r, o)

def _el(h, k):
    return c_hg._maps(h)[0].elem((k,))

def c19(ctx):
    ast = AST(['VC_UREAL2', 'VC_CORE'])
    n = [0, 0]
    for real in ('double', 'float'):
        for fn in ast._members('HessGrad<%s>' % real):
            fn = ast.function(fn['id']) if fn['kind'] == 'CXXConversionDecl' else None
            if fn is not None and body(fn) is not None:
                n[0] += 1
                guarded(ctx, 'HessGrad conversion from %s' % real, lambda: v_hgconv(ctx, ast, real, fn))
        for mode in MODES:
            key = cls(mode, real)
            for fn in ast._members(key):
                d = ast.function(fn['id'])
                if d is None or body(d) is None:
                    continue
                if fn['kind'] == 'CXXConversionDecl':
                    n[1] += 1
                    guarded(ctx, 'conversion of %s' % key, lambda: v_conv2(ctx, ast, key, d, (real, mode), args_of(d['type']['qualType'])[1:]))
                elif fn['kind'] == 'CXXConstructorDecl' and not fn.get('isImplicit') and len(params(d)) == 1 and 'UReal2<' in ptypes(d)[0]:
                    src = args_of(d['type']['qualType'][len('void ('):])
                    n[1] += 1
                    guarded(ctx, '%s from another type' % key, lambda: v_conv2(ctx, ast, key, d, src[1:], (real, mode)))
    if not n[0] or not n[1]:
        ctx.unsupported.append(dict(function='conversions', why='not in the expected form'))
    c_hg_accessors(ctx, ast)
    common_assumptions(ctx)
    ctx.assume('conversion of one double to float is an uninterpreted function of the number; float to double is exact')

def v_hgconv(ctx, ast, real, fn):
    dst = args_of(fn['type']['qualType'])[1]
    c = Case(ctx, ast, 'HessGrad<%s> to HessGrad<%s>' % (real, dst))
    lh, h = new_conv(c, 'h', 'HessGrad<%s>' % real, real)
    for o in no_throw(c, 'conversion', c.run(lambda: c.ex.call_body(fn, lh, []))):
        c.at(o)
        conv_goals(c, 'conversion', h, c.ex.rv_(o.val), conv_cast(real, dst), o)
        c.flag('conversion: operand not modified', same_value(h, c.ex.load(lh)))

def mode_of(m):
    return {'0': 'P0', '1': 'P1', 'P0': 'P0', 'P1': 'P1', 'est': 'P0', 'mean': 'P1'}[m]

def v_conv2(ctx, ast, key, fn, src, dst):
    (sr, sm), (dr, dm) = (src[0], mode_of(src[1])), (dst[0], mode_of(dst[1]))
    ctor = fn['kind'] == 'CXXConstructorDecl'
    c = Case(ctx, ast, '%s to %s (%s)' % (cls(sm, sr), cls(dm, dr), 'constructor' if ctor else 'conversion operator'))
    lx, x = new_conv(c, 'x', cls(sm, sr), sr, sm)
    thunk = (lambda: c.ex.construct(key, fn, [lx])) if ctor else (lambda: c.ex.call_body(fn, lx, []))
    cast = conv_cast(sr, dr)
    for o in no_throw(c, 'conversion', c.run(thunk)):
        c.at(o)
        r = c.ex.rv_(o.val)
        c.flag('conversion: result type', isinstance(r, StructV) and r.cls == cls(dm, dr), str(getattr(r, 'cls', r)))
        c.goal('conversion: first-order mean', mu(r) == cast(mu(x)), o)
        conv_goals(c, 'conversion', hg(x), hg(r), cast, o)
        c.flag('conversion: operand not modified', same_value(x, c.ex.load(lx)))

def c_hg_accessors(ctx, ast):
    """first_order_n, n, nom, sdev: what the modes do with the moments."""
    for m in MODES:
        guarded(ctx, 'n, s, skew, kurt [%s]' % m, lambda: v_moments_access(ctx, ast, m))

def hook_m(ex, fn, this, args):
    if not (fn.get('_cls') or '').startswith('UReal2<') or this is None or len(args) != 1:
        return NotImplemented
    n = simp(ex.rv_(args[0]))
    x = ex.load(this)
    if not is_u2(x):
        return NotImplemented
    return MU(ex, x, n)

def MU(ex, x, n):
    return z3.Function('moment', I, I, R)(iv(id(hg(x))), n if isz(n) else iv(n))

def v_moments_access(ctx, ast, mode):
    sg = 1 if mode == 'P1' else -1
    spec = {'n': lambda r, x, M: r == mu(x) + sg * M(1), 'first_order_n': lambda r, x, M: r == mu(x),
            's': lambda r, x, M: z3.And(r >= 0, r * r == M(2)), 'skew': lambda r, x, M: z3.And(*[z3.Implies(q * q == M(2), r * (q * M(2)) == M(3)) for q in [SQRT(M(2))]]),
            'kurt': lambda r, x, M: r * M(2) * M(2) == M(4)}
    for nm in spec:
        fn = pick(ast, cls(mode), nm, lambda f: not params(f))
        c = Case(ctx, ast, '%s() [%s]' % (nm, mode), hooks={'m': hook_m})
        lx, x = new_u2(c, 'x', mode)
        M = lambda n: MU(c.ex, x, n)
        c.ex.pc.append(M(2) > 0)
        for o in no_throw(c, nm, c.run(lambda: c.ex.call_body(fn, lx, []))):
            c.at(o)
            c.goal('%s: %s' % (nm, {'n': 'the first-order mean plus or minus the correction', 'first_order_n': 'the first-order mean', 's': 'the square root of the variance',
                   'skew': 'mu3/mu2^(3/2)', 'kurt': 'mu4/mu2^2'}[nm]), spec[nm](c.ex.rv_(o.val), x, M), o)
            untouched(c, nm, x, lx, o)
    for nm, sp in (('nom', lambda r, x, M: spec['n'](r, x, M)), ('sdev', lambda r, x, M: spec['s'](r, x, M)), ('var', lambda r, x, M: r == M(2))):
        fns = [f for (sc, n), l in ast.names.items() if n == nm for f in l if len(params(f)) == 1 and 'UReal2<double' in ptypes(f)[0] and args_of(ptypes(f)[0]) and
               mode_of(args_of(ptypes(f)[0])[2]) == mode and body(f) is not None]
        if not fns:
            raise Missing(nm)
        c = Case(ctx, ast, '%s(x) [%s]' % (nm, mode), hooks={'m': hook_m})
        lx, x = new_u2(c, 'x', mode)
        M = lambda n: MU(c.ex, x, n)
        c.ex.pc.append(M(2) > 0)
        for o in no_throw(c, nm, c.run(lambda: c.ex.call_body(fns[0], None, [lx]))):
            c.at(o)
            c.goal('%s(x): the same as the member' % nm, sp(c.ex.rv_(o.val), x, M), o)
            untouched(c, nm, x, lx, o)

# ------------------------------------------------------------------ C20
def v_class2(ctx, ast, mode, name):
    fns = [f for (sc, n), l in ast.names.items() if n == name for f in l if len(params(f)) == 1 and 'UReal2<double' in ptypes(f)[0] and args_of(ptypes(f)[0]) and
           mode_of(args_of(ptypes(f)[0])[2]) == mode and body(f) is not None]
    if not fns:
        raise Missing(name)
    c = Case(ctx, ast, '%s(x) [%s]' % (name, mode), hooks=c_hg.HOOKS)
    lx, x = new_u2(c, 'x', mode)
    P = z3.Function(name, R, B)
    h = hg(x)
    some = 0
    for o in no_throw(c, name, c.run(lambda: c.ex.call_body(fns[0], None, [lx]))):
        c.at(o)
        r = c.ex.rv_(o.val)
        k, a, b = fresh(I, 'k'), fresh(I, 'a'), fresh(I, 'b')
        one = z3.And(P(mu(x)), z3.Implies(D(h, k), z3.And(P(g_raw(h, k)), P(H(h, k, k)))))
        two_ = z3.Implies(T(h, a, b), P(c_hg._maps(h)[1].elem((a, b))))
        c.goal('%s: true only if the mean and every gradient and diagonal coefficient are' % name, z3.Implies(r, one), o, keys=[(k,)])
        c.goal('%s: true only if every mixed coefficient is' % name, z3.Implies(r, two_), o, keys=[(a, b), (a,), (b,)])
        # false: some coefficient is not
        bad = [z3.Not(P(mu(x)))]
        ks = [q for q in o.pc]
        wit = []
        for q in witnesses(o):
            if len(q) == 1:
                bad.append(z3.And(D(h, q[0]), z3.Not(z3.And(P(g_raw(h, q[0])), P(H(h, q[0], q[0]))))))
            else:
                bad.append(z3.And(T(h, *q), z3.Not(P(c_hg._maps(h)[1].elem(q)))))
        c.goal('%s: false only if some coefficient is not' % name, z3.Implies(z3.Not(r), z3.Or(*bad)), o, keys=list(witnesses(o)))
        untouched(c, name, x, lx, o)

def witnesses(o):
    """The keys at which a loop of the path stopped."""
    out = []
    for nm, e in P.free_consts(z3.And(*(list(o.pc) + [TRUE, TRUE]))).items():
        if nm.startswith('stop!'):
            out.append((int(nm.split('!')[1]), e))
    out.sort(key=lambda t: t[0])
    es = [e for _, e in out]
    r = [(e,) for e in es if e.sort() == I]
    r += [(x, y) for x, y in zip(es, es[1:]) if x.sort() == I and y.sort() == I]
    return r

def v_class1(ctx, ast, name):
    import c_ureal
    fns = [f for (sc, n), l in ast.names.items() if n == name for f in l if len(params(f)) == 1 and ptypes(f)[0].startswith('UReal<double') and body(f) is not None]
    if not fns:
        raise Missing(name)
    c = Case(ctx, ast, '%s(x), first order' % name, hooks={'s': c_ureal.hook_s})
    (lx, x), = c_ureal.two(c, names=('x',))
    P = z3.Function(name, R, B)
    for o in no_throw(c, name, c.run(lambda: c.ex.call_body(fns[0], None, [lx]))):
        c.at(o)
        r = c.ex.rv_(o.val)
        c.goal('%s: true exactly when the mean and the standard deviation are' % name, r == z3.And(P(x.f['mu']), P(c_ureal.S(c.ex, x))), o)
        c_ureal.unchanged(c, name, x, c.ex.load(lx), o)

def c20(ctx):
    ast = AST(['VC_UREAL', 'VC_UREAL2', 'VC_CORE', 'VC_MATH'])
    for name in ('isfinite', 'isnormal'):
        guarded(ctx, name, lambda: v_class1(ctx, ast, name))
        for m in MODES:
            guarded(ctx, '%s [%s]' % (name, m), lambda: v_class2(ctx, ast, m, name))
    import c_ureal
    guarded(ctx, 's', lambda: c_ureal.v_s(ctx, ast))
    c_hg.iterators(ctx, ast, ('tri',))
    c_hg.soften(ctx)
    common_assumptions(ctx)
    ctx.assume('std::isfinite and std::isnormal are uninterpreted predicates of a number; that s() of a first-order variable with non-finite sensitivities is not finite is left to rounding')
