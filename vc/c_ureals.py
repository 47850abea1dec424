"""ureals (C17): for every size, means and matrix, given the contract of the factorization."""
import leanck
from c_ureal2 import *
import loops
import eigen
from prove import walk, entails, SQRT

# a variable is seen through its mean and its derivative (times the deviation) with respect to one arbitrary coordinate
KAPPA = z3.Int('kappa')
GHOST = '#constructions'      # ghost: independent variables constructed so far; the k-th one is coordinate k
KEY = 'UReal<double>'

def u(mu, c):
    return StructV(KEY, {'mu': mu, 'c': c})

def arg(ex, a):
    v = ex.rv_(a)
    if isz(v):
        return u(ex.toreal(v), ZERO)
    if isinstance(v, StructV) and set(v.f) == {'mu', 'c'}:
        return v
    raise Unsupported('operand of %s' % type(v).__name__)

def hk_ctor(ex, fn, this, args):
    vals = [ex.rv_(a) for a in args]
    if len(vals) == 1 and isz(vals[0]):
        return u(ex.toreal(vals[0]), ZERO)
    if len(vals) == 2 and all(isz(v) for v in vals):
        n, s = ex.toreal(vals[0]), ex.toreal(vals[1])
        if ex.branch(s < 0):
            raise X.Thr('std::invalid_argument')
        g = ex.load(LV(GHOST))
        ex.put(LV(GHOST), simp(g + 1))
        return u(n, ite(simp(g == KAPPA), s, ZERO))
    return NotImplemented

def hk_op(f, assign):
    def h(ex, fn, this, args):
        a = ([this] if this is not None else []) + list(args)
        if len(a) != 2:
            return NotImplemented
        r = f(arg(ex, a[0]), arg(ex, a[1]))
        if assign:
            ex.put(a[0], r)
            return a[0]
        return r
    return h

def lin(a, b):
    return lambda x, y: u(simp(x.f['mu'] * a + y.f['mu'] * b), simp(x.f['c'] * a + y.f['c'] * b))

def mul(x, y):
    return u(simp(x.f['mu'] * y.f['mu']), simp(x.f['c'] * y.f['mu'] + x.f['mu'] * y.f['c']))

def hk_neg(ex, fn, this, args):
    return NotImplemented

OPS = {'operator+': lin(1, 1), 'operator-': lin(1, -1), 'operator*': mul}
HOOKS = {'ctor:UReal': hk_ctor, 'default:UReal': lambda ex, k: u(ZERO, ZERO)}
for _n, _f in OPS.items():
    HOOKS[_n] = hk_op(_f, False)
    HOOKS[_n + '='] = hk_op(_f, True)

def c17(ctx):
    ast = AST(['VC_UREAL', 'VC_CORE', 'VC_UREALS'])
    leanck.lemmas(ctx, 'loops', 'ureals')
    guarded(ctx, 'ureals', lambda: v_ureals(ctx, ast))
    common_assumptions(ctx)
    ctx.assume('Eigen: LDLT reads the lower triangle of V; when it succeeds and isPositive(), P^T L D L^T P = V with L unit lower triangular, D >= 0 and P the product of the transpositions (k, indices(k)), 0 <= indices(k) < n, so that P^T v is v with the transpositions applied from the last to the first')
    ctx.assume('sequences are std::vector: other containers satisfy the same contract of size, emplace_back and operator[]')

def v_ureals(ctx, ast):
    n, m = z3.Int('n'), z3.Int('m')
    Lf, Df, Pf = z3.Function('L.2:ldlt', I, I, R), z3.Function('D.1:ldlt', I, R), z3.Function('perm.1:ldlt', I, I)
    ok, pos = z3.Bool('factorized'), z3.Bool('positive')
    muf, cf = z3.Function('mu.1:in', I, R), z3.Function('cov.1:in', I, R)
    def hk_ldlt(ex, vals):
        V = vals[0]
        if not (isinstance(V, StructV) and V.cls == 'eigendyn'):
            raise Unsupported('factorization of this argument')
        i, j = fresh(I, 'i'), fresh(I, 'j')
        ex.oblige('the factorized matrix is n x n', z3.And(V.f['r'] == n, V.f['c'] == n))
        h = z3.Implies(z3.And(0 <= j, j <= i, i < n), V.f['m'].elem((i, j)) == cf(i + n * j))
        ex.oblige('the lower triangle is factorized', h)
        def fun(name, bounds, sort):
            return StructV('eigenfun', {'fn': Opaque(name), 'bounds': ArrV(bounds), 'sort': Opaque(sort)})
        return StructV('eigenldlt', {'info': ite(ok, iv(0), iv(1)), 'isPositive': pos, 'matrixL': fun('L.2:ldlt', [n, n], 'real'),
                                     'vectorD': fun('D.1:ldlt', [n], 'real'), 'transpositionsP': fun('perm.1:ldlt', [n], 'int')})
    c = Case(ctx, ast, 'ureals', hooks=dict(HOOKS, **{'Eigen::LDLT': hk_ldlt}))
    ex = c.ex
    ex.pc += [n >= 0, m >= 0, KAPPA >= 0]
    ex.schemas = ex.schemas + [Schema(1, lambda k: [z3.Implies(z3.And(pos, 0 <= k[0], k[0] < n), Df(k[0]) >= 0),
                                                    z3.Implies(z3.And(0 <= k[0], k[0] < n), z3.And(0 <= Pf(k[0]), Pf(k[0]) < n))], 'factorization')]
    ex.store[GHOST] = iv(0)
    lm = ex.alloc(VecV(n, lambda k: muf(k), 'double'), 'mu')
    lc = ex.alloc(VecV(m, lambda k: cf(k), 'double'), 'cov')
    fn = None
    for (sc, nm), l in ast.names.items():
        if nm == 'ureals':
            fn = fn or next((f for f in l if len(params(f)) == 2 and [x for x in f['inner'] if x.get('kind') == 'TemplateArgument']), None)
    if fn is None:
        raise Missing('ureals')
    i, j = fresh(I, 'i'), fresh(I, 'j')
    done = set()
    for o in c.run(lambda: ex.call_body(fn, None, [lm, lc])):
        c.at(o)
        if o.kind == 'abort':
            c.goal('ureals: no assertion', FALSE, o)
            continue
        if o.kind == 'throw':
            if o.val == 'std::invalid_argument':
                c.goal('ureals: throws std::invalid_argument only if the sizes do not match', m != n * n, o)
            else:
                c.goal('ureals: refuses only a matrix that is not factorized or not positive', z3.And(m == n * n, z3.Not(z3.And(ok, pos))), o)
            continue
        c.goal('ureals: throws if the sizes do not match', m == n * n, o)
        out = ex.rv_(o.val)
        c.goal('ureals: number of variables', out.n == n, o)
        x = out.elem(i)
        inb = z3.And(0 <= i, i < n)
        c.goal('ureals: mean', z3.Implies(inb, x.f['mu'] == muf(i)), o)
        if entails(o.pc, n == 0, o.schemas):
            continue
        c.goal('ureals: a factorization that failed or is not positive is refused', z3.And(ok, pos), o)
        c.goal('ureals: one independent variable for each element', o.store[GHOST] == n, o)
        # the entry comes from row s(n, i) of L, the transpositions being undone from the last to the first
        names = sorted({y.decl().name() for y in walk([x.f['c']]) if z3.is_app(y) and y.decl().name() in loops.PERMS})
        if len(names) != 1:
            raise Unsupported('ureals: permutation of the variables not recognised')
        t, k, move = loops.PERMS[names[0]]
        want = z3.If(k == n - 1 - t, Pf(n - 1 - t), z3.If(k == Pf(n - 1 - t), n - 1 - t, k))
        rng = z3.And(0 <= t, t < n, 0 <= k, k < n)
        c.goal('ureals: the transpositions are undone from the last to the first', z3.Implies(rng, move == want), o)
        c.goal('ureals: positions stay in range', z3.Implies(rng, z3.And(0 <= move, move < n)), o)
        s = z3.Function(names[0], I, I, I)
        def row(q):
            p = s(n, q)
            low = z3.If(KAPPA < p, Lf(p, KAPPA), z3.If(KAPPA == p, rv(1), ZERO))
            return low, z3.And(0 <= p, p < n)
        li, ri = row(i)
        lj, rj = row(j)
        # 0 <= s(n, i) < n by induction from 'positions stay in range'
        c.goal('ureals: derivative with respect to each independent variable',
               z3.Implies(z3.And(inb, ri, KAPPA < n), x.f['c'] == li * SQRT(Df(KAPPA))), o, keys=[(KAPPA,)])
        y = out.elem(j)
        # C03: cov(x_i, x_j) is the sum over the coordinates of the products; term by term it is (L D L^T)_{s(i) s(j)}
        c.goal('ureals: covariance', z3.Implies(z3.And(inb, ri, 0 <= j, j < n, rj, KAPPA < n), x.f['c'] * y.f['c'] == li * Df(KAPPA) * lj), o, keys=[(KAPPA,)])
        c.goal('ureals: no other variable contributes', z3.Implies(z3.And(inb, ri, KAPPA >= n), x.f['c'] == 0), o)
