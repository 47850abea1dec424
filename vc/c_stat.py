"""Matrix utilities (C16): functions of stat.hpp over sequences of any length."""
from spec import *
from c_ureal import common_assumptions, no_throw
from c_distr import instance
import re

def symmetric(name):
    """cov and corr are symmetric (C03, C12)."""
    f = z3.Function(name, I, I, R)
    return lambda i, j: z3.If(i <= j, f(i, j), f(j, i))

COV, CORR = symmetric('cov'), symmetric('corr')
NOM = z3.Function('nom', I, R)
ELEMS = {'UReal<double>': 'VC_UREAL', 'UReal2<double,P0>': 'VC_UREAL2', 'UReal2<double,P1>': 'VC_UREAL2'}

def elem(ex, v):
    """The position in the input sequence a value was read from."""
    v = ex.rv_(v)
    if not (isinstance(v, StructV) and 'ix' in v.f):
        raise Unsupported('operand is not an element of the input')
    return v.f['ix']

def hook(fn_, n):
    def h(ex, fn, this, args):
        a = ([this] if this is not None and len(args) < n else []) + list(args)
        if len(a) != n:
            return NotImplemented
        return fn_(*[elem(ex, x) for x in a])
    return h

def new_vec(c, key, n):
    return VecV(n, lambda k: StructV(key, {'ix': k if isz(k) else iv(k)}), key)

def case(ctx, ast, label):
    # cov(x, y) and corr(x, y) are under contract in C03 and C12, n() in C06 and C11
    return Case(ctx, ast, label, hooks={'cov': hook(COV, 2), 'corr': hook(CORR, 2), 'nom': hook(NOM, 1), 'n': hook(NOM, 1)})

def pick_fn(ast, name, key, np_, want=None):
    for (sc, nm), l in ast.names.items():
        if nm == name:
            for f in l:
                t = [norm_type(c['type']['qualType']) for c in f.get('inner', []) if c.get('kind') == 'TemplateArgument' and 'type' in c]
                t = [x.replace('(Prop)0', 'P0').replace('(Prop)1', 'P1') for x in t]
                if t and len(params(f)) == np_ and (key is None or any(key in x for x in t)):
                    return f
    raise Missing('%s for %s' % (name, key))

def at2(n, i, j):
    return n * i + j

def v_matrix(ctx, ast, name, key, op, flavour):
    lab = '%s(%s) [%s]' % (name, 'iterators' if flavour == 'it' else 'container', key)
    c = case(ctx, ast, lab)
    n = z3.Int('n')
    c.ex.pc.append(n >= 0)
    lx = c.ex.alloc(new_vec(c, key, n), 'x')
    i, j = fresh(I, 'i'), fresh(I, 'j')
    inb = z3.And(0 <= i, i < n, 0 <= j, j < n)
    if flavour == 'it':
        fn = pick_fn(ast, name, key, 3)
        s, L = z3.Int('s'), z3.Int('L')
        old = z3.Function('out.1:old', I, R)
        c.ex.pc += [s >= 0, s + n * n <= L]
        lo = c.ex.alloc(VecV(L, lambda k: old(k), 'double'), 'out')
        args = [c.ex.alloc(VecIter(lx, iv(0)), 'begin'), c.ex.alloc(VecIter(lx, n), 'end'), c.ex.alloc(VecIter(lo, s), 'matrix')]
        for o in no_throw(c, name, c.run(lambda: c.ex.call_body(fn, None, args))):
            c.at(o)
            r = c.ex.rv_(o.val)
            c.flag('%s: returns an iterator into the output' % name, isinstance(r, VecIter) and r.lv.loc == lo.loc)
            if isinstance(r, VecIter):
                c.goal('%s: returns the end of the output' % name, r.idx == s + n * n, o)
            v = c.ex.load(lo)
            p = fresh(I, 'p')
            c.goal('%s: entry (i, j)' % name, z3.Implies(inb, v.elem(s + at2(n, i, j)) == op(i, j)), o)
            c.goal('%s: writes nothing else' % name, z3.Implies(z3.Or(p < s, p >= s + n * n), v.elem(p) == old(p)), o)
    else:
        fn = pick_fn(ast, name, key, 1)
        for o in no_throw(c, name, c.run(lambda: c.ex.call_body(fn, None, [lx]))):
            c.at(o)
            v = c.ex.rv_(o.val)
            c.goal('%s: n*n entries' % name, v.n == n * n, o)
            c.goal('%s: entry (i, j)' % name, z3.Implies(inb, v.elem(at2(n, i, j)) == op(i, j)), o)

def v_nom(ctx, ast, key):
    c = case(ctx, ast, 'nom_vector [%s]' % key)
    n = z3.Int('n')
    c.ex.pc.append(n >= 0)
    lx = c.ex.alloc(new_vec(c, key, n), 'x')
    i = fresh(I, 'i')
    for o in no_throw(c, 'nom_vector', c.run(lambda: c.ex.call_body(pick_fn(ast, 'nom_vector', key, 1), None, [lx]))):
        c.at(o)
        v = c.ex.rv_(o.val)
        c.goal('nom_vector: length', v.n == n, o)
        c.goal('nom_vector: entry i', z3.Implies(z3.And(0 <= i, i < n), v.elem(i) == NOM(i)), o)

def v_corr2cov(ctx, ast):
    c = case(ctx, ast, 'corr2cov')
    n, m = z3.Int('n'), z3.Int('m')
    c.ex.pc += [n >= 0, m >= 0]
    sg, cr = z3.Function('sigma.1:in', I, R), z3.Function('corr.1:in', I, R)
    ls = c.ex.alloc(VecV(n, lambda k: sg(k), 'double'), 'sigma')
    lc = c.ex.alloc(VecV(m, lambda k: cr(k), 'double'), 'corr')
    i, j = fresh(I, 'i'), fresh(I, 'j')
    for o in c.run(lambda: c.ex.call_body(pick_fn(ast, 'corr2cov', None, 2), None, [ls, lc])):
        c.at(o)
        if o.kind == 'throw':
            c.flag('corr2cov: throws only std::invalid_argument', o.val == 'std::invalid_argument', str(o.val))
            c.goal('corr2cov: throws only if the sizes do not match', m != n * n, o)
            continue
        if o.kind == 'abort':
            c.goal('corr2cov: no assertion', FALSE, o)
            continue
        v = c.ex.rv_(o.val)
        c.goal('corr2cov: throws if the sizes do not match', m == n * n, o)
        c.goal('corr2cov: n*n entries', v.n == n * n, o)
        inb = z3.And(0 <= i, i < n, 0 <= j, j < n)
        c.goal('corr2cov: entry (i, j)', z3.Implies(inb, v.elem(at2(n, i, j)) == cr(at2(n, i, j)) * sg(i) * sg(j)), o)

def c16(ctx):
    ast = AST(['VC_UREAL', 'VC_UREAL2', 'VC_CORE', 'VC_STAT'])
    for key in ELEMS:
        for fl in ('it', 'container'):
            guarded(ctx, 'cov_matrix [%s]' % key, lambda: v_matrix(ctx, ast, 'cov_matrix', key, COV, fl))
            guarded(ctx, 'corr_matrix [%s]' % key, lambda: v_matrix(ctx, ast, 'corr_matrix', key, CORR, fl))
        guarded(ctx, 'nom_vector [%s]' % key, lambda: v_nom(ctx, ast, key))
    guarded(ctx, 'corr2cov', lambda: v_corr2cov(ctx, ast))
    common_assumptions(ctx)
    ctx.assume('sequences are std::vector: other containers satisfy the same contract of size, iterators and operator[]')
