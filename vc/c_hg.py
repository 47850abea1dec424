"""The sparse gradient/Hessian container HessGrad: abstraction, representation invariant, and the contracts of its
iterators.

Abstraction of a HessGrad h: the finite set D(h) of independent variables; for k in D: grad g(h,k), moments mom(h,k);
for a <= b in D: half Hessian H(h,a,b) (the diagonal entry, or the stored mixed entry T(h,a,b), or 0).
Representation invariant RI(h): keys in [1, MAXID); every stored mixed entry (a,b) has a < b and a, b in D(h).
"""
from spec import *
from c_ureal import common_assumptions, no_throw, reals

HG = 'HessGrad<double>'
DIAG = HG + '::Diag'

def layout(ex):
    """Names of the members, found by type."""
    l = ex.__dict__.get('_hglayout')
    if l is None:
        p = ex.default(HG)
        d = [n for n, v in p.f.items() if isinstance(v, MapV) and v.dom.arity == 1]
        t = [n for n, v in p.f.items() if isinstance(v, MapV) and v.dom.arity == 2]
        if len(d) != 1 or len(t) != 1 or len(p.f) != 2:
            raise Missing('representation of HessGrad changed: %s' % sorted(p.f))
        e = p.f[d[0]].elem((iv(1),))
        tv = p.f[t[0]].elem((iv(1), iv(1)))
        if not isinstance(e, StructV) or not {'grad', 'hhess', 'mom'} <= set(e.f) or not isz(tv):
            raise Missing('representation of HessGrad::Diag changed')
        l = ex._hglayout = (d[0], t[0], e, p.f[d[0]].vtype, p.f[t[0]].vtype)
    return l

def new_hg(ex, name, cls=HG):
    dn, tn, proto, vd, vt = layout(ex)
    ind = z3.Function('in.1:%s.D' % name, I, B)
    int_ = z3.Function('in.2:%s.T' % name, I, I, B)
    elt = z3.Function('el.2:%s.T' % name, I, I, R)
    pr = proto if cls == HG else StructV(proto.cls.replace(HG, cls), proto.f)
    ufs = {pp: z3.Function('el.1:%s.%s' % (name, '.'.join(map(str, pp))), I, R) for pp, _ in leaves(proto)}
    dm = MapV(DomV(1, lambda k: ind(*k), name=name + '.D'), lambda k: rebuild(pr, lambda pp: ufs[pp](*k)), vd)
    tm = MapV(DomV(2, lambda k: int_(*k), name=name + '.T'), lambda k: elt(*k), vt)
    h = StructV(cls, {dn: dm, tn: tm})
    sch = [Schema(1, lambda k: ri1(h, k[0]), 'RI ' + name), Schema(2, lambda k: ri2(h, *k), 'RI ' + name)]
    return h, sch

def _maps(h):
    d = [v for v in h.f.values() if v.dom.arity == 1][0]
    t = [v for v in h.f.values() if v.dom.arity == 2][0]
    return d, t

def D(h, k):
    return _maps(h)[0].dom.has((k,))

def T(h, a, b):
    return _maps(h)[1].dom.has((a, b))

def g_raw(h, k):
    return _maps(h)[0].elem((k,)).f['grad']

def g(h, k):
    return z3.If(D(h, k), g_raw(h, k), ZERO)

def H(h, a, b):
    """Half Hessian, for a <= b."""
    return z3.If(a == b, z3.If(D(h, a), _maps(h)[0].elem((a,)).f['hhess'], ZERO),
                 z3.If(T(h, a, b), _maps(h)[1].elem((a, b)), ZERO))

def mom(h, k):
    return [x for _, x in leaves(_maps(h)[0].elem((k,)).f['mom'])]

def same_mom(h1, k1, h2, k2):
    return z3.And([x == y for x, y in zip(mom(h1, k1), mom(h2, k2))])

def ri1(h, k):
    return z3.Implies(D(h, k), z3.And(k >= 1, k < MAXID))

def ri2(h, a, b):
    return z3.Implies(T(h, a, b), z3.And(a < b, D(h, a), D(h, b)))

def compat(h1, h2):
    """The same independent variable has the same moments everywhere."""
    return Schema(1, lambda k: z3.Implies(z3.And(D(h1, k[0]), D(h2, k[0])), same_mom(h1, k[0], h2, k[0])), 'same moments')

def pairs_dom(h, kind, skip):
    def has(k):
        a, b = k
        c = [a <= b if kind == 'hess' else a < b, D(h, a), D(h, b)]
        some = [T(h, a, b), mknot(skip)] + ([a == b] if kind == 'hess' else [])
        return z3.And(*(c + [z3.Or(*some)]))
    return DomV(2, has, name=kind)

def pair_iter(ex, lv, kind, skip):
    h = ex.load(lv)
    dn, tn = layout(ex)[:2]
    skip = ex.rv_(skip)
    d = pairs_dom(h, kind, skip)
    low = d.lowest()
    e, k = d.lb(low)
    return IterV(d, lv, e, k, low, kind, {'tri': tn, 'diag': dn, 'hhess': 'hhess'})

def pair_end(ex, lv, kind):
    h = ex.load(lv)
    dn, tn = layout(ex)[:2]
    d = pairs_dom(h, kind, FALSE)
    return IterV(d, lv, TRUE, d.lowest(), None, kind, {'tri': tn, 'diag': dn, 'hhess': 'hhess'})

def _begin(kind):
    def hook(ex, fn, this, args):
        if fn.get('_cls') != HG or this is None or len(args) != 1:
            return NotImplemented
        return pair_iter(ex, this, kind, args[0])
    return hook

def _end(kind):
    def hook(ex, fn, this, args):
        if fn.get('_cls') != HG or this is None or args:
            return NotImplemented
        return pair_end(ex, this, kind)
    return hook

HOOKS = {'chbegin': _begin('hess'), 'chend': _end('hess'), 'ctbegin': _begin('tri'), 'ctend': _end('tri')}

def ri_goals(c, who, h, o):
    k, a, b = fresh(I, 'k'), fresh(I, 'a'), fresh(I, 'b')
    c.goal('%s: keys of the diagonal are identities' % who, ri1(h, k), o, keys=[(k,)])
    c.goal('%s: mixed entries are ordered pairs of variables in the diagonal' % who, ri2(h, a, b), o, keys=[(a,), (b,), (a, b)])

# ------------------------------------------------------------------ the iterator classes against their contract
NAMES = {'hess': ('ConstHessIt', 'chbegin', 'chend'), 'tri': ('ConstTriIt', 'ctbegin', 'ctend')}

def iterators(ctx, ast, kinds):
    for kind in kinds:
        for skip in (True, False):
            lab = '%s (%s)' % (NAMES[kind][0], 'stored entries only' if skip else 'all pairs')
            guarded(ctx, lab + '::begin', lambda: v_begin(ctx, ast, kind, skip, lab))
            guarded(ctx, lab + '::operator++', lambda: v_next(ctx, ast, kind, skip, lab))
        guarded(ctx, NAMES[kind][0] + '::end', lambda: v_end(ctx, ast, kind))

def soften(ctx):
    """If the class invariant of an iterator has changed, its other obligations say nothing about the code."""
    join(ctx)
    for kind in NAMES:
        l = [o for o in ctx.obs if o['function'].startswith(NAMES[kind][0])]
        if any(o['status'] != 'proved' and 'class invariant' in o['name'] for o in l):
            for o in l:
                if o['status'] == 'refuted':
                    o['status'] = 'unknown'

def it_fields(ast, kind):
    """Members of the iterator class, found by type and by what the constructor stores in them."""
    k = HG + '::' + NAMES[kind][0]
    f = {n: t for n, t, _, _ in ast.fields(k)}
    need = {'diagmin', 'diagmax', 'diagend', 'tri', 'triend', 'skipmissing'}
    if set(f) != need:
        raise Missing('representation of %s changed: %s' % (k, sorted(f)))
    return k

class It:
    """A symbolic iterator object at an arbitrary position that its class invariant allows."""
    def __init__(self, c, ast, kind, skip):
        ex = c.ex
        self.kind, self.skip = kind, skip
        self.key = it_fields(ast, kind)
        self.h, sch = new_hg(ex, 'h')
        ex.schemas = ex.schemas + sch
        self.lh = ex.alloc(self.h, 'h')
        self.dn, self.tn = layout(ex)[:2]
        self.ld, self.lt = self.lh.sub(('f', self.dn)), self.lh.sub(('f', self.tn))
        self.dd, self.td = self.h.f[self.dn].dom, self.h.f[self.tn].dom
        self.pd = pairs_dom(self.h, kind, z3.BoolVal(skip))
    def d_at(self, k):
        return IterV(self.dd, self.ld, FALSE, (k,), (k,))
    def d_end(self):
        return IterV(self.dd, self.ld, TRUE, self.dd.lowest(), None)
    def t_end(self):
        return IterV(self.td, self.lt, TRUE, self.td.lowest(), None)
    def t_from(self, k):
        e, kk = self.td.lb(k)
        return IterV(self.td, self.lt, e, kk, k)
    def obj(self, k):
        """The object at the pair k."""
        return StructV(self.key, {'diagmin': self.d_at(k[0]), 'diagmax': self.d_at(k[1]), 'diagend': self.d_end(),
                                  'tri': self.t_from(k), 'triend': self.t_end(), 'skipmissing': z3.BoolVal(self.skip)})
    def goals(self, c, who, v, o, bound):
        """v is the iterator at the first enumerated pair >= bound."""
        ex = c.ex
        e, k = self.pd.lb(bound)
        a, b, t, te = v.f['diagmin'], v.f['diagmax'], v.f['tri'], v.f['triend']
        ok = all(isinstance(x, IterV) for x in (a, b, t, te, v.f['diagend']))
        c.flag('%s: iterates over the container' % who, ok and is_t(a.lv.same(self.ld)) and is_t(b.lv.same(self.ld)) and is_t(t.lv.same(self.lt)) and is_t(te.lv.same(self.lt))
               and is_t(v.f['diagend'].lv.same(self.ld)))
        if not ok:
            return
        keys = [k, (k[0],), (k[1],)] + [x.key for x in (a, b, t) if not is_t(x.end)]
        c.goal('%s: the end is where the ends are (class invariant)' % who, z3.And(v.f['diagend'].end, te.end, v.f['skipmissing'] == z3.BoolVal(self.skip)), o)
        # position: end iff no pair is left, else exactly that pair
        live = z3.And(z3.Not(a.end), z3.Not(b.end))
        ka = a.key[0] if not is_t(a.end) else iv(0)
        kb = b.key[0] if not is_t(b.end) else iv(0)
        c.goal('%s: not at the end before all pairs are visited' % who, z3.Implies(z3.Not(e), live), o, keys=keys)
        c.goal('%s: both components are at the end together' % who, a.end == b.end, o, keys=keys)
        c.goal('%s: stands on an enumerated pair past the previous one' % who, z3.Implies(live, z3.And(self.pd.has((ka, kb)), k_le(bound, (ka, kb)))), o, keys=keys + [(ka, kb)])
        c.goal('%s: stands on the first such pair' % who, z3.Implies(z3.And(live, z3.Not(e)), k_le((ka, kb), k)), o, keys=keys + [(ka, kb)])
        # the stored entries are followed along
        q = (fresh(I, 'q'), fresh(I, 'q'))
        tk = t.key if not is_t(t.end) else (iv(0), iv(0))
        c.goal('%s: the stored entry is the first one not before the pair (class invariant)' % who, z3.Implies(live, z3.And(
            z3.Implies(z3.Not(t.end), z3.And(self.td.has(tk), k_le((ka, kb), tk))),
            z3.Implies(z3.And(self.td.has(q), k_le((ka, kb), q)), z3.And(z3.Not(t.end), k_le(tk, q))))), o, keys=keys + [q, (q[0],), (q[1],), (ka, kb)])

def v_begin(ctx, ast, kind, skip, lab):
    fn = pick(ast, HG, NAMES[kind][1], lambda f: len(params(f)) == 1)
    c = Case(ctx, ast, lab + '::begin')
    it = It(c, ast, kind, skip)
    for o in no_throw(c, 'begin', c.run(lambda: c.ex.call_body(fn, it.lh, [z3.BoolVal(skip)]))):
        c.at(o)
        it.goals(c, 'begin', c.ex.rv_(o.val), o, it.pd.lowest())

def v_end(ctx, ast, kind):
    fn = pick(ast, HG, NAMES[kind][2], lambda f: not params(f))
    c = Case(ctx, ast, NAMES[kind][0] + '::end')
    it = It(c, ast, kind, True)
    for o in no_throw(c, 'end', c.run(lambda: c.ex.call_body(fn, it.lh, []))):
        c.at(o)
        v = c.ex.rv_(o.val)
        c.goal('end: both components are at the end', z3.And(v.f['diagmin'].end, v.f['diagmax'].end), o)

def v_next(ctx, ast, kind, skip, lab):
    fn = pick(ast, it_fields(ast, kind), 'operator++', lambda f: not params(f))
    cls = it_fields(ast, kind)
    c = Case(ctx, ast, lab + '::operator++')
    it = It(c, ast, kind, skip)
    k = (z3.Int('pos.0'), z3.Int('pos.1'))
    c.ex.keys = c.ex.keys + [k]
    c.ex.pc.append(it.pd.has(k))
    obj = it.obj(k)
    lo = c.ex.alloc(obj, 'it')
    for o in no_throw(c, '++', c.run(lambda: c.ex.call_body(fn, lo, []))):
        c.at(o)
        it.goals(c, '++', c.ex.load(lo), o, k_succ(k))
    # observers
    stored = T(it.h, *k)
    def val(r):
        return r == H(it.h, *k)
    obs = [('operator*', val), ('id1', lambda r: r == k[0]), ('id2', lambda r: r == k[1]),
           ('diag1', lambda r: z3.And([x == y for (_, x), (_, y) in zip(leaves(r), leaves(it.h.f[it.dn].elem((k[0],))))])),
           ('diag2', lambda r: z3.And([x == y for (_, x), (_, y) in zip(leaves(r), leaves(it.h.f[it.dn].elem((k[1],))))]))]
    for name, post in obs:
        f = pick(ast, cls, name, lambda f: not params(f))
        c2 = Case(ctx, ast, lab + '::' + name)
        it2 = It(c2, ast, kind, skip)
        c2.ex.keys = c2.ex.keys + [k]
        c2.ex.pc.append(it2.pd.has(k))
        l2 = c2.ex.alloc(it2.obj(k), 'it')
        it = it2
        for o in no_throw(c2, name, c2.run(lambda: c2.ex.call_body(f, l2, []))):
            c2.at(o)
            c2.goal('%s: of the pair it stands on' % name, post(c2.ex.rv_(o.val)), o, keys=[k])
    f = pick(ast, cls, 'operator!=', lambda f: len(params(f)) == 2)
    c3 = Case(ctx, ast, lab + '::operator!=')
    it3 = It(c3, ast, kind, skip)
    c3.ex.keys = c3.ex.keys + [k]
    c3.ex.pc.append(it3.pd.has(k))
    v = it3.obj(k)
    e = StructV(v.cls, dict(v.f, diagmin=it3.d_end(), diagmax=it3.d_end(), tri=it3.t_end()))
    l1, l2 = c3.ex.alloc(v, 'it'), c3.ex.alloc(e, 'end')
    for a, b, want in ((l1, l2, True), (l2, l1, True), (l2, l2, False)):
        for o in no_throw(c3, '!=', c3.run(lambda: c3.ex.call_body(f, None, [a, b]))):
            c3.goal('!= tells the end apart', o.val == z3.BoolVal(want), o)
