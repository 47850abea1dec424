"""Exact summaries of loops: the executor calls loop(); no bound on the number of iterations.

A loop over ordered containers is summarised by its frontier: for a fresh key c the state of every iterator is
'at c' or 'first element after c'; executing one iteration from that state must move the frontier past c (an
obligation proved for every path), so by induction over the keys the loop performs exactly the iterations c for
which some iterator is at c, in increasing order. The effect on each variable is then the sum (or the pointwise
update) of the effects of the iterations. Counting loops are the same with c = 0, 1, 2, ..."""
import z3
import cross
from values import *
from prove import mksum, mkex, Schema, prove, entails, free_consts, walk
from prove import SUMS
import exec as X

def loop(ex, cond, body, inc, node):
    ex.loops += 1
    def step():
        if not cond():
            raise X.LoopExit()
        try:
            body()
        except X.Cnt:
            pass
        inc()
    for n in range(66):
        saved = (list(ex.obligations), dict(ex.functions))
        outs = ex.explore(cond)
        ex.obligations, ex.functions = saved
        if len(outs) == 1 and outs[0].kind == 'normal' and not outs[0].extra():
            if not cond():
                return
            try:
                body()
            except X.Brk:
                return
            except X.Cnt:
                pass
            inc()
            continue
        break
    else:
        raise Unsupported('loop longer than 64 concrete iterations')
    summarise(ex, step, node)

# ------------------------------------------------------------------ differences between states
def diff(a, b, path=()):
    if a is b:
        return []
    if isz(a) and isz(b):
        return [] if a.eq(b) else [path]
    if isinstance(a, StructV) and isinstance(b, StructV) and a.cls == b.cls:
        out = []
        for k in a.f:
            out += diff(a.f[k], b.f[k], path + (('f', k),))
        return out
    if isinstance(a, ArrV) and isinstance(b, ArrV) and len(a.items) == len(b.items):
        out = []
        for i, (x, y) in enumerate(zip(a.items, b.items)):
            out += diff(x, y, path + (('i', i),))
        return out
    if isinstance(a, IterV) and isinstance(b, IterV):
        if a.dom.uid == b.dom.uid and a.end.eq(b.end) and all(x.eq(y) for x, y in zip(a.key, b.key)) and is_t(a.lv.same(b.lv)):
            return []
        return [path]
    if isinstance(a, VecIter) and isinstance(b, VecIter):
        return [] if a.idx.eq(b.idx) and is_t(a.lv.same(b.lv)) else [path]
    if isinstance(a, PtrV) and isinstance(b, PtrV):
        if a.lv is None and b.lv is None:
            return []
        if a.lv and b.lv and is_t(a.lv.same(b.lv)):
            return []
        return [path]
    return [path]

def get(ex, loc, path, store=None):
    st = ex.store if store is None else store
    v = st[loc]
    for p in path:
        v = v.f[p[1]] if p[0] == 'f' else v.items[p[1]]
    return v

def changes(ex, outs):
    s = set()
    for o in outs:
        for loc, v in ex.store.items():
            w = o.store.get(loc)
            if w is None or w is v:
                continue
            for p in diff(v, w):
                s.add((loc, p))
    # keep minimal prefixes
    res = set()
    for (l, p) in s:
        if not any(l == l2 and len(p2) < len(p) and p[:len(p2)] == p2 for (l2, p2) in s):
            res.add((l, p))
    return res

def quiet(ex, f):
    saved = (list(ex.obligations), dict(ex.functions), ex.loops)
    try:
        return f()
    finally:
        ex.obligations, ex.functions, ex.loops = saved

# ------------------------------------------------------------------ summary
class Acc:
    grow = False
    count = None

def summarise(ex, step, node):
    dry = quiet(ex, lambda: ex.explore(step))
    if not any(o.kind in ('normal', 'continue') for o in dry):
        # no iteration is completed from here: the first one decides
        try:
            step()
        except (X.LoopExit, X.Brk):
            return
        raise Unsupported('loop whose first iteration may complete')
    ch = changes(ex, [o for o in dry if o.kind == 'normal'])
    for attempt in range(4):
        r = attempt_summary(ex, step, node, ch, dry)
        if r is None:
            return
        ch = ch | r
    raise Unsupported('loop state does not stabilise')

def attempt_summary(ex, step, node, ch, dry):
    iters, inds, accs, poison = [], [], [], []
    normal = [o for o in dry if o.kind == 'normal']
    for (loc, p) in sorted(ch, key=lambda x: (x[0], str(x[1]))):
        v = get(ex, loc, p)
        if isinstance(v, IterV):
            iters.append((loc, p, v))
        elif isinstance(v, VecIter):
            inds.append((loc, p, v))
        elif isz(v) and v.sort() == I:
            steps = set()
            for o in normal:
                w = get(ex, loc, p, o.store)
                d = simp(w - v) if isz(w) else None
                steps.add(d.as_long() if d is not None and z3.is_int_value(d) else None)
            if len(steps) == 1 and None not in steps and 0 not in steps:
                inds.append((loc, p, v))
            else:
                poison.append((loc, p))
        elif isz(v) and v.sort() == R:
            accs.append((loc, p, v, 'real'))
        elif isinstance(v, MapV):
            accs.append((loc, p, v, 'map'))
        elif isinstance(v, VecV):
            accs.append((loc, p, v, 'vec'))
        else:
            poison.append((loc, p))
    if iters:
        for (l, p, v) in inds:
            poison.append((l, p))
        inds = []
        return frontier(ex, step, iters, accs, poison, ch)
    if inds:
        return counting(ex, step, inds, accs, poison, ch, normal)
    raise Unsupported('loop without a recognised iteration variable')

def havoc(ex, accs, poison):
    """Replaces the accumulators by unknown current values."""
    hv = []
    for (loc, p, v, kind) in accs:
        a = Acc()
        a.loc, a.p, a.v0, a.kind = loc, p, v, kind
        if kind == 'real':
            a.sym = fresh(R, 'acc')
            a.cur = a.sym
        else:
            ar = v.dom.arity if kind == 'map' else 1
            uid = fresh_name('cur')
            probe = tuple(fresh(I, 'p') for _ in range(ar))
            tmpl = v.elem(probe) if kind == 'map' else v.elem(probe[0])
            a.leafs = [(pp, x.sort()) for pp, x in leaves(tmpl)]
            a.tmpl = tmpl
            a.ufs = {pp: z3.Function('cur.%d:%s.%s' % (ar, uid, '.'.join(map(str, pp))), *([I] * ar + [s])) for pp, s in a.leafs}
            a.arity = ar
            def elem(k, a=a):
                return rebuild(a.tmpl, lambda pp: a.ufs[pp](*k))
            if kind == 'map':
                a.domchg = True
                a.domuf = z3.Function('curdom.%d:%s' % (ar, uid), *([I] * ar + [B]))
                a.cur = MapV(DomV(ar, lambda k, a=a: a.domuf(*k), name='curdom'), elem, v.vtype)
            else:
                a.cur = VecV(v.n, lambda k, e=elem: e((k,)), v.etype)
        hv.append(a)
    return hv

def frontier(ex, step, iters, accs, poison, ch):
    ar = iters[0][2].dom.arity
    if any(v.dom.arity != ar for _, _, v in iters):
        raise Unsupported('iterators over different key types')
    for (_, _, v) in iters:
        if v.bound is None and not is_t(v.end):
            raise Unsupported('iterator with unknown position')
    c = tuple(fresh(I, 'c') for _ in range(ar))
    mark = fresh_mark()
    acc = havoc(ex, accs, poison)
    # a map whose key set the body does not change keeps its domain
    iterated = [v.lv for _, _, v in iters]
    def setup(flags=None, at_c=None):
        cc = at_c or c
        fl = []
        for i, (loc, p, v) in enumerate(iters):
            if is_t(v.end):
                at = False
            else:
                cnd = mkand([v.dom.has(cc), k_le(v.bound, cc)])
                if len(iters) == 1:
                    ex.assume(cnd)
                    at = True
                else:
                    at = ex.choose([cnd, mknot(cnd)]) == 0
            fl.append(at)
            if at:
                nv = IterV(v.dom, v.lv, FALSE, cc, cc, v.kind, v.extra)
            elif is_t(v.end):
                nv = v
            else:
                b = k_max(v.bound, k_succ(cc)) if not same_low(v) else k_succ(cc)
                e, k = v.dom.lb(b)
                nv = IterV(v.dom, v.lv, e, k, b, v.kind, v.extra)
            ex.put(LV(loc, p), nv)
        if not any(fl):
            raise X.Infeasible()
        return fl
    def run():
        fl = setup()
        for a in acc:
            ex.put(LV(a.loc, a.p), a.cur)
        for (l, p) in poison:
            ex.put(LV(l, p), X.Poison('variable reused across iterations'))
        step()
        return fl
    for a in acc:
        if a.kind == 'map':
            keep_domain(ex, a, iters, step, setup, acc, poison)
    ex.loop_syms += list(c)
    try:
        outs = ex.explore(run)
    finally:
        del ex.loop_syms[len(ex.loop_syms) - ar:]
    N = [o for o in outs if o.kind == 'normal']
    new = set()
    for o in N:
        for loc, v in ex.store.items():
            w = o.store.get(loc)
            if w is None or w is v:
                continue
            for pth in diff(v, w):
                if not any(loc == l and pth[:len(p)] == p for (l, p) in ch):
                    new.add((loc, pth))
    if new:
        return new
    # the frontier moves past c
    for o in N:
        for (loc, p, v), at in zip(iters, o.val):
            if is_t(v.end):
                continue
            w = get(ex, loc, p, o.store)
            if not isinstance(w, IterV) or w.dom.uid != v.dom.uid or w.bound is None:
                raise Unsupported('iterator is not advanced in order')
            want = k_succ(c) if (at or same_low(v)) else k_max(v.bound, k_succ(c))
            g = k_eq(w.bound, want)
            if not is_t(g) and not entails(o.pc, g, o.schemas, timeout=2000, depth=2):
                raise Unsupported('iteration does not advance to the next key')
    domcond = mkor([mkand([v.dom.has(c), k_le(v.bound, c)]) for _, _, v in iters if not is_t(v.end)])
    finish(ex, step, c, mark, outs, acc, poison, iters, setup, domcond)
    return None

def same_low(v):
    return all(x.eq(y) for x, y in zip(v.bound, v.dom.lowest()))

def keep_domain(ex, a, iters, step, setup, acc, poison):
    """If one generic iteration provably leaves the key set of the map as it is, the current map keeps its DomV."""
    for (_, _, v) in iters:
        if v.lv.loc == a.loc and tuple(v.lv.path) == tuple(a.p):
            a.domchg = False
            cur = a.cur
            a.cur = MapV(a.v0.dom, cur.elem, cur.vtype)
            return

def leaked(e, mark, c):
    for nm in free_consts(e):
        i = FRESH_INDEX.get(nm)
        if i is not None and i > mark:
            return nm
    return None

def counting(ex, step, inds, accs, poison, ch, normal):
    t = fresh(I, 't')
    mark = fresh_mark()
    acc = havoc(ex, accs, poison)
    for a in acc:
        if a.kind == 'vec' and normal:
            d = [simp(get(ex, a.loc, a.p, o.store).n - a.v0.n) if isinstance(get(ex, a.loc, a.p, o.store), VecV) else None for o in normal]
            if all(x is not None and z3.is_int_value(x) and x.as_long() == 1 for x in d):     # one push_back per iteration
                a.grow = True
                a.cur = VecV(simp(a.v0.n + t), a.cur.elem, a.v0.etype)
    steps = []
    for (loc, p, v) in inds:
        s = set()
        for o in normal:
            w = get(ex, loc, p, o.store)
            d = simp((w.idx - v.idx) if isinstance(v, VecIter) else (w - v))
            cst = d.as_long() if z3.is_int_value(d) else None
            if cst is None and isinstance(v, VecIter) and leaked(d, mark, t) is None:
                cst = d
            s.add(cst if not isz(cst) else cst)
        s = list(s)
        if len(s) != 1 or s[0] is None:
            raise Unsupported('irregular counter')
        steps.append(s[0])
    def value(v, s, tt):
        if isinstance(v, VecIter):
            return VecIter(v.lv, simp(v.idx + s * tt))
        return simp(v + s * tt)
    def setup(flags=None, at_c=None):
        tt = at_c[0] if at_c else t
        ex.assume(tt >= 0)
        for (loc, p, v), s in zip(inds, steps):
            ex.put(LV(loc, p), value(v, s, tt))
        return []
    def run():
        setup()
        for a in acc:
            ex.put(LV(a.loc, a.p), a.cur)
        for (l, p) in poison:
            ex.put(LV(l, p), X.Poison('variable reused across iterations'))
        if ncond[0] is not None:
            ex.assume(t < ncond[0])
        step()
        return []
    ncond = [None]
    # number of iterations: first t at which the loop condition fails
    ex.loop_syms.append(t)
    try:
        pre = quiet(ex, lambda: ex.explore(run))
        exits = [o for o in pre if o.kind == 'exit']
        if not exits:
            raise Unsupported('counting loop without exit')
        cands = []
        for o in exits:
            for lit in o.extra():
                cands += boundary(lit, t)
        n = None
        X_ = [simp(mkand(o.extra())) for o in exits]
        xx = mkor(X_)
        for cd in cands:
            if leaked(cd, mark, t):
                continue
            # at t == cd the loop exits; before, it does not
            if not entails(ex.pc, cd >= 0, ex.schemas, timeout=1500, depth=2):
                continue
            at = z3.substitute(xx, (t, cd))
            if not entails(ex.pc, at, ex.schemas, timeout=1500, depth=2):
                continue
            if not entails(list(ex.pc) + [t >= 0, t < cd], mknot(xx), ex.schemas, timeout=1500, depth=2):
                continue
            n = cd
            break
        if n is None:
            raise Unsupported('number of iterations not determined')
        ncond[0] = n
        outs = ex.explore(run)
    finally:
        ex.loop_syms.pop()
    outs = [o for o in outs if o.kind != 'exit']
    N = [o for o in outs if o.kind == 'normal']
    new = set()
    for o in N:
        for loc, v in ex.store.items():
            w = o.store.get(loc)
            if w is None or w is v:
                continue
            for pth in diff(v, w):
                if not any(loc == l and pth[:len(p)] == p for (l, p) in ch):
                    new.add((loc, pth))
    if new:
        return new
    for o in N:
        for (loc, p, v), s in zip(inds, steps):
            w = get(ex, loc, p, o.store)
            want = value(v, s, t + 1)
            a, b = (w.idx, want.idx) if isinstance(v, VecIter) else (w, want)
            if not entails(o.pc, a == b, o.schemas, timeout=1500, depth=2):
                raise Unsupported('irregular counter')
    finish(ex, step, (t,), mark, outs, acc, poison, [], setup, mkand([t >= 0, t < n]),
           fin=lambda: [ex.put(LV(loc, p), value(v, s, n)) for (loc, p, v), s in zip(inds, steps)], count=n)
    return None

def boundary(lit, t):
    """Candidate values of t at which the truth of the literal changes."""
    out = []
    st = [lit]
    while st:
        x = st.pop()
        if z3.is_app(x) and x.num_args() == 2 and x.arg(0).sort() == I and x.arg(1).sort() == I and (
                z3.is_eq(x) or z3.is_le(x) or z3.is_ge(x) or z3.is_lt(x) or z3.is_gt(x)):
            d = x.arg(0) - x.arg(1)
            p0 = simp(z3.substitute(d, (t, iv(0))))
            q = simp(z3.substitute(d, (t, iv(1))) - p0)
            if z3.is_int_value(q) and q.as_long() in (1, -1):
                r = simp(-p0 * q.as_long())
                out += [r, simp(r + 1), simp(r - 1), iv(0)]
        else:
            st.extend(x.children())
    return out

def finish(ex, step, c, mark, outs, acc, poison, iters, setup, domcond, fin=None, count=None):
    N = [o for o in outs if o.kind == 'normal']
    E = [o for o in outs if o.kind == 'exit']
    S = [o for o in outs if o.kind in ('break', 'return', 'throw', 'abort')]
    pcs = [simp(mkand(trim(o))) for o in N]
    for o, pcx in list(zip(N, pcs)):
        l = leaked(pcx, mark, c)
        if l:
            raise Unsupported('iteration condition depends on %s' % l)
        for a in acc:
            if a.kind == 'real' and a.sym.decl().name() in free_consts(pcx):
                raise Unsupported('iteration condition depends on an accumulator')
            if a.kind != 'real' and any(z3.is_app(x) and any(x.decl().eq(u) for u in list(a.ufs.values()) + ([a.domuf] if a.kind == 'map' else [])) for x in walk([pcx])):
                raise Unsupported('iteration condition depends on an accumulator')
    ncond = simp(mkor(pcs))
    stops = E + S
    limit = None
    full = True
    if stops:
        filt = False
        if not S and (len(iters) > 1 or (ex.loop_syms and iters and any(a.kind == 'real' for a in acc))):
            # condition of a merge loop: once false it stays false
            c2 = tuple(fresh(I, 'c2') for _ in c)
            xs = mkor([mkand(o.extra()) for o in E])
            n2 = z3.substitute(ncond, *zip(c, c2))
            if entails(list(ex.pc) + [k_lt(c, c2), xs], mknot(n2), ex.schemas, timeout=4000, keys=[c, c2], depth=2):
                filt = True
        if filt:
            full = False
        else:
            # either some iteration is the first to leave the loop, or none is
            stopc = simp(mkor([mkand(o.extra()) for o in stops]))
            if leaked(stopc, mark, c):
                raise Unsupported('exit condition depends on a fresh value')
            if ex.choose([TRUE, TRUE]) == 0:
                c0 = tuple(fresh(I, 'stop') for _ in c)
                ex.keys = ex.keys + [c0]
                sub0 = list(zip(c, c0))
                ex.assume(z3.substitute(stopc, *sub0))
                ex.assume(z3.substitute(domcond, *sub0))
                ex.schemas = ex.schemas + [Schema(len(c), lambda k: z3.Implies(
                    z3.And(k_lt(k, c0), z3.substitute(domcond, *zip(c, k))), z3.substitute(ncond, *zip(c, k))), 'before first exit')]
                if not ex.sat(ex.pc):
                    raise X.Infeasible()
                for a in acc:
                    a.count = c0[0]
                apply_effects(ex, acc, N, pcs, c, mark, extra=k_lt(c, c0))
                for (l, p) in poison:
                    ex.put(LV(l, p), X.Poison('variable reused across iterations'))
                setup(at_c=c0)
                try:
                    step()
                except (X.LoopExit, X.Brk):
                    return
                raise X.Infeasible()
            ex.schemas = ex.schemas + [Schema(len(c), lambda k: z3.Implies(
                z3.substitute(domcond, *zip(c, k)), z3.substitute(ncond, *zip(c, k))), 'no exit')]
            if not ex.sat(ex.pc):
                raise X.Infeasible()
    for a in acc:
        a.count = count
    apply_effects(ex, acc, N, pcs, c, mark)
    for (l, p) in poison:
        ex.put(LV(l, p), X.Poison('variable after the loop'))
    for (loc, p, v) in iters:
        if full:
            ex.put(LV(loc, p), IterV(v.dom, v.lv, TRUE, v.dom.lowest(), None, v.kind, v.extra))
        else:
            ex.put(LV(loc, p), X.Poison('iterator after the loop'))
    if fin:
        fin()

def trim(o):
    """The path condition without the conjuncts about iterator positions that follow from the others."""
    cs = []
    for x in o.extra():
        x = simp(x)
        cs += x.children() if z3.is_and(x) else [x]
    pre = o.pc[:o.npc]
    i = 0
    while i < len(cs):
        x = cs[i]
        if any(y.decl().name().startswith('lb') for y in walk([x]) if z3.is_app(y)):
            rest = cs[:i] + cs[i + 1:]
            if entails(pre + rest, x, o.schemas, timeout=1500, depth=2):
                cs = rest
                continue
        i += 1
    return cs

def apply_effects(ex, acc, N, pcs, c, mark, extra=None):
    results = []
    for a in acc:
        if a.kind == 'real':
            r = real_effect(ex, a, N, pcs, c, mark, acc, extra)
        else:
            r = map_effect(ex, a, N, pcs, c, mark, acc, extra)
        results.append(r)
    for a, r in zip(acc, results):
        ex.put(LV(a.loc, a.p), r)

def mentions(e, acc, but=None):
    fc = None
    for a in acc:
        if a is but:
            continue
        if a.kind == 'real':
            fc = fc if fc is not None else free_consts(e)
            if a.sym.decl().name() in fc:
                return True
        else:
            us = list(a.ufs.values()) + ([a.domuf] if a.kind == 'map' else [])
            if any(z3.is_app(x) and any(x.decl().eq(u) for u in us) for x in walk([e])):
                return True
    return False

def real_effect(ex, a, N, pcs, c, mark, acc, extra):
    terms = []
    for o, pcx in zip(N, pcs):
        v = get(ex, a.loc, a.p, o.store)
        if not isz(v):
            return X.Poison('variable of unknown value after a loop')
        if v.eq(a.sym):
            continue
        if a.sym.decl().name() not in free_consts(v):
            return X.Poison('variable overwritten in a loop')
        d = simp(z3.substitute(v, (a.sym, ZERO)))
        s = z3.Solver()
        s.set('timeout', 4000)
        s.add(v - a.sym != d)
        if s.check() != z3.unsat or not cross.confirm(s):
            return X.Poison('variable updated non additively in a loop')
        if leaked(d, mark, c):
            raise Unsupported('accumulated value depends on a fresh value')
        if mentions(d, acc):
            raise Unsupported('accumulators depend on each other')
        terms.append((pcx, d))
    if not terms:
        return a.v0
    by = []
    for pcx, d in terms:
        for e in by:
            if e[1].eq(d):
                e[0].append(pcx)
                break
        else:
            by.append([[pcx], d])
    body = ZERO
    for ps, d in by:
        g = factor_or(ps)
        if extra is not None:
            g = mkand([extra, g])
        body = body + z3.If(g, d, ZERO)
    return simp(a.v0 + mksum(c, simp(body), ex.loop_syms))

def factor_or(ps):
    return simp(mkor(ps))

def map_effect(ex, a, N, pcs, c, mark, acc, extra):
    ar = a.arity
    k = tuple(fresh(I, 'key') for _ in range(ar))
    paths = []
    for o, pcx in zip(N, pcs):
        v = get(ex, a.loc, a.p, o.store)
        if a.kind == 'map':
            if not isinstance(v, MapV):
                raise Unsupported('map after loop')
            d = v.dom.has(k)
            e = v.elem(k)
        else:
            if not isinstance(v, VecV):
                raise Unsupported('vector after loop')
            if a.grow and a.count is None:
                raise Unsupported('vector grows in an irregular loop')
            if not simp(v.n == (a.v0.n + c[0] + 1 if a.grow else a.v0.n)).eq(TRUE):
                raise Unsupported('vector size changes in a loop')
            d = TRUE
            e = v.elem(k[0])
        lv = dict(leaves(e))
        if set(lv) != set(pp for pp, _ in a.leafs):
            raise Unsupported('map element shape')
        lv = {pp: simp(x) for pp, x in lv.items()}
        d = simp(d)
        paths.append((o, pcx, d, lv))
    dom_now = (a.domuf(*k) if a.domchg else a.v0.dom.has(k)) if a.kind == 'map' else TRUE
    cur = {pp: a.ufs[pp](*k) for pp, _ in a.leafs}
    # canonicalise the current value at the skolem key
    dsym = fresh(B, 'd')
    vsym = {pp: fresh(s, 'e') for pp, s in a.leafs}
    ufs = [(u, pp) for pp, u in a.ufs.items()]
    def localise(o, f):
        """f with the current entry at k named by dsym/vsym; reads of other entries must not matter."""
        for rnd in range(3):
            sub, other = [], []
            for x in walk([f]):
                if not z3.is_app(x) or x.num_args() == 0:
                    continue
                tgt = None
                if a.kind == 'map' and x.decl().eq(a.domuf):
                    tgt = dsym
                for u, pp in ufs:
                    if x.decl().eq(u):
                        tgt = vsym[pp]
                if tgt is None:
                    continue
                if all(p.eq(q) for p, q in zip(x.children(), k)):
                    sub.append((x, tgt))
                else:
                    other.append((x, tgt))
            if not other:
                return simp(z3.substitute(f, *sub)) if sub else f
            x, tgt = other[0]
            ne = mknot(k_eq(tuple(x.children()), k))
            u1, u2 = fresh(x.sort(), 'u'), fresh(x.sort(), 'u')
            if not entails(list(o.pc) + [ne], z3.substitute(f, (x, u1)) == z3.substitute(f, (x, u2)), o.schemas, timeout=2500, depth=2):
                raise Unsupported('iteration reads another entry of the accumulated map')
            f = simp(z3.substitute(f, (x, tgt)))
        raise Unsupported('iteration reads other entries of the accumulated map')
    if a.kind == 'vec' and not a.grow:
        r = permutation(ex, a, paths, k, c, mark, acc)
        if r is not None:
            return r
    P = []
    for o, pcx, d, lv in paths:
        d2 = localise(o, d)
        l2 = {pp: localise(o, x) for pp, x in lv.items()}
        P.append((o, pcx, d2, l2))
    def changed(d2, l2):
        cs = []
        if a.kind == 'map' and a.domchg:
            cs.append(d2 != dsym)
        cs += [l2[pp] != vsym[pp] for pp in vsym if not l2[pp].eq(vsym[pp])]
        return simp(mkor(cs))
    allch = [changed(d2, l2) for _, _, d2, l2 in P]
    if all(is_f(x) for x in allch):
        return VecV(simp(a.v0.n + a.count), a.v0.elem, a.v0.etype) if a.grow else a.v0
    # candidate iterations that can change entry k
    if len(c) == 1:
        cands = [(x,) for x in k] if a.kind == 'map' else []
        if a.kind == 'vec' or not ok_without(P, allch, cands, ex, c, k):
            for (_, _, d2, l2), chg in zip(P, allch):
                for x in walk([chg]):
                    if z3.is_eq(x) and x.arg(0).sort() == I:
                        for r in solve_linear(x, c[0]):
                            if not any(r.eq(y[0]) for y in cands):
                                cands.append((r,))
            for (_, _, d2, l2), chg in zip(P, allch):
                for x in walk([chg]):
                    for r in blocks(x, c[0]):
                        if not any(r.eq(y[0]) for y in cands):
                            cands.append((r,))
    else:
        cands = [(k[0], k[0])] if ar == 1 else [(k[0], k[1]), (k[1], k[0])]
    used = []
    ok = True
    for (o, pcx, d2, l2), chg in zip(P, allch):
        if is_f(chg):
            continue
        done = False
        for cd in used + [x for x in cands if x not in used]:
            if entails(o.pc + [chg], k_eq(c, cd), o.schemas, timeout=2000, keys=[k], depth=2):
                if not any(all(p.eq(q) for p, q in zip(cd, u)) for u in used):
                    used.append(cd)
                done = True
                break
        if not done and len(cands) >= 2:
            if entails(o.pc + [chg], mkor([k_eq(c, cd) for cd in cands]), o.schemas, timeout=2500, keys=[k], depth=2):
                for cd in cands:
                    if not any(all(p.eq(q) for p, q in zip(cd, u)) for u in used):
                        used.append(cd)
                done = True
        if not done:
            ok = False
            break
    for (o, pcx, d2, l2) in P:
        for x in [d2] + list(l2.values()):
            nm = leaked(x, mark, c)
            if nm and not (nm.startswith('d!') or nm.startswith('e!') or nm.startswith('key!')):
                raise Unsupported('map update depends on a fresh value %s' % nm)
            if mentions(x, acc):
                raise Unsupported('accumulators depend on each other')
    d0 = a.v0.dom.has if a.kind == 'map' else None
    e0 = a.v0.elem if a.kind == 'map' else (lambda q: a.v0.elem(q[0]))
    if ok and len(used) <= 2:
        def stepf(t, val):
            dv, lvv = val
            nd, nl = dv, dict(lvv)
            for (o, pcx, d2, l2) in reversed(P):
                sub = list(zip(c, t)) + [(dsym, dv)] + [(vsym[pp], lvv[pp]) for pp in vsym]
                g0 = pcx if extra is None else mkand([extra, pcx])
                g = simp(z3.substitute(g0, *zip(c, t)))
                nd = ite(g, simp(z3.substitute(d2, *sub)), nd)
                for pp in vsym:
                    nl[pp] = ite(g, simp(z3.substitute(l2[pp], *sub)), nl[pp])
            return nd, nl
        def ev2(q, raw):
            dv = d0(q) if d0 else TRUE
            val = (dv, dict(leaves(e0(q))))
            ts = [tuple(simp(z3.substitute(x, *zip(k, q))) for x in t) for t in used]
            # c and k occur in stepf through P: rename k to q first
            def sf(t, val):
                nd, nl = stepf(t, (dsym, vsym))
                sub = list(zip(k, q)) + [(dsym, val[0])] + [(vsym[pp], val[1][pp]) for pp in vsym]
                return simp(z3.substitute(nd, *sub)), {pp: simp(z3.substitute(nl[pp], *sub)) for pp in nl}
            if len(ts) == 1:
                return sf(ts[0], val)
            t1, t2 = ts
            eq, lt = k_eq(t1, t2), k_lt(t1, t2)
            A = sf(t1, val)
            if is_t(eq):
                return A
            r12 = sf(t2, A)
            Bv = sf(t2, val)
            r21 = sf(t1, Bv)
            def pick(x, y, z):
                return ite(eq, x, ite(lt, y, z))
            return pick(A[0], r12[0], r21[0]), {pp: pick(A[1][pp], r12[1][pp], r21[1][pp]) for pp in A[1]}
        memo = {}
        def at(q):
            h = tuple(x.get_id() for x in q)
            if h not in memo:
                memo[h] = (q, ev2(q, None))
            return memo[h][1]
        if a.kind == 'map':
            dom = DomV(ar, lambda q: at(q)[0], params=(), name='loopdom') if a.domchg else a.v0.dom
            return MapV(dom, lambda q: rebuild(a.tmpl, lambda pp: at(q)[1][pp]), a.v0.vtype)
        return VecV(simp(a.v0.n + a.count) if a.grow else a.v0.n, lambda q: rebuild(a.tmpl, lambda pp: at((q,))[1][pp]), a.v0.etype)
    # additive: entry k receives a contribution from any number of iterations
    if a.kind != 'map' or len(a.leafs) != 1 or a.leafs[0][1] != R:
        raise Unsupported('map update is neither pointwise nor additive')
    pp0 = a.leafs[0][0]
    body = ZERO
    exb = []
    for (o, pcx, d2, l2), chg in zip(P, allch):
        if is_f(chg):
            continue
        v = vsym[pp0]
        e2 = l2[pp0]
        delta = z3.If(d2, e2, ZERO) - z3.If(dsym, v, ZERO)
        delta0 = simp(z3.substitute(delta, (dsym, FALSE), (v, ZERO)))
        P0 = simp(z3.substitute(d2, (dsym, FALSE), (v, ZERO)))
        if not entails(o.pc, delta == delta0, o.schemas, timeout=3000, depth=2):
            raise Unsupported('map update is neither pointwise nor additive')
        if not entails(o.pc, d2 == z3.Or(dsym, P0), o.schemas, timeout=3000, depth=2):
            raise Unsupported('key set update')
        g = pcx if extra is None else mkand([extra, pcx])
        body = body + z3.If(g, delta0, ZERO)
        exb.append(mkand([g, P0]))
    syms = list(ex.loop_syms) + list(k)
    st = mksum(c, simp(body), syms)
    et = mkex(c, simp(mkor(exb)), syms)
    def dfn(q):
        return mkor([d0(q), z3.substitute(et, *zip(k, q))])
    dom = DomV(ar, dfn, name='sumdom')
    def efn(q):
        old = dict(leaves(e0(q)))[pp0]
        return rebuild(a.tmpl, lambda pp: simp(z3.If(d0(q), old, ZERO) + z3.substitute(st, *zip(k, q))))
    return MapV(dom, efn, a.v0.vtype)

def solve_linear(eq, t):
    d = eq.arg(0) - eq.arg(1)
    p0 = simp(z3.substitute(d, (t, iv(0))))
    q = simp(z3.substitute(d, (t, iv(1))) - p0)
    if z3.is_int_value(q) and q.as_long() in (1, -1):
        return [simp(-p0 * q.as_long())]
    return []

def blocks(lit, t):
    """Candidates for the iteration t of a loop with symbolic stride that touches the entry: lit is a comparison of
    a + q t with something, t = blk(-a, q) if q > 0."""
    if not (z3.is_app(lit) and lit.num_args() == 2 and lit.arg(0).sort() == I and (z3.is_eq(lit) or z3.is_le(lit) or z3.is_ge(lit) or z3.is_lt(lit) or z3.is_gt(lit))):
        return []
    d = lit.arg(0) - lit.arg(1)
    at = lambda i: z3.simplify(z3.substitute(d, (t, iv(i))), som=True)
    p0 = at(0)
    q = z3.simplify(at(1) - p0, som=True)
    if z3.is_int_value(q) or not z3.simplify(at(2) - p0 - 2 * q, som=True).eq(iv(0)) or t.decl().name() in free_consts(q):
        return []
    out = []
    for s in (1, -1):
        a, b = z3.simplify(-s * p0, som=True), z3.simplify(s * q, som=True)
        if z3.is_const(b):
            out.append(BLK(a, b))
    return out

PERMS = {}      # name -> (iteration, position, where the entry at the position comes from)

def permutation(ex, a, paths, k, c, mark, acc):
    """Iterations that only move entries: after m of them the entry q is the original entry s(m, q), with
    s(0, q) = q and s(m+1, q) = s(m, move_m(q))."""
    ufs = {pp: u for pp, u in a.ufs.items()}
    def source(x, u):
        if z3.is_app(x) and x.decl().eq(u):
            return x.arg(0)
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            p, q = source(x.arg(1), u), source(x.arg(2), u)
            return None if p is None or q is None else z3.If(x.arg(0), p, q)
        return None
    move, moved = k[0], False
    for o, pcx, d, lv in reversed(paths):
        src = [source(x, ufs[pp]) for pp, x in lv.items()]
        if any(x is None for x in src) or not src:
            return None
        if any(not simp(x).eq(simp(src[0])) for x in src[1:]):
            return None
        moved = moved or not simp(src[0]).eq(k[0])
        move = src[0] if len(paths) == 1 else z3.If(pcx, src[0], move)
    if not moved:
        return None
    move = simp(move)
    if a.count is None or leaked(simp(z3.substitute(move, (k[0], iv(0)))), mark, c) or mentions(move, acc) or ex.loop_syms:
        return None
    nm = fresh_name('moves')
    PERMS[nm] = (c[0], k[0], move)
    f = z3.Function(nm, I, I, I)
    e0, cnt = a.v0.elem, a.count
    return VecV(a.v0.n, lambda q: e0(f(cnt, q)), a.v0.etype)

def ok_without(P, allch, cands, ex, c, k):
    """Do the plain candidates (the iteration over the key itself) account for every change?"""
    for (o, pcx, d2, l2), chg in zip(P, allch):
        if not is_f(chg) and not any(entails(o.pc + [chg], k_eq(c, cd), o.schemas, timeout=1500, keys=[k], depth=2) for cd in cands):
            return False
    return True
