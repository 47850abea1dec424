"""Discharging obligations: ground instantiation of the theory of finite domains, sums and schemas, then z3."""
import time
import os
import z3
import poly
import cross
from values import *

STATS = {'queries': 0, 'time': 0.0, 'unknown': 0}
DEFAULT_TIMEOUT = 8000

# ------------------------------------------------------------------ registries of defined symbols
CONSED = {}   # identical bodies give the identical sum
SUMS = {}     # name -> (bound consts, formal params, body)
EXS = {}      # name -> (bound consts, formal params, body, formal keys)

def free_consts(e, acc=None, seen=None):
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc[x.decl().name()] = x
        st.extend(x.children())
    return acc

def mksum(bound, body, syms=()):
    """Sum over all values of the bound constants of body; syms are the symbols that later become bound."""
    body = simp(body)
    if z3.is_rational_value(body) and body.as_fraction() == 0:
        return ZERO
    parts = distribute(bound, body)
    if parts is not None:
        return simp(z3.Sum([c * mksum1(bound, b, syms) for c, b in parts]))
    return mksum1(bound, body, syms)

def distribute(bound, body):
    """The sum of c * m over k, c without k, of each monomial: linearity of finite sums."""
    cond, p, neg = None, body, False
    if z3.is_app_of(body, z3.Z3_OP_ITE):
        c, a, b = body.children()
        zb, za = (z3.is_rational_value(x) and x.as_fraction() == 0 for x in (b, a))
        if zb:
            cond, p = c, a
        elif za:
            cond, p = z3.Not(c), b
        else:
            return None
    try:
        ms = poly.poly(p)
    except poly.TooBig:
        return None
    names = {b.decl().name() for b in bound}
    dep = {}
    def depends(i):
        if i not in dep:
            dep[i] = bool(names & set(free_consts(poly.ATOMS[i])))
        return dep[i]
    parts = {}
    for m, c in ms.items():
        free = tuple(x for x in m if not depends(x[0]))
        inn = tuple(x for x in m if depends(x[0]))
        parts.setdefault(inn, {})[free] = c
    if len(parts) == 1 and list(list(parts.values())[0]) == [()] and list(list(parts.values())[0].values())[0] == 1:
        return None
    if len(parts) > 24:
        return None
    out = []
    for inn, co in parts.items():
        t = poly.term(1, inn)
        out.append((poly.unpoly(co), t if cond is None else z3.If(cond, t, ZERO)))
    return out

def mksum1(bound, body, syms=()):
    body = simp(body)
    fc = free_consts(body)
    params = [s for s in syms if s.decl().name() in fc]
    canon = [z3.Const('#%d.%d' % (len(bound), i), b.sort()) for i, b in enumerate(bound)]
    body = simp(z3.substitute(body, *list(zip(bound, canon))))
    bound = canon
    key = (body.get_id(), len(bound), tuple(p.get_id() for p in params))
    nm = CONSED.get(key)
    if nm is None:
        nm = CONSED[key] = fresh_name('Sum')
        SUMS[nm] = (tuple(bound), tuple(params), body)
    if params:
        return z3.Function(nm, *([p.sort() for p in params] + [R]))(*params)
    return z3.Const(nm, R)

def mkex(bound, body, syms=()):
    body = simp(body)
    if is_f(body):
        return FALSE
    fc = free_consts(body)
    params = [s for s in syms if s.decl().name() in fc]
    nm = fresh_name('Ex')
    EXS[nm] = (tuple(bound), tuple(params), body)
    if params:
        return z3.Function(nm, *([p.sort() for p in params] + [B]))(*params)
    return z3.Const(nm, B)

def sum_body(app, at=None):
    """(bound, body) of a sum atom with its actual parameters; bound constants fresh unless given."""
    b, ps, body = SUMS[app.decl().name()]
    args = app.children()
    nb = tuple(fresh(x.sort(), 'k') for x in b) if at is None else tuple(at)
    sub = list(zip(ps, args)) + list(zip(b, nb))
    return nb, z3.substitute(body, *sub) if sub else body

def ex_body(app, at):
    b, ps, body = EXS[app.decl().name()]
    sub = list(zip(ps, app.children())) + list(zip(b, at))
    return z3.substitute(body, *sub)

# ------------------------------------------------------------------ term collection
NODES = {}    # id -> (term, children, is application of an uninterpreted symbol, its name); keeps the terms alive

def node(x):
    i = x.get_id()
    r = NODES.get(i)
    if r is None:
        if z3.is_app(x):
            d = x.decl()
            un = d.kind() == z3.Z3_OP_UNINTERPRETED
            r = (x, x.children(), un, d.name() if un else '*int' if d.kind() == z3.Z3_OP_MUL and x.sort() == I else None)
        else:
            r = (x, x.children(), False, None)
        NODES[i] = r
    return r

def walk(es, seen=None):
    seen = set() if seen is None else seen
    st = list(es)
    out = []
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        r = NODES.get(i) or node(x)
        out.append(r[0])
        st.extend(r[1])
    return out

class Schema:
    """A universally quantified fact: for all keys of the given arity, fn(key)."""
    def __init__(self, arity, fn, name=''):
        self.arity, self.fn, self.name = arity, fn, name
        self.memo = {}
    def at(self, t):
        k = tuple(c.get_id() for c in t)
        r = self.memo.get(k)
        if r is None:
            f = self.fn(t)
            r = self.memo[k] = (t, [simp(g) for g in (f if isinstance(f, list) else [f])])
        return r[1]

SQRT = z3.Function('sqrt', R, R)
LBMEMO = {}
EXMEMO = {}

def facts(forms, schemas, extra_keys=(), rounds=3, maxkeys=40):
    """Ground instances implied by the meaning of the defined symbols occurring in forms."""
    out = []
    done = set()
    keys = {1: {}, 2: {}}
    for k in extra_keys:
        keys[len(k)].setdefault(tuple(x.get_id() for x in k), tuple(k))
    seen = set()
    allapps = []
    cur = list(forms)
    def emit(f):
        if not is_t(f):
            i = f.get_id()
            if i not in done:
                done.add(i)
                out.append(f)
                cur.append(f)
    prods = {}
    def product(a, b):
        """Lemmas for the product of two integers: its sign, and order between products with a common factor."""
        if a.get_id() > b.get_id():
            a, b = b, a
        q = (a.get_id(), b.get_id())
        if q in prods:
            return
        for (f, t) in ((a, b), (b, a)):
            emit(z3.Implies(z3.And(f >= 0, t >= 1), f * t >= f))
            emit(z3.Implies(t == 0, f * t == 0))
            for (c, d) in list(prods.values()):
                for (u, v) in ((c, d), (d, c)):
                    if u.eq(f) and not v.eq(t):
                        emit(z3.Implies(f >= 0, z3.And(z3.Implies(t < v, f * t + f <= f * v), z3.Implies(v < t, f * v + f <= f * t), z3.Implies(v == t, f * v == f * t))))
            if z3.is_add(t):
                emit(f * t == z3.Sum([f * y for y in t.children()]))
        prods[q] = (a, b)
    for rnd in range(rounds):
        new = walk(cur, seen)
        for x in new:
            _, ch, un, nm = NODES[x.get_id()]
            if nm == '*int':
                f = [y for y in ch if not z3.is_int_value(y)]
                if len(f) == 2:
                    product(f[0], f[1])
                continue
            if not un:
                continue
            if nm == 'blk':
                n, b = ch[1], x
                emit(z3.Implies(n > 0, z3.And(n * b <= ch[0], ch[0] < n * b + n)))
                product(n, b)
            if x.sort() == I and not nm.startswith('size@') and nm != 'LOW':
                keys[1].setdefault((x.get_id(),), (x,))
            if '@' in nm or nm in SUMS or nm in EXS or nm == 'sqrt':
                allapps.append((x, ch, nm))
            if nm.startswith('lbK0@'):
                D = DomV.reg.get(nm[5:])
                if D is not None and D.arity == 2:
                    np_ = len(D.params)
                    e, k = lbapp(D, ch[:np_], ch[np_:])
                    keys[2].setdefault((k[0].get_id(), k[1].get_id()), k)
            if len(ch) >= 2 and '.2:' in nm and ch[-1].sort() == I and ch[-2].sort() == I:
                k = tuple(ch[-2:])
                keys[2].setdefault((k[0].get_id(), k[1].get_id()), k)
            if len(ch) >= 1 and '.1:' in nm and ch[-1].sort() == I and not z3.is_int_value(ch[-1]):
                keys[1].setdefault((ch[-1].get_id(),), (ch[-1],))
        cur = []
        K1 = list(keys[1].items())[:maxkeys]
        K2 = list(keys[2].items())[:maxkeys]
        for x, ch, nm in list(allapps):
            if nm.startswith('lbE@') or nm.startswith('lbK'):
                uid = nm.split('@', 1)[1]
                D = DomV.reg.get(uid)
                if D is None:
                    continue
                cid = (uid,) + tuple(c.get_id() for c in ch)
                first = (cid, 'def') not in done
                done.add((cid, 'def'))
                npar = len(D.params)
                pars, bound = ch[:npar], tuple(ch[npar:])
                e = k = has = None
                if first:
                    f = LBMEMO.get((cid, ()))
                    if f is None:
                        e, k = lbapp(D, pars, bound)
                        has = dom_at(D, pars)
                        f = LBMEMO[(cid, ())] = (simp(z3.Implies(z3.Not(e), z3.And(has(k), k_le(bound, k)))), ch)
                    emit(f[0])
                for tid, t in (K1 if D.arity == 1 else K2):
                    tag = (cid, tid)
                    if tag in done:
                        continue
                    done.add(tag)
                    f = LBMEMO.get(tag)
                    if f is None:
                        if e is None:
                            e, k = lbapp(D, pars, bound)
                        if has is None:
                            has = dom_at(D, pars)
                        f = LBMEMO[tag] = (simp(z3.Implies(z3.And(has(t), k_le(bound, t)), z3.And(z3.Not(e), k_le(k, t)))), t, ch)
                    emit(f[0])
            elif nm.startswith('size@'):
                uid = nm[5:]
                D = DomV.reg.get(uid)
                if D is None or D.arity != 1 or (x.get_id(), 'size') in done:
                    continue
                done.add((x.get_id(), 'size'))
                pars = ch
                low = D.lowest()
                e, k = lbapp(D, pars, low)
                e2, k2 = lbapp(D, pars, k_succ(k))
                emit(simp(x >= 0))
                emit(simp((x == 0) == e))
                emit(simp((x == 1) == z3.And(z3.Not(e), e2)))
            elif nm == 'sqrt':
                if (x.get_id(), 'sqrt') not in done:
                    done.add((x.get_id(), 'sqrt'))
                    a = ch[0]
                    emit(simp(z3.Implies(a >= 0, z3.And(x >= 0, x * x == a))))
            elif nm in EXS:
                b = EXS[nm][0]
                for tid, t in K1:
                    tag = (x.get_id(), tid)
                    if len(b) == 1 and tag not in done:
                        done.add(tag)
                        emit(simp(z3.Implies(ex_body(x, t), x)))
                if (x.get_id(), 'wit') not in done:
                    done.add((x.get_id(), 'wit'))
                    w = tuple(z3.Function('wit@%s.%d' % (nm, i), *([c.sort() for c in ch] + [y.sort()]))(*ch)
                              if ch else z3.Const('wit@%s.%d' % (nm, i), y.sort()) for i, y in enumerate(b))
                    emit(simp(z3.Implies(x, ex_body(x, w))))
        for s in schemas:
            for tid, t in (K1 if s.arity == 1 else K2):
                tag = (id(s), tid)
                if tag in done:
                    continue
                done.add(tag)
                for g in s.at(t):
                    emit(g)
        if not cur:
            break
    return out

def lbapp(D, pars, bound):
    args = list(pars) + list(bound)
    return D._decl('E')(*args), tuple(D._decl('K', i)(*args) for i in range(D.arity))

def dom_at(D, pars):
    if not D.params:
        return D.has
    def has(k):
        return z3.substitute(D.has(k), *list(zip(D.params, pars)))
    return has

# ------------------------------------------------------------------ checking
def check(forms, timeout=None):
    STATS['queries'] += 1
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', timeout or DEFAULT_TIMEOUT)
    for f in forms:
        s.add(f)
    r = s.check()
    STATS['time'] += time.time() - t0
    if r == z3.unsat and not cross.confirm(s):
        r = z3.unknown
    if r == z3.unknown:
        STATS['unknown'] += 1
    return r, (s.model() if r == z3.sat else None)

def sum_atoms(es):
    return [x for x in walk(es) if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in SUMS]

def entails(hyps, goal, schemas=(), timeout=3000, keys=(), depth=0, rounds=3):
    goal = simp(goal)
    if is_t(goal):
        return True
    base = list(hyps) + [z3.Not(goal)]
    fs = facts(base, schemas, extra_keys=keys, rounds=rounds)
    if depth < 2:
        fs = fs + sum_facts(list(hyps) + fs, goal, schemas, depth)
    return check(base + fs, timeout)[0] == z3.unsat

def resolve(e, hyps, schemas, kb, depth, budget, cx=()):
    """e with the conditionals decided by the hypotheses removed."""
    if not z3.is_app(e) or e.num_args() == 0 or e.sort() == B:
        return e
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        c, a, b = e.children()
        if budget[0] <= 0:
            return e
        budget[0] -= 1
        h = list(hyps) + list(cx)
        if entails(h, c, schemas, keys=[kb], depth=depth + 1):
            return resolve(a, hyps, schemas, kb, depth, budget, cx)
        if entails(h, mknot(c), schemas, keys=[kb], depth=depth + 1):
            return resolve(b, hyps, schemas, kb, depth, budget, cx)
        return z3.If(c, resolve(a, hyps, schemas, kb, depth, budget, tuple(cx) + (c,)),
                     resolve(b, hyps, schemas, kb, depth, budget, tuple(cx) + (mknot(c),)))
    ch = [resolve(x, hyps, schemas, kb, depth, budget, cx) for x in e.children()]
    if all(x.eq(y) for x, y in zip(ch, e.children())):
        return e
    return e.decl()(*ch)

def nested_ite(e):
    n = [x for x in walk([e]) if z3.is_app_of(x, z3.Z3_OP_ITE)]
    return len(n) > 1

def sum_facts(hyps, goal, schemas, depth=0, extra=()):
    """Sound equalities and inequalities about the sum atoms of goal under hyps."""
    gatoms = sum_atoms([goal] + list(extra))
    if not gatoms:
        return []
    gids = {a.get_id() for a in gatoms}
    atoms = gatoms + [a for a in sum_atoms(hyps) if a.get_id() not in gids][:12]
    out = []
    for a in list(atoms):
        kb, body = sum_body(a)
        if depth == 0 and not a.children() and nested_ite(body):
            nb = simp(resolve(body, hyps, schemas, kb, depth, [10]))
            if not nb.eq(body):
                t = mksum(kb, nb)
                if not t.eq(a):
                    out.append(a == t)
                    for n in sum_atoms([t]):
                        if n.get_id() not in {x.get_id() for x in atoms}:
                            atoms.append(n)
                            if a.get_id() in gids:
                                gids.add(n.get_id())
                                gatoms.append(n)
    ints = {}
    for x in walk(list(hyps) + [goal]):
        if z3.is_app(x) and x.sort() == I and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not x.decl().name().startswith('size@') and not x.eq(LOW):
            ints[x.get_id()] = x
    cands = list(ints.values())[:12]
    zero = set()
    for a in atoms:
        kb, body = sum_body(a)
        if entails(hyps, body == 0, schemas, keys=[kb], depth=depth + 1):
            out.append(a == 0)
            zero.add(a.get_id())
            continue
        if len(kb) == 1:
            for t in cands:
                if entails(list(hyps) + [kb[0] != t], body == 0, schemas, keys=[kb], depth=depth + 1):
                    out.append(a == z3.substitute(body, (kb[0], t)))
                    zero.add(a.get_id())
                    break
        if entails(hyps, body >= 0, schemas, keys=[kb], depth=depth + 1):
            out.append(a >= 0)
    rest = [a for a in atoms if a.get_id() not in zero]
    grest = [a for a in rest if a.get_id() in gids]
    # pairwise equality
    bykey = {}
    for a in rest:
        bykey.setdefault(len(SUMS[a.decl().name()][0]), []).append(a)
    for ar, l in bykey.items():
        kb = tuple(fresh(I, 'k') for _ in range(ar))
        for i in range(len(l)):
            for j in range(i):
                if l[i].get_id() not in gids and l[j].get_id() not in gids:
                    continue
                if entails(hyps, sum_body(l[i], kb)[1] == sum_body(l[j], kb)[1], schemas, keys=[kb], depth=depth + 1):
                    out.append(l[i] == l[j])
                    break
    # one linear relation suggested by an equality goal
    g = goal
    if z3.is_eq(g) and g.arg(0).sort() == R and grest:
        diff = g.arg(0) - g.arg(1)
        z = [(a, ZERO) for a in gatoms]
        base = simp(z3.substitute(diff, *z))
        coefs = []
        for a in grest:
            one = [(b, rv(1) if b.eq(a) else ZERO) for b in gatoms]
            coefs.append(simp(z3.substitute(diff, *one) - base))
        for ar in bykey:
            l = [a for a in bykey[ar] if a.get_id() in gids]
            kb = tuple(fresh(I, 'k') for _ in range(ar))
            tot = z3.Sum([c * sum_body(a, kb)[1] for a, c in zip(grest, coefs) if a in l] or [ZERO])
            if len(l) > 0 and entails(hyps, tot == 0, schemas, keys=[kb], depth=depth + 1, timeout=6000):
                out.append(z3.Sum([c * a for a, c in zip(grest, coefs) if a in l]) == 0)
    return out

def nonlinear(f):
    for x in walk([f]):
        if z3.is_app(x) and x.sort() == R and x.decl().kind() in (z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_POWER):
            if sum(1 for c in x.children() if not z3.is_rational_value(c)) > 1 or x.decl().kind() != z3.Z3_OP_MUL:
                return True
    return False

def bool_atoms(e):
    """First atomic condition under an if-then-else of e, or None."""
    st = [e]
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.sort() == B and x.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_ITE, z3.Z3_OP_IMPLIES, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE) and not (
                x.decl().kind() in (z3.Z3_OP_EQ, z3.Z3_OP_IFF) and x.arg(0).sort() == B):
            if not any(z3.is_app_of(y, z3.Z3_OP_ITE) for y in walk(x.children())):
                return x
        st.extend(x.children())
    return None

def rewrite(e, hyps, conds):
    """e with the terms that a hypothesis defines, in the present case, replaced by their definitions; 0 if the
    case contradicts the hypotheses, None if nothing applies."""
    sub = []
    for c in list(conds) + [h for h in hyps if h.sort() == B and not nonlinear(h)]:
        v = TRUE
        c = simp(c)
        while z3.is_not(c):
            c, v = c.arg(0), (FALSE if v is TRUE else TRUE)
        if z3.is_app(c) and c.num_args() and c.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_IMPLIES, z3.Z3_OP_ITE) and not (z3.is_eq(c) and c.arg(0).sort() == R):
            sub.append((c, v))
    want = {x.get_id(): x for x in walk([e]) if z3.is_app(x) and x.sort() == R and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args()}
    for h in hyps:
        if not any(x.get_id() in want for x in walk([h])):
            continue
        st = [simp(z3.substitute(h, *sub))]
        if is_f(st[0]):
            return ZERO
        while st:
            f = st.pop()
            if z3.is_and(f):
                st.extend(f.children())
            elif z3.is_eq(f) and f.arg(0).sort() == R:
                try:
                    p, q = poly.poly(e), poly.poly(f.arg(0) - f.arg(1))
                    if p and set(p) == set(q):
                        m = next(iter(p))
                        if all(p[n] * q[m] == q[n] * p[m] for n in p):
                            return ZERO
                except poly.TooBig:
                    pass
                for x, y in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                    if x.get_id() in want and not any(x.eq(w) for w in walk([y])):
                        key = (x.get_id(), y.get_id())
                        e2 = z3.substitute(e, (x, y))
                        if not e2.eq(e):
                            return e2
    return None

def split_eq(hyps, diff, timeout=4000, maxleaf=4000):
    """Is diff zero in every combination of the conditions in it? Returns (status, model)."""
    s = z3.Solver()
    s.set('timeout', 1500)
    for h in hyps:
        if not nonlinear(h):
            s.add(h)
    sub = []
    for h in hyps:
        if z3.is_eq(h) and z3.is_const(h.arg(0)) and h.arg(0).sort() == R and z3.is_rational_value(h.arg(1)):
            sub.append((h.arg(0), h.arg(1)))
        elif z3.is_eq(h) and z3.is_const(h.arg(1)) and h.arg(0).sort() == R and z3.is_rational_value(h.arg(0)):
            sub.append((h.arg(1), h.arg(0)))
    if sub:
        diff = z3.substitute(diff, *sub)
    left = [maxleaf]
    conds = []
    worst = ['proved', None]
    def rec(e):
        e0, e = e, simp(e)
        left[0] -= 1
        if left[0] < 0:
            worst[0] = 'unknown'
            return False
        if z3.is_rational_value(e):
            z = e.as_fraction() == 0 and cross.vanishes(e0)
        else:
            z = False
            a = bool_atoms(e)
            if a is not None:
                for val in (a, z3.Not(a)):
                    s.push()
                    s.add(val)
                    STATS['queries'] += 1
                    ok = s.check()
                    if ok == z3.unsat and not cross.confirm(s):
                        ok = z3.unknown
                    r = True
                    if ok != z3.unsat:
                        conds.append(val)
                        e2 = z3.substitute(e, (a, TRUE if val is a else FALSE))
                        if val is a and z3.is_eq(a):
                            x, y = a.arg(0), a.arg(1)
                            if z3.is_const(y) and not z3.is_int_value(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                                x, y = y, x
                            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                                e2 = z3.substitute(e2, (x, y))
                        r = rec(e2)
                        conds.pop()
                    s.pop()
                    if not r:
                        return False
                return True
            try:
                z = not poly.poly(e) and cross.vanishes(e)
            except poly.TooBig:
                z = False
        if z:
            return True
        e2 = rewrite(e, hyps, conds)
        if e2 is not None:
            return rec(e2)
        r, m = check(list(hyps) + conds + [e != 0], timeout)
        if r == z3.unsat:
            return True
        if os.environ.get('VC_LEAF'):
            print('LEAF', r, conds, e, left[0])
        worst[0], worst[1] = ('refuted', m) if r == z3.sat else ('unknown', None)
        return False
    rec(diff)
    return worst[0], worst[1]

def real_eq(goal):
    """(premises, difference) for goals ending in an equality of reals."""
    pre = []
    while True:
        if z3.is_implies(goal):
            pre.append(goal.arg(0))
            goal = goal.arg(1)
        elif z3.is_or(goal):
            eqs = [x for x in goal.children() if z3.is_eq(x) and x.arg(0).sort() == R]
            if len(eqs) != 1:
                return None
            pre += [mknot(x) for x in goal.children() if not x.eq(eqs[0])]
            goal = eqs[0]
        elif z3.is_eq(goal) and goal.arg(0).sort() == R:
            return pre, goal.arg(0) - goal.arg(1)
        else:
            return None

class Result:
    def __init__(self, status, model=None, facts=None):
        self.status, self.model, self.facts = status, model, facts

def prove(hyps, goal, schemas=(), keys=(), timeout=None):
    """status: proved / refuted (z3 has a model of hyps and not goal) / unknown."""
    rq = real_eq(goal)
    goal = simp(goal)
    if is_t(goal):
        return Result('proved')
    base = list(hyps) + [z3.Not(goal)]
    fs = facts(base, schemas, extra_keys=keys)
    r = z3.unknown
    if rq is None or not nonlinear(rq[1]):
        r, m = check(base + fs, 2500)
        if r == z3.unsat:
            return Result('proved')
    sp = None
    if rq is not None and r != z3.sat:
        st, m = split_eq(list(hyps) + fs + rq[0], rq[1])
        if st == 'proved':
            return Result('proved')
        sp = Result(st, m)
    sf = sum_facts(list(hyps) + fs, goal, schemas)
    if sf:
        fs2 = facts(base + sf + fs, schemas, extra_keys=keys)
        if rq is not None:
            st, m = split_eq(list(hyps) + sf + fs2 + rq[0], rq[1])
            if st == 'proved':
                return Result('proved')
        r, m = check(base + sf + fs2, timeout)
    elif sp is not None and sp.status == 'refuted':
        return sp
    elif r == z3.unknown:
        r, m = check(base + fs, timeout)
    if r == z3.unsat:
        return Result('proved')
    return Result('refuted' if r == z3.sat else 'unknown', m)
