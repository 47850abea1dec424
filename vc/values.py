"""Values, locations and z3 helpers of the symbolic executor."""
import z3
from fractions import Fraction

class Unsupported(Exception):
    """A construct outside the supported subset: the function cannot be brought within reach on this run."""

_n = [0]
FRESH_INDEX = {}
def fresh_name(p):
    _n[0] += 1
    return '%s!%d' % (p, _n[0])

def fresh(sort, p='v'):
    nm = fresh_name(p)
    FRESH_INDEX[nm] = _n[0]
    return z3.Const(nm, sort)

def fresh_mark():
    return _n[0]

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
ZERO = z3.RealVal(0)
MAXID = 2147483647

def iv(n):
    return z3.IntVal(n)

def rv(x):
    f = Fraction(x)
    return z3.RealVal(str(f))

def isz(v):
    return isinstance(v, z3.ExprRef)

def simp(e):
    return z3.simplify(e)

def is_t(e):
    return z3.is_true(e)

def is_f(e):
    return z3.is_false(e)

def mkand(l):
    l = [x for x in l if not is_t(x)]
    if any(is_f(x) for x in l):
        return FALSE
    return TRUE if not l else l[0] if len(l) == 1 else z3.And(*l)

def mkor(l):
    l = [x for x in l if not is_f(x)]
    if any(is_t(x) for x in l):
        return TRUE
    return FALSE if not l else l[0] if len(l) == 1 else z3.Or(*l)

def mknot(x):
    if is_t(x):
        return FALSE
    if is_f(x):
        return TRUE
    return z3.Not(x)

def ite(c, a, b):
    if is_t(c):
        return a
    if is_f(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)

# ------------------------------------------------------------------ keys (tuples of 1 or 2 Int terms)
def k_eq(a, b):
    return simp(mkand([x == y for x, y in zip(a, b)]))

LOW = z3.Int('LOW')   # below every key

def k_lt(a, b):
    if a[0].eq(LOW):
        return z3.BoolVal(not b[0].eq(LOW))
    if b[0].eq(LOW):
        return FALSE
    if len(a) == 1:
        return simp(a[0] < b[0])
    return simp(z3.Or(a[0] < b[0], z3.And(a[0] == b[0], a[1] < b[1])))

def k_le(a, b):
    if a[0].eq(LOW):
        return TRUE
    if b[0].eq(LOW):
        return FALSE
    if len(a) == 1:
        return simp(a[0] <= b[0])
    return simp(z3.Or(a[0] < b[0], z3.And(a[0] == b[0], a[1] <= b[1])))

def k_succ(a):
    return a[:-1] + (simp(a[-1] + 1),)

def k_max(a, b):
    c = k_lt(a, b)
    return tuple(simp(ite(c, y, x)) for x, y in zip(a, b))

# ------------------------------------------------------------------ values
class StructV:
    __slots__ = ('cls', 'f')
    def __init__(self, cls, f):
        self.cls, self.f = cls, f
    def set(self, name, v):
        g = dict(self.f)
        g[name] = v
        return StructV(self.cls, g)
    def __repr__(self):
        return '%s%r' % (self.cls, self.f)

class ArrV:
    __slots__ = ('items',)
    def __init__(self, items):
        self.items = list(items)
    def __repr__(self):
        return 'Arr%r' % (self.items,)

class DomV:
    """A finite set of keys given by its characteristic predicate."""
    reg = {}
    def __init__(self, arity, fn, params=(), name='d', uid=None):
        self.arity = arity
        self.params = tuple(params)
        if uid is None:
            uid = fresh_name(name)
            self._fn = fn
            DomV.reg[uid] = self
            self.formal = tuple(self.params)
        self.uid = uid
        self.fn = fn
    def has(self, key):
        return self.fn(tuple(key))
    def lowest(self):
        return tuple(LOW for _ in range(self.arity))
    def _decl(self, kind, i=0):
        dom = [p.sort() for p in self.params] + [I] * self.arity
        if kind == 'E':
            return z3.Function('lbE@' + self.uid, *(dom + [B]))
        return z3.Function('lbK%d@%s' % (i, self.uid), *(dom + [I]))
    def lb(self, bound):
        """Least member >= bound: (none?, key)."""
        args = list(self.params) + list(bound)
        return self._decl('E')(*args), tuple(self._decl('K', i)(*args) for i in range(self.arity))
    def size(self):
        dom = [p.sort() for p in self.params] + [I]
        f = z3.Function('size@' + self.uid, *dom)
        return f(*self.params) if self.params else z3.Const('size@' + self.uid, I)

class MapV:
    __slots__ = ('dom', 'elem', 'vtype', 'karity')
    def __init__(self, dom, elem, vtype):
        self.dom, self.elem, self.vtype = dom, elem, vtype
    def __repr__(self):
        return 'Map(%s)' % self.dom.uid

class IterV:
    __slots__ = ('dom', 'lv', 'end', 'key', 'bound', 'kind', 'extra')
    def __init__(self, dom, lv, end, key, bound=None, kind='map', extra=None):
        self.dom, self.lv, self.end, self.key, self.bound, self.kind, self.extra = dom, lv, end, key, bound, kind, extra
    def __repr__(self):
        return 'It(%s,%s,%s)' % (self.dom.uid, self.end, self.key)

class VecV:
    __slots__ = ('n', 'elem', 'etype')
    def __init__(self, n, elem, etype):
        self.n, self.elem, self.etype = n, elem, etype

class VecIter:
    __slots__ = ('lv', 'idx')
    def __init__(self, lv, idx):
        self.lv, self.idx = lv, idx

class LV:
    __slots__ = ('loc', 'path')
    def __init__(self, loc, path=()):
        self.loc, self.path = loc, tuple(path)
    def sub(self, *p):
        return LV(self.loc, self.path + p)
    def same(self, o):
        if self.loc != o.loc or len(self.path) != len(o.path):
            return FALSE
        cs = []
        for a, b in zip(self.path, o.path):
            if a[0] != b[0]:
                return FALSE
            if a[0] == 'f':
                if a[1] != b[1]:
                    return FALSE
            elif a[0] == 'm' or a[0] == 'kv':
                cs.append(k_eq(a[1], b[1]))
            else:
                cs.append(simp(a[1] == b[1]) if isz(a[1]) or isz(b[1]) else z3.BoolVal(a[1] == b[1]))
        return mkand(cs)
    def __repr__(self):
        return 'LV(%s,%s)' % (self.loc, self.path)

class PtrV:
    __slots__ = ('lv',)
    def __init__(self, lv):
        self.lv = lv

class FunV:
    """A callable of unknown behaviour: an uninterpreted function of its numeric arguments."""
    __slots__ = ('name',)
    def __init__(self, name):
        self.name = name

class LambdaV:
    __slots__ = ('op', 'caps', 'this')
    def __init__(self, op, caps, this):
        self.op, self.caps, self.this = op, caps, this

class Opaque:
    __slots__ = ('tag',)
    def __init__(self, tag):
        self.tag = tag

def as_key(v):
    if isz(v):
        return (v,)
    if isinstance(v, StructV) and v.cls == 'pair':
        return (v.f['first'], v.f['second'])
    raise Unsupported('map key %r' % (v,))

def key_value(key):
    if len(key) == 1:
        return key[0]
    return StructV('pair', {'first': key[0], 'second': key[1]})

def merge(c, a, b):
    """Structural if-then-else."""
    if is_t(c) or a is b:
        return a
    if is_f(c):
        return b
    if isz(a) and isz(b):
        if a.sort() != b.sort():
            if a.sort() == I and b.sort() == R:
                a = z3.ToReal(a)
            elif b.sort() == I and a.sort() == R:
                b = z3.ToReal(b)
        return ite(c, a, b)
    if isinstance(a, StructV) and isinstance(b, StructV) and a.cls == b.cls:
        return StructV(a.cls, {k: merge(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, ArrV) and isinstance(b, ArrV) and len(a.items) == len(b.items):
        return ArrV([merge(c, x, y) for x, y in zip(a.items, b.items)])
    raise Unsupported('conditional merge of %s' % type(a).__name__)

def leaves(v, p=()):
    if isz(v):
        yield p, v
    elif isinstance(v, StructV):
        for k in v.f:
            for x in leaves(v.f[k], p + (k,)):
                yield x
    elif isinstance(v, ArrV):
        for i, x in enumerate(v.items):
            for y in leaves(x, p + (i,)):
                yield y
    else:
        raise Unsupported('leaf %s' % type(v).__name__)

def rebuild(v, f, p=()):
    """Copy of v with every leaf replaced by f(path)."""
    if isz(v):
        return f(p)
    if isinstance(v, StructV):
        return StructV(v.cls, {k: rebuild(x, f, p + (k,)) for k, x in v.f.items()})
    if isinstance(v, ArrV):
        return ArrV([rebuild(x, f, p + (i,)) for i, x in enumerate(v.items)])
    raise Unsupported('leaf %s' % type(v).__name__)

def const_int(e):
    e = simp(e)
    return e.as_long() if z3.is_int_value(e) else None

# floor division of integers: blk(x, n) with n > 0 is the b with n b <= x < n b + n
BLK = z3.Function('blk', I, I, I)
