"""The linear algebra library as the executor sees it: contracts of Eigen, trusted (listed in the assumptions).

Matrix<double,r,c> with constant sizes is an array of its entries; a matrix of run-time size is a map from (i, j).
SelfAdjointEigenSolver reads the lower triangle; its eigenvalues are sorted increasingly and bracket the diagonal.
LDLT reads the lower triangle V; if it succeeds and isPositive(), then P^T L D L^T P = V with L lower triangular with unit
diagonal, D >= 0, and P the product of the transpositions (k, indices(k)), 0 <= indices(k) < n."""
import re
from values import *

def dims(t):
    m = re.match(r'(?:Eigen::)?Matrix<(\w+),(-?\w+),(-?\w+)', t.replace(' ', ''))
    return (int(m.group(2)), int(m.group(3))) if m and re.match(r'-?\d+$', m.group(2)) and re.match(r'-?\d+$', m.group(3)) else None

def is_eigen(v):
    return isinstance(v, StructV) and isinstance(v.cls, str) and v.cls.startswith('eigen')

def fixed(r, c, items):
    return StructV('eigen:%d:%d' % (r, c), {'a': ArrV(items)})

def shape(v):
    _, r, c = v.cls.split(':')
    return int(r), int(c)

def eigenvalues(lower, n):
    """The eigenvalues of the symmetric matrix with this lower triangle, increasing."""
    m = len(lower)
    return [z3.Function('eigenvalue.%d.%d' % (n, i), *([R] * (m + 1)))(*lower) for i in range(n)]

def eigen_facts(lower, n, ev):
    out = [ev[i] <= ev[i + 1] for i in range(n - 1)]
    for i in range(n):
        d = lower[i * (i + 1) // 2 + i]
        out += [ev[0] <= d, d <= ev[n - 1]]
    return out

def lower_of(items, n):
    return [items[i * n + j] for i in range(n) for j in range(i + 1)]

def default(ex, t):
    d = dims(t)
    if d and d[0] > 0 and d[1] > 0:
        return fixed(d[0], d[1], [fresh(R, 'uninit') for _ in range(d[0] * d[1])])
    return None

def construct(ex, t, args):
    """args: evaluated arguments."""
    vals = [ex.rv_(a) for a in args]
    if 'SelfAdjointEigenSolver' in t:
        v = vals[0]
        if not is_eigen(v) or len(shape(v)) != 2 or shape(v)[0] != shape(v)[1]:
            raise Unsupported('eigenvalue solver of this argument')
        n = shape(v)[0]
        low = [ex.toreal(x) for x in lower_of(v.f['a'].items, n)]
        ev = eigenvalues(low, n)
        for f in eigen_facts(low, n, ev):
            ex.assume(f)
        ok = z3.Function('diagonalized.%d' % n, *([R] * len(low) + [B]))(*low)
        return StructV('eigensolver', {'ev': fixed(n, 1, ev), 'ok': ok})
    if 'LDLT' in t:
        return ex.hooks['Eigen::LDLT'](ex, vals)
    d = dims(t)
    if len(vals) == 1 and is_eigen(vals[0]):
        return vals[0]
    if d and d == (-1, -1) and len(vals) == 2:
        old = z3.Function(fresh_name('uninitmatrix'), I, I, R)
        return StructV('eigendyn', {'m': MapV(DomV(2, lambda k: TRUE, name='all'), lambda k: old(*k), ('double', None)), 'r': vals[0], 'c': vals[1]})
    raise Unsupported('construction of %s' % t)

def index(ex, base, args):
    """operator() and operator[]"""
    v = ex.rv_(base)
    ix = [ex.rv_(a) for a in args]
    if v.cls == 'eigendyn':
        i, j = ix
        ex.oblige('matrix index in bounds', mkand([i >= 0, i < v.f['r'], j >= 0, j < v.f['c']]))
        return ex.lv_(base).sub(('f', 'm'), ('m', (i, j)))
    if v.cls.startswith('eigen:'):
        r, c = shape(v)
        k = [const_int(x) for x in ix]
        if None in k:
            raise Unsupported('symbolic index into a fixed-size matrix')
        p = k[0] * c + k[1] if len(k) == 2 else k[0]
        if len(k) == 2 and not (0 <= k[0] < r and 0 <= k[1] < c) or not 0 <= p < r * c:
            ex.obligations.append(('matrix index in bounds', 'refuted'))
            raise Unsupported('matrix index out of bounds')
        return ex.lv_(base).sub(('f', 'a'), ('i', p))
    if v.cls == 'eigenfun':
        for b, x in zip(v.f['bounds'].items, ix):
            ex.oblige('matrix index in bounds', mkand([x >= 0, x < b]))
        return z3.Function(v.f['fn'].tag, *([I] * len(ix) + [I if v.f['sort'].tag == 'int' else R]))(*ix)
    raise Unsupported('index into %s' % v.cls)

def method(ex, name, base, args):
    v = ex.rv_(base)
    if v.cls == 'eigensolver':
        if name == 'info':
            return ite(v.f['ok'], iv(0), iv(1))
        if name == 'eigenvalues':
            return v.f['ev']
    if v.cls.startswith('eigen:'):
        r, c = shape(v)
        if name in ('size', 'rows', 'cols'):
            return iv({'size': r * c, 'rows': r, 'cols': c}[name])
        if name in ('minCoeff', 'maxCoeff') and not args:
            x = v.f['a'].items[0]
            for y in v.f['a'].items[1:]:
                x = ite(simp(y < x) if name == 'minCoeff' else simp(y > x), y, x)
            return x
        if name in ('coeff', 'coeffRef'):
            return index(ex, base, args)
        if name == 'setZero':
            ex.put(ex.lv_(base), fixed(r, c, [ZERO] * (r * c)))
            return ex.lv_(base)
    if v.cls == 'eigenldlt' and name in v.f:
        return v.f[name]
    if v.cls == 'eigendyn':
        if name in ('rows', 'cols'):
            return v.f['r' if name == 'rows' else 'c']
        if name in ('coeff', 'coeffRef'):
            return index(ex, base, args)
    if v.cls == 'eigenfun':
        if name == 'indices':
            return v
        if name in ('coeff',):
            return index(ex, base, args)
        if name == 'size':
            return v.f['bounds'].items[0]
    raise Unsupported('%s of %s' % (name, v.cls))
