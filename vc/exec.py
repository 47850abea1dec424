"""Symbolic executor for clang's AST of the real code, with exact loop summaries (no unrolling bound)."""
import os
import re
import z3
from values import *
import eigen
from cast import AST, norm_type, ty, tyq, params, body, inits, ExtractError
from prove import (mksum, mkex, sum_body, ex_body, SUMS, EXS, Schema, facts, check, prove, entails, free_consts, walk, SQRT)

class Ret(Exception):
    def __init__(self, v): self.v = v
class Brk(Exception): pass
class Cnt(Exception): pass
class Thr(Exception):
    def __init__(self, t): self.t = t
class Abort(Exception):
    def __init__(self, why): self.why = why
class Infeasible(Exception): pass
class LoopExit(Exception): pass

class Poison:
    """A value the analysis does not know (reading it is unsupported)."""
    def __init__(self, why): self.why = why

class Outcome:
    def __init__(self, kind, val, store, pc, schemas, ids, npc):
        self.kind, self.val, self.store, self.pc, self.schemas, self.ids, self.npc = kind, val, store, pc, schemas, ids, npc
    def extra(self):
        return self.pc[self.npc:]

class Frame:
    def __init__(self, vars, this, fn, cls):
        self.vars, self.this, self.fn, self.cls = vars, this, fn, cls

LAST_ID = 'loc:last_id'
REALS = ('double', 'float', 'long double')
INTS = ('int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'short', 'unsigned short',
        'char', 'signed char', 'unsigned char', 'Id', 'std::size_t', 'size_t', 'Prop')

def strip_ref(t):
    t = t.strip()
    while t.endswith('&'):
        t = t[:-1].strip()
    return t

def targs(t):
    """Template arguments of a normalised type."""
    i = t.find('<')
    if i < 0:
        return []
    d, cur, out = 0, '', []
    for ch in t[i + 1:]:
        if ch == '<':
            d += 1
        if ch == '>':
            if d == 0:
                break
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    out.append(cur)
    return [x.strip() for x in out]

WIDTH = {'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False), 'short': (16, True), 'unsigned short': (16, False),
         'int': (32, True), 'unsigned int': (32, False), 'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False)}

class Exec:
    def __init__(self, ast, hooks=None):
        self.ast = ast
        self.hooks = hooks or {}
        self.nloc = 0
        self.store = {}
        self.pc = []
        self.schemas = []
        self.ids = []           # identities drawn by this path
        self.script, self.trail, self.pos = [], [], 0
        self.frames = []
        self.loop_syms = []
        self.obligations = []   # (name, status)
        self.functions = {}     # functions executed: name -> count
        self.statics = {}
        self.depth = 0
        self.globals = {}
        self.vardefs = None
        self.loops = 0
        self.trusted = set()
        self.keys = []
        self.nsteps = 0
        self.maxpaths = 400
        self.todos = []

    # -------------------------------------------------------------- paths
    def hyps(self):
        return self.pc

    def sat(self, forms):
        fs = facts(forms, self.schemas, extra_keys=self.keys, rounds=2)
        return check(forms + fs, 1500)[0] != z3.unsat

    def assume(self, c):
        c = simp(c)
        if is_f(c):
            raise Infeasible()
        if not is_t(c):
            self.pc.append(c)

    def choose(self, options):
        """options: list of conditions; forks over the feasible ones, returns the index taken."""
        if self.pos < len(self.script):
            i = self.script[self.pos]
            self.trail.append((i, []))
            self.pos += 1
        else:
            feas = []
            for i, c in enumerate(options):
                c = simp(c)
                if is_f(c):
                    continue
                if is_t(c) or self.sat(self.pc + [c]):
                    feas.append(i)
            if not feas:
                raise Infeasible()
            i = feas[0]
            self.trail.append((i, feas[1:]))
            self.pos += 1
        self.assume(options[i])
        return i

    def branch(self, c):
        c = simp(c)
        if is_t(c):
            return True
        if is_f(c):
            return False
        return self.choose([c, z3.Not(c)]) == 0

    def explore(self, thunk):
        """Every path of thunk from the current state; the state is left as it was."""
        snap = (dict(self.store), list(self.pc), list(self.schemas), list(self.ids))
        outer = (self.script, self.trail, self.pos)
        frames = [(f, dict(f.vars)) for f in self.frames]
        todo, res = [[]], []
        npaths = 0
        self.todos.append(todo)
        try:
            while todo:
                npaths += 1
                if npaths > self.maxpaths:
                    raise Unsupported('more than %d paths' % self.maxpaths)
                script = todo.pop()
                self.store, self.pc, self.schemas, self.ids = dict(snap[0]), list(snap[1]), list(snap[2]), list(snap[3])
                self.frames = [f for f, _ in frames]
                for f, v in frames:
                    f.vars = dict(v)
                self.script, self.trail, self.pos = script, [], 0
                try:
                    v = thunk()
                    kind = 'normal'
                except Ret as e:
                    v, kind = e.v, 'return'
                except Brk:
                    v, kind = None, 'break'
                except Cnt:
                    v, kind = None, 'continue'
                except LoopExit:
                    v, kind = None, 'exit'
                except Thr as e:
                    v, kind = e.t, 'throw'
                except Abort as e:
                    v, kind = e.why, 'abort'
                except Infeasible:
                    kind = None
                if kind:
                    res.append(Outcome(kind, v, self.store, self.pc, self.schemas, self.ids, len(snap[1])))
                for i in range(len(script), len(self.trail)):
                    for alt in self.trail[i][1]:
                        todo.append([t[0] for t in self.trail[:i]] + [alt])
        finally:
            self.todos.pop()
            self.store, self.pc, self.schemas, self.ids = snap
            self.script, self.trail, self.pos = outer
            self.frames = [f for f, _ in frames]
            for f, v in frames:
                f.vars = dict(v)
        return res

    def adopt(self, o):
        """Continue from the state of an outcome."""
        self.store, self.schemas, self.ids = dict(o.store), list(o.schemas), list(o.ids)
        self.pc = list(o.pc)

    def oblige(self, name, goal):
        goal = simp(goal)
        if is_t(goal):
            return
        r = prove(self.pc, goal, self.schemas, keys=self.keys)
        self.obligations.append((name, r.status))
        self.assume(goal)

    # -------------------------------------------------------------- memory
    def alloc(self, v, tag='t'):
        self.nloc += 1
        loc = '%s#%d' % (tag, self.nloc)
        self.store[loc] = v
        return LV(loc)

    def load(self, lv):
        if lv.loc not in self.store:
            raise Unsupported('dangling location %s' % lv.loc)
        v = self.store[lv.loc]
        i = 0
        path = lv.path
        while i < len(path):
            p = path[i]
            if isinstance(v, Poison):
                raise Unsupported('read of %s' % v.why)
            if p[0] == 'f':
                if not isinstance(v, StructV) or p[1] not in v.f:
                    raise Unsupported('field %s of %s' % (p[1], type(v).__name__))
                v = v.f[p[1]]
            elif p[0] == 'i':
                if isinstance(v, VecV):
                    v = v.elem(p[1] if isz(p[1]) else iv(p[1]))
                elif isinstance(v, ArrV):
                    n = p[1] if isinstance(p[1], int) else const_int(p[1])
                    if n is None:
                        raise Unsupported('symbolic array index')
                    if not 0 <= n < len(v.items):
                        self.obligations.append(('array index in bounds', 'refuted'))
                        raise Unsupported('array index out of bounds')
                    v = v.items[n]
                else:
                    raise Unsupported('index into %s' % type(v).__name__)
            elif p[0] == 'm':
                v = v.elem(p[1])
            elif p[0] == 'kv':
                if i + 1 < len(path):
                    q = path[i + 1]
                    v = key_value(p[1]) if q[1] == 'first' else v.elem(p[1])
                    i += 1
                else:
                    v = StructV('pair', {'first': key_value(p[1]), 'second': v.elem(p[1])})
            i += 1
        if isinstance(v, Poison):
            raise Unsupported('read of %s' % v.why)
        return v

    def put(self, lv, val):
        path = []
        i = 0
        while i < len(lv.path):
            p = lv.path[i]
            if p[0] == 'kv' and i + 1 < len(lv.path):
                if lv.path[i + 1][1] == 'first':
                    raise Unsupported('write to a map key')
                path.append(('m', p[1]))
                i += 2
                continue
            path.append(p)
            i += 1
        if lv.loc not in self.store:
            raise Unsupported('dangling location')
        self.store[lv.loc] = self._upd(self.store[lv.loc], path, 0, val)

    def _upd(self, v, path, i, val):
        if i == len(path):
            return val
        p = path[i]
        if isinstance(v, Poison):
            raise Unsupported('write into %s' % v.why)
        if p[0] == 'f':
            return v.set(p[1], self._upd(v.f[p[1]], path, i + 1, val))
        if p[0] == 'i':
            if isinstance(v, ArrV):
                n = p[1] if isinstance(p[1], int) else const_int(p[1])
                if n is None:
                    raise Unsupported('symbolic array index')
                if not 0 <= n < len(v.items):
                    self.obligations.append(('array index in bounds', 'refuted'))
                    raise Unsupported('array index out of bounds')
                it = list(v.items)
                it[n] = self._upd(it[n], path, i + 1, val)
                return ArrV(it)
            if isinstance(v, VecV):
                idx = p[1] if isz(p[1]) else iv(p[1])
                old = v.elem
                new = self._upd(old(idx), path, i + 1, val)
                return VecV(v.n, lambda k, old=old, idx=idx, new=new: self.vmerge(simp(k == idx), new, lambda: old(k)), v.etype)
        if p[0] == 'm':
            key = p[1]
            old = v.elem
            new = self._upd(old(key), path, i + 1, val)
            def elem(k, old=old, key=key, new=new):
                c = k_eq(k, key)
                if is_t(c):
                    return new
                if is_f(c):
                    return old(k)
                return merge(c, new, old(k))
            return MapV(v.dom, elem, v.vtype)
        raise Unsupported('update path')

    def vmerge(self, c, a, bf):
        if is_t(c):
            return a
        if is_f(c):
            return bf()
        return merge(c, a, bf())

    def rv_(self, x):
        return self.load(x) if isinstance(x, LV) else x

    def lv_(self, x, tag='tmp'):
        return x if isinstance(x, LV) else self.alloc(x, tag)

    # -------------------------------------------------------------- default values
    def resolve_cls(self, t, cls=None):
        t = strip_ref(norm_type(t))
        if t in self.ast.cls:
            return t
        scopes = [cls] if cls else []
        scopes += [f.cls for f in reversed(self.frames) if f.cls]
        for s in scopes:
            while s:
                k = s + '::' + t
                if k in self.ast.cls:
                    return k
                base = s.split('<')[0].split('::')[-1]
                if t == base:
                    return s
                s = s.rsplit('::', 1)[0] if '::' in s else ''
        m = re.match(r'(.*<.*>)::(\w+)$', t)
        return None

    def default(self, t, zero=False, cls=None, val_init=False):
        t = strip_ref(norm_type(t))
        t = {'Id': 'int', 'IdPair': 'std::pair<int,int>', 'Real': 'double'}.get(t, t)
        if t in REALS:
            return ZERO if zero else fresh(R, 'uninit')
        if t in INTS:
            return iv(0) if zero else fresh(I, 'uninit')
        if t == 'bool':
            return FALSE if zero else fresh(B, 'uninit')
        if 'Eigen::' in t:
            e = eigen.default(self, t)
            if e is not None:
                return e
        if t.endswith('*'):
            return PtrV(None) if zero else Poison('uninitialised pointer')
        if t.startswith('std::map<') or t.startswith('map<'):
            a = targs(t)
            return self.empty_map(2 if 'air' in a[0] else 1, a[1], cls)
        if t.startswith('std::array<') or t.startswith('array<'):
            a = targs(t)
            n = int(re.match(r'\d+', a[1]).group())
            return ArrV([self.default(a[0], zero, cls) for _ in range(n)])
        if t.startswith('std::pair<') or t.startswith('pair<'):
            a = targs(t)
            return StructV('pair', {'first': self.default(a[0], True, cls), 'second': self.default(a[1], True, cls)})
        if 'ostringstream' in t or 'string' in t:
            return Opaque('string')
        if t.startswith('std::vector<'):
            memo = []
            def unspecified(k):
                if not memo:
                    memo.append(self.default(targs(t)[0], False, cls))
                return memo[0]
            return VecV(iv(0), unspecified, targs(t)[0])
        if '_Rb_tree' in t or 'iterator' in t:
            return Poison('singular iterator')
        k = self.resolve_cls(t, cls)
        if k:
            h = self.hooks.get('default:' + k.split('<')[0])
            if h is not None:
                return h(self, k)
            f = {}
            for name, ft, init, fid in self.ast.fields(k):
                if init is not None:
                    f[name] = self.coerce(self.rv_(self.ev(init)), ft)
                else:
                    f[name] = self.default(ft, zero, k)
            return StructV(k, f)
        raise Unsupported('default value of %s' % t)

    def empty_map(self, arity, vt, cls):
        d = self.default(vt, True, cls)
        dom = DomV(arity, lambda k: FALSE, name='empty')
        return MapV(dom, lambda k: d, (vt, cls))

    def coerce(self, v, t):
        """Value conversion implied by initialising a field or parameter of type t."""
        t = strip_ref(norm_type(t))
        if isz(v):
            if t in REALS and v.sort() == I:
                return simp(z3.ToReal(v))
            if t in REALS and v.sort() == B:
                return ite(v, rv(1), ZERO)
            if t in INTS and v.sort() == B:
                return ite(v, iv(1), iv(0))
            if t == 'bool' and v.sort() != B:
                return simp(v != 0)
        if isinstance(v, list):
            if t.startswith('std::array') or t.startswith('array'):
                a = targs(t)
                n = int(re.match(r'\d+', a[1]).group())
                items = [self.coerce(x, a[0]) for x in v]
                while len(items) < n:
                    items.append(self.default(a[0], True))
                return ArrV(items)
            if 'pair' in t:
                a = targs(t) or ['int', 'int']
                return StructV('pair', {'first': v[0], 'second': v[1]})
            if len(v) == 1:
                return self.coerce(v[0], t)
            if len(v) == 0:
                return self.default(t, True)
        return v

    # -------------------------------------------------------------- functions
    def fname(self, fn):
        c = fn.get('_cls') or fn.get('_scope') or ''
        return (c + '::' if c else '') + (fn.get('name') or '?')

    def call(self, fn, this, args, name=None):
        """args: LVs or values, in parameter order; returns LV or value."""
        self.depth += 1
        if self.depth > 60:
            self.depth = 0
            raise Unsupported('recursion')
        try:
            h = self.hooks.get(fn.get('name'))
            if h is not None:
                r = h(self, fn, this, args)
                if r is not NotImplemented:
                    return r
            return self.call_body(fn, this, args)
        finally:
            self.depth -= 1

    def bind(self, p, a):
        t = tyq(p)
        raw = (p.get('type') or {}).get('qualType', '').strip()
        if raw.endswith('&'):
            if isinstance(a, LV):
                return a
            if not isinstance(a, (Opaque,)):
                a = self.coerce(a, t)
            return self.alloc(a, p.get('name') or 'arg')
        return self.alloc(self.coerce(self.rv_(a), ty(p) or t), p.get('name') or 'arg')

    def call_body(self, fn, this, args):
        b = body(fn)
        if b is None:
            raise Unsupported('no body for %s' % self.fname(fn))
        nm = self.fname(fn)
        self.functions[nm] = self.functions.get(nm, 0) + 1
        ps = params(fn)
        vs = {}
        fr = Frame(vs, this, fn, fn.get('_cls') or (self.load(this).cls if this is not None and isinstance(self.store.get(this.loc), StructV) and not this.path else None))
        for i, p in enumerate(ps):
            if i < len(args):
                vs[p['id']] = self.bind(p, args[i])
            else:
                init = [c for c in p.get('inner', []) if 'Expr' in c.get('kind', '') or 'Literal' in c.get('kind', '') or 'Operator' in c.get('kind', '')]
                if not init:
                    raise Unsupported('default argument of %s' % nm)
                self.frames.append(fr)
                try:
                    a = self.ev(init[0])
                finally:
                    self.frames.pop()
                vs[p['id']] = self.bind(p, a)
        self.frames.append(fr)
        try:
            try:
                self.st(b)
            except Ret as r:
                v = r.v
                rt = (fn.get('type') or {}).get('qualType', '')
                rt = rt[:rt.find('(')].strip()
                if rt.endswith('&'):
                    if isinstance(v, LV):
                        return v
                    return self.lv_(v)
                v = self.rv_(v)
                if isz(v) or isinstance(v, list):
                    v = self.coerce(v, rt) if norm_type(rt) not in ('auto', '') else v
                return v
            return None
        finally:
            self.frames.pop()

    def construct(self, key, ctor, args):
        """Runs a user constructor of class key; returns the object value."""
        fn = self.ast.function(ctor['id']) or ctor
        h = self.hooks.get('ctor:' + key.split('<')[0])
        if h is not None:
            r = h(self, fn, None, args)
            if r is not NotImplemented:
                return r
        obj = self.alloc(StructV(key, {}), 'this')
        nm = self.fname(fn)
        self.functions[nm] = self.functions.get(nm, 0) + 1
        fr = Frame({}, obj, fn, key)
        for i, p in enumerate(params(fn)):
            if i < len(args):
                fr.vars[p['id']] = self.bind(p, args[i])
            else:
                init = [c for c in p.get('inner', []) if 'Comment' not in c.get('kind', '')]
                if not init:
                    raise Unsupported('default argument of %s' % nm)
                fr.vars[p['id']] = self.bind(p, self.ev(init[0]))
        ini = {}
        for c in inits(fn):
            if c.get('anyInit'):
                ini[c['anyInit']['name']] = c
            else:
                raise Unsupported('base or delegating initialiser')
        self.frames.append(fr)
        try:
            for name, ft, dinit, fid in self.ast.fields(key):
                c = ini.get(name)
                sub = [x for x in (c.get('inner', []) if c else []) if x.get('kind')]
                if c is not None and sub and sub[0]['kind'] != 'CXXDefaultInitExpr':
                    v = self.init_value(sub[0], ft, key)
                elif dinit is not None:
                    v = self.coerce(self.rv_(self.ev(dinit)), ft)
                else:
                    v = self.default(ft, False, key)
                o = self.load(obj)
                self.store[obj.loc] = StructV(key, dict(o.f, **{name: v}))
            if body(fn) is not None:
                try:
                    self.st(body(fn))
                except Ret:
                    pass
        finally:
            self.frames.pop()
        return self.load(obj)

    def init_value(self, node, t, cls=None):
        v = self.rv_(self.ev(node))
        if isinstance(v, PtrV):
            return v
        return self.coerce(v, t)

    # -------------------------------------------------------------- statements
    def st(self, n):
        k = n.get('kind')
        m = getattr(self, 's_' + k, None)
        if m is None:
            if k and (k.endswith('Expr') or k.endswith('Operator') or k.endswith('Cleanups') or k.endswith('Literal')):
                self.ev(n)
                return
            raise Unsupported('statement %s' % k)
        m(n)

    def s_CompoundStmt(self, n):
        for c in n.get('inner', []):
            self.st(c)

    def s_NullStmt(self, n):
        pass

    def s_DeclStmt(self, n):
        for c in n.get('inner', []):
            self.decl(c)

    def decl(self, c):
        k = c.get('kind')
        if k in ('UsingDecl', 'TypeAliasDecl', 'UsingShadowDecl', 'StaticAssertDecl', 'TypedefDecl', 'CXXRecordDecl'):
            return
        if k != 'VarDecl':
            raise Unsupported('local %s' % k)
        vid = c['id']
        raw = c['type']['qualType'].strip()
        fr = self.frames[-1]
        init = [x for x in c.get('inner', []) if x.get('kind') and 'Comment' not in x['kind'] and 'Attr' not in x['kind']]
        if c.get('storageClass') == 'static':
            if vid in self.statics:
                fr.vars[vid] = self.statics[vid]
                if self.statics[vid].loc not in self.store:
                    self.store[self.statics[vid].loc] = self.static_vals[self.statics[vid].loc]
                return
            v = self.static_value(c, init)
            lv = self.alloc(v, 'static:' + c['name'])
            self.statics[vid] = lv
            if not hasattr(self, 'static_vals'):
                self.static_vals = {}
            self.static_vals[lv.loc] = v
            fr.vars[vid] = lv
            return
        if raw.endswith('&'):
            v = self.ev(init[0])
            if isinstance(v, LV):
                fr.vars[vid] = v
            else:
                if isinstance(v, list):
                    v = self.coerce(v, ty(c))
                fr.vars[vid] = self.alloc(v, c['name'])
            return
        if not init:
            fr.vars[vid] = self.alloc(self.default(ty(c)), c['name'])
            return
        v = self.rv_(self.ev(init[0]))
        if isinstance(v, (list,)) or isz(v):
            v = self.coerce(v, ty(c))
        fr.vars[vid] = self.alloc(v, c['name'])

    def static_value(self, c, init):
        """A function-local static is initialised by whichever call comes first: if its initialiser depends on
        the arguments of this call its value is unknown, otherwise it is that value."""
        def local(n):
            r = n.get('referencedDecl')
            if n.get('kind') == 'CXXThisExpr':
                return True
            if r and r.get('kind') in ('ParmVarDecl', 'VarDecl'):
                for f in self.frames:
                    if r['id'] in f.vars and r['id'] not in self.statics:
                        d = self.ast.decl.get(r['id'], {})
                        if not d.get('constexpr'):
                            return True
            return any(local(x) for x in n.get('inner', []))
        if not init:
            return self.default(ty(c), True)
        if any(local(x) for x in init):
            t = strip_ref(norm_type(ty(c)))
            d = self.default(t, False)
            def unk(v):
                if isz(v):
                    return fresh(v.sort(), 'static')
                if isinstance(v, ArrV):
                    return ArrV([unk(x) for x in v.items])
                if isinstance(v, StructV):
                    return StructV(v.cls, {a: unk(b) for a, b in v.f.items()})
                raise Unsupported('static of type %s' % t)
            return unk(d)
        v = self.rv_(self.ev(init[0]))
        return self.coerce(v, ty(c))

    def cond(self, n):
        """Truth value of a condition on this path (forks)."""
        k = n.get('kind')
        if k in ('ParenExpr', 'ExprWithCleanups'):
            return self.cond(n['inner'][0])
        if k == 'BinaryOperator' and n['opcode'] == '&&':
            return self.cond(n['inner'][0]) and self.cond(n['inner'][1])
        if k == 'BinaryOperator' and n['opcode'] == '||':
            return self.cond(n['inner'][0]) or self.cond(n['inner'][1])
        if k == 'UnaryOperator' and n['opcode'] == '!':
            return not self.cond(n['inner'][0])
        v = self.rv_(self.ev(n))
        return self.branch(self.truth(v))

    def truth(self, v):
        if isinstance(v, PtrV):
            return z3.BoolVal(v.lv is not None)
        if isz(v):
            return v if v.sort() == B else simp(v != 0)
        raise Unsupported('condition on %s' % type(v).__name__)

    def s_IfStmt(self, n):
        inner = [c for c in n.get('inner', []) if c.get('kind')]
        if n.get('hasInit'):
            self.st(inner[0])
            inner = inner[1:]
        if n.get('hasVar'):
            self.st(inner[0])
            inner = inner[1:]
        if self.cond(inner[0]):
            self.st(inner[1])
        elif len(inner) > 2:
            self.st(inner[2])

    def s_ReturnStmt(self, n):
        inner = [c for c in n.get('inner', []) if c.get('kind')]
        raise Ret(self.ev(inner[0]) if inner else None)

    def s_BreakStmt(self, n):
        raise Brk()

    def s_ContinueStmt(self, n):
        raise Cnt()

    def s_SwitchStmt(self, n):
        inner = [c for c in n['inner'] if c.get('kind')]
        v = self.rv_(self.ev(inner[0]))
        body_ = inner[-1]
        flat = []
        def add(s):
            if s['kind'] == 'CaseStmt':
                sub = [c for c in s['inner'] if c.get('kind')]
                flat.append(('case', sub[0]))
                add(sub[-1])
            elif s['kind'] == 'DefaultStmt':
                flat.append(('default', None))
                add(s['inner'][0])
            else:
                flat.append(('st', s))
        for s in body_.get('inner', []):
            add(s)
        start = None
        for i, (k, x) in enumerate(flat):
            if k == 'case' and self.branch(v == self.rv_(self.ev(x))):
                start = i
                break
        if start is None:
            for i, (k, x) in enumerate(flat):
                if k == 'default':
                    start = i
        if start is None:
            return
        try:
            for k, x in flat[start:]:
                if k == 'st':
                    self.st(x)
        except Brk:
            pass

    def s_ForStmt(self, n):
        inner = n['inner']
        init, condv, cnd, inc, bod = inner[0], inner[1], inner[2], inner[3], inner[4]
        if init.get('kind'):
            self.st(init)
        if condv.get('kind'):
            raise Unsupported('condition variable')
        self.loop((lambda: self.cond(cnd)) if cnd.get('kind') else (lambda: True),
                  lambda: self.st(bod),
                  (lambda: self.ev(inc)) if inc.get('kind') else (lambda: None), n)

    def s_WhileStmt(self, n):
        inner = [c for c in n['inner'] if c.get('kind')]
        self.loop(lambda: self.cond(inner[0]), lambda: self.st(inner[1]), lambda: None, n)

    def s_DoStmt(self, n):
        inner = [c for c in n['inner'] if c.get('kind')]
        raise Unsupported('do loop')

    def s_CXXForRangeStmt(self, n):
        inner = [c for c in n['inner'] if c.get('kind')]
        rng, beg, end, cnd, inc, var, bod = inner[-7:]
        self.st(rng)
        self.st(beg)
        self.st(end)
        def b():
            self.st(var)
            self.st(bod)
        self.loop(lambda: self.cond(cnd), b, lambda: self.ev(inc), n)

    def s_CXXTryStmt(self, n):
        raise Unsupported('try block')

    # -------------------------------------------------------------- expressions
    def ev(self, n):
        self.nsteps += 1
        k = n.get('kind')
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression %s' % k)
        return m(n)

    def first(self, n):
        for c in n.get('inner', []):
            if c.get('kind'):
                return c

    def e_pass(self, n):
        return self.ev(self.first(n))
    e_ParenExpr = e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_ConstantExpr = e_pass

    def e_SubstNonTypeTemplateParmExpr(self, n):
        return self.ev([c for c in n.get('inner', []) if c.get('kind')][-1])

    def e_MaterializeTemporaryExpr(self, n):
        v = self.ev(self.first(n))
        if isinstance(v, (LV, LambdaV, FunV)):
            return v
        if isinstance(v, list):
            v = self.coerce(v, ty(n))
        return self.alloc(v, 'tmp')

    def e_IntegerLiteral(self, n):
        return iv(int(n['value']))

    def e_CharacterLiteral(self, n):
        return iv(int(n['value']))

    def e_FloatingLiteral(self, n):
        return rv(float(n['value']))

    def e_CXXBoolLiteralExpr(self, n):
        return z3.BoolVal(bool(n['value']))

    def e_StringLiteral(self, n):
        return Opaque('string')

    def e_CXXNullPtrLiteralExpr(self, n):
        return PtrV(None)

    def e_ImplicitValueInitExpr(self, n):
        return self.default(ty(n), True)
    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_CXXThisExpr(self, n):
        for f in reversed(self.frames):
            if f.this is not None:
                return PtrV(f.this)
            break
        raise Unsupported('this')

    def e_CXXDefaultArgExpr(self, n):
        inner = [c for c in n.get('inner', []) if c.get('kind')]
        if inner:
            return self.ev(inner[0])
        return None            # resolved by the callee from its parameter declaration

    def e_CXXDefaultInitExpr(self, n):
        raise Unsupported('default init expression')

    def e_DeclRefExpr(self, n):
        r = n['referencedDecl']
        rid = r['id']
        for f in reversed(self.frames):
            if rid in f.vars:
                return f.vars[rid]
        if r['kind'] in ('VarDecl',):
            return self.glob(r)
        if r['kind'] == 'EnumConstantDecl':
            return self.enum(r)
        if r['kind'] == 'NonTypeTemplateParmDecl':
            raise Unsupported('template parameter')
        if r['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return ('fn', r)
        raise Unsupported('reference to %s %s' % (r['kind'], r.get('name')))

    def enum(self, r):
        lib = {'Success': 0, 'NumericalIssue': 1, 'NoConvergence': 2, 'InvalidInput': 3, 'EigenvaluesOnly': 0x40, 'ComputeEigenvectors': 0x80}
        val = {'est': 0, 'mean': 1, **lib}.get(r['name'])
        if val is None:
            raise Unsupported('enumerator %s' % r['name'])
        return iv(val)

    def glob(self, r):
        rid = r['id']
        if r.get('name') == 'last_id':
            if LAST_ID not in self.store:
                self.store[LAST_ID] = StructV('atomic', {})
            return LV(LAST_ID)
        key = 'global:%s' % rid
        if key in self.store:
            return LV(key)
        if key in self.globals:
            self.store[key] = self.globals[key]
            return LV(key)
        d = self.ast.decl.get(rid, r)
        cand = [d]
        if self.vardefs is None:
            self.vardefs = {}
            for x in self.ast.decl.values():
                if x.get('kind') == 'VarDecl':
                    self.vardefs.setdefault(x.get('name'), []).append(x)
        t = norm_type((r.get('type') or {}).get('qualType', ''))
        others = [x for x in self.vardefs.get(r.get('name'), []) if x.get('previousDecl') == rid or x.get('previousDecl') == d.get('previousDecl') or
                  (norm_type(x['type']['qualType']) == t and x.get('storageClass') != 'static' and x.get('previousDecl'))]
        v = None
        for x in cand + others:
            init = [c for c in x.get('inner', []) if c.get('kind') and 'Comment' not in c['kind'] and 'Attr' not in c['kind']]
            if init and init[0]['kind'] not in ('CXXConstructExpr',):
                v = self.coerce(self.rv_(self.ev(init[0])), t)
                break
        if v is None:
            if not ('const' in (r.get('type') or {}).get('qualType', '')):
                raise Unsupported('global %s' % r.get('name'))
            v = self.default(strip_ref(t), True)
            v = self.zeroed(v)
        self.globals[key] = v
        self.store[key] = v
        return LV(key)

    def zeroed(self, v):
        return v

    def e_MemberExpr(self, n):
        b = self.first(n)
        base = self.ev(b)
        name = n['name']
        if 'bound member' in (n.get('type') or {}).get('qualType', ''):
            return ('method', n, base)
        if n.get('isArrow'):
            p = self.rv_(base)
            if not isinstance(p, PtrV):
                raise Unsupported('arrow on %s' % type(p).__name__)
            if p.lv is None:
                raise Unsupported('null dereference')
            base = p.lv
        if isinstance(base, LV):
            return base.sub(('f', name))
        if isinstance(base, StructV):
            return base.f[name]
        raise Unsupported('member %s' % name)

    def e_ArraySubscriptExpr(self, n):
        a, i = [c for c in n['inner'] if c.get('kind')]
        p = self.rv_(self.ev(a))
        return self.padd(p, self.rv_(self.ev(i))).lv

    def padd(self, p, k):
        if not isinstance(p, PtrV) or p.lv is None or not p.lv.path or p.lv.path[-1][0] != 'i':
            raise Unsupported('pointer arithmetic')
        idx = p.lv.path[-1][1]
        s = simp((iv(idx) if isinstance(idx, int) else idx) + k)
        c = const_int(s)
        return PtrV(LV(p.lv.loc, p.lv.path[:-1] + (('i', c if c is not None else s),)))

    # casts
    def cast(self, n):
        ck = n.get('castKind')
        sub = self.first(n)
        if ck == 'LValueToRValue':
            return self.rv_(self.ev(sub))
        if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'FunctionToPointerDecay', 'ConstructorConversion',
                  'UserDefinedConversion', 'BitCast', 'BuiltinFnToFnPtr'):
            return self.ev(sub)
        if ck == 'ToVoid':
            self.ev(sub)
            return None
        if ck == 'ArrayToPointerDecay':
            v = self.ev(sub)
            if isinstance(v, LV):
                return PtrV(v.sub(('i', 0)))
            return v
        if ck == 'NullToPointer':
            return PtrV(None)
        v = self.rv_(self.ev(sub))
        t = norm_type(ty(n))
        if ck == 'IntegralToFloating':
            v = ite(v, rv(1), ZERO) if v.sort() == B else z3.ToReal(v)
            return simp(v)
        if ck == 'IntegralCast':
            if v.sort() == B:
                return ite(v, iv(1), iv(0))
            return self.wrap(v, norm_type(ty(sub)), t)
        if ck == 'FloatingCast':
            return self.narrow(v) if t == 'float' and norm_type(ty(sub)) != 'float' else v
        if ck == 'FloatingToIntegral':
            tr = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            return simp(tr)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
            return simp(v != 0) if v.sort() != B else v
        if ck == 'PointerToBoolean':
            return self.truth(v)
        raise Unsupported('cast %s' % ck)
    e_ImplicitCastExpr = e_CXXStaticCastExpr = e_CStyleCastExpr = cast

    def wrap(self, v, src, dst):
        """Conversion between integer types: exact for literals, types narrower than int and negative numbers made unsigned.
        (Assumed: sizes and identities fit an int.)"""
        if src not in WIDTH or dst not in WIDTH:
            return v
        (ws, ss), (wd, sd) = WIDTH[src], WIDTH[dst]
        if wd > ws and (sd or not ss) or (ws, ss) == (wd, sd):
            return v
        lo, hi = (-2**(wd - 1), 2**(wd - 1) - 1) if sd else (0, 2**wd - 1)
        v = simp(v)
        if z3.is_int_value(v):
            return iv((v.as_long() - lo) % 2**wd + lo)
        if os.environ.get('VC_WRAP'): print('WRAP', src, dst, v)
        if wd < 32 and ws > wd:
            return simp((v - lo) % 2**wd + lo)
        if ss and not sd:
            return simp(z3.If(v >= 0, v, v + 2**wd))
        if sd and not ss:
            return simp(self.congruent(v, 2**ws))
        return v

    def congruent(self, v, m):
        """v modulo m, without the multiples of m that the conversion of negative numbers to an unsigned type adds."""
        k = v.decl().kind()
        if k == z3.Z3_OP_ITE:
            d = simp(v.arg(2) - v.arg(1))
            if z3.is_int_value(d) and abs(d.as_long()) == m:
                return v.arg(1) if d.as_long() > 0 else v.arg(2)
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
            c = [self.congruent(x, m) for x in v.children()]
            return z3.Sum(c) if k == z3.Z3_OP_ADD else c[0] - z3.Sum(c[1:]) if k == z3.Z3_OP_SUB else -c[0] if k == z3.Z3_OP_UMINUS else z3.Product(c)
        return v

    def narrow(self, v):
        if getattr(self, 'exact_casts', False):
            return v
        if z3.is_rational_value(v):
            import struct
            f = float(v.as_fraction())
            return rv(struct.unpack('f', struct.pack('f', f))[0])
        return z3.Function('fl32', R, R)(v)

    def e_CXXFunctionalCastExpr(self, n):
        return self.cast(n)

    def e_InitListExpr(self, n):
        # an aggregate with fewer initialisers than elements: clang lists [filler, item, item, ...]
        vs = [self.ev(c) for c in (n['array_filler'][1:] if 'array_filler' in n else n.get('inner', [])) if c.get('kind')]
        t = strip_ref(norm_type(ty(n)))
        if 'array_filler' in n and t.endswith(']'):
            return [self.rv_(v) for v in vs]
        if len(vs) == 1 and not t.startswith('std::array') and not t.startswith('array'):
            x = self.rv_(vs[0])
            if isz(x) and (t in REALS or t in INTS or t == 'bool'):
                return self.coerce(x, t)
            if self.resolve_cls(t) is None:
                return x
        vals = [self.rv_(v) for v in vs]
        if t.startswith('std::array') or t.startswith('array'):
            if len(vals) == 1 and isinstance(vals[0], list):
                vals = vals[0]
            if len(vals) == 1 and isinstance(vals[0], ArrV):
                return vals[0]
            a = targs(t)
            nn = int(re.match(r'\d+', a[1]).group())
            items = [self.coerce(x, a[0]) for x in vals]
            while len(items) < nn:
                items.append(self.default(a[0], True))
            return ArrV(items)
        if not vals and (t in REALS or t in INTS or t == 'bool'):
            return self.default(t, True)
        k = self.resolve_cls(t)
        if k and vals is not None and not t.endswith(']'):
            f = {}
            for i, (name, ft, init, fid) in enumerate(self.ast.fields(k)):
                if i < len(vals):
                    f[name] = self.coerce(vals[i], ft)
                else:
                    f[name] = self.default(ft, True, k)
            return StructV(k, f)
        return vals

    def e_UnaryOperator(self, n):
        op = n['opcode']
        sub = self.first(n)
        if op == '&':
            v = self.ev(sub)
            return PtrV(self.lv_(v))
        if op == '*':
            p = self.rv_(self.ev(sub))
            if not isinstance(p, PtrV):
                raise Unsupported('dereference of %s' % type(p).__name__)
            if p.lv is None:
                raise Unsupported('null dereference')
            return p.lv
        if op in ('++', '--'):
            lv = self.ev(sub)
            old = self.load(lv)
            d = 1 if op == '++' else -1
            if isinstance(old, PtrV):
                new = self.padd(old, iv(d))
            else:
                new = simp(old + d)
            self.put(lv, new)
            return old if n.get('isPostfix') else lv
        v = self.rv_(self.ev(sub))
        if op == '-':
            return simp(-v)
        if op == '+':
            return v
        if op == '!':
            return mknot(self.truth(v))
        raise Unsupported('unary %s' % op)

    def num2(self, a, b):
        if isz(a) and isz(b) and a.sort() != b.sort():
            if a.sort() == B:
                a = ite(a, iv(1), iv(0))
            if b.sort() == B:
                b = ite(b, iv(1), iv(0))
            if a.sort() == I and b.sort() == R:
                a = z3.ToReal(a)
            if b.sort() == I and a.sort() == R:
                b = z3.ToReal(b)
        return a, b

    def arith(self, op, a, b):
        if isinstance(a, PtrV) or isinstance(b, PtrV):
            return self.ptrop(op, a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque('string')
        a, b = self.num2(a, b)
        if not (isz(a) and isz(b)):
            raise Unsupported('arithmetic on %s' % type(a).__name__)
        if a.sort() == B:
            if op == '==':
                return simp(a == b)
            if op == '!=':
                return simp(a != b)
            if op == '&':
                return mkand([a, b])
            if op == '|':
                return mkor([a, b])
            a, b = ite(a, iv(1), iv(0)), ite(b, iv(1), iv(0))
        if op == '+': return simp(a + b)
        if op == '-': return simp(a - b)
        if op == '*': return simp(a * b)
        if op == '/':
            if a.sort() == R:
                return simp(a / b)
            return simp(self.cdiv(a, b))
        if op == '%':
            return simp(a - b * self.cdiv(a, b))
        if op == '<': return simp(a < b)
        if op == '<=': return simp(a <= b)
        if op == '>': return simp(a > b)
        if op == '>=': return simp(a >= b)
        if op == '==': return simp(a == b)
        if op == '!=': return simp(a != b)
        raise Unsupported('operator %s' % op)

    def cdiv(self, a, b):
        ca, cb = const_int(a), const_int(b)
        if ca is not None and cb is not None and cb != 0:
            q = abs(ca) // abs(cb)
            return iv(q if (ca >= 0) == (cb > 0) else -q)
        if self.entailed(z3.And(a >= 0, b > 0)):
            return a / b if cb is not None else BLK(a, b)
        return z3.If(a >= 0, z3.If(b > 0, a / b, -(a / -b)), z3.If(b > 0, -((-a) / b), (-a) / (-b)))

    def entailed(self, g):
        g = simp(g)
        if is_t(g):
            return True
        if is_f(g):
            return False
        return entails(self.pc, g, self.schemas, timeout=1500, keys=self.keys, depth=2, rounds=2)

    def ptrop(self, op, a, b):
        if op in ('==', '!='):
            if isinstance(a, PtrV) and isinstance(b, PtrV):
                if a.lv is None or b.lv is None:
                    r = z3.BoolVal(a.lv is None and b.lv is None)
                else:
                    r = a.lv.same(b.lv)
                return r if op == '==' else mknot(r)
        if op == '+' and isz(b):
            return self.padd(a, b)
        if op == '-' and isz(b):
            return self.padd(a, -b)
        if op == '-' and isinstance(b, PtrV) and a.lv and b.lv and a.lv.loc == b.lv.loc and a.lv.path[:-1] == b.lv.path[:-1]:
            x, y = a.lv.path[-1][1], b.lv.path[-1][1]
            return simp((iv(x) if isinstance(x, int) else x) - (iv(y) if isinstance(y, int) else y))
        raise Unsupported('pointer operator %s' % op)

    def e_BinaryOperator(self, n):
        op = n['opcode']
        l, r = [c for c in n['inner'] if c.get('kind')]
        if op == '=':
            rvv = self.rv_(self.ev(r))
            lv = self.ev(l)
            if not isinstance(lv, LV):
                raise Unsupported('assignment to non-lvalue')
            if isinstance(rvv, list):
                rvv = self.coerce(rvv, ty(l))
            self.put(lv, rvv)
            return lv
        if op == ',':
            self.ev(l)
            return self.ev(r)
        if op in ('&&', '||'):
            # value position: fork only if the right operand is not plainly evaluable
            a = self.truth(self.rv_(self.ev(l)))
            if is_t(a) or is_f(a):
                if (op == '&&') == is_f(a):
                    return a
                return self.truth(self.rv_(self.ev(r)))
            t = self.branch(a)
            if op == '&&' and not t:
                return FALSE
            if op == '||' and t:
                return TRUE
            return self.truth(self.rv_(self.ev(r)))
        a = self.rv_(self.ev(l))
        b = self.rv_(self.ev(r))
        return self.arith(op, a, b)

    def e_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        l, r = [c for c in n['inner'] if c.get('kind')]
        b = self.rv_(self.ev(r))
        lv = self.ev(l)
        if not isinstance(lv, LV):
            raise Unsupported('compound assignment')
        a = self.load(lv)
        if isinstance(a, Opaque):
            return lv
        wide = [norm_type(ty({'type': n[k]})) if k in n else '' for k in ('computeLHSType', 'computeResultType')]
        own = norm_type(ty(l))
        integral = isz(a) and isz(b) and a.sort() == I and b.sort() == I
        v = self.arith(op, self.wrap(a, own, wide[0]) if integral else a, b)
        if isz(a) and isz(v) and a.sort() == I and v.sort() == R:
            v = simp(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)))
        elif integral:
            v = self.wrap(v, wide[1], own)
        self.put(lv, v)
        return lv

    def e_ConditionalOperator(self, n):
        c, a, b = [x for x in n['inner'] if x.get('kind')]
        if self.is_assert(b):
            self.do_assert(c)
            return None
        if self.cond(c):
            return self.ev(a)
        return self.ev(b)

    def is_assert(self, n):
        while n.get('kind') in ('ParenExpr', 'ExprWithCleanups', 'CStyleCastExpr', 'ImplicitCastExpr', 'CXXStaticCastExpr') and n.get('inner'):
            n = n['inner'][0]
        if n.get('kind') != 'CallExpr':
            return False
        c = n['inner'][0]
        while c.get('kind') == 'ImplicitCastExpr':
            c = c['inner'][0]
        return (c.get('referencedDecl') or {}).get('name') == '__assert_fail'

    def do_assert(self, c):
        fn = self.fname(self.frames[-1].fn)
        outs = self.explore(lambda: self.cond(c))
        bad = [o for o in outs if o.kind == 'normal' and o.val is False]
        ok = True
        for o in bad:
            r = prove(o.pc, FALSE, o.schemas, keys=self.keys)
            self.obligations.append(('assertion in %s cannot fail' % fn, r.status))
            if r.status != 'proved':
                ok = False
        if not bad:
            self.obligations.append(('assertion in %s cannot fail' % fn, 'proved'))
        if ok:
            return
        if not self.cond(c):
            raise Abort('assertion in %s' % fn)

    # -------------------------------------------------------------- calls
    def callee(self, n):
        while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr') and n.get('inner'):
            n = n['inner'][0]
        return n

    def e_CallExpr(self, n):
        inner = [c for c in n['inner'] if c.get('kind')]
        c = self.callee(inner[0])
        r = c.get('referencedDecl') or {}
        name = r.get('name')
        if name == '__assert_fail':
            raise Abort('assert')
        fn = self.ast.function(r.get('id')) if r.get('id') else None
        if fn is not None:
            args = [self.ev(a) for a in inner[1:]]
            args = self.trim(args)
            return self.call(fn, None, args)
        return self.libcall(name, inner[1:], n, c)

    def trim(self, args):
        while args and args[-1] is None:
            args = args[:-1]
        if any(a is None for a in args):
            raise Unsupported('default argument in the middle')
        return args

    UF1 = ('exp', 'exp2', 'expm1', 'log', 'log10', 'log2', 'log1p', 'cbrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan',
           'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'erf', 'erfc', 'round', 'floor', 'trunc', 'ceil', 'rint', 'nearbyint')
    UF2 = ('fmod', 'remainder', 'pow', 'hypot', 'atan2')

    def toreal(self, v):
        if isz(v) and v.sort() == I:
            return simp(z3.ToReal(v))
        return v

    def libcall(self, name, argn, n, c):
        ev = lambda i: self.rv_(self.ev(argn[i]))
        na = len([a for a in argn if a.get('kind') != 'CXXDefaultArgExpr'])
        if name in ('move', 'forward', 'as_const', 'cref', 'ref') and na == 1:
            return self.ev(argn[0])
        if name == 'sqrt' and na == 1:
            return SQRT(self.toreal(ev(0)))
        if name in ('abs', 'fabs', 'labs') and na == 1:
            v = ev(0)
            return simp(z3.If(v >= 0, v, -v))
        if name in self.UF1 and na == 1:
            return z3.Function(name, R, R)(self.toreal(ev(0)))
        if name in self.UF2 and na == 2:
            return z3.Function(name, R, R, R)(self.toreal(ev(0)), self.toreal(ev(1)))
        if name in ('fmax', 'fmin', 'max', 'min') and na == 2:
            a, b = self.num2(ev(0), ev(1))
            if isz(a):
                g = (a >= b) if 'max' in name else (a <= b)
                if name in ('max',):
                    g = z3.Not(a < b)
                elif name == 'min':
                    g = z3.Not(b < a)
                return simp(z3.If(g, a, b))
        if name == 'fma' and na == 3:
            return simp(ev(0) * ev(1) + ev(2))
        if name in ('isfinite', 'isnormal', 'isnan', 'isinf', 'signbit') and na == 1:
            return z3.Function(name, R, B)(self.toreal(ev(0)))
        if name == 'max' and na == 0:
            return iv(MAXID) if norm_type(ty(n)) in INTS else z3.Const('max:' + norm_type(ty(n)), R)
        if name == 'epsilon' and na == 0:
            return z3.Const('epsilon:' + norm_type(ty(n)), R)
        if name == 'make_pair' and na == 2:
            return StructV('pair', {'first': ev(0), 'second': ev(1)})
        if name == 'swap' and na == 2:
            a, b = self.ev(argn[0]), self.ev(argn[1])
            x, y = self.load(a), self.load(b)
            self.put(a, y)
            self.put(b, x)
            return None
        if name in ('to_string',):
            return Opaque('string')
        if name == 'get' and na == 1:
            idx = self.tuple_index(n)
            base = self.ev(argn[0])
            return self.lv_(base).sub(('i', idx))
        if name in ('begin', 'cbegin', 'end', 'cend') and na == 1:
            return self.container(name, self.ev(argn[0]), [], n)
        if name == 'fill' and na == 3:
            a, b, v = ev(0), ev(1), ev(2)
            for p in self.prange(a, b):
                self.put(p.lv, self.coerce(v, self.kind_of(self.load(p.lv))))
            return None
        if name == 'copy' and na == 3:
            a, b, o = ev(0), ev(1), ev(2)
            sig = (self.first(n).get('type') or {}).get('qualType', '')
            narrow = sig.count('float') and 'double' in sig and 'float' in sig.rsplit(',', 1)[1]
            for p in self.prange(a, b):
                v = self.load(p.lv)
                self.put(o.lv, self.narrow(v) if narrow and isz(v) and v.sort() == R else v)
                o = self.padd(o, iv(1))
            return o
        if name in ('next', 'prev') and na == 1:
            it = ev(0)
            lv = self.alloc(it)
            if name == 'prev':
                raise Unsupported('prev')
            self.advance(lv)
            return self.load(lv)
        if name == 'distance' and na == 2:
            a, b = ev(0), ev(1)
            if isinstance(a, VecIter):
                return simp(b.idx - a.idx)
        raise Unsupported('library function %s/%d' % (name, na))

    def kind_of(self, v):
        return 'double' if isz(v) and v.sort() == R else 'int' if isz(v) and v.sort() == I else ''

    def prange(self, a, b):
        if not (isinstance(a, PtrV) and isinstance(b, PtrV)):
            raise Unsupported('range of %s' % type(a).__name__)
        k = const_int(self.ptrop('-', b, a))
        if k is None or k > 64:
            raise Unsupported('range length')
        out = []
        for i in range(k):
            out.append(self.padd(a, iv(i)))
        return out

    def tuple_index(self, n):
        """std::get<n> does not carry its argument in the AST: taken from the enclosing template instance."""
        fn = self.frames[-1].fn
        for c in fn.get('inner', []):
            if c.get('kind') == 'TemplateArgument' and 'value' in c:
                return int(c['value'])
        raise Unsupported('std::get index')

    def e_CXXMemberCallExpr(self, n):
        inner = [c for c in n['inner'] if c.get('kind')]
        c = self.callee(inner[0])
        if c['kind'] != 'MemberExpr':
            raise Unsupported('member call through %s' % c['kind'])
        basen = self.first(c)
        name = c['name']
        bt = norm_type(ty(basen))
        if 'ostringstream' in bt or 'basic_ostream' in bt:
            return Opaque('string')
        base = self.ev(basen)
        if c.get('isArrow'):
            p = self.rv_(base)
            if not isinstance(p, PtrV) or p.lv is None:
                raise Unsupported('member call through pointer')
            base = p.lv
        fid = c.get('referencedMemberDecl')
        fn = self.ast.function(fid)
        argn = inner[1:]
        bv = None
        if isinstance(base, LV):
            try:
                bv = self.load(base)
            except Unsupported:
                bv = None
        else:
            bv = base
        if isinstance(bv, IterV) and bv.kind != 'map':
            return self.iter_method(base, bv, name, argn)
        if fn is not None:
            args = self.trim([self.ev(a) for a in argn])
            return self.call(fn, self.lv_(base), args)
        return self.container(name, base, argn, n)

    def container(self, name, base, argn, n):
        lv = base if isinstance(base, LV) else None
        v = self.rv_(base)
        args = [self.ev(a) for a in argn if a.get('kind') != 'CXXDefaultArgExpr']
        if isinstance(v, Opaque):
            return Opaque('string')
        if eigen.is_eigen(v):
            return eigen.method(self, name, base, args)
        if isinstance(v, StructV) and v.cls == 'atomic':
            if name == 'fetch_add':
                d = self.rv_(args[0])
                if not (z3.is_int_value(d) and d.as_long() == 1):
                    raise Unsupported('atomic increment by something else than one')
                i = fresh(I, 'newid')
                self.ids.append(i)
                return i - 1
            if name in ('load', 'operator int') or name.startswith('operator '):
                return fresh(I, 'counter')
            if name in ('store', 'exchange'):
                self.obligations.append(('the counter of identities is only moved by an atomic increment', 'refuted'))
                return fresh(I, 'counter')
            raise Unsupported('atomic %s' % name)
        if isinstance(v, MapV):
            if lv is None:
                lv = self.alloc(v)
            low = v.dom.lowest()
            if name in ('begin', 'cbegin'):
                return self.mkiter(v.dom, lv, low)
            if name in ('end', 'cend'):
                return IterV(v.dom, lv, TRUE, low, None)
            if name == 'size':
                if self.is_empty_dom(v.dom):
                    return iv(0)
                return v.dom.size()
            if name == 'empty':
                return self.mkiter(v.dom, lv, low).end
            if name == 'clear':
                self.put(lv, MapV(DomV(v.dom.arity, lambda k: FALSE, name='empty'), v.elem, v.vtype))
                return None
            if name in ('find', 'count', 'at', 'lower_bound', 'upper_bound', 'operator[]', 'erase', 'emplace', 'insert', 'swap'):
                if name == 'swap':
                    o = args[0]
                    x = self.load(o)
                    self.put(o, v)
                    self.put(lv, x)
                    return None
                if name == 'erase':
                    k = self.rv_(args[0])
                    if isinstance(k, IterV):
                        k = k.key
                    else:
                        k = as_key(k)
                    old = v.dom
                    self.put(lv, MapV(DomV(old.arity, lambda q, old=old, k=k: mkand([old.has(q), mknot(k_eq(q, k))]), name='er'), v.elem, v.vtype))
                    return None
                if name in ('emplace', 'insert') and not (len(args) == 1 or len(args) == 2):
                    raise Unsupported('map insert')
                if name in ('emplace', 'insert'):
                    if len(args) == 2:
                        kk, vv = self.rv_(args[0]), self.rv_(args[1])
                    else:
                        pr = self.rv_(args[0])
                        if isinstance(pr, list):
                            kk, vv = pr[0], pr[1]
                        elif isinstance(pr, StructV):
                            kk, vv = pr.f['first'], pr.f['second']
                        else:
                            raise Unsupported('map insert')
                    if isinstance(kk, list):
                        kk = StructV('pair', {'first': kk[0], 'second': kk[1]})
                    key = as_key(kk)
                    was = v.dom.has(key)
                    if not self.branch(was):
                        l2 = self.map_index(lv, key)
                        self.put(l2, vv)
                    return Opaque('pair<iterator,bool>')
                kv = self.rv_(args[0])
                if isinstance(kv, list):
                    kv = StructV('pair', {'first': kv[0], 'second': kv[1]})
                key = as_key(kv)
                if name == 'count':
                    return ite(v.dom.has(key), iv(1), iv(0))
                if name == 'find':
                    h = simp(v.dom.has(key))
                    if self.branch(h):
                        return IterV(v.dom, lv, FALSE, key, key)
                    return IterV(v.dom, lv, TRUE, low, None)
                if name == 'at':
                    if not self.branch(v.dom.has(key)):
                        raise Thr('std::out_of_range')
                    return lv.sub(('m', key))
                if name == 'lower_bound':
                    return self.mkiter(v.dom, lv, key)
                if name == 'upper_bound':
                    return self.mkiter(v.dom, lv, k_succ(key))
                if name == 'operator[]':
                    return self.map_index(lv, key)
        if isinstance(v, ArrV):
            lv = lv or self.alloc(v)
            if name in ('begin', 'cbegin', 'data'):
                return PtrV(lv.sub(('i', 0)))
            if name in ('end', 'cend'):
                return PtrV(lv.sub(('i', len(v.items))))
            if name in ('operator[]', 'at'):
                i = self.rv_(args[0])
                ci = const_int(i)
                return lv.sub(('i', ci if ci is not None else i))
            if name == 'size':
                return iv(len(v.items))
            if name == 'fill':
                x = self.rv_(args[0])
                self.put(lv, ArrV([self.coerce(x, self.kind_of(y)) for y in v.items]))
                return None
            if name in ('front', 'back'):
                return lv.sub(('i', 0 if name == 'front' else len(v.items) - 1))
        if isinstance(v, VecV):
            lv = lv or self.alloc(v)
            if name in ('begin', 'cbegin'):
                return VecIter(lv, iv(0))
            if name in ('end', 'cend'):
                return VecIter(lv, v.n)
            if name == 'size':
                return v.n
            if name == 'empty':
                return simp(v.n == 0)
            if name in ('operator[]', 'at'):
                i = self.rv_(args[0])
                self.oblige('vector index in bounds', z3.And(i >= 0, i < v.n))
                return lv.sub(('i', i))
            if name in ('push_back', 'emplace_back'):
                x = self.emplace(v.etype, args) if name == 'emplace_back' else self.rv_(args[0])
                old, nn = v.elem, v.n
                def elem(k, old=old, nn=nn, x=x):
                    return self.vmerge(simp(k == nn), x, lambda: old(k))
                self.put(lv, VecV(simp(nn + 1), elem, v.etype))
                return None
            if name == 'reserve':
                return None
        raise Unsupported('%s on %s' % (name, type(v).__name__))

    def emplace(self, t, args):
        k = self.resolve_cls(t)
        if k is None:
            if len(args) != 1:
                raise Unsupported('emplace_back')
            return self.coerce(self.rv_(args[0]), t)
        ct = [c for c in self.ast.ctors(k) if not c.get('isImplicit') and len(params(c)) == len(args) and
              all(norm_type(p['type']['qualType']).rstrip('&') in REALS for p in params(c))]
        if len(ct) != 1:
            raise Unsupported('emplace_back')
        return self.construct(k, ct[0], [self.coerce(self.rv_(a), 'double') for a in args])

    def is_empty_dom(self, dom):
        k = tuple(z3.Int('probe!%d' % i) for i in range(dom.arity))
        return is_f(simp(dom.has(k)))

    def mkiter(self, dom, lv, bound):
        bound = tuple(bound)
        if self.is_empty_dom(dom):
            return IterV(dom, lv, TRUE, dom.lowest(), bound)
        if is_t(simp(dom.has(bound))):
            return IterV(dom, lv, FALSE, bound, bound)
        e, k = dom.lb(bound)
        return IterV(dom, lv, e, k, bound)

    def map_index(self, lv, key):
        v = self.load(lv)
        h = simp(v.dom.has(key))
        if is_t(h) or self.entailed(h):
            return lv.sub(('m', key))
        old, oe = v.dom, v.elem
        vt, cls = v.vtype
        d = self.default(vt, True, cls)
        dom = DomV(old.arity, lambda q, old=old, key=key: mkor([k_eq(q, key), old.has(q)]), name='ins')
        def elem(q, old=old, oe=oe, key=key, d=d):
            c = k_eq(q, key)
            if is_f(c):
                return oe(q)
            here = old.has(key)
            new = merge(here, oe(key), d) if not is_f(here) else d
            if is_t(c):
                return new
            return merge(c, new, oe(q))
        self.put(lv, MapV(dom, elem, v.vtype))
        return lv.sub(('m', key))

    def advance(self, lv):
        """++ on an iterator stored at lv."""
        it = self.load(lv)
        if isinstance(it, VecIter):
            self.put(lv, VecIter(it.lv, simp(it.idx + 1)))
            return
        if isinstance(it, PtrV):
            self.put(lv, self.padd(it, iv(1)))
            return
        if isinstance(it, IterV):
            self.oblige('incremented iterator is not at the end', z3.Not(it.end))
            if it.kind == 'map':
                self.fresh_dom(it)
                new = self.mkiter(it.dom, it.lv, k_succ(it.key))
                self.put(lv, new)
            else:
                e, k = it.dom.lb(k_succ(it.key))
                self.put(lv, IterV(it.dom, it.lv, e, k, k_succ(it.key), it.kind, it.extra))
            return
        raise Unsupported('++ on %s' % type(it).__name__)

    def fresh_dom(self, it):
        cur = self.load(it.lv)
        if cur.dom.uid != it.dom.uid:
            k = tuple(fresh(I, 'q') for _ in range(it.dom.arity))
            if not self.entailed(cur.dom.has(k) == it.dom.has(k)):
                raise Unsupported('map modified during iteration')

    def deref(self, it):
        if isinstance(it, VecIter):
            v = self.load(it.lv)
            if isinstance(v, VecV):
                self.oblige('dereferenced iterator is in range', z3.And(it.idx >= 0, it.idx < v.n))
            return it.lv.sub(('i', it.idx))
        if isinstance(it, PtrV):
            return it.lv
        if isinstance(it, IterV):
            self.oblige('dereferenced iterator is not at the end', z3.Not(it.end))
            if it.kind == 'map':
                return it.lv.sub(('kv', it.key))
            return self.iter_value(it)
        raise Unsupported('dereference of %s' % type(it).__name__)

    # class-contract iterators over the entries of a HessGrad (kinds tri and hess): see hessgrad contracts
    def iter_value(self, it):
        tri, diag = it.lv.sub(('f', it.extra['tri'])), it.lv.sub(('f', it.extra['diag']))
        k = it.key
        if it.kind == 'hess' and self.branch(k[0] == k[1]):
            return diag.sub(('m', (k[0],))).sub(('f', it.extra['hhess']))
        tv = self.load(tri)
        if self.branch(tv.dom.has(k)):
            return tri.sub(('m', k))
        return self.alloc(ZERO, 'zero')

    def iter_method(self, base, it, name, argn):
        if name == 'operator++':
            self.advance(base)
            return None
        self.oblige('iterator is not at the end in %s()' % name, z3.Not(it.end))
        diag = it.lv.sub(('f', it.extra['diag']))
        if name == 'id1':
            return it.key[0]
        if name == 'id2':
            return it.key[1]
        if name == 'id':
            self.oblige('assertion in id() cannot fail', it.key[0] < it.key[1])
            return key_value(it.key)
        if name == 'diag1':
            return diag.sub(('m', (it.key[0],)))
        if name == 'diag2':
            return diag.sub(('m', (it.key[1],)))
        raise Unsupported('iterator method %s' % name)

    def iter_eq(self, a, b):
        if isinstance(a, VecIter) and isinstance(b, VecIter):
            if is_f(a.lv.same(b.lv)):
                raise Unsupported('iterators into different containers')
            return simp(a.idx == b.idx)
        if isinstance(a, IterV) and isinstance(b, IterV):
            if not is_t(a.lv.same(b.lv)):
                raise Unsupported('iterators into different containers')
            return simp(mkor([mkand([a.end, b.end]), mkand([mknot(a.end), mknot(b.end), k_eq(a.key, b.key)])]))
        raise Unsupported('iterator comparison')

    def e_CXXOperatorCallExpr(self, n):
        inner = [c for c in n['inner'] if c.get('kind')]
        c = self.callee(inner[0])
        r = c.get('referencedDecl') or {}
        name = r.get('name')
        argn = inner[1:]
        if name == 'operator<<':
            t = norm_type(ty(n))
            if 'stream' in t:
                return Opaque('string')
        if name == 'operator=' and len(argn) == 2:
            fn0 = self.ast.function(r.get('id'))
            v = self.rv_(self.ev(argn[1]))
            lv = self.ev(argn[0])
            if fn0 is not None and not fn0.get('isImplicit') and not fn0.get('explicitlyDefaulted'):
                return self.call(fn0, self.lv_(lv), [v])
            if isinstance(v, list):
                v = self.coerce(v, ty(argn[0]))
            if not isinstance(lv, LV):
                raise Unsupported('assignment')
            self.put(lv, v)
            return lv
        a0 = self.ev(argn[0])
        v0 = None
        try:
            v0 = self.rv_(a0)
        except Unsupported:
            v0 = None
        if eigen.is_eigen(v0) and name in ('operator()', 'operator[]'):
            return eigen.index(self, a0, [self.ev(a) for a in argn[1:]])
        if name == 'operator()':
            args = [self.ev(a) for a in argn[1:]]
            return self.apply(v0, args)
        if isinstance(v0, IterV) and v0.kind != 'map':
            if name == 'operator++':
                self.advance(a0)
                return None
            if name == 'operator*':
                return self.deref(v0)
            if name in ('operator!=', 'operator=='):
                e = self.iter_eq(v0, self.rv_(self.ev(argn[1])))
                return e if name == 'operator==' else mknot(e)
            raise Unsupported('iterator %s' % name)
        fn = self.ast.function(r.get('id')) if r.get('id') else None
        if fn is not None:
            args = self.trim([a0] + [self.ev(a) for a in argn[1:]])
            if fn['kind'] == 'CXXMethodDecl':
                return self.call(fn, self.lv_(args[0]), args[1:])
            return self.call(fn, None, args)
        if isinstance(v0, StructV) and v0.cls == 'atomic':
            if name == 'operator++':
                i = fresh(I, 'newid')
                self.ids.append(i)
                post = len(argn) > 1
                return simp(i - 1) if post else i
            if name == 'operator+=':
                d = self.rv_(self.ev(argn[1]))
                if not (z3.is_int_value(d) and d.as_long() == 1):
                    raise Unsupported('atomic increment by something else than one')
                i = fresh(I, 'newid')
                self.ids.append(i)
                return i
            if name == 'operator=':
                self.obligations.append(('the counter of identities is only moved by an atomic increment', 'refuted'))
                return fresh(I, 'counter')
            raise Unsupported('atomic %s' % name)
        if isinstance(v0, (IterV, VecIter, PtrV)):
            if name == 'operator*':
                return self.deref(v0)
            if name == 'operator->':
                return PtrV(self.deref(v0))
            if name == 'operator++':
                lv = self.lv_(a0)
                self.advance(lv)
                return v0 if len(argn) > 1 else lv
            if name in ('operator!=', 'operator=='):
                v1 = self.rv_(self.ev(argn[1]))
                if isinstance(v0, PtrV):
                    return self.ptrop(name[8:], v0, v1)
                e = self.iter_eq(v0, v1)
                return e if name == 'operator==' else mknot(e)
            if name in ('operator+', 'operator-') and isinstance(v0, VecIter):
                b = self.rv_(self.ev(argn[1]))
                if isinstance(b, VecIter):
                    return simp(v0.idx - b.idx)
                return VecIter(v0.lv, simp(v0.idx + b if name == 'operator+' else v0.idx - b))
            if name == 'operator[]' and isinstance(v0, VecIter):
                b = self.rv_(self.ev(argn[1]))
                return self.deref(VecIter(v0.lv, simp(v0.idx + b)))
        if name in ('operator<', 'operator<=', 'operator>', 'operator>=', 'operator==', 'operator!='):
            v1 = self.rv_(self.ev(argn[1]))
            if isinstance(v0, StructV) and v0.cls == 'pair':
                a, b = as_key(v0), as_key(v1)
                f = {'operator<': lambda: k_lt(a, b), 'operator<=': lambda: k_le(a, b), 'operator>': lambda: k_lt(b, a),
                     'operator>=': lambda: k_le(b, a), 'operator==': lambda: k_eq(a, b),
                     'operator!=': lambda: mknot(k_eq(a, b))}[name]
                return simp(f())
            return self.arith(name[8:], v0, v1)
        if name == 'operator[]':
            return self.container('operator[]', a0, argn[1:], n)
        if name in ('operator+', 'operator+=') and isinstance(v0, Opaque):
            return Opaque('string')
        raise Unsupported('operator call %s on %s' % (name, type(v0).__name__))

    def apply(self, f, args):
        if isinstance(f, FunV):
            vals = [self.toreal(self.rv_(a)) for a in args]
            return z3.Function(f.name, *([R] * (len(vals) + 1)))(*vals)
        if isinstance(f, LambdaV):
            fr = Frame(dict(f.caps), f.this, f.op, None)
            for p, a in zip(params(f.op), args):
                fr.vars[p['id']] = self.bind(p, a)
            self.frames.append(fr)
            try:
                try:
                    self.st(body(f.op))
                except Ret as r:
                    return self.rv_(r.v)
                return None
            finally:
                self.frames.pop()
        raise Unsupported('call of %s' % type(f).__name__)

    def e_LambdaExpr(self, n):
        inner = [c for c in n['inner'] if c.get('kind')]
        rec = inner[0]
        op = None
        fields = []
        for c in rec.get('inner', []):
            if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()':
                op = c
            if c.get('kind') == 'FieldDecl':
                fields.append(c)
        caps = {}
        caped = inner[1:-1]
        for fd, e in zip(fields, caped):
            x = e
            while x.get('kind') != 'DeclRefExpr' and x.get('inner'):
                sub = [y for y in x['inner'] if y.get('kind')]
                if not sub:
                    break
                x = sub[-1]
            if x.get('kind') != 'DeclRefExpr':
                raise Unsupported('lambda capture %s' % x.get('kind'))
            rid = x['referencedDecl']['id']
            lv = self.ev(x)
            if fd['type']['qualType'].strip().endswith('&'):
                caps[rid] = lv
            else:
                caps[rid] = self.alloc(self.rv_(lv), 'cap')
        if op is None or body(op) is None:
            b = inner[-1]
            if op is None or b.get('kind') != 'CompoundStmt':
                raise Unsupported('lambda')
            op = dict(op)
            op['inner'] = list(op.get('inner', [])) + [b]
        th = self.frames[-1].this if self.frames else None
        return LambdaV(op, caps, th)

    def e_CXXConstructExpr(self, n):
        args = [c for c in n.get('inner', []) if c.get('kind')]
        t = strip_ref(norm_type(ty(n)))
        ct = norm_type((n.get('ctorType') or {}).get('qualType', ''))
        key = self.resolve_cls(t)
        if key is not None:
            m = re.match(r'void\((.*)\)$', ct)
            ps = m.group(1) if m else ''
            last = lambda t: strip_ref(t).split('<')[0].split('::')[-1]
            if len(args) == 1 and ps.endswith('&') and (self.resolve_cls(strip_ref(ps)) == key or (',' not in ps and '<' not in ps and last(ps) == last(key.rsplit('>', 1)[-1]))):
                if not any(norm_type(c['type']['qualType']) == ct and not c.get('isImplicit') and not c.get('explicitlyDefaulted') for c in self.ast.ctors(key)):
                    return self.rv_(self.ev(args[0]))
            for c in self.ast.ctors(key):
                cty = norm_type(c['type']['qualType'])
                if cty == ct and (not c.get('isImplicit')):
                    fn = self.ast.function(c['id'])
                    if fn is None:
                        continue
                    a = self.trim([self.ev(x) for x in args])
                    return self.construct(key, c, a)
            if not args:
                return self.default(t, bool(n.get('zeroing')))
            raise Unsupported('constructor %s of %s' % (ct, key))
        if not args:
            return self.default(t, bool(n.get('zeroing')))
        if 'Eigen::' in t:
            return eigen.construct(self, t, [self.ev(a) for a in args if a.get('kind') != 'CXXDefaultArgExpr'])
        if 'lambda' in t or t.startswith('std::function') or t.startswith('function') or t.startswith('Unary') or t.startswith('Binary'):
            return self.rv_(self.ev(args[0]))
        if t.startswith('std::vector'):
            if len(args) >= 1:
                vals = [self.rv_(self.ev(a)) for a in args if a.get('kind') != 'CXXDefaultArgExpr']
                if isinstance(vals[0], VecV):
                    return vals[0]
                if isz(vals[0]):
                    et = targs(t)[0]
                    d = vals[1] if len(vals) > 1 else self.default(et, True)
                    return VecV(vals[0], lambda k, d=d: d, et)
            raise Unsupported('vector constructor')
        if 'pair' in t.split('<')[0] and len(args) == 2:
            return StructV('pair', {'first': self.rv_(self.ev(args[0])), 'second': self.rv_(self.ev(args[1]))})
        if 'string' in t:
            return Opaque('string')
        real = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
        if len(real) == 1:
            v = self.rv_(self.ev(real[0]))
            return v
        raise Unsupported('construction of %s' % t)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXThrowExpr(self, n):
        sub = self.first(n)
        raise Thr(norm_type(ty(sub)) if sub else '')

    def e_UnresolvedLookupExpr(self, n):
        raise Unsupported('unresolved lookup')

    # -------------------------------------------------------------- loops: see loops.py
    def loop(self, cond, body_, inc, node):
        import loops
        loops.loop(self, cond, body_, inc, node)
