"""Ownership and frame contracts of every function of the library (C22).

Every function carries the contract
  assigns  only its own locals, the objects it receives by non-const reference or pointer (or returns), and the atomic
           counter of identities;
  reads    only its own locals, its arguments, constants, and objects with static storage that nothing writes.
Value types own their state: no pointer, reference or shared ownership among their members, so two distinct variables
share nothing. By the standard, two executions of such functions on objects neither modifies do not race, and since each
takes from the shared state only values of the atomic counter, one step at a time, their results are those of the sequential
order in which those steps took place."""
from spec import *
from c_ureal import common_assumptions
import c_ureal, c_ureal2

SECTIONS = ['VC_UREAL', 'VC_CORE', 'VC_UREAL2', 'VC_MATH', 'VC_FUNCTIONS', 'VC_DISTR', 'VC_STAT', 'VC_UREALS', 'VC_IO']
FUNCS = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl', 'CXXDestructorDecl')
UNSAFE = {'rand', 'srand', 'strtok', 'strerror', 'setlocale', 'localtime', 'gmtime', 'asctime', 'ctime', 'tmpnam', 'drand48', 'srand48',
          'lrand48', 'mrand48', 'putenv', 'setenv', 'unsetenv', 'lgamma', 'lgammaf', 'lgammal', 'gamma', 'ecvt', 'fcvt', 'strsignal', 'ptsname'}
LOCKS = re.compile(r'lock_guard|unique_lock|scoped_lock|shared_lock|call_once|once_flag|mutex')
PASS = ('ImplicitCastExpr', 'ParenExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CStyleCastExpr')

def isconst(q):
    q = q.strip()
    if q.endswith('&'):
        return False
    if q.endswith('*'):
        return False
    if re.search(r'\*\s*const$', q):
        return q.startswith('const')
    return bool(re.match(r'(?:inline |static )*const\b', q)) or q.endswith(' const')

def qual(n):
    return (n.get('type') or {}).get('qualType', '')

def sub(n):
    return [c for c in n.get('inner', []) if c.get('kind')]

class Scan:
    """Collects the effects of one function body on what it does not own."""
    def __init__(self, ast, fn, where):
        self.ast, self.fn, self.where = ast, fn, where
        self.writes, self.reads, self.unclear, self.atomics, self.calls, self.locks = [], [], [], [], set(), False
        self.mutwrites = []
        self.tainted = set()      # local references and pointers made by casting const away
        self.walk(fn, [])

    def loc(self, n):
        return ''

    def walk(self, n, up):
        k = n.get('kind')
        if LOCKS.search(qual(n)) and k in ('VarDecl', 'CXXConstructExpr', 'CallExpr'):
            self.locks = True
        if k == 'VarDecl' and self.casts_const(n):
            self.tainted.add(n['id'])
        if k == 'DeclRefExpr':
            self.ref(n, (n.get('referencedDecl') or {}), up)
        elif k == 'MemberExpr':
            d = self.ast.decl.get(n.get('referencedMemberDecl'))
            if d is not None and d.get('kind') == 'VarDecl':
                self.ref(n, d, up)
            elif d is not None and d.get('kind') == 'FieldDecl' and d.get('mutable'):
                if self.access(n, up) == 'write':
                    self.mutwrites.append((d, n, up))
                elif self.access(n, up) == 'escape' and not isconst(qual(n)):
                    self.unclear.append('mutable member %s escapes' % d.get('name'))
        elif k == 'CXXConstCastExpr' or (k == 'CStyleCastExpr' and self.drops_const(n)):
            a = self.access(n, up)
            if a == 'write':
                self.writes.append('an object from which const is cast away')
            elif a != 'read' and not any(u.get('kind') == 'VarDecl' for u in up[-3:]):
                self.unclear.append('const is cast away')
            elif a != 'read':
                self.unclear.append('const is cast away')
        for c in n.get('inner', []):
            if c.get('kind'):
                self.walk(c, up + [n])

    def drops_const(self, n):
        s = sub(n)
        if not s:
            return False
        a, b = qual(n), qual(s[0])
        return ('*' in a or n.get('valueCategory') == 'lvalue') and 'const' in b and 'const' not in a

    def casts_const(self, n):
        q = qual(n)
        if '&' not in q and '*' not in q:
            return False
        return any(c.get('kind') == 'CXXConstCastExpr' for c in self.under(n))

    def under(self, n):
        for c in sub(n):
            yield c
            yield from self.under(c)

    def ref(self, n, r, up):
        if r.get('kind') in ('FunctionDecl', 'CXXMethodDecl'):
            self.calls.add(r.get('name'))
            return
        if r.get('kind') != 'VarDecl':
            return
        d = self.ast.decl.get(r.get('id'), r)
        if r.get('id') in self.tainted:
            if self.access(n, up) == 'write':
                self.writes.append('an object from which const is cast away')
            return
        if not self.static(d):
            return
        nm, q = d.get('name'), qual(d)
        if 'atomic' in q:
            self.atomics.append((nm, self.atomic_op(n, up)))
            return
        if LOCKS.search(q) or isconst(q) or d.get('constexpr'):
            return
        if d.get('tls'):
            self.unclear.append('thread-local %s' % nm)
            return
        a = self.access(n, up)
        (self.writes if a == 'write' else self.reads if a == 'read' else self.unclear).append('static %s' % nm)

    def static(self, d):
        if d.get('storageClass') in ('static', 'extern') or d.get('tls'):
            return True
        return d.get('id') not in self.where['locals']

    def access(self, n, up):
        """How the value of this lvalue expression is used: write, read or escape."""
        cur = n
        for p in reversed(up):
            k = p.get('kind')
            kids = sub(p)
            if k == 'ImplicitCastExpr' and p.get('castKind') == 'LValueToRValue':
                if '*' in qual(cur) and cur is not n:
                    return 'escape'
                if '*' in qual(p):      # a pointer is read: what matters is what is done through it
                    cur = p
                    continue
                return 'read'
            if k == 'ImplicitCastExpr' and p.get('castKind') == 'NoOp' and 'const' in qual(p) and 'const' not in qual(cur):
                return 'read'
            if k in PASS:
                cur = p
                continue
            if k in ('BinaryOperator', 'CompoundAssignOperator'):
                op = p.get('opcode', '')
                if kids and kids[0] is cur and (op == '=' or k == 'CompoundAssignOperator'):
                    return 'write'
                if op == ',' and len(kids) == 2 and kids[1] is cur:
                    cur = p
                    continue
                return 'read'
            if k == 'UnaryOperator':
                if p.get('opcode') in ('++', '--'):
                    return 'write'
                if p.get('opcode') == '*':
                    cur = p
                    continue
                return 'escape' if p.get('opcode') == '&' else 'read'
            if k == 'MemberExpr':
                t = qual(p)
                if t == '<bound member function type>':
                    cur = p
                    continue
                cur = p
                continue
            if k == 'ArraySubscriptExpr' and kids and kids[0] is cur:
                cur = p
                continue
            if k == 'CXXMemberCallExpr' and kids and kids[0] is cur:
                d = self.ast.decl.get(cur.get('referencedMemberDecl'))
                if d is None:
                    obj = sub(cur)
                    if obj and 'const' in qual(obj[0]):
                        return 'read'
                    # a call of a non-const member of a library type
                    return 'write' if cur.get('name') in ('operator[]', 'insert', 'erase', 'clear', 'push_back', 'emplace', 'emplace_back', 'resize', 'assign', 'pop_back', 'append', 'swap', 'reserve') and cur.get('name') != 'operator[]' else 'escape'
                return 'read' if is_const_method(d) else 'escape'
            if k == 'CXXOperatorCallExpr' and len(kids) > 1 and kids[1] is cur:
                name = ''
                for c in [kids[0]] + list(self.under(kids[0])):
                    if c.get('kind') == 'DeclRefExpr':
                        name = (c.get('referencedDecl') or {}).get('name', '')
                        break
                if name in ('operator=', 'operator+=', 'operator-=', 'operator*=', 'operator/=', 'operator++', 'operator--'):
                    return 'write'
                if name == 'operator[]' and 'map' in qual(cur):
                    return 'write' if 'const' not in qual(cur) else 'read'
                if name in ('operator[]', 'operator*', 'operator->'):
                    cur = p
                    continue
                return 'escape'
            return 'escape'
        return 'escape'

    def atomic_op(self, n, up):
        cur = n
        for p in reversed(up):
            k = p.get('kind')
            if k in PASS:
                cur = p
                continue
            if k == 'MemberExpr':
                return p.get('name')
            if k == 'CXXMemberCallExpr':
                return cur.get('name', 'call')
            if k == 'CXXOperatorCallExpr':
                for c in [sub(p)[0]] + list(self.under(sub(p)[0])):
                    if c.get('kind') == 'DeclRefExpr':
                        return (c.get('referencedDecl') or {}).get('name', 'call')
            return 'other'
        return 'other'

RMW = re.compile(r'^(operator(\+\+|--|\+=|-=|\|=|&=|\^=)|fetch_\w+|exchange|load|operator \w+|operator .*)$')

def functions(ast):
    """Every function definition of the library, templates and instantiations, once per signature."""
    out, seen = [], set()
    for d in ast.docs:
        st = [(d, '')]
        while st:
            n, sc = st.pop()
            if n.get('name') == 'vcdriver':
                continue
            k = n.get('kind')
            if k in FUNCS:
                if any(c.get('kind') in ('CompoundStmt', 'CXXTryStmt') for c in sub(n)) and not n.get('isImplicit'):
                    if n['id'] not in seen:
                        seen.add(n['id'])
                        out.append((sc, n))
                continue
            nm = n.get('_key') or n.get('name') or ''
            for c in sub(n):
                st.append((c, nm if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl') else sc))
    return out

def locals_of(fn):
    r = set()
    def go(n):
        if n.get('kind') in ('VarDecl', 'ParmVarDecl', 'BindingDecl', 'DecompositionDecl') and n.get('storageClass') not in ('static', 'extern') and not n.get('tls'):
            r.add(n.get('id'))
        for c in sub(n):
            go(c)
    go(fn)
    return r

def c22(ctx):
    ast = AST(SECTIONS)
    attempt(ctx, 'frame of every function', lambda: v_frames(ctx, ast))
    attempt(ctx, 'ownership of the value types', lambda: v_owner(ctx, ast))
    for lab, th in readers(ctx, ast):
        guarded(ctx, lab, th)
    # the identity of a new variable is taken from the counter in one step
    for w in ('independent', 'number', 'default'):
        guarded(ctx, 'UReal(%s)' % w, lambda: c_ureal.v_ctor(ctx, ast, w))
    guarded(ctx, 'last_id', lambda: c_ureal.v_counter(ctx, ast))
    for m in c_ureal2.MODES:
        guarded(ctx, 'constructors of UReal2 [%s]' % m, lambda: [c_ureal2.v_ctor2(ctx, ast, m, w, True) for w in c_ureal2.SIG])
    common_assumptions(ctx)
    ctx.assume('the data race rules of the C++ standard: initialisation of function-local statics is synchronised, const member functions of standard containers may run concurrently, one operation on a std::atomic is indivisible')
    ctx.assume('a variable that several threads read is read through const access (the non-const s() and var() of a first-order variable store the standard deviation they compute: they modify the variable)')
    ctx.assume('user callables handed to uunary/ubinary are themselves free of races')
    ctx.assume('functions that touch only objects they own commute with those of other threads, so that the order in which the threads take values of the counter is a sequential order with the same results (meta-argument)')

def v_frames(ctx, ast):
    fns = functions(ast)
    counts = {}
    written = set()
    for sc, fn in fns:
        s = Scan(ast, fn, {'locals': locals_of(fn)})
        label = norm_type((sc + '::' if sc else '') + (fn.get('name') or '')) + norm_type(qual(fn)[qual(fn).find('('):] if '(' in qual(fn) else '')
        c = Case(ctx, ast, label)
        ctx.functions[label] = ctx.functions.get(label, 0) + 1
        soft = s.locks
        det = '; '.join(sorted(set(s.writes)))
        c.flag('assigns nothing with static storage but the atomic counter', not s.writes, det, soft)
        m = [d.get('name') for d, n, up in s.mutwrites if not sync(d)]
        nonconst = not (fn['kind'] == 'CXXMethodDecl' and is_const_method(fn) or any(isconst(q.rstrip('& ')) for q in pquals(fn)))
        if s.mutwrites:
            c.flag('const access assigns no mutable member', not m or nonconst, ', '.join(map(str, m)), soft)
        if s.unclear:
            c.flag('no object escapes the analysis of ownership', False, '; '.join(sorted(set(s.unclear))), True)
        bad = sorted(s.calls & UNSAFE)
        c.flag('calls no library function with hidden shared state', not bad, ', '.join(bad))
        if s.atomics:
            ops = [o for _, o in s.atomics]
            c.flag('each access to an atomic is one indivisible step', all(RMW.match(o or '') for o in ops) and not ('store' in ops or 'operator=' in ops), ', '.join(map(str, ops)), True)
        if s.reads:
            counts.setdefault('reads', []).append((label, sorted(set(s.reads))))
    c = Case(ctx, ast, 'the library')
    c.flag('functions of the library were found', len(fns) > 100, str(len(fns)))
    ctx.vacuity.append('%d function definitions examined' % len(fns))

def sync(d):
    return 'atomic' in qual(d) or LOCKS.search(qual(d))

VALUE = ('UReal<double>', 'UReal<float>', 'UReal2<double,P0>', 'UReal2<double,P1>')
PLAIN = re.compile(r'^(double|float|int|bool|long|unsigned|char|unsigned long|unsigned int|long double|Real|Id|size_t|Prop)$')

def v_owner(ctx, ast):
    todo, seen = list(VALUE), set()
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        c = Case(ctx, ast, k)
        if k not in ast.cls:
            raise Missing('class ' + k)
        for b in ast.cls[k].get('bases', []):
            bk = norm_type(b['type']['qualType'])
            if bk not in ast.cls:
                c.flag('base %s owns its state' % bk, bk.startswith('std::'), '', True)
            else:
                todo.append(bk)
        for f in [x for x in ast.cls[k].get('inner', []) if x.get('kind') == 'FieldDecl']:
            q = (f['type'].get('desugaredQualType') or f['type']['qualType'])
            t = norm_type(q)
            shared = bool(re.search(r'[*&]|shared_ptr|weak_ptr|reference_wrapper|unique_ptr|function<|any\b|_view|span', t))
            c.flag('member %s is owned by the variable' % f['name'], not shared, t, True)
            if f.get('mutable') and not sync(f):
                c.flag('member %s is not mutable' % f['name'], False, t, True)
            for w in re.findall(r'[A-Za-z_][\w:]*(?:<[^<>]*>)?(?:::\w+)*', t):
                for cand in (w, k + '::' + w, 'internal::' + w):
                    if cand in ast.cls and cand not in seen:
                        todo.append(cand)
            for kk in ast.cls:
                if kk not in seen and kk in t and not kk.startswith('lambda'):
                    todo.append(kk)

# ------------------------------------------------------------------ arguments read through const access
OBSERVERS = ('n', 'first_order_n', 'isindep', 'indepid', 's', 'skew', 'kurt', 'grad', 'hess', 'nom', 'sdev', 'var', 'corr', 'all')
NUM = re.compile(r'^(double|int|float|Real|Id)&?$')

def readers(ctx, ast):
    """Functions that receive variables only through const access (or by value): executed, the arguments stay as they were, bit by bit."""
    out, seen = [], set()
    for key in ('UReal<double>', 'UReal2<double,P0>', 'UReal2<double,P1>'):
        for (scope, nm), l in sorted(ast.names.items(), key=lambda t: (str(t[0][0]), str(t[0][1]))):
            for fn in l:
                if fn['kind'] not in ('FunctionDecl', 'CXXMethodDecl', 'CXXConversionDecl') or nm in ('format', 'operator<<') or str(nm).startswith('use_'):
                    continue
                if key != 'UReal<double>' and nm not in OBSERVERS:
                    continue
                meth = fn['kind'] != 'FunctionDecl' and fn.get('_cls') == key and fn.get('storageClass') != 'static'
                if fn['kind'] != 'FunctionDecl' and not meth:
                    continue
                ts = [(norm_type(q), q) for q in pquals(fn)]
                mine = [(t, q) for t, q in ts if t.rstrip('&') == key]
                if not meth and not mine or not all(t.rstrip('&') == key or NUM.match(t) for t, q in ts):
                    continue
                if any('&' in q and 'const' not in q for t, q in ts) or meth and not is_const_method(fn):
                    continue
                lab = '%s %s(%s)%s' % (key, nm, ', '.join(t for t, _ in ts), ' const' * meth)
                if lab in seen or is_uninstantiated(fn):
                    continue
                seen.add(lab)
                out.append((lab, lambda key=key, fn=fn, meth=meth, ts=ts, lab=lab: v_reader(ctx, ast, key, fn, meth, ts, lab)))
    return out

def is_uninstantiated(fn):
    return any('Real' in t and 'UReal' not in t or t in ('Number', 'T') for t in ptypes(fn))

def hk_opaque(ex, fn, this, args):
    """compute_m*, compute_c2: numbers computed from containers they receive by const reference (see the frame of every function)."""
    if all('const' in q for q in pquals(fn) if '&' in q):
        return fresh(R, 'moment')
    return NotImplemented

def v_reader(ctx, ast, key, fn, meth, ts, lab):
    hooks = {n: hk_opaque for n in ('compute_m1', 'compute_m2', 'compute_m3', 'compute_m4', 'compute_mom', 'compute_c2', 'm')}
    c = Case(ctx, ast, lab, hooks=hooks)
    first = key == 'UReal<double>'
    vs = []
    def var():
        nm = 'xyzw'[len(vs)]
        if first:
            (l, u), = c_ureal.two(c, names=(nm,))
        else:
            l, u = c_ureal2.new_u2(c, nm, key[-3:-1])
            if vs:
                c.ex.schemas = c.ex.schemas + [c_ureal2.compat(c_ureal2.hg(vs[0][1]), c_ureal2.hg(u))]
        vs.append((l, u))
        return l
    this = var() if meth else None
    args = []
    for i, (t, q) in enumerate(ts):
        if t.rstrip('&') == key:
            args.append(var())
        elif t.rstrip('&') in ('int', 'Id'):
            args.append(c.ex.alloc(z3.Int('p%d' % i), 'p%d' % i))
        else:
            args.append(c.ex.alloc(z3.Real('p%d' % i), 'p%d' % i))
    for o in c.run(lambda: c.ex.call_body(fn, this, args), must_return=False):
        if o.kind == 'abort':
            continue
        c.at(o)
        for (l, u), q in zip(vs, ([''] if meth else []) + [q for t, q in ts if t.rstrip('&') == key]):
            if not meth and '&' not in q:
                continue
            v = c.ex.load(l)
            if same_value(u, v):
                c.flag('const access leaves the variable as it was, member by member', True)
            elif first:
                k = fresh(I, 'k')
                a, b = u.f['sigma'], v.f['sigma']
                c.goal('const access leaves the variable as it was, member by member', z3.And(u.f['id'] == v.f['id'], u.f['mu'] == v.f['mu'], u.f['sdev'] == v.f['sdev'],
                       a.dom.has((k,)) == b.dom.has((k,)), z3.Implies(a.dom.has((k,)), a.elem((k,)) == b.elem((k,)))), o, keys=[(k,)])
            else:
                c_ureal2.untouched(c, 'const access', u, l, o)
