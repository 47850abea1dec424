"""Formatting (C18): io.hpp and the string functions of impl.hpp, for every mean, deviation, number of digits and separator.

Real arithmetic: pow(10, k) is the k-th power of ten, floor/round/fmod/int() are exact. log10 is not trusted to be exact in
exponent(): its floor may be off by one there. Elsewhere (the choice of the number of digits) it is the exact logarithm."""
import leanck
import ctypes, json, os, sys, tempfile, time
from spec import *
from fmtdom import *
import fmtdom as F
from c_stat import pick_fn
from exec import WIDTH, strip_ref, LoopExit, Abort, Ret, Brk, Cnt, Thr, Infeasible

SECTIONS = ['VC_UREAL', 'VC_CORE', 'VC_IO']
PTS = {'functions': 0}

class Forks:
    """The paths that differ after the first choices are followed by processes of their own."""
    def __init__(self, at, jobs):
        self.at, self.jobs, self.kids, self.path = at, jobs, [], None

    def here(self, ex):
        """In the process made for the rest of this path: True; in the one that made it: False."""
        while sum(1 for k in self.kids if k[1]) >= self.jobs:
            self.wait()
        fd, path = tempfile.mkstemp(prefix='vc_')
        os.close(fd)
        sys.stdout.flush()
        parent = os.getpid()
        pid = os.fork()
        if pid:
            self.kids.append([path, pid])
            return False
        ctypes.CDLL(None).prctl(1, 9)
        if os.getppid() != parent:
            os._exit(1)
        self.path, self.kids = path, []
        ex.forks = None
        ex.obligations = []
        ex.ctx.clear()
        return True

    def wait(self):
        pid, _ = os.wait()
        for k in self.kids:
            if k[1] == pid:
                k[1] = 0

    def finish(self, ctx, label):
        if self.path:
            r = ctx.result()
            r['cputime'] = time.process_time()
            with open(self.path, 'w') as f:
                json.dump(r, f)
            os._exit(0)
        while any(k[1] for k in self.kids):
            self.wait()
        for path, _ in self.kids:
            try:
                ctx.merge(json.load(open(path)))
            except Exception:
                ctx.unsupported.append(dict(function=label, why='the verifier stopped on a group of paths'))
            os.unlink(path)
        self.kids = []

class FExec(Exec):
    logmode = 'exact'
    exact_casts = True
    lazy = False         # feasibility of paths and relations between lengths are decided without the theory of powers

    # ---------------------------------------------------------- prover
    forks = None

    def choose(self, options):
        i = Exec.choose(self, options)
        if self.forks and len(self.todos) == 1 and self.pos == self.forks.at:
            if not self.forks.here(self):
                raise Infeasible()
            self.todos[0].clear()
            self.trail = [(k, []) for k, _ in self.trail]
        return i

    def sat(self, forms):
        if self.lazy:
            return solve(powerless(forms), 3000, 0)[0] != z3.unsat
        return solve(forms, 3000)[0] != z3.unsat

    def entailed(self, g):
        g = simp(g)
        if is_t(g):
            return True
        if is_f(g):
            return False
        if self.lazy and not about(g)[0]:
            return solve(powerless(self.pc) + [z3.Not(g)], 3000, 0)[0] == z3.unsat
        return solve(self.pc + [z3.Not(g)], 3000)[0] == z3.unsat

    def explore(self, thunk):
        """The names of new constants depend on the path only, so that queries common to several paths are asked once."""
        import values
        mark, top = values._n[0], [values._n[0]]
        def again():
            top[0] = max(top[0], values._n[0])
            values._n[0] = mark
            return thunk()
        outs = Exec.explore(self, again)
        values._n[0] = max(top[0], values._n[0])
        return outs

    def decide(self, g, pc=None):
        g = simp(g)
        if is_t(g):
            return 'proved', ''
        pc = self.pc if pc is None else pc
        if not about(g)[0] and solve(powerless(pc) + [z3.Not(g)], 3000, 0)[0] == z3.unsat:
            return 'proved', ''
        pc, sub = self.aligned(pc)
        if sub:
            g = simp(z3.substitute(g, *sub))
        r, m = solve(relevant(pc, g) + [z3.Not(g)], 5000)
        if r != z3.unsat:
            r, m = solve(pc + [z3.Not(g)])
        if r != z3.unsat:
            r, m = solve(pc + [z3.Not(g)], 20000, 3, 3)
        return ('proved' if r == z3.unsat else 'suspect' if r == z3.sat else 'unknown'), ('' if m is None else str(m)[:800])

    def aligned(self, pc):
        """The path with the exponents it fixes replaced by their values, and the replacement."""
        key = tuple(f.get_id() for f in pc)
        if key in self.alignments:
            return self.alignments[key]
        sub, drop = [], set()
        for e1, (ts, guarded_) in self.exps.items():
            # an exponent that the path has fixed is replaced by its value, for terms to align; what holds in either case is of no use otherwise
            for t in ts:
                if solve(powerless(pc) + [z3.Not(e1 == t)], 3000, 0)[0] == z3.unsat:
                    sub.append((e1, t))
                    break
            else:
                drop |= guarded_
        pc = [f for f in pc if f.get_id() not in drop]
        if sub:
            pc = [simp(z3.substitute(f, *sub)) for f in pc]
        for f in pc:
            keep(f)
        self.alignments[key] = pc, sub
        return pc, sub

    def oblige(self, name, goal):
        k = (name, keep(goal), tuple(f.get_id() for f in self.pc))
        if k not in self.asked:
            self.asked.add(k)
            self.obligations.append((name, self.decide(goal)[0]))
        self.assume(goal)

    def do_assert(self, c):
        fn = self.fname(self.frames[-1].fn)
        outs = self.explore(lambda: self.cond(c))
        bad = [o for o in outs if o.kind == 'normal' and o.val is False]
        st = [self.decide(FALSE, o.pc)[0] for o in bad]
        self.obligations.append(('assertion in %s cannot fail' % fn, 'proved' if all(x == 'proved' for x in st) else 'suspect'))
        if all(x == 'proved' for x in st):
            return
        if not self.cond(c):
            raise Abort('assertion in %s' % fn)

    # ---------------------------------------------------------- numbers
    def add(self, *fs):
        self.pc += list(fs)

    def floor_int(self, v):
        """The integer q with q <= v < q + 1."""
        k = intval(v)
        if k is not None:
            return k
        q = const_of('floor', v, I)
        self.add(z3.ToReal(q) <= v, v < z3.ToReal(q) + 1)
        L = lin(v)
        if len(L) == 1:
            ((a, i), c), = L.items()
            if a in F.LOGS and not i and c == 1:
                x = F.LOGS[a]
                if self.logmode == 'exact':
                    self.add(P10(q) <= x, x < P10(q + 1))
                else:
                    self.add(P10(q - 1) <= x, x < P10(q + 2))
        return q

    def trunc_int(self, v):
        k = intval(v)
        if k is not None:
            return k
        return self.floor_int(v) if self.branch(v >= 0) else simp(-self.floor_int(simp(-v)))

    def round_int(self, v):
        k = intval(v)
        if k is not None:
            return k
        if not self.branch(v >= 0):
            # to nearest, halves away from zero: an odd function
            return simp(-self.round_int(simp(-v)))
        q = const_of('round', v, I)
        h = rv('1/2')
        self.add(z3.ToReal(q) - h <= v, v < z3.ToReal(q) + h, q >= 0)
        return q

    def cast(self, n):
        if n.get('castKind') == 'FloatingToIntegral':
            v = self.rv_(self.ev(self.first(n)))
            k = self.trunc_int(v)
            w = WIDTH.get(norm_type(ty(n)))
            if w and const_int(k) is None and not any(a in F.LOGS for f in [v] + [t for t in self.pc if z3.is_app(k) and k.num_args() == 0 and occurs(k, t)] for a in atoms_of(f)):
                lo, hi = (-2**(w[0] - 1), 2**(w[0] - 1) - 1) if w[1] else (0, 2**w[0] - 1)
                self.oblige('conversion to %s in %s: the number fits' % (norm_type(ty(n)), self.fname(self.frames[-1].fn)), z3.And(lo <= k, k <= hi))
            return k
        return Exec.cast(self, n)
    e_ImplicitCastExpr = e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXFunctionalCastExpr = cast

    def libcall(self, name, argn, n, c):
        args = [a for a in argn if a.get('kind') != 'CXXDefaultArgExpr']
        na = len(args)
        ev = lambda i: self.rv_(self.ev(args[i]))
        if name in ('abs', 'fabs', 'labs') and na == 1:
            v = ev(0)
            return v if self.branch(v >= 0) else simp(-v)
        if name in ('floor', 'round', 'trunc', 'ceil') and na == 1:
            v = self.toreal(ev(0))
            k = (self.floor_int(v) if name == 'floor' else self.round_int(v) if name == 'round' else self.trunc_int(v) if name == 'trunc' else
                 simp(-self.floor_int(simp(-v))))
            return simp(z3.ToReal(k))
        if name in ('lround', 'llround') and na == 1:
            return self.round_int(self.toreal(ev(0)))
        if name == 'fmod' and na == 2:
            a, b = self.toreal(ev(0)), self.toreal(ev(1))
            if not (z3.is_rational_value(simp(b)) and not is_t(simp(b == 0))):
                raise Unsupported('fmod')
            return simp(a - b * z3.ToReal(self.trunc_int(simp(a / b))))
        if name == 'log10' and na == 1:
            v = self.toreal(ev(0))
            if not self.entailed(v > 0):
                raise Unsupported('log10 of a number not shown to be positive')
            return const_of('log10', v, R)
        if name == 'pow' and na == 2:
            a, b = self.toreal(ev(0)), ev(1)
            if not is_t(simp(a == 10)):
                raise Unsupported('power of something else than ten')
            k = b if b.sort() == I else intval(b)
            if k is None:
                raise Unsupported('fractional power of ten')
            return P10(k)
        if name == 'to_string' and na == 1:
            v = ev(0)
            if v.sort() != I:
                raise Unsupported('to_string of a real number')
            if self.entailed(z3.And(v >= 0, v <= 9)):
                return StrV([('D', iv(1), simp(z3.ToReal(v)))])
            if self.entailed(v >= 0):
                return StrV([('N', v)])
            raise Unsupported('to_string of a number that may be negative')
        if name in ('isfinite', 'isnan', 'isinf') and na == 1:
            v = self.toreal(ev(0))
            nan, inf = const_of('isnan', v, B), const_of('isinf', v, B)
            self.add(z3.Not(z3.And(nan, inf)))
            return nan if name == 'isnan' else inf if name == 'isinf' else z3.And(z3.Not(nan), z3.Not(inf))
        if name == 'signbit' and na == 1:
            return simp(ev(0) < 0)
        if name == 'reverse' and na == 2:
            a, b = ev(0), ev(1)
            if not (isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'sit' and a[1] == 'begin' and b[1] == 'end' and is_t(a[2].same(b[2]))):
                raise Unsupported('reverse of %s %s' % (a, b))
            s = self.load(a[2])
            out = []
            for x in reversed(s.segs):
                if x[0] in 'DR':
                    out.append(('R' if x[0] == 'D' else 'D',) + x[1:])
                elif x[0] == 'L':
                    out.append(('L', x[1][::-1]))
                else:
                    raise Unsupported('reverse')
            self.put(a[2], self.cat([StrV(out)]))
            return None
        return Exec.libcall(self, name, argn, n, c)

    # ---------------------------------------------------------- strings
    def default(self, t, zero=False, cls=None, val_init=False):
        if 'string' in norm_type(t) and 'stream' not in norm_type(t):
            return StrV()
        return Exec.default(self, t, zero, cls, val_init)

    def e_StringLiteral(self, n):
        import ast
        try:
            return from_text(ast.literal_eval(n['value']))
        except Exception:
            return StrV([('S', 'literal ' + n.get('value', ''))])

    def char(self, ch):
        """One character as a string."""
        c = const_int(ch)
        if c is not None:
            return from_text(chr(c))
        if self.entailed(z3.And(ch >= 48, ch <= 57)):
            return StrV([('D', iv(1), simp(z3.ToReal(ch - 48)))])
        raise Unsupported('unknown character')

    def rep(self, n, ch):
        c = const_int(ch)
        k = const_int(n)
        if c is not None and k is not None and 0 <= k < 64:
            return from_text(chr(c) * k)
        if c == 48:
            if not self.entailed(n >= 0):
                raise Unsupported('negative length')
            return StrV([('D', n, ZERO)])
        raise Unsupported('repetition of a character')

    def empty_seg(self, x):
        if x[0] in 'DR':
            k = const_int(x[1])
            return k == 0 if k is not None else self.entailed(x[1] == 0)
        return x[0] == 'L' and not x[1]

    def cat(self, parts):
        out = []
        for p in parts:
            for x in p.segs:
                if x[0] == 'R' and const_int(x[1]) == 1:
                    x = ('D',) + x[1:]
                if self.empty_seg(x):
                    continue
                if out and out[-1][0] in 'DR' and x[0] in 'DR':
                    y = out[-1]
                    one = const_int(x[1]) == 1
                    if y[0] == 'D' and x[0] == 'D':
                        if is_t(simp(y[2] == 0)):
                            out[-1] = ('D', simp(y[1] + x[1]), x[2])
                        else:
                            out[-1] = ('D', simp(y[1] + x[1]), simp(y[2] * P10(x[1]) + x[2]))
                        continue
                    if y[0] == 'R' and (x[0] == 'R' or one):
                        out[-1] = ('R', simp(y[1] + x[1]), simp(y[2] + x[2] * P10(y[1])))
                        continue
                    if x[0] == 'R' and const_int(y[1]) == 1:
                        out[-1] = ('R', simp(y[1] + x[1]), simp(y[2] + x[2] * P10(y[1])))
                        continue
                if out and out[-1][0] == 'L' and x[0] == 'L':
                    out[-1] = ('L', out[-1][1] + x[1])
                    continue
                out.append(x)
        return StrV(out)

    def seglen(self, x):
        if x[0] in 'DR':
            return x[1]
        if x[0] == 'L':
            return iv(len(x[1].encode()))
        raise Unsupported('length of an unknown string')

    def strlen(self, s):
        return simp(z3.Sum([self.seglen(x) for x in s.segs])) if s.segs else iv(0)

    def split(self, s, pos):
        """(left, right) at position pos."""
        at = iv(0)
        segs = list(s.segs)
        for k in range(len(segs) + 1):
            if self.entailed(pos == at):
                return StrV(segs[:k]), StrV(segs[k:])
            if k == len(segs):
                break
            x = segs[k]
            l = self.seglen(x)
            if self.entailed(z3.And(pos > at, pos < at + l)):
                off = simp(pos - at)
                if x[0] == 'L':
                    o = const_int(off)
                    if o is None:
                        raise Unsupported('position in a text')
                    a, b = ('L', x[1][:o]), ('L', x[1][o:])
                elif x[0] == 'D':
                    p, q = fresh(I, 'hi'), fresh(I, 'lo')
                    r = simp(l - off)
                    self.add(z3.ToReal(p) * P10(r) + z3.ToReal(q) == x[2], p >= 0, q >= 0, z3.ToReal(q) < P10(r), z3.ToReal(p) < P10(off))
                    a, b = ('D', off, simp(z3.ToReal(p))), ('D', r, simp(z3.ToReal(q)))
                else:
                    raise Unsupported('position in reversed digits')
                return StrV(segs[:k] + [a]), StrV([b] + segs[k + 1:])
            if not self.entailed(pos >= at + l):
                # which segment depends on values the path has not fixed yet
                self.branch(simp(pos < at + l))
                return self.split(s, pos)
            at = simp(at + l)
        raise Unsupported('position in a string')

    def container(self, name, base, argn, n):
        v = self.rv_(base)
        if not isinstance(v, StrV):
            return Exec.container(self, name, base, argn, n)
        lv = base if isinstance(base, LV) else None
        args = [self.rv_(self.ev(a)) for a in argn if a.get('kind') != 'CXXDefaultArgExpr']
        if name in ('size', 'length'):
            return self.strlen(v)
        if name == 'empty':
            return simp(self.strlen(v) == 0)
        if lv is None:
            raise Unsupported('string method %s of a temporary' % name)
        if name in ('begin', 'cbegin', 'end', 'cend'):
            return ('sit', name.replace('c', ''), lv)
        if name == 'reserve':
            return None
        if name == 'clear':
            self.put(lv, StrV())
            return None
        if name == 'push_back':
            self.put(lv, self.cat([v, self.char(args[0])]))
            return None
        if name == 'append' or name == 'operator+=':
            self.put(lv, self.cat([v] + self.text(args)))
            return lv
        if name == 'insert':
            pos = args[0]
            rest = args[1:]
            if isinstance(pos, tuple) and pos[0] == 'sit':
                pos = iv(0) if pos[1] == 'begin' else self.strlen(v)
            if not isz(pos):
                raise Unsupported('string insert')
            if len(rest) == 1 and isz(rest[0]):
                t = [self.char(rest[0])]
            else:
                t = self.text(rest)
            a, b = self.split(v, pos)
            self.put(lv, self.cat([a] + t + [b]))
            return lv
        if name == 'pop_back':
            self.put(lv, self.chop(v))
            return None
        raise Unsupported('string method %s' % name)

    def text(self, args):
        """The arguments of append and insert as strings."""
        if len(args) == 1 and isinstance(args[0], StrV):
            return [args[0]]
        if len(args) == 1 and isz(args[0]):
            return [self.char(args[0])]
        if len(args) == 2 and isz(args[0]) and isz(args[1]):
            return [self.rep(args[0], args[1])]
        raise Unsupported('string arguments %s' % (args,))

    def chop(self, s):
        if not s.segs:
            raise Unsupported('pop_back of an empty string')
        x = s.segs[-1]
        if x[0] == 'L' and x[1]:
            return self.cat([StrV(s.segs[:-1] + (('L', x[1][:-1]),))])
        if x[0] == 'D':
            self.oblige('the string has a last character to remove', x[1] >= 1)
            q, r = fresh(I, 'q'), fresh(I, 'r')
            self.add(10 * z3.ToReal(q) + z3.ToReal(r) == x[2], r >= 0, r <= 9, q >= 0, z3.ToReal(q) < P10(x[1] - 1))
            return self.cat([StrV(s.segs[:-1] + (('D', simp(x[1] - 1), simp(z3.ToReal(q))),))])
        raise Unsupported('pop_back')

    def arith(self, op, a, b):
        if isinstance(a, StrV) or isinstance(b, StrV):
            if op == '+':
                return self.cat([a if isinstance(a, StrV) else self.char(a), b if isinstance(b, StrV) else self.char(b)])
            raise Unsupported('string operator %s' % op)
        return Exec.arith(self, op, a, b)

    def e_CXXOperatorCallExpr(self, n):
        inner = [c for c in n['inner'] if c.get('kind')]
        name = (self.callee(inner[0]).get('referencedDecl') or {}).get('name')
        a = inner[1:]
        if name in ('operator+', 'operator+=', 'operator==', 'operator!=') and len(a) == 2 and any('string' in norm_type(ty(x)) for x in a):
            x, y = self.ev(a[0]), self.rv_(self.ev(a[1]))
            if name == 'operator+=':
                self.put(x, self.arith('+', self.load(x), y))
                return x
            return self.arith(name[8:], self.rv_(x), y)
        return Exec.e_CXXOperatorCallExpr(self, n)

    def e_CXXConstructExpr(self, n):
        t = strip_ref(norm_type(ty(n)))
        if 'string' in t and 'stream' not in t and 'iterator' not in t:
            args = [self.rv_(self.ev(a)) for a in n.get('inner', []) if a.get('kind') and a.get('kind') != 'CXXDefaultArgExpr']
            if not args:
                return StrV()
            return self.cat(self.text(args))
        if 'iterator' in t:
            args = [self.rv_(self.ev(a)) for a in n.get('inner', []) if a.get('kind') and a.get('kind') != 'CXXDefaultArgExpr']
            if len(args) == 1 and isinstance(args[0], tuple) and args[0][0] == 'sit':
                return args[0]
            raise Unsupported('iterator of a string')
        return Exec.e_CXXConstructExpr(self, n)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    # ---------------------------------------------------------- the loop over the digits of a number
    def loop(self, cond, body_, inc, node):
        """A loop that moves the last digit of an integer x to the front of the digits collected so far. Invariant, N being the
        initial x, len and w the number of digits and the number they make: x 10^len + w = N, 0 <= w < 10^len, and
        x = 0 and len >= 1 imply w >= 10^(len - 1). x decreases."""
        def once():
            if not self.cond_(cond):
                raise LoopExit()
            body_()
            inc()
        base = dict(self.store)
        ws = set()
        for o in self.explore(once):
            if o.kind == 'normal':
                ws |= {l for l in base if o.store[l] is not base[l] and not (isz(base[l]) and isz(o.store[l]) and base[l].eq(o.store[l])) and not same_str(base[l], o.store[l])}
            elif o.kind not in ('exit',):
                raise Unsupported('loop over digits with %s' % o.kind)
        sl = [l for l in ws if isinstance(base[l], StrV)]
        xl = [l for l in ws if isz(base[l])]
        if len(sl) != 1 or len(xl) != 1 or len(ws) != 2:
            raise Unsupported('loop outside the supported forms')
        sl, xl = sl[0], xl[0]
        if base[sl].segs:
            raise Unsupported('digits appended to a string that is not empty')
        N = base[xl]
        k0 = N if N.sort() == I else intval(N)
        if k0 is None:
            raise Unsupported('digits of a number that is not an integer')
        real = N.sort() == R
        N = z3.ToReal(k0)
        def inv(k, ln, w):
            return [('x 10^len + digits = N', z3.ToReal(k) * P10(ln) + w == N), ('0 <= x', k >= 0), ('0 <= len', ln >= 0), ('0 <= digits', w >= 0), ('digits < 10^len', w < P10(ln)),
                    ('no leading zero', z3.Implies(z3.And(k == 0, ln >= 1), w >= P10(ln - 1)))]
        start = [('the digits of a number: %s holds at first' % nm, self.decide(g)[0]) for nm, g in inv(k0, iv(0), ZERO)]
        best = None
        for kind in 'RD':
            res = list(start)
            k, ln, w = fresh(I, 'x'), fresh(I, 'len'), fresh(I, 'digits')
            pre = [g for _, g in inv(k, ln, z3.ToReal(w))]
            keep_ = (dict(self.store), list(self.pc))
            self.store[xl] = z3.ToReal(k) if real else k
            self.store[sl] = StrV([(kind, ln, z3.ToReal(w))])
            self.pc = self.pc + pre
            try:
                outs = self.explore(once)
                for o in outs:
                    if o.kind == 'exit':
                        continue
                    if o.kind != 'normal':
                        raise Unsupported('loop over digits with %s' % o.kind)
                    for l in keep_[0]:
                        if l not in (sl, xl) and o.store[l] is not self.store[l] and not (isz(o.store[l]) and o.store[l].eq(self.store[l])):
                            raise Unsupported('loop outside the supported forms')
                    x1 = o.store[xl]
                    k1 = x1 if x1.sort() == I else intval(x1)
                    s1 = o.store[sl].segs
                    if k1 is None or len(s1) != 1 or not (s1[0][0] == kind or const_int(s1[0][1]) == 1):
                        res.append(('the digits of a number: one iteration moves one digit', 'suspect'))
                        continue
                    for nm, g in inv(k1, s1[0][1], s1[0][2]):
                        res.append(('the digits of a number: %s is kept' % nm, self.decide(g, o.pc)[0]))
                    res.append(('the digits of a number: x decreases', self.decide(z3.And(k1 >= 0, k1 < k), o.pc)[0]))
            finally:
                self.store, self.pc = keep_
            if best is None or all(r == 'proved' for _, r in res):
                best = (kind, res, k, ln, w, pre)
            if all(r == 'proved' for _, r in res):
                break
        kind, res, k, ln, w, pre = best
        self.obligations += res
        if any(r != 'proved' for _, r in res):
            raise Unsupported('loop over the digits without an invariant')
        self.store[xl] = z3.ToReal(k) if real else k
        self.store[sl] = StrV([(kind, ln, z3.ToReal(w))])
        self.pc = self.pc + pre
        if self.cond_(cond):
            raise Infeasible()

    def cond_(self, cond):
        return cond()

# ------------------------------------------------------------------ cases
def atoms_of(f):
    out, st = set(), [f]
    while st:
        t = st.pop()
        if t.get_id() not in out:
            out.add(t.get_id())
            st += t.children()
    return out

def occurs(c, f):
    return c.get_id() in atoms_of(f)

class FCase(Case):
    def __init__(self, ctx, ast, label, hooks=None):
        Case.__init__(self, ctx, ast, label, hooks)
        self.ex = FExec(ast, hooks or {})
        self.ex.asked = set()
        self.ex.exps = {}
        self.ex.alignments = {}
        self.ex.ctx = ctx

    def goal(self, name, goal, o=None, **kw):
        t = time.time()
        try:
            st, det = self.ex.decide(goal, list(o.pc) if o is not None else None)
        except Unsupported as e:
            st, det = 'unknown', str(e)
        self.ctx.add(name, self.label, st, time.time() - t, '' if st == 'proved' else 'not derivable; %s' % det)
        return st == 'proved'

    def flag(self, name, ok, detail='', soft=True):
        self.ctx.add(name, self.label, 'proved' if ok else 'suspect', 0.0, detail, backend='syntactic')
        return ok

    def run(self, thunk, must_return=True):
        outs = self.ex.explore(thunk)
        for nm, st in self.ex.obligations:
            self.ctx.add(nm, self.label, st)
        for f, k in self.ex.functions.items():
            self.ctx.functions[f] = self.ctx.functions.get(f, 0) + k
        live = [o for o in outs if o.kind in ('normal', 'return')]
        if must_return and not live:
            self.flag('some execution returns', False)
        if live:
            r = solve(live[0].pc, 3000)[0]
            self.ctx.vacuity.append('%s: %d paths, %d returning; a returning path is %s' % (self.label, len(outs), len(live),
                                    {'sat': 'satisfiable', 'unsat': 'UNSATISFIABLE', 'unknown': 'not refuted'}[str(r)]))
        return outs

    def returns(self, name, outs):
        for o in outs:
            if o.kind not in ('normal', 'return'):
                self.flag('%s: every execution returns' % name, False, '%s %s' % (o.kind, o.val))
        return [o for o in outs if o.kind in ('normal', 'return')]

def real_(ex, v):
    v = ex.rv_(v)
    if not isz(v):
        raise Unsupported('number expected')
    return ex.toreal(v)

def int_(ex, v):
    v = ex.rv_(v)
    if not (isz(v) and v.sort() == I):
        raise Unsupported('integer expected')
    return v

def target(ex, v):
    """The object a pointer or reference argument designates."""
    w = ex.rv_(v)
    if isinstance(w, PtrV) and w.lv is not None:
        return w.lv
    if isinstance(v, LV):
        return v
    raise Unsupported('pointer expected')

def magnitude(ex, x):
    return x if ex.branch(x >= 0) else simp(-x)

def bounds(e, a):
    return z3.And(P10(e) <= a, a < P10(e + 1))

HALF = rv('1/2')
def close(a, b, u):
    """|a - b| <= u/2"""
    return z3.And(a - b <= HALF * u, b - a <= HALF * u)

def count(n, lg, fl, nfl):
    """Number of digits of a value whose logarithm is lg (integer part fl) when n are requested."""
    return z3.If(lg - z3.ToReal(fl) < n - z3.ToReal(nfl), nfl + 1, nfl)

# ------------------------------------------------------------------ contracts assumed at calls
def h_exponent(ex, fn, this, args):
    if len(args) != 1:
        return NotImplemented
    x = real_(ex, args[0])
    ex.oblige('the exponent is taken of a number other than zero', x != 0)
    a = magnitude(ex, x)
    e = const_of('exponent', a, I)
    ex.add(bounds(e, a))
    return e

def h_int_mantissa_string(ex, fn, this, args):
    if len(args) != 1:
        return NotImplemented
    x = real_(ex, args[0])
    k = intval(x)
    if k is None:
        raise Unsupported('digits of a number that is not an integer')
    a = magnitude(ex, x)
    l = fresh(I, 'len')
    ex.add(l >= 1, a < P10(l), z3.Or(l == 1, a >= P10(l - 1)))
    return StrV([('D', l, a)])

def h_mantissa(ex, fn, this, args):
    if len(args) != 3:
        return NotImplemented
    x, n, el = real_(ex, args[0]), int_(ex, args[1]), target(ex, args[2])
    E = int_(ex, el)
    a = magnitude(ex, x)
    ex.oblige('mantissa: the exponent is that of the number, or the number is zero and no digit is requested', z3.Or(bounds(E, a), z3.And(x == 0, n < 0)))
    w = fresh(I, 'mant')
    W = z3.ToReal(w)
    u = P10(simp(E - n + 1))
    if ex.branch(n >= 1):
        e1 = fresh(I, 'e')
        u = P10(simp(E - n + 1))
        cases = [z3.Implies(e1 == E, close(W * u, a, u)), z3.Implies(e1 == E + 1, z3.And(close(10 * W * u, a, u), W == P10(n - 1)))]
        ts, drop = ex.exps.setdefault(e1, ([], set()))
        ts += [E, simp(E + 1)]
        drop |= {keep(f) for f in cases}
        ex.add(*cases)
        u = P10(simp(e1 - n + 1))
        ex.add(E <= e1, e1 <= E + 1, close(W * u, a, u), P10(n - 1) <= W, W < P10(n), z3.Implies(a == P10(E), z3.And(e1 == E, W == P10(n - 1))))
        ex.put(el, e1)
        return StrV([('D', n, W)])
    ex.add(close(W * u, a, u), w >= 0, w <= 1, z3.Implies(n < 0, w == 0))
    return StrV([('D', iv(1), W)])

def h_insert_dot(ex, fn, this, args):
    if len(args) != 3:
        return NotImplemented
    sl, n, e = target(ex, args[0]), int_(ex, args[1]), int_(ex, args[2])
    s = ex.load(sl)
    if not (isinstance(s, StrV) and len(s.segs) == 1 and s.segs[0][0] == 'D'):
        raise Unsupported('insert_dot of something else than digits')
    _, l, V = s.segs[0]
    ex.oblige('insert_dot: there are digits', z3.And(l >= 1, V >= 0, V < P10(l)))
    D = simp(n - 1 - e)
    if ex.branch(D <= 0):
        return None
    a, b = fresh(I, 'int'), fresh(I, 'dec')
    A, Bv = z3.ToReal(a), z3.ToReal(b)
    ex.add(A * P10(D) + Bv == V, a >= 0, b >= 0, Bv < P10(D))
    if ex.branch(l - D >= 1):
        la = simp(l - D)
        ex.add(A < P10(la), z3.Implies(V >= P10(l - 1), A >= P10(la - 1)))
    else:
        la = iv(1)
        ex.add(a == 0)
    ex.put(sl, StrV([('D', la, A), ('L', '.'), ('D', D, Bv)]))
    return None

def h_format_exp(ex, fn, this, args):
    if len(args) != 1:
        return NotImplemented
    return StrV([('E', int_(ex, args[0]))])

def h_tostring(ex, fn, this, args):
    if len(args) != 1:
        return NotImplemented
    return StrV([('T', real_(ex, args[0]))])

def h_ndigits(ex, fn, this, args):
    if len(args) != 2:
        return NotImplemented
    xl, n = target(ex, args[0]), real_(ex, args[1])
    x = real_(ex, xl)
    ex.oblige('ndigits: the deviation is positive and more than one digit is requested', z3.And(x > 0, n > 1))
    fl = ex.floor_int(n)
    lg = const_of('log10', x, R)
    lf = ex.floor_int(lg)
    E = const_of('exponent', x, I)
    ex.add(bounds(E, x))
    nd = fresh(I, 'ndig')
    ex.nd = nd
    if ex.choose([TRUE, TRUE]) == 0:
        ex.add(nd == count(n, lg, lf, fl))
    else:
        y = P10(simp(E + 1))
        ex.add(nd == fl + 1, count(n, lg, lf, fl) == fl, z3.ToReal(fl) < n, y > x, y - x <= HALF * P10(simp(E + 2 - nd)))
        ex.put(xl, y)
    return nd

HOOKS = dict(exponent=h_exponent, int_mantissa_string=h_int_mantissa_string, mantissa=h_mantissa, insert_dot=h_insert_dot,
             format_exp=h_format_exp, tostring=h_tostring, ndigits=h_ndigits)

def hooks_but(*names):
    return {k: v for k, v in HOOKS.items() if k not in names}

# ------------------------------------------------------------------ the functions
def v_exponent(ctx, ast):
    fn = pick_fn(ast, 'exponent', 'double', 1)
    c = FCase(ctx, ast, 'exponent', {})
    c.ex.logmode = 'weak'
    x = z3.Real('x')
    c.ex.pc.append(x != 0)
    for o in c.returns('exponent', c.run(lambda: c.ex.call_body(fn, None, [c.ex.alloc(x, 'x')]))):
        e = c.ex.rv_(o.val)
        c.goal('exponent: 10^e <= |x| < 10^(e+1)', z3.Or(z3.And(x > 0, bounds(e, x)), z3.And(x < 0, bounds(e, -x))), o)

def v_string(ctx, ast):
    fn = pick_fn(ast, 'int_mantissa_string', 'double', 1)
    c = FCase(ctx, ast, 'int_mantissa_string', hooks_but('int_mantissa_string'))
    k = z3.Int('k')
    for o in c.returns('int_mantissa_string', c.run(lambda: c.ex.call_body(fn, None, [z3.ToReal(k)]))):
        s = c.ex.rv_(o.val)
        if not c.flag('int_mantissa_string: returns digits', isinstance(s, StrV) and len(s.segs) == 1 and s.segs[0][0] == 'D', repr(s)[:200]):
            continue
        _, l, V = s.segs[0]
        a = z3.ToReal(k)
        c.goal('int_mantissa_string: the digits make |x|', z3.Or(z3.And(k >= 0, V == a), z3.And(k < 0, V == -a)), o)
        c.goal('int_mantissa_string: at least one digit, as many as needed', z3.And(l >= 1, V < P10(l)), o)
        c.goal('int_mantissa_string: no leading zero', z3.Or(l == 1, V >= P10(l - 1)), o)

def v_mantissa(ctx, ast):
    fn = pick_fn(ast, 'mantissa', 'double', 3)
    for case in ('a positive number and its exponent', 'a negative number and its exponent', 'zero, no digit'):
        c = FCase(ctx, ast, 'mantissa (%s)' % case, hooks_but('mantissa'))
        x, n, E = z3.Real('x'), z3.Int('n'), z3.Int('E')
        if case[0] == 'a':
            c.ex.pc += [x > 0, bounds(E, x)]
            a = x
            if 'negative' in case:
                x = -a
        else:
            c.ex.pc += [n < 0]
            a = x = ZERO
        el = c.ex.alloc(E, 'e')
        lx = c.ex.alloc(x, 'x')
        for o in c.returns('mantissa', c.run(lambda: c.ex.call_body(fn, None, [lx, n, PtrV(el)]))):
            s = c.ex.rv_(o.val)
            if not c.flag('mantissa: returns digits', isinstance(s, StrV) and len(s.segs) == 1 and s.segs[0][0] == 'D', repr(s)[:200]):
                continue
            _, l, V = s.segs[0]
            e1 = o.store[el.loc]
            u = P10(E - n + 1)
            d = simp(e1 - E)
            same, more = d == 0, d == 1
            near = lambda v: close(v * u, a, u)
            c.goal('mantissa: the exponent grows by at most one', z3.Or(same, more), o)
            c.goal('mantissa: the digits are the number rounded to the last of them', z3.Implies(same, near(V)), o)
            c.goal('mantissa: also when rounding carries into a new digit', z3.Implies(more, z3.And(n >= 1, near(10 * V), V == P10(n - 1))), o)
            c.goal('mantissa: as many digits as requested, the first not zero', z3.Implies(n >= 1, z3.And(l == n, P10(n - 1) <= V, V < P10(n))), o)
            c.goal('mantissa: a power of ten is shown exactly', z3.Implies(z3.And(n >= 1, a == P10(E)), z3.And(same, V == P10(n - 1))), o)
            v = P10(e1 - n + 1)
            c.goal('mantissa: the digits are the number rounded, with the exponent returned', close(V * v, a, v), o)
            c.goal('mantissa: one digit when none is requested', z3.Implies(n < 1, z3.And(l == 1, same, z3.Or(V == 0, V == 1), z3.Implies(n < 0, V == 0))), o)

def v_dot(ctx, ast):
    fn = None
    for (sc, nm), l in ast.names.items():
        if nm == 'insert_dot':
            fn = l[0]
    if fn is None:
        raise Missing('insert_dot')
    c = FCase(ctx, ast, 'insert_dot', hooks_but('insert_dot'))
    l, V, n, e = z3.Int('len'), z3.Int('V'), z3.Int('n'), z3.Int('e')
    Vr = z3.ToReal(V)
    # lengths and int parameters are those of machine integers (sums and differences of them are mathematical)
    c.ex.pc += [l >= 1, V >= 0, Vr < P10(l), l < 2**31] + [z3.And(-2**31 <= q, q < 2**31) for q in (n, e)]
    sl = c.ex.alloc(StrV([('D', l, Vr)]), 's')
    D = n - 1 - e
    for o in c.returns('insert_dot', c.run(lambda: c.ex.call_body(fn, None, [PtrV(sl), n, e]))):
        s = o.store[sl.loc]
        if len(s.segs) == 1 and s.segs[0][0] == 'D':
            c.goal('insert_dot: no dot only when no digit follows it', D <= 0, o)
            c.goal('insert_dot: digits kept', z3.And(s.segs[0][1] == l, s.segs[0][2] == Vr), o)
            continue
        if not c.flag('insert_dot: digits, a dot, digits', len(s.segs) == 3 and [x[0] for x in s.segs] == ['D', 'L', 'D'] and s.segs[1][1] == '.', repr(s)[:200]):
            continue
        (_, la, A), _, (_, lb, Bv) = s.segs
        c.goal('insert_dot: n - 1 - e digits follow the dot', z3.And(lb == D, D >= 1), o)
        c.goal('insert_dot: the digits make the number', z3.And(A * P10(D) + Bv == Vr, A >= 0, Bv >= 0, Bv < P10(D)), o)
        c.goal('insert_dot: one zero or digits without a leading zero before the dot',
               z3.Or(z3.And(l - D >= 1, la == l - D, A < P10(la), z3.Implies(Vr >= P10(l - 1), A >= P10(la - 1))), z3.And(l - D < 1, la == 1, A == 0)), o)

def v_exp(ctx, ast):
    fn = None
    for (sc, nm), l in ast.names.items():
        if nm == 'format_exp':
            fn = l[0]
    if fn is None:
        raise Missing('format_exp')
    c = FCase(ctx, ast, 'format_exp', hooks_but('format_exp'))
    e = z3.Int('e')
    for o in c.returns('format_exp', c.run(lambda: c.ex.call_body(fn, None, [e]))):
        s = c.ex.rv_(o.val).segs
        sign = s[0][1] if s and s[0][0] == 'L' else ''
        num = s[1] if len(s) == 2 else s[0] if s and len(s) == 1 else None
        v = num[1] if num is not None and num[0] == 'N' else None
        if num is not None and num[0] == 'D' and intval(num[2]) is not None:
            v = intval(num[2])
        if not c.flag('format_exp: a sign and an integer', sign in ('+', '-') and v is not None, repr(s)[:200]):
            continue
        c.goal('format_exp: the sign and the size of the exponent', (v if sign == '+' else -v) == e, o)

def plain(c, o, s):
    """(integer part, decimals) of digits[.digits] at the head of s: (value V without the dot, D, rest, form) or None."""
    if not s or s[0][0] != 'D':
        return None
    _, la, A = s[0]
    if len(s) >= 3 and s[1][0] == 'L' and s[1][1][:1] == '.' and s[2][0] == 'D' and s[1][1] == '.':
        _, lb, Bv = s[2]
        return A * P10(lb) + Bv, lb, s[3:], z3.And(la >= 1, z3.Or(la == 1, A >= P10(la - 1)), lb >= 1, A >= 0, Bv >= 0, Bv < P10(lb), A < P10(la))
    return A, iv(0), s[1:], z3.And(la >= 1, A >= 0, A < P10(la), z3.Or(la == 1, A >= P10(la - 1)))

def v_tostring(ctx, ast):
    fn = pick_fn(ast, 'tostring', 'double', 1)
    c = FCase(ctx, ast, 'tostring', hooks_but('tostring'))
    x = z3.Real('x')
    lx = c.ex.alloc(x, 'x')
    nan, inf = const_of('isnan', x, B), const_of('isinf', x, B)
    for o in c.returns('tostring', c.run(lambda: c.ex.call_body(fn, None, [lx]))):
        s = c.ex.rv_(o.val)
        if not c.flag('tostring: a string of known form', isinstance(s, StrV)):
            continue
        s = list(s.segs)
        if len(s) == 1 and s[0][0] == 'L':
            t = s[0][1]
            cnd = {'nan': nan, 'inf': z3.And(inf, x > 0), '-inf': z3.And(inf, z3.Not(x > 0))}.get(t)
            if c.flag('tostring: nan, inf or -inf', cnd is not None, t):
                c.goal('tostring: %s only for such a number' % t, cnd, o)
            continue
        c.goal('tostring: digits only for a finite number', z3.And(z3.Not(nan), z3.Not(inf)), o)
        neg = bool(s) and s[0][0] == 'L' and s[0][1] == '-'
        if neg:
            s = s[1:]
        p = plain(c, o, s)
        if not c.flag('tostring: [-]digits[.digits][e exponent]', p is not None and (not p[2] or (len(p[2]) == 2 and p[2][0] == ('L', 'e') and p[2][1][0] == 'E')), repr(s)[:300]):
            continue
        V, D, rest, form = p
        E = rest[1][1] if rest else iv(0)
        c.goal('tostring: a minus sign for negative numbers only', (x < 0) if neg else (x >= 0), o)
        c.goal('tostring: well formed', form, o)
        u = P10(E - D)
        a = -x if neg else x
        if solve(o.pc + [x != 0], 3000)[0] == z3.unsat:
            c.goal('tostring: zero is 0', z3.And(V == 0, D == 0, E == 0), o)
            continue
        c.goal('tostring: x rounded to the last digit shown', close(V * u, a, u), o)
        c.goal('tostring: six significant digits', z3.And(x != 0, V >= P10(5), V < P10(6)), o)

def v_ndigits(ctx, ast):
    fn = pick_fn(ast, 'ndigits', 'double', 2)
    c = FCase(ctx, ast, 'ndigits', hooks_but('ndigits'))
    x, n = z3.Real('x'), z3.Real('n')
    c.ex.pc += [x > 0, n > 1, n < 2**31]
    xl = c.ex.alloc(x, 'x')
    ex = c.ex
    E = const_of('exponent', x, I)
    lg = const_of('log10', x, R)
    def facts_():
        ex.add(bounds(E, x))
        return ex.floor_int(n), ex.floor_int(lg)
    box = []
    def thunk():
        box[:] = facts_()
        return ex.call_body(fn, None, [PtrV(xl), n])
    for o in c.returns('ndigits', c.run(thunk)):
        fl, lf = box
        nd = ex.rv_(o.val)
        y = o.store[xl.loc]
        cnt = count(n, lg, lf, fl)
        c0 = fl if solve(o.pc + [cnt != fl], 3000)[0] == z3.unsat else fl + 1 if solve(o.pc + [cnt != fl + 1], 3000)[0] == z3.unsat else None
        if y.eq(x):
            c.goal('ndigits: the digits requested for this mantissa', nd == cnt, o)
            # a carry to a power of ten, which deserves more digits, is not left out
            if c0 is not None:
                top = P10(E + 1)
                c.goal('ndigits: a number that rounds to a power of ten counts as it', z3.Not(z3.And(c0 == fl, z3.ToReal(fl) < n, x < top, top - x < HALF * P10(E + 1 - c0))), o)
            continue
        c.goal('ndigits: replaced only by the power of ten above, to which it rounds', z3.And(y == P10(E + 1), y > x, y - x <= HALF * P10(E + 2 - nd)), o)
        c.goal('ndigits: replaced only if that takes one digit more', z3.And(nd == fl + 1, cnt == fl, z3.ToReal(fl) < n), o)

def v_format(ctx, ast, key):
    forks = Forks(13, 8)
    attempt(ctx, 'format(%s)' % key, lambda: v_format_(ctx, ast, key, forks))
    forks.finish(ctx, 'format(%s)' % key)

def v_format_(ctx, ast, key, forks):
    fn = pick_fn(ast, 'format', key, 3)
    dev = key != 'double'
    MU, S0 = z3.Real('mu'), (z3.Real('s') if dev else ZERO)
    hk = dict(HOOKS)
    hk['nom'] = lambda ex, fn, this, args: MU
    hk['sdev'] = lambda ex, fn, this, args: S0
    c = FCase(ctx, ast, 'format(%s)' % key, hk)
    ex = c.ex
    ex.lazy = True
    ex.forks = forks
    ex.maxpaths = 5000
    n = z3.Real('errdig')
    ex.pc += [n < 2**31, n > -2**31] + ([S0 >= 0] if dev else [])
    lx = ex.alloc(StructV('arg', {}), 'x')
    sep = ex.alloc(StrV([('S', 'sep')]), 'sep')
    fin = [z3.Not(const_of(w, v, B)) for w in ('isnan', 'isinf') for v in (MU, S0)]
    finite = z3.And(*fin)
    outs = c.run(lambda: ex.call_body(fn, None, [lx, n, sep]), must_return=False)
    for o in outs:
        if o.kind == 'throw':
            c.goal('format: throws only if one digit or fewer is requested', n <= 1, o)
            c.flag('format: throws std::invalid_argument', 'invalid_argument' in str(o.val), str(o.val))
            continue
        if not c.flag('format: returns or throws', o.kind in ('normal', 'return'), '%s %s' % (o.kind, o.val)):
            continue
        c.goal('format: throws if one digit or fewer is requested', n > 1, o)
        s = ex.rv_(o.val)
        if not c.flag('format: a string of known form', isinstance(s, StrV)):
            continue
        s = list(s.segs)
        if [x[0] for x in s] == ['T', 'S', 'T']:
            c.flag('format: the mean, the separator, the deviation', s[0][1].eq(MU) and s[1][1] == 'sep' and simp(s[2][1] == S0) is not None and s[2][1].eq(S0), repr(s)[:200])
            c.goal('format: numbers without digits in common only if the deviation is zero or something is not finite', z3.Or(S0 == 0, z3.Not(finite)), o)
            continue
        c.goal('format: aligned numbers only if all is finite and the deviation is not zero', z3.And(S0 != 0, finite), o)
        exp = None
        t = list(s)
        if t and t[0][0] == 'L' and t[0][1].startswith('('):
            t[0] = ('L', t[0][1][1:])
            t = [x for x in t if x != ('L', '')]
            if not c.flag('format: the common exponent ends the string', len(t) >= 2 and t[-1][0] == 'E' and t[-2] == ('L', ')e'), repr(s)[:300]):
                continue
            exp = t[-1][1]
            t = t[:-2]
        neg = bool(t) and t[0] == ('L', '-')
        if neg:
            t = t[1:]
        p = plain(c, o, t)
        q = plain(c, o, p[2][1:]) if p is not None and p[2] and p[2][0] == ('S', 'sep') else None
        if not c.flag('format: [(][-]digits[.digits] separator digits[.digits][)e exponent]', q is not None and not q[2], repr(s)[:400]):
            continue
        VM, DM, _, fm = p
        VS, DS, _, fs = q
        E = exp if exp is not None else iv(0)
        u = P10(E - DS)
        c.goal('format: mean and deviation have the same number of decimals', DM == DS, o)
        c.goal('format: the mean is well formed', fm, o)
        c.goal('format: the deviation is well formed', fs, o)
        c.goal('format: a minus sign for a negative mean only', (MU < 0) if neg else (MU >= 0), o)
        c.goal('format: the mean is rounded to the digits shown', close(VM * u, -MU if neg else MU, u), o)
        c.goal('format: the deviation is rounded to the digits shown', close(VS * u, S0, u), o)
        if c.flag('format: the number of digits is decided by ndigits', hasattr(ex, 'nd')):
            nd = [x for x in F_consts(o.pc, 'ndig')]
            c.flag('format: the number of digits is decided once', len(nd) == 1)
            if len(nd) == 1:
                c.goal('format: the deviation has that many significant digits', z3.And(P10(nd[0] - 1) <= VS, VS < P10(nd[0])), o)

def F_consts(pc, prefix):
    seen, out, st = set(), {}, list(pc)
    while st:
        f = st.pop()
        if f.get_id() in seen:
            continue
        seen.add(f.get_id())
        if z3.is_const(f) and f.decl().kind() == z3.Z3_OP_UNINTERPRETED and f.decl().name().split('!')[0] == prefix:
            out[f.decl().name()] = f
        st += f.children()
    return list(out.values())

def c18(ctx):
    ctx.limit = max(ctx.limit, 560)
    ast = AST(SECTIONS)
    leanck.lemmas(ctx, 'pow10')
    for key in ('UReal<double>', 'double'):
        guarded(ctx, 'format(%s)' % key, lambda key=key: v_format(ctx, ast, key))
    for name, f in (('exponent', v_exponent), ('int_mantissa_string', v_string), ('mantissa', v_mantissa), ('insert_dot', v_dot), ('format_exp', v_exp),
                    ('tostring', v_tostring), ('ndigits', v_ndigits)):
        guarded(ctx, name, lambda f=f: f(ctx, ast))
    ctx.assume('C18: real arithmetic; pow(10, k) is exactly the k-th power of ten and no scaled number overflows (recorded findings: the extremes where it does)')
    ctx.assume('C18: fewer than 2^31 digits are requested, and decimal exponents of numbers fit an int')
    ctx.assume('C18: log10 is exact where it chooses the number of digits; where it chooses the exponent its floor may be off by one')
    ctx.assume('C18: std::string operations (insert, push_back, pop_back, +, std::reverse, std::to_string of integers) by their standard contracts')
