"""Contracts: running the executor on one function and discharging its postconditions."""
import json, os, re, signal, sys, tempfile, time, traceback
import z3
from values import *
from cast import AST, ty, tyq, params, body, norm_type, ExtractError
import exec as X
from exec import Exec, Outcome
import prove as P
import cross
from prove import prove, mksum, Schema, SQRT, entails

class Missing(Unsupported):
    pass

class Ctx:
    def __init__(self, prop, thorough=False):
        self.prop, self.thorough = prop, thorough
        self.obs = []
        self.unsupported = []
        self.functions = {}
        self.assumptions = []
        self.trusted = []
        self.vacuity = []
        self.drops = ['nothing is rewritten: the executor walks clang\'s AST of the instantiated templates; it ignores string '
                      'formatting of exception messages, noexcept and inline specifiers, and the value of evaluation-order '
                      'choices the standard leaves open']
        self.only = None
        self.parallel = int(os.environ.get('VC_JOBS', '6'))
        self.limit = 1200 if thorough else 200
        self.children = []
        self.cpu = 0.0
        self.cross = {}

    def clear(self):
        self.obs, self.unsupported, self.functions, self.vacuity, self.children = [], [], {}, [], []
        self.cross = {}
        cross.reset()

    def merge(self, r):
        self.obs += r['obligations']
        self.unsupported += r['unsupported']
        for f in r['functions']:
            self.functions[f] = self.functions.get(f, 0) + 1
        self.vacuity += r['vacuity']
        self.cpu += r.get('cputime', 0)
        for k, v in r.get('cross', {}).items():
            self.cross[k] = self.cross.get(k, 0) + v
        for a in r['assumptions']:
            self.assume(a)
        for a in r['trusted']:
            self.trust(a)

    def add(self, name, fn, status, t=0.0, detail='', values=(), backend='z3'):
        self.obs.append(dict(name=name, function=fn, status=status, time=round(t, 3), backend=backend, detail=detail, values=list(values)))

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)

    def trust(self, s):
        if s not in self.trusted:
            self.trusted.append(s)

    def result(self):
        return dict(obligations=self.obs, unsupported=self.unsupported, assumptions=self.assumptions, trusted=self.trusted,
                    functions=sorted(self.functions), vacuity=self.vacuity, drops=self.drops,
                    cross={k: v + self.cross.get(k, 0) for k, v in cross.STATS.items()})

def model_values(m):
    out = []
    if m is None:
        return out
    for d in m.decls():
        if d.arity() == 0:
            v = m[d]
            try:
                if z3.is_rational_value(v):
                    x = float(v.as_fraction())
                    if abs(x) < 1e6 and x not in out:
                        out.append(x)
            except Exception:
                pass
    return out[:20]

def model_text(m, limit=1200):
    if m is None:
        return ''
    try:
        return str(m)[:limit]
    except Exception:
        return ''

class Case:
    """One function under contract in one scenario."""
    def __init__(self, ctx, ast, label, hooks=None, schemas=(), setup_pc=()):
        self.ctx, self.ast, self.label = ctx, ast, label
        self.ex = Exec(ast, hooks or {})
        self.ex.ctx = ctx
        self.ex.schemas = list(schemas)
        self.ex.pc = list(setup_pc)
        self.failed = False

    def at(self, o):
        ex = self.ex
        ex.store, ex.pc, ex.schemas = dict(o.store), list(o.pc), list(o.schemas)
        ex.ids = list(o.ids)

    def goal(self, name, goal, o=None, keys=(), timeout=None, extra=()):
        """One obligation: goal holds on the path o."""
        pc = list(o.pc) if o is not None else list(self.ex.pc)
        sch = list(o.schemas) if o is not None else list(self.ex.schemas)
        t = time.time()
        r = prove(pc + list(extra), goal, sch, keys=list(keys) + list(self.ex.keys), timeout=timeout)
        dt = time.time() - t
        det = '' if r.status == 'proved' else 'not derivable from the path %s%s' % (
            [str(simp(x))[:120] for x in pc[:12]], '; countermodel: ' + model_text(r.model) if r.model is not None else '')
        self.ctx.add(name, self.label, r.status, dt, det, model_values(r.model))
        return r.status == 'proved'

    def flag(self, name, ok, detail='', soft=False):
        """An obligation decided structurally; soft: another form of the code could be right too."""
        self.ctx.add(name, self.label, 'proved' if ok else 'unknown' if soft else 'refuted', 0.0, detail, backend='syntactic')
        return ok

    def run(self, thunk, must_return=True):
        n0 = len(self.ex.obligations)
        outs = self.ex.explore(thunk)
        for nm, st in self.ex.obligations[n0:]:
            self.ctx.add(nm, self.label, st)
        for f, k in self.ex.functions.items():
            self.ctx.functions[f] = self.ctx.functions.get(f, 0) + k
        live = [o for o in outs if o.kind in ('normal', 'return')]
        if must_return and not live:
            self.ctx.add('some execution returns (the precondition is not vacuous)', self.label, 'refuted', detail='no path returns')
        if live:
            r, m = P.check(list(live[0].pc), 3000)
            self.ctx.vacuity.append('%s: %d paths, %d returning; a returning path is %s' % (
                self.label, len(outs), len(live), {'sat': 'satisfiable', 'unsat': 'UNSATISFIABLE', 'unknown': 'not refuted'}[str(r)]))
        return outs

def guarded(ctx, label, thunk):
    """Runs one contract in a process of its own; a construct out of reach makes the function a bounded stand-in."""
    if not ctx.parallel:
        return attempt(ctx, label, thunk)
    while sum(1 for t in ctx.children if t[1] is not None) >= ctx.parallel:
        reap(ctx)
    fd, path = tempfile.mkstemp(prefix='vc_')
    os.close(fd)
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            ctx.parallel = 0
            ctx.clear()
            attempt(ctx, label, thunk)
            r = ctx.result()
            r['cputime'] = time.process_time()
            with open(path, 'w') as f:
                json.dump(r, f)
        finally:
            os._exit(0)
    ctx.children.append([label, pid, path, time.time()])

def reap(ctx):
    while True:
        for t in ctx.children:
            if t[1] is None:
                continue
            p, _ = os.waitpid(t[1], os.WNOHANG)
            if p:
                t[1] = None
                return
            if time.time() - t[3] > ctx.limit:
                os.kill(t[1], signal.SIGKILL)
                os.waitpid(t[1], 0)
                t[1] = None
                open(t[2], 'w').close()
                return
        time.sleep(0.02)

def join(ctx):
    while any(t[1] is not None for t in ctx.children):
        reap(ctx)
    for label, _, path, _ in ctx.children:
        try:
            r = json.load(open(path))
        except Exception:
            ctx.unsupported.append(dict(function=label, why='the verifier ran out of time or stopped on this function'))
            r = None
        os.unlink(path)
        if r:
            ctx.merge(r)
    ctx.children = []

def attempt(ctx, label, thunk):
    try:
        thunk()
    except (Unsupported, ExtractError) as e:
        ctx.unsupported.append(dict(function=label, why=str(e)[:300]))
    except z3.Z3Exception as e:
        ctx.unsupported.append(dict(function=label, why='solver interface: ' + str(e)[:300] + traceback.format_exc()[-500:]))
    except RecursionError:
        ctx.unsupported.append(dict(function=label, why='recursion limit'))
    except Exception as e:
        ctx.unsupported.append(dict(function=label, why='verifier error: %s %s' % (e, traceback.format_exc()[-700:])))

def overloads(ast, cls, name):
    r = ast.names.get((cls, name), [])
    out, seen = [], set()
    for f in r:
        k = (f['type']['qualType'], bool(f.get('storageClass')))
        if k in seen:
            continue
        seen.add(k)
        out.append(f)
    return out

def pick(ast, cls, name, pred=None):
    l = [f for f in overloads(ast, cls, name) if pred is None or pred(f)]
    if not l:
        raise Missing('%s::%s is not in the source in the expected form' % (cls, name))
    return l[0]

def ptypes(fn):
    return [norm_type(p['type']['qualType']) for p in params(fn)]

def pquals(fn):
    return [p['type']['qualType'] for p in params(fn)]

def is_const_method(fn):
    return fn['type']['qualType'].rstrip().replace(' noexcept', '').endswith('const')

def same_value(a, b):
    """Structural identity of two stored values."""
    import loops
    return not loops.diff(a, b)
