"""Machine-checked lemmas: statements generated from the tables of this verifier, proofs in vc/lean, checked by Lean with Mathlib."""
import os, re, shutil, subprocess, tempfile, time
import z3
HERE = os.path.dirname(os.path.abspath(__file__))
NAME = {'asin': 'Real.arcsin', 'acos': 'Real.arccos', 'atan': 'Real.arctan', 'asinh': 'Real.arsinh', 'acosh': 'Real.arcosh', 'atanh': 'Real.artanh'}
for _n in ('sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh'):
    NAME[_n] = 'Real.' + _n
for _n in ('exp2', 'expm1', 'log10', 'log2', 'log1p', 'cbrt', 'erf', 'erfc', 'hypot', 'atan2', 'fmod', 'remainder', 'trunc', 'round'):
    NAME[_n] = 'UC.' + _n

class NoLean(Exception):
    pass

def term(e):
    """A z3 term as Lean text."""
    k = e.decl().kind()
    c = [term(x) for x in e.children()]
    if z3.is_rational_value(e):
        f = e.as_fraction()
        return '(%d : ℝ)' % f.numerator if f.denominator == 1 else '(%d / %d : ℝ)' % (f.numerator, f.denominator)
    if k == z3.Z3_OP_ADD:
        return '(' + ' + '.join(c) + ')'
    if k == z3.Z3_OP_SUB:
        return '(' + ' - '.join(c) + ')'
    if k == z3.Z3_OP_UMINUS:
        return '(-%s)' % c[0]
    if k == z3.Z3_OP_MUL:
        return '(' + ' * '.join(c) + ')'
    if k == z3.Z3_OP_DIV:
        return '(%s / %s)' % tuple(c)
    if k == z3.Z3_OP_ITE:
        return '(if %s then %s else %s)' % tuple(c)
    if k in (z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_EQ):
        o = {z3.Z3_OP_GE: '≥', z3.Z3_OP_GT: '>', z3.Z3_OP_LE: '≤', z3.Z3_OP_LT: '<', z3.Z3_OP_EQ: '='}[k]
        return '(%s %s %s)' % (c[0], o, c[1])
    if k == z3.Z3_OP_DISTINCT and len(c) == 2:
        return '(%s ≠ %s)' % tuple(c)
    if k == z3.Z3_OP_NOT:
        return '(¬ %s)' % c[0]
    if k == z3.Z3_OP_IMPLIES:
        return '(%s → %s)' % tuple(c)
    if k == z3.Z3_OP_TRUE:
        return 'True'
    if k == z3.Z3_OP_OR:
        return '(' + ' ∨ '.join(c) + ')'
    if k == z3.Z3_OP_AND:
        return '(' + ' ∧ '.join(c) + ')'
    if k == z3.Z3_OP_IS_INT:
        return '(∃ k : ℤ, (k : ℝ) = %s)' % c[0]
    if k == z3.Z3_OP_UNINTERPRETED:
        n = e.decl().name()
        if n == 'pi' and not c:
            return 'Real.pi'
        if not c:
            return n
        if n == 'pow':
            return '(%s ^ %s)' % tuple(c)
        if n in NAME:
            return '(%s %s)' % (NAME[n], ' '.join(c))
    raise NoLean('no Lean text for %s' % e.decl())

def statements():
    """[(name, statement)]: the derivative table of c_math.py."""
    import c_math
    out = []
    for nm, rows in c_math.table().items():
        for i, (case, dom, f, dx, dy, dxx, dyy, dxy) in enumerate(rows):
            if case.startswith('zero base'):
                import c_math as m
                p = z3.Function('pow', *[z3.RealSort()] * 3)
                q = [('v', None, p(m.X_, m.Y_), f), ('dx', 'x', p(m.X_, m.Y_), dx), ('dxx', 'x', m.Y_ * p(m.X_, m.Y_ - 1), dxx)]
            else:
                q = [('dx', 'x', f, dx), ('dy', 'y', f, dy), ('dxx', 'x', dx, dxx), ('dyy', 'y', dy, dyy), ('dxy', 'y', dx, dxy)]
            hyp = ' '.join('(h%d : %s)' % (j, term(d)) for j, d in enumerate(dom))
            for tag, v, g, d in q:
                if d is None or g is None:
                    continue
                two = dy is not None or case
                name = '%s%s_%s' % (nm, i or '', tag)
                if v is None:
                    out.append((name, '(x y : ℝ) %s : %s = %s' % (hyp, term(g), term(d))))
                    continue
                out.append((name, '(x%s : ℝ) %s : HasDerivAt (fun %s : ℝ => %s) %s %s' % (' y' if two else '', hyp, v, term(g), term(d), v)))
    return out


# ------------------------------------------------------------------ the identities of ident.py
def sterm(e, F):
    """A sympy term over the atoms of a Field as Lean text."""
    import sympy
    if e == sympy.pi or str(e) == 'pi':
        return 'Real.pi'
    if e.is_Integer:
        return '(%d : ℝ)' % int(e)
    if e.is_Rational:
        return '(%d / %d : ℝ)' % (e.p, e.q)
    if e in F.rev:
        k = F.rev[e]
        a = [sterm(x, F) for x in k[1:]]
        if k[0] == 'pow':
            return '(%s ^ %s)' % tuple(a)
        return '(%s %s)' % (NAME[k[0]], ' '.join(a))
    if e.is_Symbol:
        return str(e)[2:]
    if e.is_Add:
        return '(' + ' + '.join(sterm(x, F) for x in e.args) + ')'
    if e.is_Mul:
        return '(' + ' * '.join(sterm(x, F) for x in e.args) + ')'
    if e.is_Pow and e.exp.is_Integer:
        return '(%s ^ (%d : ℤ))' % (sterm(e.base, F), int(e.exp)) if e.exp < 0 else '(%s ^ %d)' % (sterm(e.base, F), int(e.exp))
    raise NoLean('no Lean text for %s' % e)

NOTIE = '(h0 : ¬ ∃ k : ℤ, (k : ℝ) = x + 1 / 2)'
def identities():
    """The relations between atoms that ident.py uses, each with the domain on which the atoms are defined."""
    import ident, sympy
    x, y = sympy.Symbol('v:x'), sympy.Symbol('v:y')
    G = {}
    # relations: atoms, domain
    for name, atoms, dom in (
            ('sqrt', [('sqrt', x)], '(h0 : 0 ≤ x)'),
            ('sqrt_inv', [('sqrt', x), ('sqrt', 1 / x)], '(h0 : 0 < x)'),
            ('sqrt_scale', [('sqrt', x), ('sqrt', 4 * x)], '(h0 : 0 ≤ x)'),
            ('cbrt', [('cbrt', x)], ''),
            ('sincos', [('sin', x), ('cos', x)], ''),
            ('tan', [('tan', x)], '(h0 : Real.cos x ≠ 0)'),
            ('sinhcosh', [('sinh', x), ('cosh', x)], ''),
            ('tanh', [('tanh', x)], ''),
            ('sinhexp', [('sinh', x), ('exp', x)], ''),
            ('coshexp', [('cosh', x), ('exp', x)], ''),
            ('tanhexp', [('tanh', x), ('exp', x)], ''),
            ('expm1', [('expm1', x)], ''),
            ('log1p', [('log1p', x)], ''),
            ('log10', [('log10', x)], ''),
            ('log2', [('log2', x)], ''),
            ('hypot', [('hypot', x, y)], ''),
            ('hypot_sqrt', [('sqrt', x ** 2 + y ** 2), ('hypot', x, y)], ''),
            ('fmod', [('fmod', x, y)], '(h0 : y ≠ 0)'),
            ('remainder', [('remainder', x, y)], '(h0 : y ≠ 0)'),
            ('erfc', [('erfc', x)], ''),
            ('acos', [('asin', x), ('acos', x)], ''),
            ('pow_pos', [('pow', x, y), ('pow', x, y - 1)], '(h0 : 0 < x)'),
            ('pow_pos2', [('pow', x, y), ('pow', x, y - 2)], '(h0 : 0 < x)'),
            ('pow_neg', [('pow', x, y), ('pow', x, y - 1)], '(h0 : x < 0) (h1 : ∃ k : ℤ, (k : ℝ) = y)'),
            ('pow_neg2', [('pow', x, y), ('pow', x, y - 2)], '(h0 : x < 0) (h1 : ∃ k : ℤ, (k : ℝ) = y)')):
        F = ident.Field()
        for a in atoms:
            F.atom(a[0], a[1:])
        rs = F.relations()
        rs = [r for i, r in enumerate(rs) if r not in rs[:i]]
        if not rs:
            raise NoLean('no relation for ' + name)
        for i, r in enumerate(rs):
            G['rel_%s_%d' % (name, i)] = '(x y : ℝ) %s : %s = 0' % (dom, sterm(r, F))
    # rewriting of atoms
    for n in ident.ODD + ident.EVEN + ('exp',):
        if n in ('rint', 'nearbyint'):
            continue
        F = ident.Field()
        r = F.atom(n, (-x,))
        dom = {'round': NOTIE, 'atanh': '(h0 : -1 < x) (h1 : x < 1)'}.get(n, '')
        G['neg_' + n] = '(x : ℝ) %s : %s (-x) = %s' % (dom, NAME[n], sterm(r, F))
    for n in ('exp', 'exp2', 'cos', 'cosh', 'sin', 'tan', 'sinh', 'tanh', 'asin', 'atan', 'asinh', 'atanh', 'erf', 'cbrt', 'round', 'trunc'):
        F = ident.Field()
        G['zero_' + n] = ': %s 0 = %s' % (NAME[n], sterm(F.atom(n, (sympy.Integer(0),)), F))
    F = ident.Field()
    G['one_log'] = ': Real.log 1 = %s' % sterm(F.atom('log', (sympy.Integer(1),)), F)
    G['acos_m1'] = ': Real.arccos (-1) = %s' % sterm(F.atom('acos', (sympy.Integer(-1),)), F)
    G['atan2_0m1'] = ': UC.atan2 0 (-1) = %s' % sterm(F.atom('atan2', (sympy.Integer(0), sympy.Integer(-1))), F)
    for q in (-2, -1, 0, 1, 3):
        G['pow_int_%s' % str(q).replace('-', 'm')] = '(x : ℝ) (h0 : x ≠ 0) : x ^ (%d : ℝ) = %s' % (q, sterm(F.atom('pow', (x, sympy.Integer(q))), F))
    G['pow_half'] = '(x : ℝ) : x ^ (1 / 2 : ℝ) = %s' % sterm(F.atom('pow', (x, sympy.Rational(1, 2))), F)
    # inequalities
    X, Y = z3.Real('x'), z3.Real('y')
    import prove
    u = lambda n, *a: prove.SQRT(*a) if n == 'sqrt' else z3.Function(n, *([z3.RealSort()] * (len(a) + 1)))(*a)
    q = z3.RealVal
    for name, t, dom in (('sqrt', u('sqrt', X), ''), ('cbrt', u('cbrt', X), ''), ('exp', u('exp', X), ''), ('exp2', u('exp2', X), ''),
                         ('cosh', u('cosh', X), ''), ('hypot', u('hypot', X, Y), ''), ('log_10', u('log', q(10)), ''), ('log_2', u('log', q(2)), ''),
                         ('log_half', u('log', q('1/2')), ''), ('log_1', u('log', q(1)), ''), ('atan2', u('atan2', q(0), q(-1)), ''),
                         ('pow', u('pow', X, Y), ''), ('atan', u('atan', q(1)), '')):
        for i, a in enumerate(ident.axioms([t])):
            G['ax_%s_%d' % (name, i)] = '(x y : ℝ) %s : %s' % (dom, term(a))
    return sorted(G.items())

PROOF = re.compile(r'^-- (\w+)\n', re.M)

GROUPS = {'table': statements, 'ident': identities}

def assemble(group, names=None):
    """The Lean file: definitions, then the generated statements with the proofs of vc/lean/GROUP.lean."""
    head = open(os.path.join(HERE, 'lean', 'defs.lean')).read()
    parts = PROOF.split(open(os.path.join(HERE, 'lean', group + '.lean')).read())
    proofs = dict(zip(parts[1::2], parts[2::2]))
    out, missing = [head], []
    for n, s in GROUPS[group]():
        if names and n not in names:
            continue
        if n not in proofs:
            missing.append(n)
            continue
        out.append('theorem t_%s %s := by\n%s' % (n, s, proofs[n].rstrip()))
    return '\n\n'.join(out) + '\n', missing

# ------------------------------------------------------------------ running Lean
WHAT = {'table': ('table of derivatives', 'the table of derivatives of vc/c_math.py'),
        'ident': ('identities of the standard functions', 'the identities of the standard functions that the verifier uses (vc/ident.py)'),
        'sums': ('sums over identities', 'multiple sums over b identities are decided by the sets of at most b identities (vc/symsum.py)'),
        'cov': ('covariance', 'symmetry, bilinearity and independence of the specified covariance'),
        'pow10': ('powers of ten', 'the laws of powers of ten and of the exact logarithm (vc/fmtdom.py)'),
        'loops': ('loops over ordered containers', 'the summary of a loop over an ordered container (vc/loops.py)'),
        'ureals': ('decomposition', 'rows of P^T L sqrt(D) have the covariance P^T L D L^T P')}
AXIOMS = {'propext', 'Classical.choice', 'Quot.sound'}
THM = re.compile(r'^theorem (t_\w+)')

class Job:
    def __init__(self, group):
        self.group, self.names, self.missing, self.why, self.p = group, [], [], '', None
        self.t0 = time.time()
        try:
            if group in GROUPS:
                text, self.missing = assemble(group)
                ns = ''
            else:
                text, ns = open(os.path.join(HERE, 'lean', group + '.lean')).read(), 'UC.'
            self.lines = text.split('\n')
            self.names = [m.group(1) for l in self.lines for m in [THM.match(l)] if m]
            if re.search(r'\b(sorry|axiom|native_decide|unsafe)\b', text):
                raise NoLean('the file is not a proof')
            text += '\n' + '\n'.join('#print axioms %s%s' % (ns, n) for n in self.names) + '\n'
            lean = shutil.which('lean')
            if not lean:
                raise NoLean('lean is not installed')
            self.dir = tempfile.mkdtemp(prefix='verif_lean_')
            f = os.path.join(self.dir, group + '.lean')
            open(f, 'w').write(text)
            self.out = open(os.path.join(self.dir, 'out'), 'w+')
            self.p = subprocess.Popen(['timeout', '-k', '5', '300', lean, f], stdout=self.out, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, cwd=self.dir)
        except Exception as e:
            self.why = '%s: %s' % (type(e).__name__, e)

    def collect(self, ctx):
        """One obligation per theorem: proved when Lean accepts it without further axioms, otherwise undecided (the tables do not change with /repo)."""
        about, claim = WHAT[self.group]
        good = set()
        if self.p:
            rc = self.p.wait()
            self.out.seek(0)
            out = self.out.read()
            self.out.close()
            shutil.rmtree(self.dir, ignore_errors=True)
            bad = set()
            for m in re.finditer(r'\.lean:(\d+):\d+: error[^\n]*', out):
                k, n = int(m.group(1)), None
                for l in self.lines[:k]:
                    q = THM.match(l)
                    n = q.group(1) if q else n
                bad.add(n)
                self.why = self.why or m.group(0)
            if None not in bad and (rc == 0 or bad):
                for m in re.finditer(r"^'(?:UC\.)?(t_\w+)' (does not depend on any axioms|depends on axioms: \[([^\]]*)\])", out, re.M):
                    if m.group(1) not in bad and {x.strip() for x in (m.group(3) or '').split(',') if x.strip()} <= AXIOMS:
                        good.add(m.group(1))
            elif not self.why:
                self.why = 'lean ended with %s: %s' % (rc, out[-300:])
        dt = (time.time() - self.t0) / max(1, len(self.names))
        for n in self.names + ['t_' + m for m in self.missing]:
            ctx.add('lemma %s' % n[2:], '(%s)' % about, 'proved' if n in good else 'unknown', dt, '' if n in good else self.why or 'no proof', backend='Lean 4 with Mathlib')
        if self.names and len(good) == len(self.names) and not self.missing:
            ctx.vacuity.append('%s: %d statements proved by Lean from the axioms propext, Classical.choice, Quot.sound' % (claim, len(good)))
            ctx.trust('Lean 4 with Mathlib (the kernel) and the translation of terms to Lean (vc/leanck.py)' if self.group in GROUPS else 'Lean 4 with Mathlib (the kernel)')
            return True
        ctx.assume(claim + ' (Lean proof not accepted on this run)')
        return False

def lemmas(ctx, *groups):
    """Each group in a process of its own, next to the verification conditions."""
    from spec import guarded
    for g in groups:
        guarded(ctx, '(%s)' % WHAT[g][0], lambda: Job(g).collect(ctx))

if __name__ == '__main__':
    import sys
    t, m = assemble(sys.argv[1], sys.argv[2:])
    print(t)
    print('-- missing', m)
