"""Loads clang's AST of /repo (through driver.cpp) and indexes declarations."""
import json, os, re, subprocess, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = 'clang++-18'
FUNCS = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl', 'CXXDestructorDecl')

class ExtractError(Exception):
    """The tree could not be read at all (does not compile with the driver)."""

def norm_type(t):
    t = re.sub(r'\b(const|volatile|typename|struct|class)\b', ' ', t)
    t = re.sub(r'\bnoexcept(\((true|false)\))?', '', t)
    t = t.replace('unc::', '').replace('uncertainties::', '').replace('internal::', '')
    t = re.sub(r'\(Prop\)0|Prop::est', 'P0', t)
    t = re.sub(r'\(Prop\)1|Prop::mean', 'P1', t)
    t = re.sub(r'\s+', ' ', t).strip()
    t = re.sub(r'\s*([<>,&*()])\s*', r'\1', t)
    return t

def ty(node):
    t = node.get('type') or {}
    return norm_type(t.get('desugaredQualType') or t.get('qualType') or '')

def tyq(node):
    t = node.get('type') or {}
    return norm_type(t.get('qualType') or '')

class AST:
    def __init__(self, defines):
        self.defines = defines
        flags = ['-std=c++11', '-I' + REPO, '-I/usr/include/eigen3'] + ['-D' + d for d in defines]
        p = subprocess.run([CLANG] + flags + ['-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang',
                            '-ast-dump-filter=uncertainties', os.path.join(HERE, 'driver.cpp')],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0:
            raise ExtractError(p.stderr.decode(errors='replace')[-3000:])
        s = p.stdout.decode(errors='replace')
        self.nbytes = len(s)
        dec = json.JSONDecoder()
        i = 0
        self.docs = []
        ws = ' \n\r\t'
        while True:
            while i < len(s) and s[i] in ws:
                i += 1
            if i >= len(s):
                break
            o, i = dec.raw_decode(s, i)
            self.docs.append(o)
        self.decl = {}        # id -> node
        self.fdef = {}        # any decl id -> FunctionDecl with body
        self.cls = {}         # class key -> record node
        self.cls_of = {}      # function id -> class key
        self.parent = {}      # decl id -> enclosing record/namespace path
        self.fields_ = {}
        self.names = {}       # (scope, name) -> list of function nodes with body
        self._prev = []
        for d in self.docs:
            self._walk(d, '', None, False)
        for a, b in self._prev:
            self._link(a, b)
        self.used_fns = {}
        self.node_file = {}

    def _walk(self, n, scope, cls, templ):
        k = n.get('kind')
        if not k:
            return
        nid = n.get('id')
        if 'Decl' in k and nid:
            self.decl.setdefault(nid, n)
        if k in FUNCS:
            body = any(c.get('kind') in ('CompoundStmt', 'CXXTryStmt') for c in n.get('inner', []))
            n['_scope'] = scope
            n['_cls'] = cls
            if body:
                self.fdef.setdefault(nid, n)
                self.names.setdefault((cls or scope, n.get('name')), []).append(n)
            if n.get('previousDecl'):
                self._prev.append((nid, n['previousDecl']))
            for c in n.get('inner', []):
                self._walk(c, scope + '::' + (n.get('name') or ''), None, templ)
            return
        sc, cl = scope, cls
        if k == 'NamespaceDecl':
            nm = n.get('name') or ''
            sc = scope if nm in ('uncertainties', 'internal') else (scope + '::' + nm if scope else nm)
            cl = None
        elif k in ('ClassTemplateSpecializationDecl', 'CXXRecordDecl', 'ClassTemplatePartialSpecializationDecl'):
            nm = n.get('name') or ('lambda' + str(nid))
            if k == 'ClassTemplateSpecializationDecl':
                args = []
                for c in n.get('inner', []):
                    if c.get('kind') == 'TemplateArgument':
                        if 'type' in c:
                            args.append(norm_type(c['type']['qualType']))
                        elif 'value' in c:
                            v = c['value']
                            args.append('P%s' % v if n.get('name') == 'UReal2' else str(v))
                nm = nm + '<' + ','.join(args) + '>'
            key = (cls + '::' if cls else '') + nm
            key = norm_type(key)
            if n.get('completeDefinition') or any(c.get('kind') == 'FieldDecl' for c in n.get('inner', [])):
                if key not in self.cls or n.get('completeDefinition'):
                    # several docs may dump the same specialization: prefer the one with method bodies
                    old = self.cls.get(key)
                    if old is None or self._nbodies(n) >= self._nbodies(old):
                        self.cls[key] = n
            n['_key'] = key
            cl = key
            sc = scope
        for c in n.get('inner', []):
            self._walk(c, sc, cl, templ)

    def _nbodies(self, n):
        r = 0
        for c in n.get('inner', []):
            if c.get('kind') in FUNCS and any(x.get('kind') == 'CompoundStmt' for x in c.get('inner', [])):
                r += 1
        return r

    def _link(self, a, b):
        if a in self.fdef and b not in self.fdef:
            self.fdef[b] = self.fdef[a]
        elif b in self.fdef and a not in self.fdef:
            self.fdef[a] = self.fdef[b]

    # ---------------------------------------------------------------- queries
    def function(self, fid):
        f = self.fdef.get(fid)
        if f is None:
            d = self.decl.get(fid)
            if d is not None and d.get('previousDecl') in self.fdef:
                f = self.fdef[d['previousDecl']]
        return f

    def fields(self, key):
        """[(name, type, initnode or None, id)]"""
        if key in self.fields_:
            return self.fields_[key]
        n = self.cls.get(key)
        if n is None:
            raise KeyError(key)
        r = []
        for c in n.get('inner', []):
            if c.get('kind') == 'FieldDecl':
                init = [x for x in c.get('inner', []) if x.get('kind') and 'Attr' not in x['kind']
                        and 'Comment' not in x['kind']]
                r.append((c['name'], ty(c), init[0] if init and c.get('hasInClassInitializer') else None, c['id']))
        self.fields_[key] = r
        return r

    def ctors(self, key):
        return [c for c in self._members(key) if c.get('kind') == 'CXXConstructorDecl']

    def _members(self, key):
        n = self.cls[key]
        out = []
        for c in n.get('inner', []):
            if c.get('kind') in FUNCS:
                out.append(c)
            elif c.get('kind') == 'FunctionTemplateDecl':
                out += [x for x in c.get('inner', []) if x.get('kind') in FUNCS]
            elif c.get('kind') == 'FriendDecl':
                for x in c.get('inner', []):
                    if x.get('kind') in FUNCS:
                        out.append(x)
                    elif x.get('kind') == 'FunctionTemplateDecl':
                        out += [y for y in x.get('inner', []) if y.get('kind') in FUNCS]
        return out

    def methods(self, key, name):
        return [c for c in self._members(key) if c.get('name') == name]

def params(fn):
    return [c for c in fn.get('inner', []) if c.get('kind') == 'ParmVarDecl']

def body(fn):
    for c in fn.get('inner', []):
        if c.get('kind') == 'CompoundStmt':
            return c
    return None

def inits(fn):
    return [c for c in fn.get('inner', []) if c.get('kind') == 'CXXCtorInitializer']
