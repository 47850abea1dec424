#!/usr/bin/env python3
"""Decide one property: deductive verification of the code in /repo, then runtime checking of the same contracts.

usage: run.py C01 [--thorough]

1. The verification conditions of every function under contract that the property depends on are generated from the
   clang AST of /repo's current headers and discharged (vc/main.py).
2. The contracts are executed against the compiled code (rac/C01.cpp, built here from /repo's current headers) on inputs
   drawn with VERIF_SEED, plus the numbers found in the sources and in the verifier's counterexamples. This is the replay
   engine for failed obligations and the bounded stand-in for functions out of the verifier's reach.
Exit 0 when every supported obligation is discharged and no input fails, 1 with a VIOLATION line otherwise.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
TSAN = 'halt_on_error=1:exitcode=66:report_signal_unsafe=0'
PYVT = '/opt/veriftools/pyvenv/bin/python'

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def mine(paths):
    """numeric literals of the sources, for the input pool"""
    out = []
    for p in paths:
        try: s = open(p, errors='replace').read()
        except OSError: continue
        s = re.sub(r'/\*.*?\*/', '', s, flags=re.S); s = re.sub(r'//[^\n]*', '', s); s = re.sub(r'"(\\.|[^"\\])*"', '', s)
        for m in re.findall(r'(?<![\w.])(\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?)', s):
            try: v = float(m)
            except ValueError: continue
            if v not in out and abs(v) < 1e9: out.append(v)
    return out

def sources():
    r = []
    for d, _, fs in os.walk(os.path.join(REPO, 'uncertainties')):
        r += [os.path.join(d, f) for f in fs if f.endswith(('.hpp', '.h', '.cpp', '.ipp', '.tpp'))]
    return sorted(r)

def build(prop, tmp, res):
    src = os.path.join(HERE, 'rac', prop + '.cpp')
    exe = os.path.join(tmp, prop)
    cmd = ['g++', '-std=c++17', '-O1', '-w', '-I' + REPO, '-I/usr/include/eigen3', '-o', exe, src, '-pthread']
    if prop == 'C22':
        r = sh(cmd + ['-fsanitize=thread', '-g'])
        if r.returncode == 0 and sh([exe, '--cases', '0'], env=dict(os.environ, TSAN_OPTIONS=TSAN)).returncode == 0:
            res['rc'] = 0; res['err'] = ''; res['exe'] = exe; return
    r = sh(cmd)
    if r.returncode: r = sh(cmd + ['-DRAC_PUBLIC_ONLY']) # internal functions renamed or removed
    res['rc'] = r.returncode; res['err'] = r.stderr; res['exe'] = exe

def vcs(prop, thorough, res):
    out = os.path.join(res['tmp'], 'vc.json')
    main = os.path.join(HERE, 'vc', 'main.py')
    t0 = time.time()
    if not os.path.exists(main): res['r'] = None; return
    try:
        r = sh([PYVT, main, prop, out] + (['--thorough'] if thorough else []), timeout=1500 if thorough else 600)
        res['r'] = json.load(open(out)) if os.path.exists(out) else None
        if res['r'] is None: res['why'] = 'the verifier stopped: ' + r.stderr[-2000:]
    except subprocess.TimeoutExpired:
        res['r'] = None; res['why'] = 'the verifier ran out of time'
    res['t'] = time.time() - t0

def rac(exe, prop, seed, thorough, pool, replay, tmp, limit, extra=()):
    out = os.path.join(tmp, 'rac.json')
    if os.path.exists(out): os.unlink(out)
    pf = os.path.join(HERE, 'evidence', prop + '.pool')
    with open(pf, 'w') as f: f.write('\n'.join(repr(float(v)) for v in pool) + '\n')
    cmd = [exe, '--seed', str(seed), '--limit', str(limit), '--pool', pf, '--replay', replay, '--out', out] + (['--thorough'] if thorough else []) + list(extra)
    try: r = sh(cmd, timeout=limit * 2 + 60, env=dict(os.environ, TSAN_OPTIONS=TSAN))
    except subprocess.TimeoutExpired:
        return dict(evaluations=0, skipped=0, distinct_nontrivial=0, failed=True, what='a call on the real code does not return', samples=[], known=[], hang=True)
    if not os.path.exists(out) and 'WARNING: ThreadSanitizer' in r.stderr:
        with open(replay, 'w') as f: f.write('property %s\ndata race on the real code, found by the thread sanitizer while threads ran programs over variables no other thread modifies\nreplayed by the harness rac/%s.cpp, compiled with -fsanitize=thread, with: --seed %s\n\n%s' % (prop, prop, seed, r.stderr[:8000]))
        return dict(evaluations=0, skipped=0, distinct_nontrivial=0, failed=True, what='data race: ' + ' '.join(r.stderr.split())[:400], samples=[], known=[])
    if not os.path.exists(out):
        return dict(evaluations=0, skipped=0, distinct_nontrivial=0, failed=True, what='the harness crashed (exit %s) %s' % (r.returncode, r.stderr[-400:]), samples=[], known=[])
    d = json.load(open(out)); d['known'] = re.findall(r'^KNOWN (.*)$', r.stdout, flags=re.M)
    return d

def known_findings(prop):
    r = []
    try:
        for l in open(os.path.join(HERE, 'known-findings')):
            m = re.match(r'KNOWN: property=(\w+) (.*)$', l.strip())
            if m and m.group(1) == prop: r.append(m.group(2))
    except OSError: pass
    return r

def main():
    prop = sys.argv[1]
    thorough = '--thorough' in sys.argv[2:] or os.environ.get('VERIF_TIER') == 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    replay = os.path.join(HERE, 'evidence', 'replay', prop + '.txt')
    if os.path.exists(replay): os.unlink(replay)
    tmp = tempfile.mkdtemp(prefix='verif_' + prop + '_')
    try:
        b = {}; v = {'tmp': tmp, 'r': None, 'why': ''}
        tb = threading.Thread(target=build, args=(prop, tmp, b)); tv = threading.Thread(target=vcs, args=(prop, thorough, v))
        tb.start(); tv.start(); tb.join()
        pool = mine(sources())
        violation = None; notes = []
        if b['rc'] != 0:
            with open(replay, 'w') as f: f.write('property %s\nthe harness that calls the public interface no longer compiles against the headers in %s:\n\n%s' % (prop, REPO, b['err'][-8000:]))
            r = dict(evaluations=0, skipped=0, distinct_nontrivial=0, failed=True, what='the public interface no longer compiles', samples=[], known=[])
        else:
            r = rac(b['exe'], prop, seed, thorough, pool, replay, tmp, 600 if thorough else 60)
        if r['failed']: violation = 'concrete'
        tv.join()
        vr = v['r'] or {'obligations': [], 'unsupported': ([{'function': '(all)', 'why': v['why'] or 'no contracts for this property'}]), 'assumptions': [], 'functions': []}
        bad = [o for o in vr['obligations'] if o['status'] in ('refuted', 'failed')]
        # a solver answer that an incomplete axiomatisation may have caused: search deeper, and report only what fails on the real code
        suspect = [o for o in vr['obligations'] if o['status'] == 'suspect']
        if (bad or suspect) and not violation and b['rc'] == 0:
            # look for a failing input, with the values of the verifier's counterexamples in the pool
            extra = [x for o in bad for x in o.get('values', [])]
            for k in range(3):
                r2 = rac(b['exe'], prop, seed + 1000 + k, False, (extra * 3 + pool)[:400], replay, tmp, 40, ['--cases', '1000000'])
                r['evaluations'] += r2['evaluations']
                if r2['failed']: r['failed'] = True; r['what'] = r2['what']; violation = 'concrete'; break
            if not violation and bad:
                violation = 'unproved'
                with open(replay, 'w') as f:
                    f.write('property %s\nobligations that the verifier does not discharge on the current source (no failing input was found for them):\n\n' % prop)
                    for o in bad: f.write('%s [%s]\n  %s: %s\n\n' % (o['name'], o.get('function', ''), o['status'], o.get('detail', '')))
        if (bad or suspect) and violation == 'concrete':
            bad = bad + suspect
            with open(replay, 'a') as f:
                f.write('\nobligations that fail on the current source:\n')
                for o in bad: f.write('%s [%s]\n  %s: %s\n' % (o['name'], o.get('function', ''), o['status'], o.get('detail', '')))
        listed = known_findings(prop)
        for k in r['known']:
            if k in listed: print('KNOWN-FINDING: property=%s %s' % (prop, k))
            elif not violation:
                violation = 'concrete'
                with open(replay, 'w') as f: f.write('property %s\n%s\n' % (prop, k))
        obl = vr['obligations']; done = [o for o in obl if o['status'] == 'proved']
        level = level_of(prop)
        cov = dict(
            obligations=len(obl), discharged=len(done),
            checker_cmd='VERIF_SEED=%d %s vc/main.py %s OUT.json' % (seed, PYVT, prop),
            trusted_base=vr.get('trusted', []) + ['clang 18 front end (AST of the instantiated templates)', 'the verification condition generator vc/*.py', 'z3 (python bindings in /opt/veriftools/pyvenv), or cvc5 and z3 both for the queries under second_solver.confirmed'],
            second_solver=dict(vr.get('cross', {}), what='queries that z3 finds unsatisfiable, given to cvc5 as well: confirmed, undecided in its time limit, contradicted (then they do not count as proved); algebra: identities of the normal form evaluated at a random rational point'),
            functions_under_contract=vr.get('functions', []),
            backends=sorted(set(o.get('backend', '') for o in obl)),
            solver_s=round(sum(o.get('time', 0) for o in obl), 2),
            slowest=[dict(name=o['name'], s=round(o.get('time', 0), 2)) for o in sorted(obl, key=lambda o: -o.get('time', 0))[:3]],
            obligation_names=[o['name'] + ': ' + o['status'] for o in obl],
            undecided=[o['name'] + ': ' + o.get('detail', '')[:200] for o in obl if o['status'] not in ('proved', 'refuted', 'failed')],
            bounded_stand_ins=vr.get('unsupported', []),
            vacuity=vr.get('vacuity', []),
            evaluations=r['evaluations'], distinct_nontrivial=r['distinct_nontrivial'], skipped=r['skipped'],
            rule='inputs drawn from VERIF_SEED and run through the compiled code of /repo, the contract evaluated on each by an oracle written from the property (rac/%s.cpp); non-trivial: executed to the end and different from all earlier ones' % prop,
            samples=r['samples'], extraction_drops=vr.get('drops', []))
        ev = dict(property=prop, tier='thorough' if thorough else 'quick', seed=seed, level=level, coverage=cov,
                  assumptions=vr.get('assumptions', []) + ['runtime-checked inputs are a bounded sample and are not counted as proved'],
                  wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        print('%s: %d of %d obligations discharged, %d undecided, %d unsupported; %d inputs run' % (prop, len(done), len(obl), len(cov['undecided']), len(vr.get('unsupported', [])), r['evaluations']))
        if violation:
            if r['failed']: print(r['what'])
            if not os.path.exists(replay):
                with open(replay, 'w') as f: f.write('property %s\n%s\n' % (prop, r['what']))
            print('VIOLATION property=%s replay=%s%s' % (prop, replay, ' no-failing-input-found' if violation == 'unproved' else ''))
            return 1
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def level_of(prop):
    try:
        for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']:
            if c['property'] == prop: return c['level']
    except Exception: pass
    return 'exploration'

if __name__ == '__main__':
    sys.exit(main())
