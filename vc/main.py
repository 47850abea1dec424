#!/usr/bin/env python3
"""usage: main.py PROP OUT.json [--thorough]: generates and discharges the obligations of one property."""
import sys, os, json, time
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from spec import Ctx, join
import cross
from cast import ExtractError
MODULE = {'C18': 'c_format', 'C22': 'c_race', 'C17': 'c_ureals', 'C16': 'c_stat', 'C14': 'c_ureal2', 'C15': 'c_distr', 'C11': 'c_moments', 'C12': 'c_moments', 'C07': 'c_math', 'C08': 'c_math', 'C09': 'c_math', 'C10': 'c_ureal2', 'C20': 'c_ureal2', 'C19': 'c_ureal2',  'C13': 'c_ureal2', 'C01': 'c_ureal', 'C02': 'c_ureal', 'C03': 'c_ureal', 'C04': 'c_ureal', 'C05': 'c_ureal', 'C06': 'c_ureal'}

def main():
    prop, out = sys.argv[1], sys.argv[2]
    ctx = Ctx(prop, '--thorough' in sys.argv)
    if 'VC_CROSS' not in os.environ:
        # C18 has the most queries and the hardest: a sample
        cross.EVERY = (1 if ctx.thorough else 10) if prop == 'C18' else 1
    m = MODULE.get(prop)
    try:
        if m is None:
            ctx.unsupported.append(dict(function='(all)', why='no contracts for this property yet'))
        else:
            getattr(__import__(m), prop.lower())(ctx)
    except ExtractError as e:
        ctx.unsupported.append(dict(function='(all)', why='extraction: ' + str(e)[:1500]))
    except Exception as e:
        ctx.unsupported.append(dict(function='(rest)', why='%s: %s' % (type(e).__name__, str(e)[:1000])))
    join(ctx)
    json.dump(ctx.result(), open(out, 'w'), indent=1)
    if os.environ.get('VC_VERBOSE'):
        for o in ctx.obs:
            if o['status'] != 'proved' or os.environ['VC_VERBOSE'] == '2':
                print(o['status'], o['function'], '|', o['name'], o['time'], o['detail'][:1500])
        for u in ctx.unsupported:
            print('UNSUPPORTED', u)
        for v in ctx.vacuity:
            print('  ', v)
        n = len(ctx.obs)
        print(prop, n, 'obligations', sum(o['status'] == 'proved' for o in ctx.obs), 'proved')

main()
