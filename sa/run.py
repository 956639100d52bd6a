"""python3 -m sa.run <property> [quick|thorough]"""
import importlib
import json
import os
import sys
import time
from .core import *

RULES_TXT = ('Every rule is an obligation on the abstract paths (syntax tree interpreted symbolically, helpers '
             'inlined, loops to a fixpoint of abstract heads) of the named entry points of /repo/warcio.')


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    try:
        return json.load(open(p))
    except FileNotFoundError:
        return {'findings': [], 'fixed': []}


def run_property(pid, tier, prog=None, quiet=False):
    mod = importlib.import_module('sa.rules.' + pid.lower())
    ctx = Ctx(pid, tier, prog=prog, seed=int(os.environ.get('VERIF_SEED', '1') or 1))
    mod.check(ctx)
    return ctx, mod


def main(argv):
    pid = argv[0].upper()
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    sys.setrecursionlimit(20000)
    t0 = time.time()
    try:
        ctx, mod = run_property(pid, tier)
    except AnalysisBroken as e:
        print('BROKEN property=%s: %s' % (pid, e))
        return 2
    known = load_known()
    kn = {f['key']: f for f in known['findings'] if f['property'] == pid}
    new, old = [], []
    for v in ctx.viol:
        (old if v['key'] in kn else new).append(v)
    n_ok = sum(1 for o in ctx.obs if o[1])
    per = {}
    for r, ok, w, m in ctx.obs:
        d = per.setdefault(r, {'rule': ctx.rules.get(r, ''), 'discharged': 0, 'violated': 0, 'undecided': 0, 'sites': set()})
        d['discharged' if ok else 'violated'] += 1
        d['sites'].add(w)
    for r, w in ctx.und:
        per.setdefault(r, {'rule': ctx.rules.get(r, ''), 'discharged': 0, 'violated': 0, 'undecided': 0, 'sites': set()})['undecided'] += 1
    for d in per.values():
        d['n_sites'] = len(d['sites'])
        d['sites'] = sorted(d['sites'])[:12]
    extra = {}
    if tier == 'thorough':
        from . import selftest
        extra = selftest.run(pid, ctx)
    ev = {
        'property': pid, 'tier': tier, 'seed': ctx.seed, 'level': 'other',
        'coverage': {
            'explanation': RULES_TXT + ' ' + (mod.__doc__ or '').strip(),
            'obligations': len(ctx.obs), 'discharged': n_ok,
            'undecided': len(ctx.und), 'undecided_items': ['%s: %s' % x for x in ctx.und[:20]],
            'known_findings': len(old),
            'entry_points': {q: '%d abstract paths' % n for q, n in sorted(ctx.funcs.items())},
            'functions_inlined': sorted(ctx.inlined), 'abstract_events': ctx.nevents,
            'rules': per,
            'samples': ['%s @ %s: %s' % (o[0], o[2], o[3]) for o in ctx.obs[:: max(1, len(ctx.obs) // 8)]][:8],
            **extra,
        },
        'assumptions': ASSUME + ctx.assumptions,
        'wall_s': round(time.time() - t0, 3), 'violations': len(new),
    }
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    rp = os.path.join(VERIF, 'evidence', 'replay', pid + '.json')
    json.dump({'property': pid, 'violations': new, 'known': old}, open(rp, 'w'), indent=1)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    print('%s %s: %d entry points, %d paths, %d obligations, %d discharged, %d undecided, %.1fs' % (
        pid, tier, len(ctx.funcs), sum(ctx.funcs.values()), len(ctx.obs), n_ok, len(ctx.und), time.time() - t0))
    for r, w in ctx.und[:10]:
        print('  UNDECIDED %s: %s' % (r, w[:300]))
    for v in old:
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, v['where'], v['message']))
    for v in new:
        print('  %s\n    %s\n    rule: %s' % (v['where'], v['message'], ctx.rules.get(v['rule'], v['rule'])))
    for v in new[:1]:
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    if new:
        return 1
    if not n_ok and not old:
        print('BROKEN property=%s: no obligation could be decided' % pid)
        return 2
    return 0


ASSUME = [
    'warcio classes are used through their public methods; subclasses or callers outside the package do not overwrite private attributes',
    'Python built-ins and the standard library behave as documented (model table in sa/builtins_model.py)',
    'integer results of external reads are taken as: len(read(n)) <= n for n >= 0',
]

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
