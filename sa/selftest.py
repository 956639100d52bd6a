"""Self-test of the rules: each fixture is a textual edit of the current source, made in a scratch copy.
'bad' edits break the property (the rules must fire), 'ok' edits keep it (the rules must stay quiet).
An edit whose anchor text is no longer in the source is skipped.  The outcome is reported in the
evidence; it never decides the verdict on the tree itself."""
import importlib
import multiprocessing
import os
import shutil
import sys
import tempfile
from .core import REPO


def fixtures(pid):
    try:
        m = importlib.import_module('sa.fixtures.' + pid.lower())
    except ImportError:
        return []
    return m.FIXTURES


def one(job):
    pid, i, fx = job
    from .loader import Program, AnalysisBroken
    from .core import Ctx
    sys.setrecursionlimit(20000)
    d = tempfile.mkdtemp(prefix='sa-fx-')
    try:
        shutil.copytree(os.path.join(REPO, 'warcio'), os.path.join(d, 'warcio'),
                        ignore=shutil.ignore_patterns('__pycache__'))
        for path, old, new in fx['edits']:
            p = os.path.join(d, path)
            s = open(p).read()
            if old not in s:
                return i, 'skipped', []
            open(p, 'w').write(s.replace(old, new, 1) if not fx.get('all') else s.replace(old, new))
        mod = importlib.import_module('sa.rules.' + pid.lower())
        try:
            ctx = Ctx(pid, 'quick', prog=Program(d))
            mod.check(ctx)
        except AnalysisBroken as e:
            return i, 'broken', [str(e)]
        except SyntaxError as e:
            return i, 'syntax', [str(e)]
        from .run import load_known
        kn = {f['key'] for f in load_known()['findings'] if f['property'] == pid}
        v = [x for x in ctx.viol if x['key'] not in kn]
        if v:
            return i, 'fired', ['%s: %s @ %s' % (x['rule'], x['message'], x['where']) for x in v[:3]]
        return i, 'quiet', ['%d undecided' % len(ctx.und)] + ['%s: %s' % u for u in ctx.und[:3]]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(pid, ctx=None, jobs=None):
    fxs = fixtures(pid)
    res = []
    if fxs:
        with multiprocessing.Pool(jobs or min(8, os.cpu_count() or 1)) as pool:
            for i, r, info in pool.imap_unordered(one, [(pid, i, f) for i, f in enumerate(fxs)]):
                res.append((i, r, info))
    out = {'fixtures_bad_fired': 0, 'fixtures_bad_missed': [], 'fixtures_ok_quiet': 0, 'fixtures_ok_fired': [],
           'fixtures_skipped': 0}
    for i, r, info in sorted(res):
        f = fxs[i]
        if r in ('skipped',):
            out['fixtures_skipped'] += 1
        elif f['expect'] == 'bad':
            if r == 'fired':
                out['fixtures_bad_fired'] += 1
            else:
                out['fixtures_bad_missed'].append('%s: %s %s' % (f['name'], r, info))
        else:
            if r == 'quiet':
                out['fixtures_ok_quiet'] += 1
            else:
                out['fixtures_ok_fired'].append('%s: %s %s' % (f['name'], r, info))
    return out


if __name__ == '__main__':
    import json
    for pid in sys.argv[1:]:
        print(pid, json.dumps(run(pid.upper()), indent=1))
