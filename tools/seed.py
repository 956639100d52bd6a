"""Dev tool: python3 tools/seed.py SPEC.py...  Makes seeded/<id>/ from a spec (EDITS, DEMO, META) after
confirming: applies, stable tests pass, demo 0 on the clean tree and non-zero with the change."""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)


def norm(n):
    return re.sub(r'\s+', ' ', n)


def main(spec):
    ns = {}
    exec(open(spec).read(), ns)
    id_ = ns['ID']
    d = '/tmp/seedwork/' + id_
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.dirname(d), exist_ok=True)
    sh('cp -a /repo %s' % d, '/')
    try:
        for path, old, new in ns['EDITS']:
            p = os.path.join(d, path)
            s = open(p).read()
            if s.count(old) != 1:
                return print(id_, 'FAIL: anchor count', s.count(old), repr(old[:50]))
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', d).stdout
        out = os.path.join(HERE, 'seeded', id_)
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.py', 'w').write(ns['DEMO'].lstrip('\n'))
        open(out + '/demo.sh', 'w').write('#!/bin/sh\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
        a = sh('sh %s/demo.sh' % out, '/repo', timeout=300)
        b = sh('sh %s/demo.sh' % out, d, timeout=300)
        base = json.load(open('/opt/vp/BASELINE.json'))
        t = None if os.environ.get('NOTEST') else sh(
            'PYTHONDONTWRITEBYTECODE=1 TZ=UTC %s -m pytest -q -p no:cacheprovider --no-cov --timeout=120 2>&1 | grep -E "^(FAILED|ERROR)|passed|failed"' % PY, d, timeout=600)
        r = sh('python3 -m sa.run %s quick' % ns['PROP'], HERE, env=dict(os.environ, SA_REPO=d), timeout=900)
        print(id_, 'demo clean', a.returncode, 'patched', b.returncode, (b.stdout + b.stderr)[-150:].replace('\n', ' | '))
        if a.returncode or not b.returncode:
            print('   *** DEMO BAD', (a.stdout + a.stderr)[-500:])
        if t:
            print('   tests:', t.stdout[-300:].replace('\n', ' | '))
        print('   check', r.returncode, [l for l in r.stdout.splitlines() if l.startswith('  ')][:3])
    finally:
        shutil.rmtree(d, ignore_errors=True)


for s in sys.argv[1:]:
    main(s)
