"""Plant a bug: scratch copy of /repo, edit, demo both ways, stable tests, then the property's quick check.

from mkseed import seed;  seed(id, prop, edits=[(file, old, new)], demo=python source, needs=..., breaks=..., check=True)
python3 tools/mkseed.py verify [ids]     # every kept bug still applies and is shown by its demo
"""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedwork'
SRC = os.environ.get('MKSEED_SRC', '/repo')
DEMO_SH = '''#!/bin/bash
here=$(dirname "$(realpath "$0")")
export PYTHONPATH="$PWD" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python "$here/demo.py"
'''
STABLE = {n.split('::')[-1] for n in json.load(open('/opt/vp/BASELINE.json'))['stable']}


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg')
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def fresh(name='repo'):
    d = os.path.join(W, name)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(W, exist_ok=True)
    subprocess.check_call(['cp', '-a', SRC, d])
    return d


def check(d, prop, tier='quick'):
    t = time.time()
    e = {'MISFIT_REPO': d}
    rc, out = sh('bash %s/run.sh %s %s' % (V, prop, tier), V, e)
    keys = [l.strip()[:230] for l in out.splitlines() if 'case(s)):' in l]
    return rc, keys, time.time()-t


def seed(id, prop, edits, demo, needs, breaks, run=True, tests=True):
    d = fresh()
    for f, old, new in edits:
        p = os.path.join(d, f)
        s = open(p).read()
        if isinstance(old, tuple):      # (text, which occurrence)
            parts = s.split(old[0])
            k = old[1]
            s = old[0].join(parts[:k])+new+old[0].join(parts[k:])
        else:
            assert s.count(old) == 1, (f, s.count(old), old)
            s = s.replace(old, new)
        open(p, 'w').write(s)
    rc, diff = sh('git diff', d)
    root = sh('git rev-list --max-parents=0 HEAD', d)[1].strip()
    for f, old, new in edits:
        orig = set(sh('git show %s:%s' % (root, f), d)[1].splitlines())
        gone = [l[1:] for l in sh('git diff -U0 '+f, d)[1].splitlines() if l.startswith('-') and not l.startswith('---')]
        assert gone, 'no line changed'
        for l in gone:
            assert l in orig, 'not an original line: '+l
    out = os.path.join(W, 'seed', id)
    if os.path.isdir(out):
        shutil.rmtree(out)
    os.makedirs(out)
    open(out+'/patch.diff', 'w').write(diff)
    open(out+'/demo.sh', 'w').write(DEMO_SH)
    os.chmod(out+'/demo.sh', 0o755)
    open(out+'/demo.py', 'w').write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(out+'/meta.json', 'w'), indent=1)
    a, oa = sh('bash %s/demo.sh' % out, SRC)
    b, ob = sh('bash %s/demo.sh' % out, d)
    print(id, 'demo: unchanged', a, 'patched', b)
    if a or not b:
        print(oa[-1500:], '\n---\n', ob[-1500:])
        return False
    print('   patched demo says:', ob.strip().splitlines()[-1][:200] if ob.strip() else '')
    if os.environ.get('SEED_DRY'):
        return True
    if tests:
        rc, o = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider . -k "not FitEmission" -rA', d+'/tests', {'PYTHONPATH': d})
        ok = {l.split('::')[-1].split()[0] for l in o.splitlines() if l.startswith('PASSED')}
        miss = STABLE-ok
        if miss:
            print('  TESTS FAIL', miss)
            return False
    dst = os.path.join(V, 'seeded', id)
    if os.path.isdir(dst):
        shutil.rmtree(dst)
    shutil.copytree(out, dst)
    if run:
        rc, keys, t = check(d, prop)
        print('  check', prop, 'CAUGHT' if rc == 1 else 'MISSED rc=%d' % rc, '%.0f s' % t, keys[:2])
        return rc == 1
    return True


def verify(ids, run=False):
    for id in ids or sorted(os.listdir(V+'/seeded')):
        s = os.path.join(V, 'seeded', id)
        meta = json.load(open(s+'/meta.json'))
        d = fresh('repo')
        rc, o = sh('git apply %s/patch.diff' % s, d)
        if rc:
            print(id, meta['property'], 'DOES NOT APPLY', o[:200])
            continue
        a, _ = sh('bash %s/demo.sh' % s, SRC)
        b, _ = sh('bash %s/demo.sh' % s, d)
        line = '%s %s demo %s/%s %s' % (id, meta['property'], a, b, 'ok' if a == 0 and b else 'BAD')
        if run:
            rc, keys, t = check(d, meta['property'])
            line += ' %s %.0f s %s' % ('CAUGHT' if rc == 1 else 'MISSED', t, keys[:1])
        print(line, flush=True)


if __name__ == '__main__':
    verify(sys.argv[2:], run=sys.argv[1] == 'catch')
