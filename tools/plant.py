"""plant.py SPEC [ids...]: build seeded/<id>/ from a spec file (python: SEEDS = [dict(id, property, edits, demo, needs, breaks)]).
Confirms in a scratch copy: demo ok before, stable tests pass and demo fails after.  Only used while developing."""
import json, os, shutil, subprocess, sys, textwrap, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
BASE = json.load(open('/opt/vp/BASELINE.json'))
STABLE = set(BASE['stable'] if 'stable' in BASE else BASE['tests'])


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def tests(d):
    # the tests of /opt/vp/test.sh, in the scratch copy
    w = tempfile.mkdtemp(prefix='pt.', dir='/tmp/w')
    for k in ('pyc', 'numba', 'mpl', 'tmp'):
        os.mkdir(os.path.join(w, k))
    env = dict(os.environ, PYTHONPATH=d, PYTHONHASHSEED='0', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', NUMBA_NUM_THREADS='1',
               LANG='C.UTF-8', PATH='/opt/venv/bin:' + os.environ['PATH'], PYTHONPYCACHEPREFIX=w + '/pyc', NUMBA_CACHE_DIR=w + '/numba', MPLCONFIGDIR=w + '/mpl', TMPDIR=w + '/tmp')
    for k in ('PYTHONDONTWRITEBYTECODE', 'NUMBA_DISABLE_JIT'):
        env.pop(k, None)
    x = os.path.join(d, 'junit.xml')
    sh('/opt/venv/bin/python -m pytest -q --mpl -p no:cacheprovider --timeout=300 -n 4 --dist loadfile --ignore tests/test_fdesign.py --deselect tests/test_cli.py::test_import_time --deselect tests/test_utils.py::test_import_time -o junit_family=xunit2 --junitxml=%s tests' % x, cwd=d, env=env)
    shutil.rmtree(w)
    import xml.etree.ElementTree as ET
    bad = []
    for tc in ET.parse(x).getroot().iter('testcase'):
        if any(c.tag in ('failure', 'error') for c in tc):
            bad.append(tc.get('classname') + '::' + tc.get('name'))
    os.remove(x)
    return bad


def one(s):
    top = tempfile.mkdtemp(prefix='plant.', dir='/tmp/w')
    d = os.path.join(top, 'repo')
    sh('cp -a /repo %s' % d)
    sh('git checkout -q -- . && rm -rf .git/hooks', cwd=d)
    out = os.path.join(SEEDED, s['id'])
    tmp = os.path.join(top, 'seed')
    os.makedirs(tmp)
    open(os.path.join(tmp, 'demo.py'), 'w').write("import sys, os\nsys.path.insert(0, os.getcwd())\n" + textwrap.dedent(s['demo']).lstrip('\n'))
    open(os.path.join(tmp, 'demo.sh'), 'w').write('#!/bin/bash\n# run with cwd /repo; exit 0 if the behaviour is right\nhere="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1 NUMBA_DISABLE_JIT=1\nexec /opt/venv/bin/python -W ignore "$here/demo.py"\n')
    os.chmod(os.path.join(tmp, 'demo.sh'), 0o755)
    r0 = sh('bash %s/demo.sh' % tmp, cwd=d)
    for f, old, new in s['edits']:
        p = os.path.join(d, 'empymod', f)
        t = open(p).read()
        if t.count(old) != 1:
            shutil.rmtree(top)
            return s['id'], 'FAIL: %r occurs %d times in %s' % (old[:60], t.count(old), f)
        open(p, 'w').write(t.replace(old, new))
    diff = sh('git diff', cwd=d).stdout
    open(os.path.join(tmp, 'patch.diff'), 'w').write(diff)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(tmp, 'meta.json'), 'w'), indent=1)
    r1 = sh('bash %s/demo.sh' % tmp, cwd=d)
    # lines removed must be original
    msg = []
    if r0.returncode != 0:
        msg.append('demo fails on clean: ' + (r0.stdout + r0.stderr)[-600:])
    if r1.returncode == 0:
        msg.append('demo passes with patch')
    if not msg:
        bad = [b for b in tests(d)]
        bad = [b for b in bad if b in STABLE]
        if bad:
            msg.append('tests fail: %s' % bad[:5])
    if not msg:
        if os.path.isdir(out):
            shutil.rmtree(out)
        shutil.copytree(tmp, out)
        shutil.rmtree(os.path.join(out, '__pycache__'), ignore_errors=True)
        msg = ['OK   | ' + (r1.stdout + r1.stderr).strip()[-150:]]
    shutil.rmtree(top)
    return s['id'], ' | '.join(msg)


if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    todo = [s for s in ns['SEEDS'] if not sys.argv[2:] or s['id'] in sys.argv[2:]]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(2) as ex:
        for i, m in ex.map(one, todo):
            print(i, m, flush=True)
