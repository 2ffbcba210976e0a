#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]   decides one property on /repo's current tree.

 1. deductive units (pv/, checks/): contracts of the real functions, discharged
    function by function from the source as it is now;
 2. runtime contract evaluation (rt/): the same contracts on concrete inputs of
    the real code; supplies the failing input for a failed obligation, and stands
    in (bounded, never counted as proved) for functions out of the prover's reach.

exit 0: held on everything explored; exit 1 + VIOLATION line: broken.
"""
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/veriftools/pyvenv/bin/python'
RT = '/opt/venv/bin/python'
if not os.environ.get('PV_REEXEC') and os.path.realpath(sys.prefix) != os.path.realpath('/opt/veriftools/pyvenv'):
    os.environ['PV_REEXEC'] = '1'
    os.execv(shutil.which('python3-vt') or PY, ['python3-vt', os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'checks'))


def rt_env(scratch):
    e = dict(os.environ)
    for k in ('PYTHONPATH', 'PV_REEXEC'):
        e.pop(k, None)
    e.update(PYTHONHASHSEED='0', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', NUMBA_NUM_THREADS='1',
             NUMBA_DISABLE_JIT='1', PYTHONPYCACHEPREFIX=os.path.join(scratch, 'pyc'), NUMBA_CACHE_DIR=os.path.join(scratch, 'numba'),
             MPLCONFIGDIR=os.path.join(scratch, 'mpl'), TMPDIR=os.path.join(scratch, 'tmp'), LANG='C.UTF-8')
    for d in ('pyc', 'numba', 'mpl', 'tmp'):
        os.makedirs(os.path.join(scratch, d), exist_ok=True)
    return e


class Runtime:
    """shards of the runtime contract evaluation"""

    def __init__(self, prop, seed, tier, wall, nshard, factor=1.0, start=0):
        self.dir = tempfile.mkdtemp(prefix='verif-rt-')
        self.wall = wall
        env = rt_env(self.dir)
        self.procs = []
        for k in range(nshard):
            out = os.path.join(self.dir, 'out%d.json' % k)
            err = open(os.path.join(self.dir, 'err%d' % k), 'w')
            p = subprocess.Popen([RT, '-m', 'rt.run', prop, '--seed', str(seed), '--tier', tier, '--shard', str(k), '--nshard', str(nshard),
                                  '--wall', str(wall), '--factor', str(factor), '--start', str(start), '--out', out],
                                 cwd=HERE, env=env, stdout=err, stderr=err)
            self.procs.append((p, out, err))

    def collect(self):
        res = dict(evaluations=0, checks=0, distinct=0, failures=[], samples=[], oracles={}, truncated=False, errors=[])
        end = time.time()+self.wall*1.5+120
        for p, out, err in self.procs:
            try:
                p.wait(max(1, end-time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            err.close()
            if os.path.exists(out):
                r = json.load(open(out))
                for k in ('evaluations', 'checks', 'distinct'):
                    res[k] += r[k]
                res['failures'] += r['failures']
                res['samples'] += r['samples']
                res['truncated'] |= r['truncated']
                for k, v in r['oracles'].items():
                    res['oracles'][k] = res['oracles'].get(k, 0)+v
            else:
                res['errors'].append(open(err.name).read()[-1500:])
        shutil.rmtree(self.dir, ignore_errors=True)
        return res


def unit_worker(job):
    prop, k, spec = job
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    import registry
    t0 = time.time()
    try:
        d = registry.run_unit(spec)
    except Exception as e:
        import traceback
        d = dict(name=str(spec), paths=0, obligations=0, status={}, discharged_by={}, limits=['engine: %s' % traceback.format_exc()[-800:]],
                 functions=[], wall_s=0, assumed=[], numpy_contracts=[], stats={}, open=[])
    d['spec'] = list(map(str, spec))
    d['wall_s'] = round(time.time()-t0, 2)
    return d


def run_units(prop, specs, wall, procs=8):
    if not specs:
        return []
    out = []
    ctx = mp.get_context('fork')
    with ctx.Pool(procs, maxtasksperchild=30) as pool:
        it = [pool.apply_async(unit_worker, ((prop, k, s),)) for k, s in enumerate(specs)]
        end = time.time()+wall
        for r, s in zip(it, specs):
            try:
                out.append(r.get(max(0.1, end-time.time())))
            except mp.TimeoutError:
                out.append(dict(name=str(s), paths=0, obligations=0, status={}, discharged_by={}, limits=['limit: time limit of the check'], functions=[],
                                wall_s=wall, assumed=[], numpy_contracts=[], stats={}, open=[], spec=list(map(str, s))))
        pool.terminate()
    return out


def known():
    p = os.path.join(HERE, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def match_known(prop, fail):
    for k in known():
        if k.get('status') == 'fixed' or k['property'] != prop:
            continue
        if k['oracle'] == fail['oracle'] and all(str(fail['inputs'].get(a)) == str(b) for a, b in k['inputs'].items()) and k.get('what', '') in fail['what']:
            return k
    return None


def main():
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    prop = a[0]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import registry
    t0 = time.time()
    specs = registry.units(prop, tier)
    nown = len(specs)
    specs = specs+registry.support(prop)
    cfg = registry.config(prop)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rdir = os.path.join(HERE, 'work', 'replay')
    os.makedirs(rdir, exist_ok=True)
    quick = tier == 'quick'
    rt = Runtime(prop, seed, tier, 40 if quick else 1500, 5 if specs else 8, factor=25.0 if quick else 1.0)
    units = run_units(prop, specs, 420 if quick else 3000, 8)
    res = rt.collect()
    for k, u in enumerate(units):
        u['support'] = k >= nown
    refuted = [(u, o) for u in units for o in u['open'] if o['status'] == 'refuted' and not u['support']]
    out_of_reach = [u for u in units if u['limits'] or not u['obligations'] or any(o['status'] != 'proved' for o in u['open'])]
    fails = res['failures']
    knownf = [(f, match_known(prop, f)) for f in fails]
    new = [f for f, k in knownf if not k]
    extended = None
    if not new and (refuted or out_of_reach):
        # look harder for a failing input / bounded stand-in for what was not discharged
        ext = Runtime(prop, seed+7919, tier, 200 if quick else 1500, 8, factor=4.0)
        extended = ext.collect()
        new = [f for f in extended['failures'] if not match_known(prop, f)]
    viol = 0
    line = None
    if new:
        f = new[0]
        viol = len(new)
        path = os.path.join(rdir, prop+'.json')
        json.dump(dict(property=prop, failure=f, failed_obligations=[dict(unit=u['name'], **o) for u, o in refuted][:10], others=new[1:5],
                       replay='cd %s && NUMBA_DISABLE_JIT=1 %s -m rt.run --replay %s' % (HERE, RT, path)), open(path, 'w'), indent=1, default=str)
        print('  %s: %s\n  input: %s' % (f['oracle'], f['what'], json.dumps(f['inputs'], default=str)[:1500]))
        line = 'VIOLATION property=%s replay=%s' % (prop, path)
    elif refuted:
        viol = len(refuted)
        path = os.path.join(rdir, prop+'.json')
        json.dump(dict(property=prop, failed_obligations=[dict(unit=u['name'], **o) for u, o in refuted][:20]), open(path, 'w'), indent=1, default=str)
        u, o = refuted[0]
        print('  obligation failed: %s: %s\n  %s' % (u['name'], o['name'], o['detail'][:1500]))
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path)
    for k in {json.dumps(k, sort_keys=True): k for _, k in knownf if k}.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['describe']))
    obl = sum(u['obligations'] for u in units)
    dis = sum(u['status'].get('proved', 0) for u in units)
    backends = {}
    for u in units:
        for k, v in u['discharged_by'].items():
            backends[k] = backends.get(k, 0)+v
    level = cfg['level']
    complete = bool(units) and not out_of_reach and not refuted
    if level == 'proof' and not complete:
        level = 'other'
    cov = dict(evaluations=res['evaluations'] + (extended['evaluations'] if extended else 0),
               distinct_nontrivial=res['distinct'] + (extended['distinct'] if extended else 0),
               rule=cfg.get('rule', 'each oracle draws its inputs from (seed, oracle, index); a case is non-trivial when at least one contract was evaluated on it, distinct by its inputs'),
               samples=res['samples'][:3], contract_evaluations=res['checks'], oracles=res['oracles'], runtime_truncated=res['truncated'])
    if units:
        cov.update(obligations=obl, discharged=dis, checker_cmd='python3 check.py %s' % prop,
                   trusted_base=registry.TRUSTED + sorted({'numpy/scipy contract: '+x for u in units for x in u['numpy_contracts']}),
                   back_ends=backends, solver_s=round(sum(u['stats'].get('z3_s', 0) for u in units), 2),
                   normal_form_s=round(sum(u['stats'].get('nf_s', 0) for u in units), 2),
                   z3_queries=sum(u['stats'].get('z3_queries', 0) for u in units), paths=sum(u['paths'] for u in units),
                   functions_under_contract=sorted({f for u in units for f in u['functions']}),
                   units=[dict(name=u['name'], role='contract of a function relied on' if u['support'] else 'property', obligations=u['obligations'], proved=u['status'].get('proved', 0), wall_s=u['wall_s'], limits=u['limits'][:2]) for u in units],
                   not_discharged=[dict(unit=u['name'], limits=u['limits'][:2], open=u['open'][:3]) for u in out_of_reach][:20],
                   bounded_standin=bool(out_of_reach))
    cov['explanation'] = cfg['note']
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time()-t0, 2), violations=viol,
              assumptions=registry.ASSUMPTIONS + cfg.get('assumptions', []) + sorted({x for u in units for x in u['assumed']}))
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop+'.json'), 'w'), indent=1, default=str)
    print('%s: %d units, %d/%d obligations discharged, %d not discharged units; %d runtime cases (%d contract evaluations); %.1f s' % (
        prop, len(units), dis, obl, len(out_of_reach), res['evaluations'], res['checks'], time.time()-t0))
    for u in out_of_reach[:6]:
        print('  not discharged: %s %s %s' % (u['name'], u['limits'][:1], [(o['name'], o['status'], o['detail'][:int(os.environ.get('DETAIL', 160))]) for o in u['open'][:2]]))
    if res['errors']:
        print('runtime evaluation error:', res['errors'][0])
        if line is None:
            # the package cannot even be imported / the evaluation died
            path = os.path.join(rdir, prop+'.json')
            json.dump(dict(property=prop, error=res['errors']), open(path, 'w'), indent=1)
            print('ERROR')
            return 3
    if line is None and res['evaluations'] == 0 and dis == 0:
        print('ERROR: nothing was checked')
        return 3
    if line:
        print(line)
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
