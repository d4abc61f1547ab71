"""check.py <property> quick|thorough

Decides one property on /repo's working tree:
  1. deductive part: every contract attached to the property (and every contract those rely on at call sites) is
     turned into obligations from the current source and each obligation is discharged by z3 or cvc5;
  2. search for a failing input on the real code (harness/), which turns a failed obligation into a replayable
     violation, and stands in, labelled bounded, for functions outside the verifier's subset.
Exit 0: held; exit 1 and a VIOLATION line otherwise.
"""
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
CORES = min(8, os.cpu_count() or 4)
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else 'python3'


# ---------------------------------------------------------------- deductive part
def worker_contract(label, q, sem, budget, plan):
    """generates the obligations of one contract and proves them with as many cores as are free"""
    from pyv import driver, spec, solver, pool
    from pyv.engine import Unsupported
    con = spec.REG[label]
    t0 = time.time()
    out = {'label': label, 'function': con.qual, 'obls': [], 'unsupported': None, 'trivial': 0, 'used': [], 'vacuous': False}
    try:
        with sem:
            en = driver.make_engine()
            try:
                obls, vac = spec.verify(en, con)
            except Unsupported as e:
                out['unsupported'] = str(e)[:400]
                q.put(out)
                return
            except RecursionError:
                out['unsupported'] = 'recursion limit of the verifier'
                q.put(out)
                return
            for h in vac:
                if solver.prove(h, solver.FALSE, 'quick').ok:
                    out['vacuous'] = True
        out['trivial'] = len(en.trivial)
        out['used'] = sorted(en.used)
        out['gen_s'] = round(time.time() - t0, 2)
        out['inlined'] = sorted(getattr(en, 'inlined', ()))
        seen, todo = set(), []
        for o in obls:
            k = (tuple(h.get_id() for h in o.hyps), o.goal.get_id())
            if k not in seen:
                seen.add(k)
                todo.append(o)
        got = pool.prove_all(todo, plan, 'deep', CORES, sem, budget)
        for i, (ok, status, backend, secs, detail) in enumerate(got):
            o = todo[i]
            out['obls'].append({'kind': o.kind, 'desc': o.desc, 'ok': ok, 'status': status, 'backend': backend,
                                'secs': round(secs, 2), 'detail': detail, 'goal': '' if ok else str(o.goal)[:3000]})
    except BaseException:
        out['unsupported'] = 'internal error of the verifier: ' + traceback.format_exc()[-1500:]
    out['wall'] = round(time.time() - t0, 2)
    q.put(out)


def deductive(prop, budget, plan):
    from pyv import driver, spec
    import multiprocessing as mp
    driver.load_specs()
    ctx = mp.get_context('fork')
    sem = ctx.Semaphore(CORES)
    q = ctx.Queue()
    todo = [c.label for c in driver.contracts_of(prop)]
    started, running, results = set(), {}, []
    while todo or running:
        while todo:
            l = todo.pop()
            if l in started:
                continue
            started.add(l)
            p = ctx.Process(target=worker_contract, args=(l, q, sem, budget, plan))
            p.start()
            running[l] = p
        try:
            r = q.get(timeout=5)
        except Exception:
            for l, p in list(running.items()):
                if not p.is_alive() and q.empty():
                    p.join()
                    del running[l]
                    results.append({'label': l, 'function': spec.REG[l].qual, 'obls': [], 'trivial': 0, 'used': [],
                                    'vacuous': False, 'unsupported': 'the verifier process ended (%s)' % p.exitcode})
                elif time.time() > budget + 90:
                    subprocess.call(['pkill', '-KILL', '-P', str(p.pid)])
                    p.kill()
                    del running[l]
                    results.append({'label': l, 'function': spec.REG[l].qual, 'obls': [], 'trivial': 0, 'used': [],
                                    'vacuous': False, 'unsupported': 'out of time while generating obligations'})
            continue
        if r['label'] in running:
            running.pop(r['label']).join(10)
            results.append(r)
            todo += [u for u in r['used'] if u not in started]
    return sorted(results, key=lambda r: r['label'])


# ---------------------------------------------------------------- search for failing inputs
class Search:
    def __init__(self, prop, seed, n, secs, base):
        self.procs = []
        for i in range(n):
            env = dict(os.environ, PYTHONHASHSEED=str((seed * 131 + base + i) % 4294967295), PYTHONDONTWRITEBYTECODE='1')
            f = tempfile.TemporaryFile('w+')
            cmd = [PY, os.path.join(HERE, 'harness', 'run.py'), prop, '--seed', str(seed * 1000 + base + i), '--secs', str(secs)]
            self.procs.append((subprocess.Popen(cmd, stdout=f, stderr=subprocess.PIPE, env=env, cwd=HERE), f))
        self.limit = time.time() + secs * 4 + 60

    def wait(self):
        out = []
        for p, f in self.procs:
            try:
                err = p.communicate(timeout=max(1, self.limit - time.time()))[1].decode(errors='replace')
            except subprocess.TimeoutExpired:
                p.kill()
                err = p.communicate()[1].decode(errors='replace') + ' (stopped: out of time)'
            f.seek(0)
            txt = f.read().strip().splitlines()
            f.close()
            try:
                out.append(json.loads(txt[-1]))
            except (IndexError, ValueError):
                out.append({'evaluations': 0, 'distinct': 0, 'samples': [], 'failure': None, 'error': err[-1500:]})
        return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    import plan as P
    from pyv import spec, driver
    driver.load_specs()
    quick = tier != 'thorough'
    secs = 20 if quick else 240
    budget = t0 + (540 if quick else 3000)
    has = bool(driver.contracts_of(prop))
    search = Search(prop, seed, CORES if not has else 3, secs, 0)
    res = deductive(prop, budget, 'full') if has else []
    runs = search.wait()
    obls = [(r, o) for r in res for o in r['obls']]
    late = [(r, o) for r, o in obls if o['status'].startswith('not attempted')]
    failed = [(r, o) for r, o in obls if not o['ok'] and not o['status'].startswith('not attempted')]
    vac = [r for r in res if r['vacuous'] or (not r['unsupported'] and not r['obls'] and not r['trivial'])]
    unsup = [r for r in res if r['unsupported']]
    fail = next((x['failure'] for x in runs if x.get('failure')), None)
    hs = next((x.get('hashseed') for x in runs if x.get('failure')), None)
    if not fail and (failed or unsup) and has:
        # a failed obligation, or code outside the subset: look harder for an input
        more = Search(prop, seed, CORES, secs * (3 if failed else 2), 100).wait()
        runs += more
        fail = next((x['failure'] for x in more if x.get('failure')), None)
        hs = next((x.get('hashseed') for x in more if x.get('failure')), None)
    errors = [x['error'] for x in runs if x.get('error')]
    lines, code = [], 0
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rep = os.path.join(HERE, 'evidence', 'replay_%s.json' % prop)
    if os.path.exists(rep):
        os.unlink(rep)
    first = failed[0] if failed else None
    ob = {'contract': first[0]['label'], 'function': first[0]['function'], 'kind': first[1]['kind'], 'obligation': first[1]['desc'],
          'status': first[1]['status'], 'goal': first[1]['goal'], 'verifier_output': first[1]['detail']} if first else None
    if fail:
        code = 1
        json.dump({'property': prop, 'case': fail.get('case'), 'message': fail.get('message'), 'hashseed': hs, 'obligation': ob,
                   'replay_cmd': '%s harness/run.py --replay %s' % (PY, rep)}, open(rep, 'w'), indent=1)
        print('%s: failing input found: %s' % (prop, str(fail.get('message'))[:600]))
        if ob:
            print('%s: failed obligation: %s [%s] %s' % (prop, ob['contract'], ob['kind'], ob['obligation']))
        lines.append('VIOLATION property=%s replay=%s' % (prop, rep))
    elif failed:
        code = 1
        json.dump({'property': prop, 'case': None, 'obligation': ob,
                   'all_failed': ['%s [%s] %s' % (r['label'], o['kind'], o['desc']) for r, o in failed]}, open(rep, 'w'), indent=1)
        for r, o in failed[:10]:
            print('%s: failed obligation: %s [%s] %s (%s)' % (prop, r['label'], o['kind'], o['desc'], o['status']))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rep))
    bounded = list(P.BOUNDED[prop])
    for r in unsup:
        bounded.append('%s: outside the verified subset on this tree (%s)' % (r['label'], r['unsupported'][:200]))
    for r, o in late:
        bounded.append('%s [%s] %s: not attempted within the time limit' % (r['label'], o['kind'], o['desc']))
    for r in vac:
        bounded.append('%s: contract vacuous on this tree' % r['label'])
    proved = has and not failed and not bounded
    backends = {}
    for _, o in obls:
        if o['ok']:
            backends[o['backend']] = backends.get(o['backend'], 0) + 1
    cov = {
        'obligations': len(obls) + sum(r['trivial'] for r in res),
        'discharged': sum(1 for _, o in obls if o['ok']) + sum(r['trivial'] for r in res),
        'discharged_by': dict(backends, simplifier=sum(r['trivial'] for r in res)),
        'checker_cmd': 'python3-vt check.py %s %s' % (prop, tier),
        'trusted_base': P.TRUSTED,
        'functions_under_contract': [{'contract': r['label'], 'function': r['function'], 'obligations': len(r['obls']) + r['trivial'],
                                      'discharged': sum(1 for o in r['obls'] if o['ok']) + r['trivial'],
                                      'relies_on': r['used'], 'seconds': r.get('wall')} for r in res if not r['unsupported']],
        'solver_seconds': round(sum(o['secs'] for _, o in obls), 2),
        'bounded': bounded,
        'evaluations': sum(x['evaluations'] for x in runs),
        'distinct_nontrivial': sum(x['distinct'] for x in runs),
        'rule': P.RULE,
        'samples': [s for x in runs for s in x['samples']][:4],
        'hash_seeds': sorted({str(x.get('hashseed')) for x in runs}),
    }
    if errors:
        cov['search_errors'] = errors[:2]
    if not proved:
        cov['explanation'] = 'clauses explored only, not proved: ' + '; '.join(bounded)
    ev = {'property': prop, 'tier': 'quick' if quick else 'thorough', 'seed': seed, 'level': 'proof' if proved else 'exploration',
          'coverage': cov, 'assumptions': P.ASSUMPTIONS + P.SPECIFIC.get(prop, []), 'wall_s': round(time.time() - t0, 2), 'violations': code}
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    for k in P.known(prop, PY, HERE):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    print('%s: %d obligations, %d discharged, %d contracts, %d inputs tried, bounded: %s, %.0f s' % (
        prop, cov['obligations'], cov['discharged'], len(res), cov['evaluations'], '; '.join(bounded) or 'none', time.time() - t0))
    for l in lines:
        print(l)
    sys.stdout.flush()
    return code


if __name__ == '__main__':
    sys.exit(main())
