"""Replay harness: runs cases of one property against the real code in /repo.
  run.py <property> --seed N --secs S --cases K [--out FILE]   explore; prints one JSON line
  run.py --replay FILE                                          re-run a recorded case; exit 1 if it fails again
"""
import argparse
import json
import os
import random
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def load(pid):
    import props_a
    import props_b
    for m in (props_a, props_b):
        if hasattr(m, 'run_' + pid):
            return getattr(m, 'gen_' + pid), getattr(m, 'run_' + pid)
    raise SystemExit('unknown property ' + pid)


def run_case(run, case):
    """None, or a description of the failure"""
    from base import Fail
    try:
        run(case)
    except Fail as e:
        return str(e)
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:
        return 'unexpected %s: %s\n%s' % (type(e).__name__, str(e)[:300], traceback.format_exc()[-1500:])
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--secs', type=float, default=10)
    ap.add_argument('--cases', type=int, default=10 ** 9)
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay:
        rec = json.load(open(a.replay))
        if not rec.get('case'):
            print('no failing input recorded: ' + str(rec.get('obligation')))
            return 1
        if rec.get('hashseed') is not None and os.environ.get('PYTHONHASHSEED') != str(rec['hashseed']):
            os.environ['PYTHONHASHSEED'] = str(rec['hashseed'])
            os.execv(sys.executable, [sys.executable] + sys.argv)
        _, run = load(rec['property'])
        msg = run_case(run, eval(rec['case'], {'frozenset': frozenset}))
        print('FAILS: ' + msg if msg else 'holds')
        return 1 if msg else 0
    res = {'property': a.property, 'evaluations': 0, 'distinct': 0, 'samples': [], 'failure': None,
           'hashseed': os.environ.get('PYTHONHASHSEED'), 'seed': a.seed}
    try:
        import base
        gen, run = load(a.property)
        ints, strs = base.mine_literals()
    except BaseException as e:
        if isinstance(e, SystemExit) and 'unknown' in str(e):
            raise
        res['failure'] = {'case': None, 'message': 'the code cannot be imported: ' + traceback.format_exc()[-1500:]}
        print(json.dumps(res))
        return 0
    rng = random.Random('%s/%d/%s' % (a.property, a.seed, res['hashseed']))
    g = base.Gen(rng, ints, strs)
    seen = set()
    t0 = time.time()
    for case in gen(g):
        txt = repr(case)
        h = hash(txt)
        if h in seen:
            if len(seen) > 200000 or time.time() - t0 > a.secs:
                break
            continue
        seen.add(h)
        msg = run_case(run, case)
        res['evaluations'] += 1
        if len(res['samples']) < 2 and res['evaluations'] in (5, 50):
            res['samples'].append(txt[:1500])
        if msg:
            res['failure'] = {'case': txt, 'message': msg}
            break
        if res['evaluations'] >= a.cases or time.time() - t0 > a.secs:
            break
    res['distinct'] = len(seen)
    res['wall'] = time.time() - t0
    print(json.dumps(res))
    return 0


if __name__ == '__main__':
    sys.exit(main())
