"""debug front end: vf.py LABEL... | Cxx  -- verify contracts and print each obligation"""
import sys, time, traceback
sys.path.insert(0, '/verif')
from pyv import driver, spec, solver
from pyv.engine import Unsupported
driver.load_specs()
verbose = '-v' in sys.argv
plan = 'mid'
args = [a for a in sys.argv[1:] if not a.startswith('-')]
for a in sys.argv:
    if a.startswith('-p'): plan = a[2:]
sel = [c for c in spec.REG.values() if c.label in args or c.qual in args or (c.props & set(args))]
tot = bad = uns = 0
for c in sel:
    en = driver.make_engine()
    t = time.time()
    try:
        obls, vac = spec.verify(en, c)
    except Unsupported as e:
        uns += 1
        print('UNSUPPORTED %s: %s' % (c.label, e))
        if verbose: traceback.print_exc()
        continue
    t1 = time.time() - t
    seen = set()
    fails = 0
    n = 0
    todo = []
    for o in obls:
        k = (tuple(h.get_id() for h in o.hyps), o.goal.get_id())
        if k in seen: continue
        seen.add(k); n += 1; todo.append(o)
    import multiprocessing as mp
    from pyv import pool
    res = pool.prove_all(todo, plan, None, 8, mp.get_context('fork').Semaphore(8), time.time() + 3000)
    for i, o in enumerate(todo):
        ok, status, _, secs, detail = res[i]
        if secs > 5: print('  slow %.1fs [%s] %s #%d' % (secs, o.kind, o.desc, i))
        if not ok:
            fails += 1
            print('  FAIL %s [%s] %s #%d: %s' % (c.label, o.kind, o.desc, i, status))
            if verbose:
                print('   goal', o.goal)
                print('   ', detail)
                if '-h' in sys.argv:
                    for h in o.hyps: print('    hyp', h)
    for h in vac:
        r = solver.prove(h, solver.FALSE, 'quick')
        if r.ok: print('  VACUOUS', c.label); fails += 1
    tot += n; bad += fails
    print('%s %s: %d obligations, gen %.1fs prove %.1fs' % ('ok  ' if not fails else 'BAD ', c.label, n, t1, time.time() - t - t1), flush=True)
print('total', tot, 'failed', bad, 'unsupported', uns)
