"""tools/regress.py [Cxx...]: discharges the contracts of the properties, prints what fails and what is slow"""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
from pyv import driver
driver.load_specs()
props = sys.argv[1:] or ['C%02d' % i for i in range(1, 24)]
for p in props:
    t = time.time()
    r = check.deductive(p, time.time() + 800, 'full')
    n = sum(len(x['obls']) + x['trivial'] for x in r)
    slow = sorted([(o['secs'], x['label'], o['desc']) for x in r for o in x['obls']], reverse=True)[:2]
    print('%s %.0fs %d contracts %d obligations; slowest %s' % (p, time.time() - t, len(r), n, slow), flush=True)
    for x in r:
        if x['unsupported']:
            print('   UNSUPPORTED', x['label'], x['unsupported'][:300])
        if x['vacuous']:
            print('   VACUOUS', x['label'])
        for o in x['obls']:
            if not o['ok']:
                print('   FAIL', x['label'], o['kind'], o['desc'], o['status'], o['secs'])
