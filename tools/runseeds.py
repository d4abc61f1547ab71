"""runs the check of each planted bug on a scratch copy with the bug: runseeds.py [id...]; --all-props runs every property"""
import json, os, subprocess, sys, tempfile, shutil, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('-')]
base = os.path.join(HERE, 'seeded')
for i in sorted(os.listdir(base)):
    if args and i not in args: continue
    meta = json.load(open(os.path.join(base, i, 'meta.json')))
    d = tempfile.mkdtemp(prefix='rs_')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', d + '/r'])
        subprocess.check_call(['git', 'apply', os.path.join(base, i, 'patch.diff')], cwd=d + '/r')
        t = time.time()
        r = subprocess.run(['python3-vt', 'check.py', meta['property'], 'quick'], cwd=HERE, capture_output=True, text=True,
                           env=dict(os.environ, RELNET_ROOT=d + '/r/Python/research', VERIF_SEED='1', VERIF_TIER='quick'))
        out = r.stdout.strip().splitlines()
        fo = [l for l in out if 'failed obligation' in l][:2]
        print('%-32s %s rc=%d %.0fs %s %s' % (i, meta['property'], r.returncode, time.time() - t, (out or [''])[-1].split('replay=')[0] + ('NOINPUT' if 'no-failing' in r.stdout else ''), fo), flush=True)
        if r.returncode not in (0, 1): print(r.stderr[-500:])
    finally:
        shutil.rmtree(d)
