"""makes and confirms planted bugs (run by hand): mkseed.py [id...]
Each is applied to a scratch copy of /repo, must pass the stable tests, and its demo must fail with it and pass without."""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = 'Python/research/scripts/relnet/'
HEAD = '''import sys, os
sys.path.insert(0, os.path.join(os.getcwd(), 'Python', 'research'))
from scripts.relnet.graph_components import *
from scripts.relnet.sample_graph import *
from scripts.relnet.sample_set import *
from scripts.relnet.relation_graph import *


def refused(f):
    try:
        f()
    except AssertionError:
        return True
    return False


def graph(p, *edges):
    return SampleGraphBuilder(p).build_from_edges(frozenset((frozenset({a, b}), r) for a, b, r in edges))

'''
SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=%s
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
STABLE = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()


def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True)


def main():
    want = sys.argv[1:]
    scratch = tempfile.mkdtemp(prefix='seed_')
    try:
        rp = os.path.join(scratch, 'repo')
        sh(['git', 'clone', '-q', '/repo', rp])
        for s in SEEDS:
            if want and s['id'] not in want:
                continue
            sh(['git', 'checkout', '-q', '--', '.'], rp)
            ok = True
            for f, old, new in s['edits']:
                path = os.path.join(rp, PKG + f)
                txt = open(path).read()
                if txt.count(old) != 1:
                    print(s['id'], 'pattern occurs', txt.count(old), 'times in', f)
                    ok = False
                    break
                open(path, 'w').write(txt.replace(old, new))
            if not ok:
                continue
            diff = sh(['git', 'diff'], rp).stdout
            d = os.path.join(scratch, 'd')
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            open(d + '/demo.py', 'w').write(HEAD + s['demo'].strip() + '\n')
            open(d + '/demo.sh', 'w').write(SH % s.get('hashseed', 0))
            os.chmod(d + '/demo.sh', 0o755)
            xml, js = os.path.join(scratch, 'j.xml'), os.path.join(scratch, 'o.json')
            sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-o', 'junit_family=xunit2', '--junitxml=' + xml, 'scripts/test'],
               os.path.join(rp, 'Python/research'), dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', BROWSER='true'))
            sh(['python3', '/opt/vp/results.py', js, 'junit:' + xml])
            missing = sorted(STABLE - set(json.load(open(js))['passed']))
            tests = 'stable tests broken: %s' % missing[:4] if missing else 'ok'
            bad = sh(['bash', d + '/demo.sh'], rp)
            sh(['git', 'checkout', '-q', '--', '.'], rp)
            good = sh(['bash', d + '/demo.sh'], rp)
            keep = not missing and bad.returncode != 0 and good.returncode == 0
            print('%s %s tests: %s; demo with %d, without %d %s' % ('KEEP' if keep else 'DROP', s['id'], tests, bad.returncode, good.returncode,
                                                                  '' if keep else (good.stderr[-300:] + bad.stdout[-200:])))
            if keep:
                out = os.path.join(HERE, 'seeded', s['id'])
                shutil.rmtree(out, ignore_errors=True)
                shutil.copytree(d, out)
                open(out + '/patch.diff', 'w').write(diff)
                json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    finally:
        shutil.rmtree(scratch)


main()
