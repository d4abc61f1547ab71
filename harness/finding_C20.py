"""Known finding of C20: joining factors that lack outcomes for some values depends on the hash seed.
Factors a1-b1:2, a1-b3:5 and b1-c1:3. Exit 1 while hash seeds disagree on the joined graph."""
import os
import subprocess
import sys

ROOT = os.environ.get('RELNET_ROOT') or '/repo/Python/research'
if len(sys.argv) > 1:
    sys.path.insert(0, ROOT)
    from scripts.relnet.relation_graph import RelationGraphBuilder
    b = RelationGraphBuilder({'a': {1}, 'b': {1, 3}, 'c': {1}}, {'r'})
    for n, edges in ((2, (('a', 1), ('b', 1))), (5, (('a', 1), ('b', 3))), (3, (('b', 1), ('c', 1)))):
        s = b.sample_builder().build_from_edges({(frozenset(edges), 'r')})
        b.add_outcome(s, n)
    try:
        print(b.build().make_joined().print_samples())
    except AssertionError as e:
        print('refused')
    sys.exit(0)
seen = set()
for h in range(12):
    r = subprocess.run([sys.executable, __file__, 'x'], env=dict(os.environ, PYTHONHASHSEED=str(h)), capture_output=True)
    if r.returncode:
        sys.exit(0)
    seen.add(r.stdout)
for s in sorted(seen):
    print(s.decode())
sys.exit(1 if len(seen) > 1 else 0)
