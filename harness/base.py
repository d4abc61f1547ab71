"""Shared parts of the replay harness: cases are plain Python literals, the oracles work on plain
sets, tuples and Counters, and only `build_*` / `view_*` touch the real code in /repo."""
import ast
import os
import sys

RESEARCH = os.environ.get('RELNET_ROOT', '/repo/Python/research')
sys.dont_write_bytecode = True
sys.path.insert(0, RESEARCH)

from scripts.relnet.graph_components import (  # noqa: E402
    ValueNode, RelationEdge, DirectedRelation, BuilderComponentsProvider)
from scripts.relnet.sample_graph import SampleGraph, SampleGraphBuilder  # noqa: E402
from scripts.relnet.sample_set import SampleSet, SampleSetBuilder  # noqa: E402
from scripts.relnet.relation_graph import RelationGraph, RelationGraphBuilder  # noqa: E402
from scripts.relnet.conditional_graph import ConditionalGraph  # noqa: E402


class Fail(Exception):
    """A property did not hold on a case."""


def check(cond, msg, *parts):
    if not cond:
        raise Fail(msg + ''.join(' | ' + short(p) for p in parts))


def short(x, n=600):
    s = str(x)
    return s if len(s) <= n else s[:n] + '...'


def refused(f, *a, **k):
    """True if the call is refused with AssertionError, False if it returns."""
    try:
        f(*a, **k)
    except AssertionError:
        return True
    return False


# ---------------------------------------------------------------- literals mined from the sources
_BORING = {'', 'r', 'w'}


def mine_literals():
    """Integers and short strings that occur in the current sources: they become counts, sizes and
    names, so that behaviour special-cased on a constant is exercised."""
    ints, strs = set(), set()
    d = os.path.join(RESEARCH, 'scripts', 'relnet')
    for fn in sorted(os.listdir(d)):
        if not fn.endswith('.py'):
            continue
        try:
            tree = ast.parse(open(os.path.join(d, fn)).read())
        except (SyntaxError, OSError):
            continue
        for node in ast.walk(tree):
            if isinstance(node, ast.Constant):
                v = node.value
                if isinstance(v, bool):
                    continue
                if isinstance(v, int) and 2 <= abs(v) <= 10 ** 9:
                    ints.update({v - 1, v, v + 1})
                elif isinstance(v, str) and 0 < len(v) <= 10 and v.isidentifier():
                    strs.add(v)
    return sorted(ints), sorted(s for s in strs if s not in _BORING)


# ---------------------------------------------------------------- plain graphs
# plain graph: (frozenset of (var, val), frozenset of (frozenset of 2 (var, val), rel))
# plain directed relation: ('->', source, target, relation)

def rel_real(r):
    if isinstance(r, tuple) and len(r) == 4 and r[0] == '->':
        return DirectedRelation(r[1], r[2], r[3])
    return r


def rel_plain(r):
    if isinstance(r, DirectedRelation):
        return ('->', r.source_variable, r.target_variable, r.relation)
    return r


def view_node(n):
    return (n.variable, n.value)


def view_edge(e):
    return (frozenset(view_node(n) for n in e.endpoints), rel_plain(e.relation))


def view(g):
    return (frozenset(view_node(n) for n in g.nodes), frozenset(view_edge(e) for e in g.edges))


EMPTY = (frozenset(), frozenset())


def single(var, val):
    return (frozenset({(var, val)}), frozenset())


def from_edges(edges):
    edges = frozenset(edges)
    return (frozenset(n for eps, _ in edges for n in eps), edges)


def build_graph(provider, g, name=None, how=0):
    nodes, edges = g
    sb = SampleGraphBuilder(provider)
    if name:
        sb.set_name(name)
    if not nodes:
        return sb.build_empty()
    if not edges:
        (var, val), = nodes
        return sb.build_single_node(var, val)
    es = frozenset((eps, rel_real(r)) for eps, r in edges)
    return sb.build_from_edges(es)


def view_set(ss):
    out = {}
    for s, c in ss.items():
        k = view(s)
        check(k not in out, 'one sample is listed twice', k)
        out[k] = c
    return out


def build_set(provider, items):
    b = SampleSetBuilder(provider)
    for g, c in items:
        b.add(build_graph(provider, g), c)
    return b.build()


def variables_of(g):
    return frozenset(v for v, _ in g[0])


def pairs_of(g):
    """endpoint-variable pairs"""
    return frozenset(frozenset(v for v, _ in eps) for eps, _ in g[1])


def single_valued(g):
    return len(variables_of(g)) == len(g[0])


def connected_nodes(nodes, edges):
    """number of connected components"""
    parent = {n: n for n in nodes}

    def find(x):
        while parent[x] != x:
            parent[x] = parent[parent[x]]
            x = parent[x]
        return x
    for eps, _ in edges:
        a, b = tuple(eps)
        parent[find(a)] = find(b)
    return len({find(n) for n in nodes})


def make_provider(decl):
    return BuilderComponentsProvider({v: set(vs) for v, vs in decl['vars']}, set(decl['rels']))


def make_rgb(decl, name=None):
    return RelationGraphBuilder({v: set(vs) for v, vs in decl['vars']}, set(decl['rels']), name)


# ---------------------------------------------------------------- generators
VAR_POOLS = [
    list('abcdefghijkl'),
    ['ab', 'ba', 'abc', 'cab', 'b', 'a', 'aab', 'bca', 'ca', 'cc', 'x1', 'c'],
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11],
    [('a', 1), ('a', 2), (1,), (), 'a', 0, '', ('b', ('a', 1)), 2.5, 'long_variable_name', -1, b'a'],
    ['x', 'y', 'z', 'xy', 'yx', 1, 'var with space', '1', 'X', 'Y', 'Z', 'w'],
]
VAL_POOLS = [
    [1, 2, 3, 4, 5, 6],
    ['1', '2', '3', '4', '5', '6'],
    [0, 'T', 'F', '', (), 7],
    ['T', 'F', 'X', 'Y', 'Z', 'W'],
    [False, True, 'u1', (1, 2), -1, 'observed'],
]
REL_POOLS = [
    ['r'],
    ['r', 's'],
    ['r', 's', 't', 'q'],
    [0, 1, 2],
    ['', 'rel', ('t', 1)],
    ['->', None, 'r'],
]
RESERVED_VALUES = {'u', 'unobserved'}


class Gen:
    def __init__(self, rng, ints=(), strs=()):
        self.rng = rng
        self.ints = [i for i in ints if i > 0]
        self.strs = list(strs)

    def decl(self, nv=(1, 6), nval=(1, 3), pools=None, rels=None):
        r = self.rng
        n = r.randint(*nv)
        pool = list(r.choice(VAR_POOLS[:pools] if pools else VAR_POOLS))
        if self.strs and r.random() < .3:
            pool = r.sample(self.strs, min(len(self.strs), 4)) + [p for p in pool if p not in self.strs]
        r.shuffle(pool)
        out = []
        vpool = list(r.choice(VAL_POOLS))
        if self.strs and r.random() < .2:
            vpool = [s for s in r.sample(self.strs, min(len(self.strs), 3))
                     if s not in RESERVED_VALUES] + [v for v in vpool if v not in self.strs]
        for v in pool[:n]:
            k = r.randint(*nval)
            out.append((v, r.sample(vpool, min(k, len(vpool)))))
        rl = list(rels if rels is not None else r.choice(REL_POOLS))
        if rels is None and self.strs and r.random() < .15:
            rl = sorted(set(map(str, rl)) | set(r.sample(self.strs, 1)))
        return {'vars': out, 'rels': rl}

    def count(self):
        r = self.rng
        p = r.random()
        if self.ints and p < .15:
            return r.choice(self.ints)
        if p < .75:
            return r.randint(1, 9)
        if p < .95:
            return r.randint(1, 300)
        return r.randint(1, 10 ** 9)

    def relation(self, decl, a, b, directed=.15):
        r = self.rng
        rel = r.choice(decl['rels'])
        if r.random() < directed:
            s, t = (a, b) if r.random() < .5 else (b, a)
            return ('->', s, t, rel)
        return rel

    def graph(self, decl, variables=None, max_edges=None, multi=False, directed=.15, empty=0.0):
        """random connected graph over some of the variables"""
        r = self.rng
        if r.random() < empty:
            return EMPTY
        vs = [v for v, _ in decl['vars']] if variables is None else list(variables)
        vals = dict((v, x) for v, x in decl['vars'])
        k = r.randint(1, len(vs))
        if len(vs) >= 3 and r.random() < .5:
            k = max(k, 2)
        use = r.sample(vs, k)
        nodes = [(v, r.choice(vals[v])) for v in use]
        if multi:
            for v in use:
                for x in vals[v]:
                    if (v, x) not in nodes and r.random() < .4:
                        nodes.append((v, x))
        if len({v for v, _ in nodes}) == 1:
            return single(*nodes[0])
        r.shuffle(nodes)
        edges = {}
        inn = [nodes[0]]
        for n in nodes[1:]:
            cand = [m for m in inn if m[0] != n[0]]
            if not cand:
                continue
            m = r.choice(cand)
            edges[frozenset({n, m})] = self.relation(decl, n[0], m[0], directed)
            inn.append(n)
        for _ in range(r.randint(0, len(inn))):
            a, b = r.choice(inn), r.choice(inn)
            if a[0] != b[0] and frozenset({a, b}) not in edges:
                edges[frozenset({a, b})] = self.relation(decl, a[0], b[0], directed)
        if not edges:
            return single(*inn[0])
        g = from_edges(edges.items())
        return g

    def samples(self, decl, n=(0, 8), **kw):
        r = self.rng
        out = {}
        k = r.randint(*n)
        if self.ints and r.random() < .1:
            k = min(40, r.choice(self.ints))
        for _ in range(k):
            out[self.graph(decl, **kw)] = self.count()
        return list(out.items())

    def rel_filter(self, decl, graphs=()):
        r = self.rng
        p = r.random()
        if p < .35:
            return None
        if p < .45:
            return []
        pool = list(decl['rels']) + [rr for g in graphs for _, rr in g[1]]
        return list({rr: 1 for rr in r.sample(pool, r.randint(1, min(3, len(pool))))})
