"""C01..C09: components and sample graphs."""
import copy
import itertools
from base import *


# ------------------------------------------------------------------------------------------ C01
ATOMS = ['a', 'b', 'ab', '', 0, 1, 2, (1, 'a'), (), ('a',), 2.5, None, frozenset({1, 2}), -1, b'a', True]


def clone(x):
    """an equal but, where possible, not identical object"""
    if isinstance(x, str):
        return ''.join(list(x))
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return float(x) if abs(x) < 1000 else int(str(x))
    if isinstance(x, tuple):
        return tuple(clone(i) for i in x)
    if isinstance(x, frozenset):
        return frozenset(clone(i) for i in sorted(x, key=repr, reverse=True))
    if isinstance(x, bytes):
        return bytes(bytearray(x))
    return x


def gen_C01(g):
    r = g.rng
    atoms = ATOMS + g.strs[:10] + list(g.ints[:6])
    while True:
        k = r.choice(['node', 'edge', 'dir', 'kinds', 'opp'])
        pick = lambda: r.choice(atoms)

        def pair():
            while True:
                a, b = (pick(), pick()), (pick(), pick())
                if a != b:
                    return [a, b]

        def near(x):
            """equal, or different in one position"""
            x = [clone(i) for i in x]
            if r.random() < .6:
                x[r.randrange(len(x))] = pick()
            return tuple(x)
        if k == 'node':
            a = (pick(), pick())
            yield (k, a, near(a))
        elif k == 'dir':
            a = (pick(), pick(), pick())
            b = near(a)
            if r.random() < .2:
                b = (a[1], a[0], a[2])
            yield (k, a, b)
        elif k == 'edge':
            p = pair()
            q = [tuple(clone(i) for i in n) for n in p]
            if r.random() < .5:
                q[r.randrange(2)] = near(q[0])
            if q[0] == q[1]:
                continue
            rel = pick() if r.random() < .6 else ('->', pick(), pick(), pick())
            rel2 = clone(rel) if r.random() < .6 else (pick() if r.random() < .5 else ('->', pick(), pick(), pick()))
            if r.random() < .5:
                q = q[::-1]
            yield (k, p, rel, q, rel2)
        elif k == 'opp':
            p = pair()
            yield (k, p, pick(), r.choice([p[0], p[1], (pick(), pick()), near(p[0]), near(p[1])]))
        else:
            yield (k, pick(), pick(), pick())


def run_C01(case):
    k = case[0]
    if k == 'node':
        a, b = ValueNode(*case[1]), ValueNode(*case[2])
        exp = case[1][0] == case[2][0] and case[1][1] == case[2][1]
        check((a == b) is exp and (b == a) is exp, 'node equality wrong', case)
        check((a != b) is (not exp), 'node inequality wrong', case)
        check(not exp or hash(a) == hash(b), 'equal nodes hash differently', case)
        check(a == a and hash(a) == hash(a), 'node not equal to itself', case)
        check((a.variable, a.value) == case[1] and a.var_val() == case[1], 'node content wrong', case)
    elif k == 'dir':
        a, b = DirectedRelation(*case[1]), DirectedRelation(*case[2])
        exp = all(x == y for x, y in zip(case[1], case[2]))
        check((a == b) is exp and (b == a) is exp, 'directed relation equality wrong', case)
        check(not exp or hash(a) == hash(b), 'equal directed relations hash differently', case)
    elif k == 'edge':
        _, p, rel, q, rel2 = case
        a = RelationEdge(frozenset(ValueNode(*n) for n in p), rel_real(rel))
        b = RelationEdge(frozenset(ValueNode(*n) for n in q), rel_real(rel2))
        exp = frozenset(p) == frozenset(q) and rel == rel2
        check((a == b) is exp and (b == a) is exp, 'edge equality wrong', case)
        check(not exp or hash(a) == hash(b), 'equal edges hash differently', case)
        for e, pp in ((a, p), (b, q)):
            check({(e.a.variable, e.a.value), (e.b.variable, e.b.value)} == set(map(tuple, pp)) and e.a != e.b,
                  'edge endpoint attributes wrong', case)
            check(e.opposite_endpoint(e.a) == e.b and e.opposite_endpoint(e.b) == e.a, 'opposite endpoint wrong', case)
    elif k == 'opp':
        _, p, rel, x = case
        e = RelationEdge(frozenset(ValueNode(*n) for n in p), rel)
        n = ValueNode(*x)
        isep = tuple(x) in set(map(tuple, p))
        check(bool(e.is_endpoint(n)) is isep, 'endpoint test wrong', case)
        if isep:
            o = e.opposite_endpoint(n)
            check({view_node(o), tuple(x)} == set(map(tuple, p)), 'opposite endpoint wrong', case)
        else:
            check(refused(e.opposite_endpoint, n), 'opposite of a foreign node is not refused', case)
    else:
        _, a, b, c = case
        n = ValueNode(a, b)
        d = DirectedRelation(a, b, c)
        e = RelationEdge(frozenset({ValueNode(a, 'v1'), ValueNode(a, 'v2')}), c)
        objs = [n, d, e, (a, b), (a, b, c), (e.endpoints, c), a, b, c, None, 0, str(n), hash(n)]
        for i, x in enumerate(objs[:3]):
            for j, y in enumerate(objs):
                if i != j:
                    check((x == y) is False and (y == x) is False, 'objects of different kinds are equal', case, x, y)


# ------------------------------------------------------------------------------------------ C02
def gen_C02(g):
    r = g.rng
    while True:
        d = g.decl(nv=(1, 4))
        allv = [v for v, _ in d['vars']] + ['undeclared', 'a', 0]
        vals = dict(d['vars'])
        ops = []
        for _ in range(r.randint(1, 25)):
            v = r.choice(allv[:len(d['vars'])]) if r.random() < .85 else r.choice(allv)
            w = r.choice(vals[v]) if v in vals and r.random() < .8 else r.choice([1, 'T', 'zz', '', 0])
            if r.random() < .45:
                ops.append(('node', v, w))
            else:
                v2 = r.choice(allv[:len(d['vars'])])
                w2 = r.choice(vals[v2]) if r.random() < .9 else 'zz'
                if (v, w) == (v2, w2):
                    continue
                rel = r.choice(d['rels']) if r.random() < .8 else r.choice(['undeclared', 's', 0, None])
                if r.random() < .4:
                    rel = ('->', r.choice([v, v, v, v2, r.choice(allv)]), r.choice([v2, v2, v2, v, r.choice(allv)]), rel)
                ops.append(('edge', (v, w), (v2, w2), rel))
        if r.random() < .5:
            ops = ops + [r.choice(ops) for _ in range(len(ops))] if ops else ops
        if r.random() < .08:
            ops.append(('node', ops[0][1], 'zz')) if ops and ops[0][0] == 'node' else None
        yield (d, ops)


def run_C02(case):
    d, ops = case
    vals = {v: set(x) for v, x in d['vars']}
    rels = set(d['rels'])
    p = make_provider(d)
    nodes, edges = {}, {}

    def reported():
        check(p.variables() == frozenset((v, frozenset(x)) for v, x in vals.items()), 'reported variables wrong', case)
        check(p.relations() == frozenset(rels), 'reported relations wrong', case)
    reported()
    for op in ops:
        if op[0] == 'node':
            _, v, w = op
            ok = v in vals and w in vals[v]
            try:
                n = p.get_node(v, w)
            except AssertionError:
                check(not ok, 'declared node refused', op, case)
                continue
            check(ok, 'undeclared node handed out', op, case)
            check(isinstance(n, ValueNode) and n.variable == v and n.value == w, 'wrong node', op, case)
            if (v, w) in nodes:
                check(nodes[(v, w)] is n, 'repeated request gives another node object', op, case)
            nodes[(v, w)] = n
        else:
            _, a, b, rel = op
            eps = frozenset({ValueNode(*a), ValueNode(*b)})
            inner = rel[3] if isinstance(rel, tuple) and rel[:1] == ('->',) and len(rel) == 4 else rel
            ok = a in nodes and b in nodes and inner in rels
            if inner is not rel:
                ok = ok and rel[1] in (a[0], b[0]) and rel[2] in (a[0], b[0])
            try:
                e = p.get_edge(eps, rel_real(rel))
            except AssertionError:
                check(not ok, 'admissible edge refused', op, case)
                continue
            check(ok, 'inadmissible edge handed out', op, case)
            check(isinstance(e, RelationEdge) and view_edge(e) == (frozenset({a, b}), rel), 'wrong edge', op, case)
            key = (frozenset({a, b}), rel)
            if key in edges:
                check(edges[key] is e, 'repeated request gives another edge object', op, case)
            edges[key] = e
    reported()
    for (v, w), n in nodes.items():
        check(p.get_node(v, w) is n, 'repeated request gives another node object', v, w, case)
    for (eps, rel), e in edges.items():
        check(p.get_edge(frozenset(ValueNode(*n) for n in eps), rel_real(rel)) is e,
              'repeated request gives another edge object', eps, rel, case)
    for bad in (({}, rels), (dict(vals, extra=set()), rels), (vals, set())):
        check(refused(BuilderComponentsProvider, dict(bad[0]), set(bad[1])), 'empty declaration accepted', case)


# ------------------------------------------------------------------------------------------ C03
def mutate_graph(g, d, x):
    """a graph near x: one edge or relation changed, or a subgraph"""
    r = g.rng
    es = list(x[1])
    if len(es) >= 2 and r.random() < .6:
        e = r.choice(es)
        rest = [q for q in es if q != e]
        ns = {n for eps, _ in rest for n in eps}
        if connected_nodes(ns, rest) == 1:
            return from_edges(rest)
    if es and r.random() < .5:
        e = r.choice(es)
        a, b = tuple(e[0])
        return from_edges([q for q in es if q != e] + [(e[0], g.relation(d, a[0], b[0], .5))])
    if r.random() < .3 and x[0]:
        return single(*r.choice(sorted(x[0], key=repr)))
    return g.graph(d)


def gen_C03(g):
    r = g.rng
    while True:
        d = g.decl(nv=(1, 7))
        x = g.graph(d, multi=r.random() < .2, empty=.06)
        y = mutate_graph(g, d, x) if r.random() < .6 else g.graph(d, empty=.06)
        if r.random() < .2:
            y = x
        yield (d, x, y, r.choice([None, 'n1', 'O_1']), r.choice([None, 'n2', 'O_1']), r.random() < .3)


def run_C03(case):
    d, x, y, nx, ny, other = case
    p = make_provider(d)
    q = make_provider(d) if other else p
    a, b = build_graph(p, x, nx), build_graph(q, y, ny)
    check(view(a) == x and view(b) == y, 'graph content wrong', case)
    eq = x == y
    check((a == b) is eq and (b == a) is eq and (a != b) is (not eq), 'graph equality wrong', case)
    check(not eq or hash(a) == hash(b), 'equal graphs hash differently', case)
    check((a == x) is False and (a == None) is False and (a == a.hash) is False, 'graph equal to another kind', case)  # noqa
    sub = x[0] <= y[0] and x[1] <= y[1]
    sup = y[0] <= x[0] and y[1] <= x[1]
    check(bool(a.is_subgraph(b)) is sub and bool(b.is_subgraph(a)) is sup, 'subgraph test wrong', case)
    for s, v in ((a, x), (b, y)):
        check(bool(s.is_k_0) is (not v[0] and not v[1]), 'empty flag wrong', case)
        check(bool(s.is_single_node) is (not v[1]), 'no-edges flag wrong', case)
        check(frozenset(s.included_variables) == variables_of(v), 'included variables wrong', case)
        check(s.is_subgraph(s) and s == s and hash(s) == hash(s), 'graph not equal to or part of itself', case)
    if x[0] or y[0]:
        inter = len(x[0] & y[0]) + len(x[1] & y[1])
        uni = len(x[0] | y[0]) + len(x[1] | y[1])
        s1, s2 = a.similarity(b), b.similarity(a)
        check(abs(s1 - inter / uni) < 1e-12 and abs(s2 - s1) < 1e-12, 'similarity wrong', s1, inter, uni, case)
        check(0 <= s1 <= 1 and ((s1 == 1) is eq), 'similarity out of range or 1 for unequal graphs', case)


# ------------------------------------------------------------------------------------------ C04
def gen_C04(g):
    r = g.rng
    while True:
        d = g.decl(nv=(1, 5))
        allv = [v for v, _ in d['vars']]
        vals = dict(d['vars'])
        pool = [(v, w) for v in allv for w in vals[v]]
        ops = []
        used = []
        for _ in range(r.randint(1, 18)):
            k = r.random()

            def nd():
                if used and r.random() < .5:
                    return r.choice(used)
                if r.random() < .06:
                    return r.choice([('undeclared', 1), (r.choice(allv), 'zz')])
                return r.choice(pool)
            if k < .45:
                eps = [nd(), nd()]
                if r.random() < .05:
                    eps.append(nd())
                if r.random() < .03:
                    eps = eps[:1]
                rel = r.choice(d['rels']) if r.random() < .92 else 'undeclared'
                ops.append(('add', eps, rel))
                used += [e for e in eps if e in pool]
            elif k < .65:
                a, b = nd(), nd()
                rel = r.choice(d['rels']) if r.random() < .92 else 'undeclared'
                ops.append(('dir', a, b, rel))
                used += [e for e in (a, b) if e in pool]
            elif k < .72:
                ops.append(('name', r.choice([None, 'n1', 'n2', 'O_7'])))
            elif k < .8:
                ops.append(('single', nd()))
            elif k < .85:
                ops.append(('empty',))
            elif k < .93:
                ops.append(('copy',))
            else:
                ops.append(('rebuild',))
        yield (d, ops)


def run_C04(case):
    d, ops = case
    p = make_provider(d)
    vals = {v: set(x) for v, x in d['vars']}
    b = SampleGraphBuilder(p)
    nodes, edges, name = set(), {}, None

    def same():
        if nodes:
            s = b.build()
            check(view(s) == (frozenset(nodes), frozenset(edges.items())), 'built graph wrong', view(s), nodes, edges, case)
            if name:
                check(s.name == name, 'built graph has another name', s.name, name, case)
        else:
            check(refused(b.build), 'building with no nodes is not refused', case)
    for op in ops:
        if op[0] in ('add', 'dir'):
            if op[0] == 'add':
                eps, rel = frozenset(op[1]), op[2]
                inner = rel
                call = lambda: b.add_relation(set(op[1]), op[2])
            else:
                eps, inner = frozenset(op[1:3]), op[3]
                rel = ('->', op[1][0], op[2][0], op[3])
                call = lambda: b.add_directed_relation(op[1], op[2], op[3])
            ok = (len(eps) == 2 and len({v for v, _ in eps}) == 2 and all(v in vals and w in vals[v] for v, w in eps)
                  and inner in d['rels'] and eps not in edges and (not nodes or eps & nodes))
            try:
                res = call()
            except AssertionError:
                check(not ok, 'valid relation refused', op, case)
            else:
                check(ok, 'invalid relation accepted', op, case)
                check(res is b, 'builder call does not return the builder', op)
                nodes |= eps
                edges[eps] = rel
        elif op[0] == 'name':
            b.set_name(op[1])
            name = op[1]
        elif op[0] == 'single':
            v, w = op[1]
            ok = v in vals and w in vals[v]
            try:
                s = b.build_single_node(v, w)
            except AssertionError:
                check(not ok, 'single node refused', op, case)
            else:
                check(ok and view(s) == single(v, w), 'single node graph wrong', op, case)
                if name:
                    check(s.name == name, 'single node graph has another name', case)
        elif op[0] == 'empty':
            check(view(b.build_empty()) == EMPTY, 'empty graph is not empty', case)
        elif op[0] == 'copy':
            b = copy.copy(b)
        elif op[0] == 'rebuild' and nodes:
            s = b.build()
            b = s.builder()
            name = name or s.name
        same()


# ------------------------------------------------------------------------------------------ C05
def gen_C05(g):
    r = g.rng
    while True:
        shape = r.random()
        if shape < .12:      # long chains, stars and cycles
            n = r.randint(2, 60)
            if g.ints and r.random() < .3:
                n = max(2, min(150, r.choice(g.ints)))
            vs = list(range(n))
            r.shuffle(vs)
            d = {'vars': [(v, [1, 2]) for v in vs], 'rels': ['r', 's']}
            nodes = [(v, r.choice([1, 2])) for v in vs]
            kind = r.choice(['chain', 'star', 'cycle', 'two', 'tree'])
            if kind == 'chain':
                es = list(zip(nodes, nodes[1:]))
            elif kind == 'star':
                es = [(nodes[0], x) for x in nodes[1:]]
            elif kind == 'cycle':
                es = list(zip(nodes, nodes[1:] + nodes[:1])) if n > 2 else [(nodes[0], nodes[1])]
            elif kind == 'two':
                k = r.randint(1, n - 1)
                es = list(zip(nodes[:k], nodes[1:k])) + list(zip(nodes[k:], nodes[k + 1:]))
            else:
                es = [(nodes[i], nodes[r.randrange(i)]) for i in range(1, n)]
            edges = [(frozenset(e), r.choice(['r', 's'])) for e in es]
        else:
            d = g.decl(nv=(2, 7))
            pool = [(v, w) for v, ws in d['vars'] for w in ws]
            edges = []
            for _ in range(r.randint(1, 8)):
                a, b = r.choice(pool), r.choice(pool)
                if a == b:
                    continue
                edges.append((frozenset({a, b}), g.relation(d, a[0], b[0], .1)))
            if r.random() < .08 and edges:
                a, b = r.choice(pool), r.choice([('undeclared', 1), (pool[0][0], 'zz')])
                edges.append((frozenset({a, b}), d['rels'][0]))
            if r.random() < .05 and edges:
                edges.append((edges[0][0], 'undeclared'))
        edges = list(dict.fromkeys(edges))
        if not edges:
            continue
        yield (d, edges, r.random() < .7)


def run_C05(case):
    d, edges, validate = case
    vals = {v: set(x) for v, x in d['vars']}
    plain = frozenset(edges)
    g = from_edges(plain)
    real = frozenset((eps, rel_real(rr)) for eps, rr in plain)
    conn = connected_nodes(*g) == 1
    check(bool(SampleGraphBuilder.is_edges_connected(real)) is conn, 'connectivity test wrong', conn, case)
    p = make_provider(d)
    inner = [rr[3] if isinstance(rr, tuple) and rr[:1] == ('->',) and len(rr) == 4 else rr for _, rr in plain]
    ok = (all(len({v for v, _ in eps}) == 2 for eps, _ in plain)
          and all(v in vals and w in vals[v] for v, w in g[0]) and all(i in d['rels'] for i in inner)
          and (conn or not validate))
    b = SampleGraphBuilder(p)
    try:
        s = b.build_from_edges(real, validate) if not validate else b.build_from_edges(real)
    except AssertionError:
        check(not ok, 'valid edge set refused', case)
        return
    check(ok, 'invalid edge set accepted', case)
    check(view(s) == g, 'graph built from edges is wrong', case)
    ev = s.edges_set_view()
    check(frozenset((eps, rel_plain(rr)) for eps, rr in ev) == plain, 'exported edge set wrong', case)
    if conn:
        check(SampleGraphBuilder(p).build_from_edges(ev) == s, 'export and import do not give an equal graph', case)
    v, w = next(iter(g[0]))
    one = SampleGraphBuilder(p).build_single_node(v, w)
    check(one.edges_set_view() == (v, w), 'exported single node wrong', case)
    check(SampleGraphBuilder(p).build_single_node(*one.edges_set_view()) == one, 'single node round trip', case)


# ------------------------------------------------------------------------------------------ C06
def gen_C06(g):
    r = g.rng
    while True:
        d = g.decl(nv=(1, 6))
        start = g.graph(d, multi=r.random() < .25) if r.random() < .8 else EMPTY
        samples = []
        cur = start
        for _ in range(r.randint(1, 4)):
            x = g.graph(d, multi=r.random() < .15, empty=.04)
            if r.random() < .75 and cur[0]:
                fix = {}
                for v, w in cur[0]:
                    fix.setdefault(v, w)
                m = lambda n: (n[0], fix.get(n[0], n[1]))
                nodes = frozenset(m(n) for n in x[0])
                es = {}
                for eps, rel in x[1]:
                    es.setdefault(frozenset(m(n) for n in eps), rel)
                cured = dict(cur[1])
                for eps in es:
                    if eps in cured and r.random() < .85:
                        es[eps] = cured[eps]
                x = (nodes, frozenset(es.items()))
            if r.random() < .1 and x[1]:          # a sample that is not connected
                y = g.graph(d)
                if not (variables_of(y) & variables_of(x)):
                    es = dict(x[1])
                    es.update(dict(y[1]))
                    x = from_edges(es.items())
            samples.append(x)
            cur = (cur[0] | x[0], cur[1] | x[1])
        yield (d, start, samples, r.random() < .1)


def raw_graph(p, x, name=None):
    nodes = frozenset(p.get_node(v, w) for v, w in x[0])
    edges = frozenset(p.get_edge(frozenset(p.get_node(v, w) for v, w in eps), rel_real(rel)) for eps, rel in x[1])
    return SampleGraph(p, nodes, edges, name)


def run_C06(case):
    d, start, samples, other = case
    p = make_provider(d)
    b = SampleGraphBuilder(p)
    if start[0]:
        b = raw_graph(p, start).builder()
    cur = start
    for x in samples:
        s = raw_graph(p, x)
        if other:
            t = raw_graph(make_provider(d), x)
            check(refused(b.join_sample, t), 'sample of another provider joined', case)
            check(refused(b.can_sample_be_joined, t), 'sample of another provider not refused by the query', case)
        have = {}
        for eps, rel in cur[1]:
            have.setdefault(eps, rel)
        clash = any(eps in have and have[eps] != rel for eps, rel in x[1])
        check(bool(b.can_sample_be_joined(s)) is (not clash), 'conflict query wrong', x, cur, case)
        cured = {}
        for v, w in cur[0]:
            cured.setdefault(v, set()).add(w)
        new = {}
        ok = not clash and bool(x[0])
        for v, w in x[0]:
            if (v, w) not in cur[0]:
                new.setdefault(v, set()).add(w)
        ok = ok and all(len(ws) == 1 and v not in cured for v, ws in new.items())
        uni = (cur[0] | x[0], cur[1] | x[1])
        if x[1]:
            # connects: every sample edge is reachable, starting from the builder's nodes (or any edge)
            glue = [(frozenset({'#', n}), 0) for n in cur[0]]
            ns = set(x[0]) | set(cur[0]) | ({'#'} if cur[0] else set())
            ok = ok and connected_nodes(ns, list(x[1]) + glue) == 1
        else:
            ok = ok and len(x[0]) == 1 and (not cur[0] or x[0] <= cur[0])
        # within one sample two edges over one pair clash with each other
        seen = {}
        for eps, rel in x[1]:
            if seen.setdefault(eps, rel) != rel:
                return
        before = view(s)
        try:
            res = b.join_sample(s)
        except AssertionError:
            check(not ok, 'compatible sample refused', x, cur, case)
            check(view(s) == before, 'joined sample changed', case)
            return
        check(ok, 'incompatible sample joined', x, cur, case)
        check(view(s) == before, 'joined sample changed', case)
        check(res is b, 'join does not return the builder', case)
        check(view(b.build()) == uni, 'join is not the union', view(b.build()), uni, case)
        cur = uni


# ------------------------------------------------------------------------------------------ C07
def gen_C07(g):
    r = g.rng
    while True:
        d = g.decl(nv=(1, 6))
        x = g.graph(d, multi=r.random() < .25, empty=.04)
        qs = []
        for _ in range(4):
            v, ws = r.choice(d['vars'])
            qs.append((v, r.choice(ws)))
        qs.append(r.choice([('undeclared', 1), (d['vars'][0][0], 'zz'), ('a', 1)]))
        qs += r.sample(sorted(x[0], key=repr), min(2, len(x[0])))
        vs = r.sample([v for v, _ in d['vars']], r.randint(0, len(d['vars'])))
        if r.random() < .2:
            vs.append('undeclared')
        yield (d, x, qs, vs, g.rel_filter(d, [x]))


def run_C07(case):
    d, x, qs, vs, rf = case
    p = make_provider(d)
    s = build_graph(p, x)
    nodes, edges = x
    check(set(s.values()) == set(nodes), 'listed values wrong', case)
    vars_ = variables_of(x)
    for v, w in qs:
        check(bool(s.have_value(v, w)) is ((v, w) in nodes), 'has-value wrong', v, w, case)
        check(bool(s.have_variable(v)) is (v in vars_), 'has-variable wrong', v, case)
        got = s.value_for_variable(v)
        if v in vars_:
            check((v, got) in nodes, 'looked up value wrong', v, got, case)
        else:
            check(got is None, 'value for an absent variable', v, got, case)
        c = ValueNode(v, w)
        rreal = None if rf is None else {rel_real(q) for q in rf}
        nb = s.neighboring_values(c, rreal)
        exp = {}
        for eps, rel in edges:
            if (v, w) in eps and (not rf or rel in rf):
                o, = eps - {(v, w)}
                exp.setdefault(o, set()).add((eps, rel))
        check({view_node(n) for n in nb} == set(exp), 'neighbours wrong', v, w, rf, case)
        for n, e in nb.items():
            check(view_edge(e) in exp[view_node(n)], 'neighbour edge wrong', case)
    ev = s.edges_set_view()
    if edges:
        check(frozenset((eps, rel_plain(q)) for eps, q in ev) == edges, 'edge view wrong', case)
    elif nodes:
        check(ev in nodes, 'single node view wrong', case)
    else:
        check(ev is None, 'view of the empty graph', case)
    check(s.edges_endpoint_variables() == pairs_of(x), 'endpoint-variable pairs wrong', case)
    sub = s.variables_subgraph_hash(set(vs))
    exp = {('n',) + n for n in nodes if n[0] in vs} | {('e',) + e for e in edges if all(v in vs for v, _ in e[0])}
    got = {('n',) + view_node(o) if isinstance(o, ValueNode) else ('e',) + view_edge(o) for o in sub}
    check(got == exp, 'restricted sub-structure wrong', vs, case)
    if not edges and nodes:
        check(s.single_node_variable() in vars_, 'single-node variable wrong', case)
    if edges:
        check(refused(s.single_node_variable), 'single-node variable of a graph with edges', case)
    check(view(s) == x, 'a query changed the graph', case)


# ------------------------------------------------------------------------------------------ C08
def gen_C08(g):
    r = g.rng
    while True:
        if r.random() < .2:
            n = r.randint(3, 14)
            if g.ints and r.random() < .3:
                n = max(3, min(40, r.choice(g.ints)))
            d = {'vars': [(i, [1]) for i in range(n)], 'rels': ['r', 's']}
            nodes = [(i, 1) for i in range(n)]
            r.shuffle(nodes)
            es = {frozenset(e): r.choice('rs') for e in zip(nodes, nodes[1:])}
            for _ in range(r.randint(0, n)):
                a, b = r.sample(nodes, 2)
                es.setdefault(frozenset({a, b}), r.choice('rs'))
            x = from_edges(es.items())
        else:
            d = g.decl(nv=(2, 8))
            x = g.graph(d, multi=r.random() < .2)
        c = r.sample(sorted(x[0], key=repr), r.randint(0 if r.random() < .1 else 1, min(3, len(x[0]))))
        if r.random() < .25:
            v, ws = r.choice(d['vars'])
            c.append((v, r.choice(ws)))
        yield (d, x, list(dict.fromkeys(c)), g.rel_filter(d, [x]))


def run_C08(case):
    d, x, c, rf = case
    p = make_provider(d)
    s = build_graph(p, x)
    rreal = None if rf is None else {rel_real(q) for q in rf}
    cen = {ValueNode(*n) for n in c}
    if not c:
        check(refused(s.belt_nodes, set(), rreal), 'belt of no centre is not refused', case)
        check(refused(s.external_nodes, set(), rreal), 'external nodes of no centre not refused', case)
        return
    adm = [e for e in x[1] if not rf or e[1] in rf]

    def belt(inside):
        out = {}
        for eps, rel in adm:
            o = eps - inside
            if len(o) == 1:
                out.setdefault(next(iter(o)), set()).add((eps, rel))
        return out
    got = {view_node(n): {view_edge(e) for e in es} for n, es in s.belt_nodes(cen, rreal).items()}
    check(got == belt(frozenset(c)), 'belt wrong', got, case)
    exp, inside = {}, frozenset(c)
    while True:
        bl = belt(inside)
        if not bl:
            break
        exp.update(bl)
        inside = inside | set(bl)
    got = {view_node(n): {view_edge(e) for e in es} for n, es in s.external_nodes(cen, rreal).items()}
    check(got == exp, 'external nodes wrong', got, exp, case)
    check(view(s) == x and {view_node(n) for n in cen} == set(c), 'the search changed its inputs', case)
    if rf is not None:
        check(rreal == {rel_real(q) for q in rf}, 'the search changed the filter', case)


# ------------------------------------------------------------------------------------------ C09
def gen_C09(g):
    r = g.rng
    while True:
        d = g.decl(nv=(1, 6), nval=(1, 4))
        x = g.graph(d, multi=r.random() < .25, empty=.03)
        m = []
        for v, ws in d['vars']:
            if r.random() < .4:
                m.append((v, r.choice(ws) if r.random() < .95 else 'zz'))
        if r.random() < .1:
            m.append(('undeclared', 1))
        yield (d, x, m, r.choice([None, 'nn']))


def run_C09(case):
    d, x, m, name = case
    p = make_provider(d)
    s = build_graph(p, x)
    mm = dict(m)
    vals = {v: set(w) for v, w in d['vars']}
    im = lambda n: (n[0], mm[n[0]]) if n[0] in mm else n
    ok = all(mm[v] in vals[v] for v in variables_of(x) if v in mm)
    exp = (frozenset(im(n) for n in x[0]), frozenset((frozenset(im(n) for n in eps), rel) for eps, rel in x[1]))
    arg = dict(mm)
    try:
        t = s.transform_with_replaced_values(arg, name)
    except AssertionError:
        check(not ok, 'valid replacement refused', case)
        check(view(s) == x, 'the original changed', case)
        return
    check(ok, 'undeclared value accepted', case)
    check(view(t) == exp, 'transformed graph wrong', view(t), case)
    check(view(s) == x and arg == mm, 'the original changed', case)
    if exp == x:
        check(t is s, 'unchanged graph is not returned itself', case)
    elif name:
        check(t.name == name, 'transformed graph has another name', case)
    check(t.is_compatible(p), 'transformed graph belongs to another provider', case)
