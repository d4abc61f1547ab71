"""C10..C23: sample sets, sample spaces and relation graphs."""
import copy
import itertools
from collections import Counter
from fractions import Fraction
from math import prod, isclose
from base import *
from props_a import raw_graph


def close(a, b):
    return isclose(float(a), float(b), rel_tol=1e-9, abs_tol=1e-12)


def add_counts(*ds):
    out = {}
    for d in ds:
        for k, c in d.items():
            out[k] = out.get(k, 0) + c
    return out


# ------------------------------------------------------------------------------------------ C10
def gen_C10(g):
    r = g.rng
    while True:
        d = g.decl(nv=(1, 5))
        pool = list(dict.fromkeys(g.graph(d, empty=.05, multi=r.random() < .1) for _ in range(r.randint(1, 8))))
        cnt = lambda: g.count() if r.random() < .9 else r.choice([0, -1, 1])
        ops = []
        for _ in range(r.randint(1, 16)):
            k = r.choice(['add', 'add', 'add', 'add_all', 'add_self', 'remove', 'remove', 'remove_all', 'union',
                          'rebuild', 'join', 'foreign', 'ctor', 'query', 'copy'])
            sub = lambda m=4: [(r.choice(pool), cnt()) for _ in range(r.randint(0, m))]
            if k == 'add':
                ops.append((k, r.choice(pool), cnt()))
            elif k in ('remove', 'query', 'foreign'):
                ops.append((k, r.choice(pool)))
            elif k in ('add_all', 'union', 'ctor'):
                ops.append((k, sub(), r.random() < .5))
            elif k == 'remove_all':
                ops.append((k, [q for q in pool if r.random() < .3]))
            elif k == 'join':
                ops.append((k, [sub() for _ in range(r.randint(0, 4))]))
            else:
                ops.append((k,))
        yield (d, ops)


def run_C10(case):
    d, ops = case
    p = make_provider(d)
    p2 = make_provider(d)
    b = SampleSetBuilder(p)
    m = {}

    def sbuild(items):
        x, mm = SampleSetBuilder(p), {}
        for gr, c in items:
            x.add(build_graph(p, gr), c)
            mm[gr] = mm.get(gr, 0) + c
        return x, mm

    def agree(s, mm, what):
        check(view_set(s) == mm, what + ': held samples or counts wrong', view_set(s), mm, case)
        sm = s.samples()
        check({view(q) for q in sm} == set(mm) and len(sm) == len(mm), what + ': listed samples wrong', case)
        ln = s.length if isinstance(s, SampleSet) else s.length()
        check(ln == sum(mm.values()), what + ': length wrong', ln, case)
        if isinstance(s, SampleSet) and 0 <= ln < 2 ** 60:
            check(len(s) == ln, what + ': len() wrong', case)
        check(bool(list(s.items())) is bool(mm), what + ': emptiness wrong', case)
        for gr, c in mm.items():
            check(s.count_of(build_graph(p, gr, 'other_name')) == c, what + ': count wrong', gr, case)
    for op in ops:
        k = op[0]
        if k == 'add':
            res = b.add(build_graph(p, op[1]), op[2])
            check(res is b, 'add does not return the builder')
            m[op[1]] = m.get(op[1], 0) + op[2]
        elif k == 'foreign':
            check(refused(b.add, build_graph(p2, op[1]), 1), 'sample of another provider added', case)
            o2 = SampleSetBuilder(p2).add(build_graph(p2, op[1]), 1).build()
            check(refused(b.build().union, o2), 'sample set of another provider united', case)
        elif k in ('add_all', 'union', 'ctor'):
            x, mm = sbuild(op[1])
            if k == 'ctor':
                dd = {build_graph(p, gr): c for gr, c in mm.items()}
                y = SampleSet(p, dd) if op[2] else SampleSetBuilder(p, dd)
                agree(y, mm, 'constructed set')
            elif k == 'add_all':
                b.add_all(x.build() if op[2] else x)
                m = add_counts(m, mm)
            else:
                s, t = b.build(), x.build()
                u = s.union(t)
                agree(u, add_counts(m, mm), 'union')
                agree(s, m, 'union receiver')
                agree(t, mm, 'union argument')
                if op[2]:
                    b = u.builder()
                    m = add_counts(m, mm)
        elif k == 'add_self':
            b.add_all(b)
            m = add_counts(m, m)
        elif k == 'copy':
            b = b.copy()
        elif k == 'rebuild':
            b = b.build().builder()
        elif k == 'remove':
            s = build_graph(p, op[1])
            if op[1] in m:
                rs, rc = b.remove(s)
                check(view(rs) == op[1] and rc == m.pop(op[1]), 'removed sample or count wrong', case)
            else:
                check(refused(b.remove, s), 'removing a sample not held is not refused', case)
        elif k == 'remove_all':
            held = [q for q in op[1] if q in m]
            o, _ = sbuild([(q, 1) for q in held])
            b.remove_all(o.build())
            for q in held:
                del m[q]
            miss = [q for q in op[1] if q not in m]
            if miss:
                o, _ = sbuild([(miss[0], 1)])
                check(refused(b.remove_all, o.build()), 'removing samples not held is not refused', case)
        elif k == 'join':
            sets = [sbuild(i) for i in op[1]]
            if sets:
                u = SampleSetBuilder.join_sample_set([s.build() for s, _ in sets])
                agree(u, add_counts(*[mm for _, mm in sets]), 'joined sets')
            else:
                check(refused(SampleSetBuilder.join_sample_set, []), 'joining no sets is not refused')
        elif k == 'query':
            s = build_graph(p, op[1])
            if op[1] not in m:
                check(refused(b.count_of, s) and refused(b.build().count_of, s), 'count of a sample not held', case)
        agree(b, m, 'builder after %s' % k)
    s = b.build()
    agree(s, m, 'built set')
    items = list(m.items())
    o = SampleSetBuilder(p)
    for gr, c in reversed(items):
        o.add(build_graph(p, gr, 'q'), c)
    t = o.build()
    check(s == t and hash(s) == hash(t) and not (s != t), 'equal sets are not equal or hash differently', case)
    check((s == m) is False and (s == None) is False, 'set equal to another kind', case)  # noqa
    if items:
        gr, c = items[0]
        t2 = o.copy().add(build_graph(p, gr), 1).build()
        check(s != t2, 'sets with different counts are equal', case)
        o.remove(build_graph(p, gr))
        check(s != o.build() and o.build() != s, 'sets with different samples are equal', case)
    check(view_set(b.empty()) == {}, 'empty set is not empty')


# ------------------------------------------------------------------------------------------ C11
def gen_C11(g):
    r = g.rng
    while True:
        d = g.decl(nv=(2, 5))
        pool = list(dict.fromkeys(g.graph(d, directed=.05) for _ in range(r.randint(2, 7))))
        start = [(q, g.count()) for q in pool if r.random() < .6] or [(pool[0], 2)]
        names = ['b.add', 'b.remove', 'b.build', 'b.copy', 'b.from_set', 'b.add_all', 'd.mutate', 'set.from_dict',
                 'b.from_dict', 'set.union', 'set.filter', 'set.join', 'set.results', 'g.builder', 'gb.add', 'gb.copy',
                 'gb.build', 'gb.join', 'rg.build', 'rg.builder', 'rg.add', 'rg.cond', 'rg.queries', 'rg.relgraph',
                 'rg.results', 'rg.joined', 'rg.activation', 'g.results', 'fold.results', 'set.empty', 'prov.more',
                 'b.remove_all', 'gb.fromedges', 'rg.name', 'g.transform']
        ops = [(r.choice(names), r.randrange(1000), r.randrange(1000), g.count()) for _ in range(r.randint(3, 22))]
        yield (d, pool, start, ops)


def scribble(x):
    """change a returned collection in place, at every depth that is mutable"""
    if isinstance(x, dict):
        for v in list(x.values()):
            scribble(v)
        x.clear()
    elif isinstance(x, (set, list)):
        for v in list(x):
            scribble(v)
        x.clear()
    elif isinstance(x, (tuple, frozenset)):
        for v in x:
            scribble(v)


def run_C11(case):
    d, pool, start, ops = case
    p = make_provider(d)
    frozen = []    # (label, observer, snapshot)
    live = []      # (label, observer, model) of builders, model is a mutable box

    def obs_graph(s):
        return lambda: (view(s), frozenset(s.included_variables), s.is_k_0, s.is_single_node, s.name,
                        frozenset(s.values()), hash(s), frozenset(s.hash))

    def obs_set(s):
        return lambda: (view_set(s), s.length, frozenset(view(q) for q in s.samples()), hash(s))

    def obs_space(q):
        def o():
            inc = q.included_variables()
            return (view_set(q.outcomes), q.outcomes.length, q.name, inc, q.included_relations(),
                    view(q.evidence) if isinstance(q, ConditionalGraph) else (q.variables, q.relations, q.is_joined()))
        return o

    def freeze(label, o):
        frozen.append((label, o, o()))

    def verify(op):
        for label, o, snap in frozen:
            check(o() == snap, 'a %s changed by %s' % (label, op[0]), op, case)
        for bb, mm in bs:
            check(view_set(bb) == mm, 'a set builder shows a change made elsewhere (%s)' % op[0], case)
        for gb, mm in gbs:
            if mm[0]:
                check(view(gb.build()) == mm, 'a graph builder shows a change made elsewhere (%s)' % op[0], case)
        for rb, mm in rgbs:
            if mm:
                check(view_set(rb.build().outcomes) == mm, 'a relation graph builder shows a change made elsewhere (%s)'
                      % op[0], case)
    graphs, sets, spaces = [], [], []
    bs, gbs, rgbs, dicts = [], [], [], []

    def new_graph(s):
        graphs.append(s)
        freeze('graph', obs_graph(s))

    def new_set(s):
        sets.append(s)
        freeze('sample set', obs_set(s))

    def new_space(q):
        spaces.append(q)
        freeze('relation graph', obs_space(q))
    for q in pool:
        new_graph(build_graph(p, q))
    b = SampleSetBuilder(p)
    rb = RelationGraphBuilder(components_provider=p, name='RG')
    for q, c in start:
        b.add(build_graph(p, q), c)
        rb.add_outcome(build_graph(p, q), c)
    bs.append((b, dict(start)))
    rgbs.append((rb, dict(start)))
    new_set(b.build())
    new_space(rb.build())
    gb = build_graph(p, pool[0]).builder()
    gbs.append((gb, pool[0]))
    for op in ops:
        k, i, j, c = op
        gr = graphs[i % len(graphs)]
        gv = view(gr)
        s = sets[i % len(sets)]
        sp = spaces[i % len(spaces)]
        bb, bm = bs[j % len(bs)]
        gbx = j % len(gbs)
        rbb, rbm = rgbs[j % len(rgbs)]
        if k == 'b.add':
            bb.add(gr, c)
            bm[gv] = bm.get(gv, 0) + c
        elif k == 'b.remove':
            if gv in bm:
                bb.remove(gr)
                del bm[gv]
        elif k == 'b.remove_all':
            if set(view_set(s)) <= set(bm):
                for q in view_set(s):
                    del bm[q]
                bb.remove_all(s)
        elif k == 'b.build':
            new_set(bb.build())
        elif k == 'b.copy':
            bs.append((bb.copy(), dict(bm)))
        elif k == 'b.from_set':
            bs.append((s.builder(), view_set(s)))
        elif k == 'b.add_all':
            bb.add_all(s)
            for q, cc in view_set(s).items():
                bm[q] = bm.get(q, 0) + cc
        elif k == 'set.from_dict':
            dd = {g_: n for g_, n in s.items()}
            dicts.append(dd)
            new_set(SampleSet(p, dd))
        elif k == 'b.from_dict':
            dd = {g_: n for g_, n in s.items()}
            dicts.append(dd)
            bs.append((SampleSetBuilder(p, dd), view_set(s)))
        elif k == 'd.mutate':
            for dd in dicts:
                dd[gr] = dd.get(gr, 0) + c
                if len(dd) > 2:
                    dd.pop(next(iter(dd)))
        elif k == 'set.union':
            new_set(s.union(sets[j % len(sets)]))
        elif k == 'set.filter':
            new_set(s.filter_samples(lambda q: len(q.nodes) > 1))
        elif k == 'set.join':
            new_set(SampleSetBuilder.join_sample_set([s, sets[j % len(sets)]]))
            new_set(SampleSetBuilder.join_sample_set([s]))
        elif k == 'set.empty':
            new_set(bb.empty())
        elif k == 'set.results':
            scribble(s.items())
            scribble(s.samples())
            scribble(bb.items())
            scribble(bb.samples())
            if s and s.length > 0:
                scribble(s.probabilities())
            try:
                gi = s.group_intersecting()
                gi.clear()
            except AssertionError:
                pass
        elif k == 'g.builder':
            gbs.append((gr.builder(), gv))
        elif k in ('gb.add', 'gb.copy', 'gb.build', 'gb.join', 'gb.fromedges'):
            gb, gm = gbs[gbx]
            if k == 'gb.copy':
                gbs.append((copy.copy(gb), gm))
            elif k == 'gb.build':
                if gm[0]:
                    new_graph(gb.build())
            elif k == 'gb.join':
                cp = copy.copy(gb)
                try:
                    cp.join_sample(gr)
                except AssertionError:
                    pass
                else:
                    gbs.append((cp, view(cp.build())))
                    if view(cp.build()) != gm:
                        gb.join_sample(gr)
                        gbs[gbx] = (gb, view(gb.build()))
            elif k == 'gb.fromedges':
                if gv[1]:
                    gb2 = SampleGraphBuilder(p)
                    new_graph(gb2.build_from_edges(gr.edges_set_view()))
                    gbs.append((gb2, gv))
            else:
                vs = [(v, w[j % len(w)]) for v, w in d['vars']]
                a = vs[i % len(vs)]
                o = sorted(gm[0], key=repr)[j % len(gm[0])] if gm[0] else vs[j % len(vs)]
                rel = d['rels'][i % len(d['rels'])]
                try:
                    gb.add_relation({a, o}, rel)
                except AssertionError:
                    pass
                else:
                    gbs[gbx] = (gb, (gm[0] | {a, o}, gm[1] | {(frozenset({a, o}), rel)}))
        elif k == 'rg.build':
            if rbm:
                new_space(rbb.build())
        elif k == 'rg.builder':
            if sp.outcomes:
                rgbs.append((sp.builder(), view_set(sp.outcomes)))
        elif k == 'rg.add':
            rbb.add_outcome(gr, c)
            rbm[gv] = rbm.get(gv, 0) + c
        elif k == 'rg.name':
            rbb.set_name('N%d' % i)
        elif k == 'rg.cond':
            if isinstance(sp, RelationGraph):
                new_space(sp.conditional_graph(gr))
        elif k == 'rg.relgraph':
            new_space(sp.relation_graph())
        elif k == 'rg.queries':
            sp.find_for_values({next(iter(gv[0]))})
            sp.outcomes_as_edges_sets()
            sp.print_samples()
            sp.outcomes.is_all_values_match()
            if sp.outcomes:
                sp.outcomes.can_join_samples()
            if isinstance(sp, RelationGraph):
                sp.is_factorized()
                sp.is_joined()
            for q in (lambda: sp.factorized(), lambda: sp.outcomes.make_joined_sample()):
                try:
                    q()
                except AssertionError:
                    pass
        elif k == 'rg.results':
            scribble(sp.outcomes.items())
            scribble(sp.outcomes.samples())
            if sp.outcomes:
                scribble(sp.marginal_variables_probability())
                scribble(sp.marginal_variables_probability(unobserved=True))
            scribble(sp.find_for_values(set()).items())
        elif k == 'rg.joined':
            if isinstance(sp, RelationGraph):
                for q in (lambda: sp.joined_on_variables(), lambda: sp.make_joined(),
                          lambda: sp.joined_on_variables({next(iter(gv[0]))[0]})):
                    try:
                        if len(sp.outcomes.samples()) < 9 and sp.outcomes:
                            new_space(q())
                    except AssertionError:
                        pass
        elif k == 'rg.activation':
            if isinstance(sp, ConditionalGraph) and sp.outcomes:
                sp.activation_graph()
        elif k == 'fold.results':
            f = sp.folded_graph()
            o = lambda f=f: (frozenset((n.variable, frozenset((view_node(q), cc) for q, cc in n.value_nodes), n.values,
                                        n.unobserved_count()) for n in f.nodes),
                             frozenset((e.endpoints, frozenset((view_edge(q), cc) for q, cc in e.relation_edges))
                                       for e in f.edges))
            freeze('folded graph', o)
            for n in f.nodes:
                scribble(n.marginal_distribution())
        elif k == 'g.results':
            scribble(gr.values())
            if gv[0]:
                n = next(iter(gr.nodes))
                scribble(gr.neighboring_values(n))
                cen = {n}
                scribble(gr.belt_nodes(cen))
                scribble(gr.external_nodes(cen))
                check(cen == {n}, 'a search changed its argument', case)
            gr.edges_set_view()
        elif k == 'g.transform':
            v, w = d['vars'][i % len(d['vars'])]
            new_graph(gr.transform_with_replaced_values({v: w[j % len(w)]}))
        elif k == 'prov.more':
            v, w = d['vars'][i % len(d['vars'])]
            p.get_node(v, w[j % len(w)])
        verify(op)


# ------------------------------------------------------------------------------------------ C12
def gen_C12(g):
    r = g.rng
    while True:
        d = g.decl(nv=(1, 6))
        items = g.samples(d, n=(1, 30 if r.random() < .1 else 8), empty=.03)
        if not items:
            continue
        if r.random() < .2:
            c = g.count()
            items = [(q, c) for q, _ in items]
        yield (d, items, g.graph(d))


def run_C12(case):
    d, items, q = case
    p = make_provider(d)
    m = dict(items)
    s = build_set(p, items)
    tot = sum(m.values())
    pr = s.probabilities()
    check(len(pr) == len(m), 'wrong number of probabilities', case)
    got = {view(g): x for g, x in pr}
    check(set(got) == set(m), 'probabilities of other samples', case)
    for g, x in got.items():
        check(close(x, Fraction(m[g], tot)), 'listed probability wrong', g, x, case)
        check(close(s.probability_of(build_graph(p, g)), Fraction(m[g], tot)), 'probability wrong', g, case)
    check(close(sum(got.values()), 1), 'probabilities do not sum to one', case)
    if q not in m:
        check(refused(s.probability_of, build_graph(p, q)), 'probability of a sample not held', case)


# ------------------------------------------------------------------------------------------ C13
def gen_C13(g):
    r = g.rng
    while True:
        d = g.decl(nv=(1, 6))
        items = g.samples(d, n=(0, 7), multi=r.random() < .2, empty=.03)
        if r.random() < .35:       # samples that agree on values
            fix = {v: r.choice(w) for v, w in d['vars']}
            dd = {'vars': [(v, [fix[v]]) for v, _ in d['vars']], 'rels': d['rels']}
            items = g.samples(dd, n=(1, 6))
            if r.random() < .4 and items:
                items = items + g.samples(d, n=(1, 1))
            items = list(dict(items).items())
        pool = [(v, w) for v, ws in d['vars'] for w in ws]
        vals = r.sample(pool, r.randint(0, min(3, len(pool))))
        if items and r.random() < .6:
            ns = sorted(r.choice(items)[0][0], key=repr)
            vals = r.sample(ns, r.randint(0, min(3, len(ns))))
        if r.random() < .1:
            vals.append(('undeclared', 1))
        yield (d, items, vals, r.choice(['edges', 'var', 'val', 'none', 'all']), r.choice(pool))


def run_C13(case):
    d, items, vals, pk, (v0, w0) = case
    m = dict(items)
    rb = make_rgb(d)
    p = rb._components_provider if hasattr(rb, '_components_provider') else None
    sb = rb.sample_builder()
    if not items:
        p = make_provider(d)
        s = SampleSetBuilder(p).build()
        check(view_set(s.filter_samples(lambda q: True)) == {}, 'filter of the empty set', case)
        check(s.is_all_values_match() and not s.have_value(v0, w0) and not s.have_variable(v0), 'empty set', case)
        return
    for q, c in items:
        gq = q
        b = rb.sample_builder()
        o = (b.build_empty() if not gq[0] else b.build_single_node(*next(iter(gq[0]))) if not gq[1] else
             b.build_from_edges(frozenset((eps, rel_real(x)) for eps, x in gq[1])))
        rb.add_outcome(o, c)
    rg = rb.build()
    s = rg.outcomes
    preds = {'edges': (lambda q: len(q.edges) > 1, lambda q: len(q[1]) > 1),
             'var': (lambda q: v0 in q.included_variables, lambda q: v0 in variables_of(q)),
             'val': (lambda q: q.have_value(v0, w0), lambda q: (v0, w0) in q[0]),
             'none': (lambda q: False, lambda q: False), 'all': (lambda q: True, lambda q: True)}
    f, fo = preds[pk]
    check(view_set(s.filter_samples(f)) == {q: c for q, c in m.items() if fo(q)}, 'filtered set wrong', case)
    fv = rg.find_for_values(set(vals))
    check(view_set(fv) == {q: c for q, c in m.items() if set(vals) <= q[0]}, 'found outcomes wrong', vals, case)
    iv = {}
    for q in m:
        for v, w in q[0]:
            iv.setdefault(v, set()).add(w)
    check(rg.included_variables() == frozenset((v, frozenset(w)) for v, w in iv.items()), 'included variables', case)
    check(frozenset(rel_plain(x) for x in rg.included_relations()) == frozenset(x for q in m for _, x in q[1]),
          'included relations wrong', case)
    for v, w in list(vals) + [(v0, w0), ('undeclared', 1)]:
        check(bool(s.have_value(v, w)) is any((v, w) in q[0] for q in m), 'has-value wrong', v, w, case)
        check(bool(s.have_variable(v)) is any(v in variables_of(q) for q in m), 'has-variable wrong', v, case)

    def ev(q):
        return q[1] if q[1] else (next(iter(q[0])) if q[0] else None)

    def pl(x):
        if isinstance(x, frozenset):
            return frozenset((eps, rel_plain(y)) for eps, y in x)
        return x
    if all(single_valued(q) or q[1] for q in m):
        got = frozenset((pl(x), c) for x, c in rg.outcomes_as_edges_sets())
        check(got == frozenset((ev(q), c) for q, c in m.items()), 'exported edge sets wrong', case)
    match = all(len(w) == 1 for w in iv.values())
    check(bool(s.is_all_values_match()) is match, 'value-match test wrong', case)
    if all(single_valued(q) for q in m):
        check(bool(s.can_join_samples()) is match, 'joinability test wrong', case)
    check(view_set(s) == m, 'a query changed the outcomes', case)


# ------------------------------------------------------------------------------------------ C14
def rg_of(d, items, name=None, rb=None):
    rb = rb or make_rgb(d, name)
    for q, c in items:
        b = rb.sample_builder()
        o = (b.build_empty() if not q[0] else b.build_single_node(*next(iter(q[0]))) if not q[1] else
             b.build_from_edges(frozenset((eps, rel_real(x)) for eps, x in q[1])))
        rb.add_outcome(o, c)
    return rb, rb.build()


def graph_in(sp, q, name=None):
    b = sp.sample_builder()
    if name:
        b.set_name(name)
    return (b.build_empty() if not q[0] else b.build_single_node(*next(iter(q[0]))) if not q[1] else
            b.build_from_edges(frozenset((eps, rel_real(x)) for eps, x in q[1])))


def sub_evidence(g, q):
    r = g.rng
    es = sorted(q[1], key=repr)
    if not es or r.random() < .3:
        return single(*r.choice(sorted(q[0], key=repr))) if q[0] else EMPTY
    cur = [r.choice(es)]
    for e in r.sample(es, len(es)):
        if e not in cur and any(e[0] & f[0] for f in cur) and r.random() < .5:
            cur.append(e)
    return from_edges(cur)


def gen_C14(g):
    r = g.rng
    while True:
        d = g.decl(nv=(1, 7))
        items = g.samples(d, n=(1, 9), empty=.04, multi=r.random() < .1)
        if not items:
            continue
        e = sub_evidence(g, r.choice(items)[0]) if r.random() < .8 else g.graph(d, empty=.1)
        yield (d, items, e, r.choice([None, 'cg']), r.random() < .1)


def run_C14(case):
    d, items, e, name, other = case
    m = dict(items)
    rb, rg = rg_of(d, items)
    ev = graph_in(rg, e)
    if other:
        o = build_graph(make_provider(d), e)
        check(refused(rg.conditional_graph, o), 'evidence of another provider accepted', case)
    cg = rg.conditional_graph(ev, name)
    ve = variables_of(e)
    exp = {q: c for q, c in m.items() if (e[0] <= q[0] and e[1] <= q[1]) or not (ve & variables_of(q))}
    check(view_set(cg.outcomes) == exp, 'conditional outcomes wrong', case)
    check(view(cg.evidence) == e, 'evidence not carried', case)
    if name:
        check(cg.name == name, 'conditional graph name', case)
    back = cg.relation_graph('x')
    check(view_set(back.outcomes) == exp, 'relation graph of the conditional graph wrong', case)
    check(view_set(cg.relation_graph().outcomes) == exp, 'relation graph of the conditional graph wrong', case)
    tot = sum(exp.values())
    if exp:
        for s, pr in cg.outcomes.probabilities():
            check(close(pr, Fraction(exp[view(s)], tot)), 'probability after conditioning wrong', case)
        check(view_set(cg.builder().build().outcomes) == exp, 'builder of the conditional graph', case)
    check(view_set(rg.outcomes) == m, 'conditioning changed the graph', case)


# ------------------------------------------------------------------------------------------ C15
def gen_C15(g):
    r = g.rng
    while True:
        d = g.decl(nv=(1, 6), nval=(1, 4))
        items = g.samples(d, n=(1, 9), empty=.04)
        if not items:
            continue
        vs = None
        if r.random() < .6:
            vs = r.sample([v for v, _ in d['vars']], r.randint(0, len(d['vars'])))
            if r.random() < .15:
                vs.append('undeclared')
        yield (d, items, vs, r.random() < .5)


def run_C15(case):
    d, items, vs, unob = case
    m = dict(items)
    _, rg = rg_of(d, items)
    arg = None if vs is None else set(vs)
    got = rg.marginal_variables_probability(arg, unob) if (vs is not None or unob) \
        else rg.marginal_variables_probability()
    cnt = {}
    for q, c in m.items():
        for v, w in q[0]:
            cnt.setdefault(v, {}).setdefault(w, 0)
            cnt[v][w] += c
    tot = sum(m.values())
    want = {v for v in cnt if not vs or v in vs}
    check(set(got) == want, 'marginals for other variables', set(got), want, case)
    for v in want:
        inc = sum(cnt[v].values())
        exp = {w: Fraction(c, tot if unob else inc) for w, c in cnt[v].items()}
        if unob:
            exp['u'] = Fraction(tot - inc, tot)
        check(set(got[v]) == set(exp), 'marginal lists other values', v, got[v], case)
        for w in exp:
            check(close(got[v][w], exp[w]), 'marginal probability wrong', v, w, got[v][w], exp[w], case)
        check(close(sum(got[v].values()), 1), 'marginal does not sum to one', v, case)
    check(view_set(rg.outcomes) == m and (arg is None or arg == set(vs)), 'query changed its input', case)


# ------------------------------------------------------------------------------------------ C16
def gen_C16(g):
    r = g.rng
    while True:
        d = g.decl(nv=(1, 6), nval=(1, 4))
        items = g.samples(d, n=(1, 9), empty=.04, multi=r.random() < .15)
        if items:
            yield (d, items)


def run_C16(case):
    d, items = case
    m = dict(items)
    _, rg = rg_of(d, items)
    f = rg.folded_graph()
    nodes, edges = {}, {}
    tot = sum(m.values())
    for q, c in m.items():
        for n in q[0]:
            x = nodes.setdefault(n[0], {})
            x[n] = x.get(n, 0) + c
        for e in q[1]:
            x = edges.setdefault(frozenset(v for v, _ in e[0]), {})
            x[e] = x.get(e, 0) + c
    check(len(f.nodes) == len(nodes) and {n.variable for n in f.nodes} == set(nodes), 'folded nodes wrong', case)
    check(len(f.edges) == len(edges) and {e.endpoints for e in f.edges} == set(edges), 'folded edges wrong', case)
    check(f.number_of_outcomes == tot, 'number of outcomes wrong', case)
    for n in f.nodes:
        got = {view_node(x): c for x, c in n.value_nodes}
        check(len(got) == len(n.value_nodes) and got == nodes[n.variable], 'folded node counts wrong', n, case)
        check(f.folded_node(n.variable) == n, 'folded node lookup wrong', case)
        check(n.values == frozenset(dict(d['vars'])[n.variable]), 'declared values of folded node', case)
    for v, _ in d['vars']:
        if v not in nodes:
            check(f.folded_node(v) is None, 'folded node of an absent variable', case)
    for e in f.edges:
        got = {view_edge(x): c for x, c in e.relation_edges}
        check(len(got) == len(e.relation_edges) and got == edges[e.endpoints], 'folded edge counts wrong', e, case)
    if all(single_valued(q) for q in m):
        for n in f.nodes:
            inc = sum(nodes[n.variable].values())
            check(n.unobserved_count() == tot - inc, 'unobserved count wrong', n, case)
            md = n.marginal_distribution()
            exp = {w: Fraction(nodes[n.variable].get((n.variable, w), 0), tot) for w in dict(d['vars'])[n.variable]}
            exp['unobserved'] = Fraction(tot - inc, tot)
            check(set(md) == set(exp) and all(close(md[w], exp[w]) for w in exp), 'marginal distribution wrong', n, md, case)
            check(close(sum(md.values()), 1), 'marginal distribution does not sum to one', case)
            check(n.marginal_distribution() == md and n.unobserved_count() == tot - inc, 'second query differs', case)
    check(view_set(rg.outcomes) == m, 'folding changed the outcomes', case)


# ------------------------------------------------------------------------------------------ C17
def gen_C17(g):
    r = g.rng
    while True:
        d = g.decl(nv=(1, 7))
        items = g.samples(d, n=(1, 8), empty=.03)
        if not items:
            continue
        e = sub_evidence(g, r.choice(items)[0]) if r.random() < .85 else g.graph(d)
        if not e[0]:
            continue
        if r.random() < .5:       # many outcomes that contain the evidence
            more = {}
            for q, c in items:
                fix = dict(e[0])
                m = lambda n: (n[0], fix.get(n[0], n[1]))
                es = {}
                for eps, rel in q[1]:
                    es.setdefault(frozenset(m(n) for n in eps), rel)
                for eps, rel in e[1]:
                    es[eps] = rel
                if es:
                    x = from_edges(es.items())
                    if e[0] <= x[0] and connected_nodes(*x) == 1:
                        more[x] = c
            items = list({**dict(items), **more}.items())
        ve = variables_of(e)
        if not any((e[0] <= q[0] and e[1] <= q[1]) or not (ve & variables_of(q)) for q, _ in items):
            continue
        yield (d, items, e, g.rel_filter(d, [q for q, _ in items]))


def run_C17(case):
    d, items, e, rf = case
    _, rg = rg_of(d, items)
    cg = rg.conditional_graph(graph_in(rg, e))
    ve = variables_of(e)
    m = {q: c for q, c in dict(items).items() if (e[0] <= q[0] and e[1] <= q[1]) or not (ve & variables_of(q))}
    rreal = None if rf is None else {rel_real(x) for x in rf}
    ag = cg.activation_graph(rreal)
    tot = sum(m.values())
    w = {(v, x): Fraction(0) for v, xs in d['vars'] for x in xs}
    rels = {}
    for q, c in m.items():
        inter = len(q[0] & e[0]) + len(q[1] & e[1])
        sim = Fraction(inter, len(q[0] | e[0]) + len(q[1] | e[1]))
        for n in q[0] & e[0]:
            w[n] += c
        inside = frozenset(e[0])
        used = set()
        while True:
            bl = {}
            for eps, rel in q[1]:
                if not rf or rel in rf:
                    o = eps - inside
                    if len(o) == 1:
                        bl.setdefault(next(iter(o)), set()).add((eps, rel))
            if not bl:
                break
            for n, es in bl.items():
                w[n] += sim * c
                used |= es
            inside |= set(bl)
        for ed, flag in [(x, False) for x in used] + [(x, True) for x in e[1]]:
            key = frozenset(v for v, _ in ed[0])
            x = rels.setdefault(key, ({}, flag))
            x[0][ed[1]] = x[0].get(ed[1], 0) + c
    check(len(ag.nodes) == len(d['vars']) and {n.variable for n in ag.nodes} == {v for v, _ in d['vars']},
          'activation nodes wrong', case)
    check(ag.number_of_outcomes == tot, 'number of outcomes wrong', case)
    for n in ag.nodes:
        got = dict(n.values)
        check(len(got) == len(n.values) and set(got) == set(dict(d['vars'])[n.variable]), 'activation values', n, case)
        for x, y in got.items():
            check(close(y, w[(n.variable, x)] / tot), 'activation weight wrong', n.variable, x, y, w[(n.variable, x)] / tot, case)
            check(-1e-12 <= y <= 1 + 1e-9, 'activation weight out of range', case)
        check(bool(n.in_query) is (n.variable in ve), 'in-query mark of a node wrong', n, case)
    got = {ed.endpoints: ({rel_plain(x): c for x, c in ed.relations}, bool(ed.in_query)) for ed in ag.edges}
    check(len(got) == len(ag.edges) and got == rels, 'activation edges wrong', got, rels, case)
    check(view_set(cg.outcomes) == m and view(cg.evidence) == e, 'activation changed the conditional graph', case)


# ------------------------------------------------------------------------------------------ C18
def gen_C18(g):
    r = g.rng
    while True:
        d = g.decl(nv=(1, 6))
        if r.random() < .55:      # likely factorized: fixed structures over values
            items = {}
            structs = []
            used = set()
            vs = [v for v, _ in d['vars']]
            for _ in range(r.randint(1, 4)):
                q = g.graph(d, variables=r.sample(vs, min(len(vs), r.randint(1, 3))))
                if not (pairs_of(q) & used):
                    used |= pairs_of(q)
                    structs.append(q)
            for q in structs:
                for _ in range(r.randint(1, 4)):
                    fix = {v: r.choice(dict(d['vars'])[v]) for v in variables_of(q)}
                    if q[1]:
                        x = from_edges([(frozenset((v, fix[v]) for v, _ in eps), rel) for eps, rel in q[1]])
                    else:
                        x = single(*next(iter(fix.items())))
                    items[x] = g.count()
            items = list(items.items())
            if r.random() < .15:
                items += g.samples(d, n=(1, 1), empty=.2)
                items = list(dict(items).items())
        else:
            items = g.samples(d, n=(1, 6), empty=.05)
        if items:
            r.shuffle(items)
            yield (d, items)


def fkey(q):
    return ('p', pairs_of(q)) if q[1] else ('v', next(iter(variables_of(q))))


def run_C18(case):
    d, items = case
    m = dict(items)
    _, rg = rg_of(d, items)
    ok = all(q[0] for q in m)
    ps = {pairs_of(q) for q in m}
    ok = ok and all(a == b or not (a & b) for a in ps for b in ps)
    check(bool(rg.is_factorized()) is ok, 'is_factorized wrong', ok, case)
    try:
        fs = rg.factorized()
    except AssertionError:
        check(not ok, 'factorizable graph refused', case)
    else:
        check(ok, 'graph that is not factorized was split', case)
        exp = {}
        for q, c in m.items():
            exp.setdefault(fkey(q), {})[q] = c
        got = [view_set(f) for f in fs]
        check(len(got) == len(exp) and all(x in got for x in exp.values()), 'factors wrong', got, case)
    check(bool(rg.is_joined()) is (len({variables_of(q) for q in m}) <= 1), 'is_joined wrong', case)
    check(view_set(rg.outcomes) == m, 'query changed the outcomes', case)


# ------------------------------------------------------------------------------------------ C19
def gen_C19(g):
    r = g.rng
    while True:
        d = g.decl(nv=(1, 9), nval=(1, 2))
        vs = [v for v, _ in d['vars']]
        items = {}
        for _ in range(r.randint(0, 14)):
            q = g.graph(d, variables=r.sample(vs, min(len(vs), r.choice([1, 2, 2, 2, 3, 3, 4]))))
            items[q] = g.count()
        yield (d, list(items.items()))


def groups_of(m):
    """oracle: list of (variables, dict) or None if two groups cover the same variables"""
    gs = []
    for q, c in m.items():
        if not q[1]:
            continue
        ps = set(pairs_of(q))
        hit = [x for x in gs if x[0] & ps]
        for x in hit:
            gs.remove(x)
        gs.append((ps.union(*[x[0] for x in hit]), {**{q: c}, **{k: v for x in hit for k, v in x[1].items()}}))
    out = [(frozenset(v for pr in ps for v in pr), mm) for ps, mm in gs]
    sv = {}
    for q, c in m.items():
        if not q[1]:
            sv.setdefault(variables_of(q), {})[q] = c
    out += list(sv.items())
    if len({v for v, _ in out}) != len(out):
        return None
    return dict(out)


def run_C19(case):
    d, items = case
    m = dict(items)
    p = make_provider(d)
    s = build_set(p, items)
    exp = groups_of(m)
    try:
        got = s.group_intersecting()
    except AssertionError:
        check(exp is None, 'grouping refused', case)
        return
    check(exp is not None, 'two groups over the same variables are not refused', case)
    g = {frozenset(k): view_set(v) for k, v in got.items()}
    check(len(g) == len(got) and g == exp, 'groups wrong', g, exp, case)
    check(view_set(s) == m, 'grouping changed the set', case)


# ------------------------------------------------------------------------------------------ C20
def gen_C20(g):
    r = g.rng
    while True:
        d = g.decl(nv=(1, 5), nval=(1, 2 if r.random() < .7 else 3), rels=r.choice([['r'], ['r', 's'], [0, 1]]))
        vs = [v for v, _ in d['vars']]
        structs, used = [], set()
        covered = []
        for _ in range(r.randint(1, 4)):
            k = min(len(vs), r.choice([1, 2, 2, 2, 3]))
            pick = r.sample(vs, k)
            if covered and r.random() < .85 and not set(pick) & set(covered):
                pick[0] = r.choice(covered)
            q = g.graph(d, variables=list(dict.fromkeys(pick)), directed=.1)
            if pairs_of(q) & used or (not q[1] and variables_of(q) in [variables_of(x) for x in structs if not x[1]]):
                continue
            used |= pairs_of(q)
            structs.append(q)
            covered += list(variables_of(q))
        vals = dict(d['vars'])
        items = {}
        for q in structs:
            fv = sorted(variables_of(q), key=repr)
            for combo in itertools.product(*[vals[v] for v in fv]):
                fix = dict(zip(fv, combo))
                for _ in range(1 if r.random() < .8 else 2):
                    if q[1]:
                        x = from_edges([(frozenset((v, fix[v]) for v, _ in eps),
                                         rel if r.random() < .7 else r.choice(d['rels'])) for eps, rel in q[1]])
                    else:
                        x = single(*next(iter(fix.items())))
                    items[x] = r.randint(1, 7) if r.random() < .9 else g.count()
        if not items or len(items) > 40:
            continue
        n = 1
        for q in structs:
            n *= sum(1 for x in items if fkey(x) == fkey(q))
        if n > 700:
            continue
        items = list(items.items())
        r.shuffle(items)
        yield (d, items)


def product_join(factors):
    """every agreeing choice of one outcome per factor: union and product of counts"""
    out = {}
    for combo in itertools.product(*[list(f.items()) for f in factors]):
        vals = {}
        ok = True
        for q, _ in combo:
            for v, w in q[0]:
                if vals.setdefault(v, w) != w:
                    ok = False
        if ok:
            u = (frozenset().union(*[q[0] for q, _ in combo]), frozenset().union(*[q[1] for q, _ in combo]))
            out[u] = out.get(u, 0) + prod(c for _, c in combo)
    return out


def run_C20(case):
    d, items = case
    m = dict(items)
    _, rg = rg_of(d, items, 'RG')
    fs = {}
    for q, c in m.items():
        fs.setdefault(fkey(q), {})[q] = c
    fv = [variables_of(next(iter(f))) for f in fs.values()]
    comp = []
    for v in fv:
        hit = [x for x in comp if x & v]
        comp = [x for x in comp if not x & v] + [frozenset(v).union(*hit)]
    try:
        j = rg.make_joined()
    except AssertionError as ex:
        check(len(comp) > 1, 'linked complete factors refused: ' + short(ex, 200), case)
        return
    check(len(comp) <= 1, 'factors that are not linked were joined', case)
    exp = product_join(list(fs.values()))
    check(view_set(j.outcomes) == exp, 'joined distribution wrong', view_set(j.outcomes), exp, case)
    check(view_set(rg.outcomes) == m, 'joining changed the graph', case)
    check(rg.make_joined('nm').name == 'nm', 'name of the joined graph', case)


# ------------------------------------------------------------------------------------------ C21
def gen_C21(g):
    r = g.rng
    while True:
        d = g.decl(nv=(1, 6), nval=(1, 2), rels=r.choice([['r'], ['r', 's']]))
        vs = [v for v, _ in d['vars']]
        items = {}
        for _ in range(r.randint(1, 9)):
            q = g.graph(d, variables=r.sample(vs, min(len(vs), r.choice([1, 2, 2, 2, 3]))), directed=.1)
            items[q] = r.randint(1, 7) if r.random() < .9 else g.count()
        k = r.random()
        jv = [r.choice(vs)] if k < .6 else ([] if k < .65 else (None if k < .8 else r.sample(vs, min(len(vs), 2))))
        yield (d, list(items.items()), jv)


def join_on(m, v):
    """oracle for one variable; None if refused (two groups over the same variables)"""
    inc = {q: c for q, c in m.items() if v in variables_of(q)}
    rest = {q: c for q, c in m.items() if q not in inc}
    gs = groups_of(inc)
    if gs is None:
        return None
    n = 1
    for x in gs.values():
        n *= len(x)
    if n > 400:
        raise Skip
    if not gs:
        return dict(m)
    return add_counts(rest, product_join(list(gs.values())))


class Skip(Exception):
    pass


def run_C21(case):
    d, items, jv = case
    m = dict(items)
    _, rg = rg_of(d, items, 'RG')
    order = jv if jv is not None else sorted({v for q in m for v in variables_of(q)}, key=repr)
    exps, refus = [], False
    try:
        if len(order) > 4:
            return
        for perm in itertools.permutations(order):
            cur = m
            for v in perm:
                cur = join_on(cur, v)
                if cur is None:
                    refus = True
                    break
            if cur is not None and cur not in exps:
                exps.append(cur)
    except Skip:
        return
    try:
        j = rg.joined_on_variables(None if jv is None else set(jv))
    except AssertionError as ex:
        check(refus, 'joining on variables refused: ' + short(ex, 200), case)
        return
    check(view_set(j.outcomes) in exps, 'join on variables wrong', view_set(j.outcomes), exps[:2], case)
    check(view_set(rg.outcomes) == m, 'joining changed the graph', case)


# ------------------------------------------------------------------------------------------ C22
def gen_C22(g):
    r = g.rng
    while True:
        # (variables, relations, largest number of values, variables with more than one value)
        n, nr, nval, multi = r.choice([
            (1, 1, 6, 1), (1, 3, 4, 1), (2, 1, 4, 2), (2, 2, 4, 2), (2, 3, 3, 2), (2, 5, 2, 2), (2, 8, 1, 0),
            (3, 1, 3, 3), (3, 1, 3, 3), (3, 2, 3, 2), (3, 2, 2, 3), (3, 3, 2, 1), (3, 3, 2, 3), (3, 4, 1, 0), (3, 5, 1, 0),
            (4, 1, 2, 1), (4, 1, 2, 4), (4, 2, 1, 0)])
        if r.random() < .004:
            n, nr, nval, multi = r.choice([(5, 1, 1, 0), (4, 2, 2, 2)])
        d = g.decl(nv=(n, n), nval=(1, nval))
        if len(d['rels']) < nr or r.random() < .1:
            d['rels'] = r.choice([['r', 's', 't', 'q', 'rr', 'x', 'y', 'z'], [0, 1, 2, '0', '1', (), (1,), None],
                                  [True, False, 'True', 'False', 'r_1', 'r', '_', '']])
        d['rels'] = d['rels'][:nr]
        d['vars'] = [(v, w if i < multi else w[:1]) for i, (v, w) in enumerate(d['vars'])]
        yield (d, r.random() < .2)


def all_graphs(d):
    out = set()
    vs = d['vars']
    for k in range(1, len(vs) + 1):
        for sub in itertools.combinations(vs, k):
            prs = list(itertools.combinations(range(k), 2))
            shapes = []
            for states in itertools.product([None] + [(x,) for x in d['rels']], repeat=len(prs)):
                es = [(pr, s[0]) for pr, s in zip(prs, states) if s is not None]
                if connected_nodes(range(k), [(frozenset(pr), 0) for pr, _ in es]) == 1:
                    shapes.append(es)
            for vals in itertools.product(*[w for _, w in sub]):
                nodes = [(v, x) for (v, _), x in zip(sub, vals)]
                for es in shapes:
                    out.add((frozenset(nodes), frozenset((frozenset({nodes[i], nodes[j]}), rel) for (i, j), rel in es)))
    return out


def run_C22(case):
    d, pre = case
    rb = make_rgb(d, 'all')
    if pre:
        v, w = d['vars'][0]
        rb.build_sample(lambda b: b.build_single_node(v, w[0]))
        check(refused(rb.generate_all_possible_outcomes), 'generating on a non-empty builder', case)
        rb = make_rgb(d, 'all')
    exp = all_graphs(d)
    res = rb.generate_all_possible_outcomes()
    check(res is rb, 'does not return the builder')
    got = view_set(rb.build().outcomes)
    check(set(got) == exp, 'generated outcomes wrong', set(got) - exp, exp - set(got), case)
    check(all(c == 1 for c in got.values()), 'generated counts wrong', case)
    check(refused(rb.generate_all_possible_outcomes), 'generating twice is not refused', case)


# ------------------------------------------------------------------------------------------ C23
def gen_C23(g):
    r = g.rng
    while True:
        d = g.decl(nv=(1, 5))
        pool = list(dict.fromkeys(g.graph(d, empty=.05) for _ in range(r.randint(1, 6))))
        ops = []
        for _ in range(r.randint(1, 18)):
            k = r.choice(['add', 'add', 'add', 'add1', 'bad', 'foreign', 'many', 'manybad', 'sample', 'build', 'derive',
                          'id', 'id', 'name'])
            if k == 'add':
                ops.append((k, r.choice(pool), g.count()))
            elif k == 'bad':
                ops.append((k, r.choice(pool), r.choice([0, -1, -5, -1000000])))
            elif k in ('many', 'manybad'):
                ops.append((k, [r.choice(pool) for _ in range(r.randint(0, 5))], r.choice([None, g.count()])))
            elif k in ('add1', 'foreign', 'sample'):
                ops.append((k, r.choice(pool)))
            elif k == 'name':
                ops.append((k, r.choice(['n1', 'n2'])))
            else:
                ops.append((k,))
        yield (d, ops, r.choice([None, 'start']))


def run_C23(case):
    d, ops, name = case
    rb = make_rgb(d, name)
    m = {}
    ids = set()

    def same(what):
        if m:
            g = rb.build()
            check(view_set(g.outcomes) == m, what + ': accumulated outcomes wrong', view_set(g.outcomes), m, case)
            check(g.variables == frozenset((v, frozenset(w)) for v, w in d['vars'])
                  and g.relations == frozenset(d['rels']), what + ': declarations wrong', case)
            if name:
                check(g.name == name, what + ': name wrong', case)
        else:
            check(refused(rb.build), 'building with no outcome is not refused', case)
    mk = lambda q: graph_in(rb, q)
    for op in ops:
        k = op[0]
        if k == 'add':
            check(rb.add_outcome(mk(op[1]), op[2]) is rb, 'add does not return the builder')
            m[op[1]] = m.get(op[1], 0) + op[2]
        elif k == 'add1':
            rb.add_outcome(mk(op[1]))
            m[op[1]] = m.get(op[1], 0) + 1
        elif k == 'bad':
            check(refused(rb.add_outcome, mk(op[1]), op[2]), 'count below one accepted', op, case)
        elif k == 'foreign':
            check(refused(rb.add_outcome, build_graph(make_provider(d), op[1]), 1), 'foreign outcome accepted', case)
        elif k == 'many':
            gs = [mk(q) for q in op[1]]
            rb.add_outcomes(gs) if op[2] is None else rb.add_outcomes(gs, op[2])
            for q in op[1]:
                m[q] = m.get(q, 0) + (op[2] or 1)
        elif k == 'manybad':
            if op[1]:
                check(refused(rb.add_outcomes, [mk(q) for q in op[1]], 0), 'count below one accepted', op, case)
        elif k == 'sample':
            check(rb.build_sample(lambda b: graph_in(rb, op[1])) is rb, 'build_sample does not return the builder')
            m[op[1]] = m.get(op[1], 0) + 1
            rb.build_sample(lambda b: b.build_single_node(d['vars'][0][0], d['vars'][0][1][0]))
            s = single(d['vars'][0][0], d['vars'][0][1][0])
            m[s] = m.get(s, 0) + 1
        elif k == 'derive' and m:
            g = rb.build()
            rb = g.builder()
            ids = set()
            name = g.name
        elif k == 'id':
            for _ in range(3):
                i = rb.next_id()
                check(i not in ids, 'a generated id is repeated', case)
                ids.add(i)
        elif k == 'name':
            rb.set_name(op[1])
            name = op[1]
        same(k)
    check(refused(RelationGraphBuilder), 'builder without declarations accepted')
