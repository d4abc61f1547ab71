"""Contracts of sample_graph.SampleGraphBuilder (C04, C05, C06)."""
from .graph import *
from .components import *

PAIRS = SetT(VV)


def no_parallel(E):
    e, f = fresh('e', EDGE), fresh('f', EDGE)
    return forall([e, f], implies(and_(sel(E, e), sel(E, f), eq_term(ends(e), ends(f))), e == f))


def closed(N, E):
    """edges have two endpoints, which are nodes"""
    e, n = fresh('e', EDGE), fresh('n', NODE)
    return and_(forall(e, implies(sel(E, e), wf_edge(e))), forall([e, n], implies(and_(sel(E, e), sel(ends(e), n)), sel(N, n))))


BUILDER = obj('SampleGraphBuilder', components_provider=val(P), name=[val(U), none()][0], nodes=mut(SetT(NODE)), edges=mut(SetT(EDGE)))


def node_set(ps):
    """the nodes named by a set of variable-value pairs"""
    return setof(NODE, lambda n: sel(ps, VV.mk(var(n), value(n))))


def parts(c, self):
    return c.abs(self, 'components_provider').t, c.abs(self, 'nodes').t, c.abs(self, 'edges').t


def two_vars(ps):
    """exactly two pairs, with different variables"""
    a, b = fresh('a', VV), fresh('b', VV)
    return and_(T.CARD(ps) == 2, forall([a, b], implies(and_(sel(ps, a), sel(ps, b), VV.get(a, 0) == VV.get(b, 0)), VV.get(a, 1) == VV.get(b, 1))))


def declared_all(p, ps):
    return q('all', VV, lambda y: implies(sel(ps, y), BI.pv_declared(p, VV.get(y, 0), VV.get(y, 1))))


def relation_ok(p, ps, r):
    has = lambda v: q('ex', VV, lambda y: and_(sel(ps, y), VV.get(y, 0) == v))
    return and_(BI.pv_relation(p, BI.inner_relation(r)), implies(is_dr(r), and_(has(dr_src(r)), has(dr_tgt(r)))))


def adds(c, self, ps, r):
    p, N, E = parts(c, self)
    c.requires(closed(N, E), no_parallel(E))
    ns = node_set(ps)
    new = EDGE.mk(ns, r)
    e = fresh('e', EDGE)
    ok = and_(two_vars(ps), declared_all(p, ps), relation_ok(p, ps, r),
              or_(is_empty(N), q('ex', NODE, lambda n: and_(sel(ns, n), sel(N, n)))),
              not_(exists(e, and_(sel(E, e), eq_term(ends(e), ns)))))
    c.raises(not_(ok))
    c.becomes(self, components_provider=c.abs(self, 'components_provider'), name=c.abs(self, 'name'),
              nodes=V(SetT(NODE), union(N, ns), None, None, 'mut'), edges=V(SetT(EDGE), insert(E, new), None, None, 'mut'))
    c.returns_same(self)


@contract('SampleGraphBuilder.add_relation', 'C04', callable_=False, self=BUILDER, endpoints=mut(PAIRS), relation=val(U))
def add_relation(c, self, endpoints, relation):
    adds(c, self, c.content(endpoints), relation.t)


@contract('SampleGraphBuilder.add_directed_relation', 'C04', callable_=False, self=BUILDER, source=val(VV), target=val(VV), relation=val(U))
def add_directed(c, self, source, target, relation):
    s, t = source.t, target.t
    adds(c, self, setof(VV, lambda y: or_(y == s, y == t)), dr(VV.get(s, 0), VV.get(t, 0), relation.t))


@contract('SampleGraphBuilder.build', 'C04 C11'.split(), callable_=False, self=BUILDER)
def b_build(c, self):
    p, N, E = parts(c, self)
    c.raises(is_empty(N))
    c.returns(SG, SG.mk(N, E, p))


@contract('SampleGraphBuilder.build_empty', 'C04', callable_=False, self=BUILDER)
def b_empty(c, self):
    p, N, E = parts(c, self)
    c.returns(SG, SG.mk(empty_set(NODE), empty_set(EDGE), p))


@contract('SampleGraphBuilder.build_single_node', 'C04', callable_=False, self=BUILDER, variable=val(U), value=val(U))
def b_single(c, self, variable, value):
    p, N, E = parts(c, self)
    c.raises(not_(BI.pv_declared(p, variable.t, value.t)))
    c.returns(SG, SG.mk(setof(NODE, lambda n: n == NODE.mk(variable.t, value.t)), empty_set(EDGE), p))


@contract('SampleGraphBuilder.set_name', 'C04', callable_=False, self=BUILDER, name=[val(U), none()])
def b_set_name(c, self, name):
    p, N, E = parts(c, self)
    c.becomes(self, components_provider=c.abs(self, 'components_provider'), name=name,
              nodes=V(SetT(NODE), N, None, None, 'mut'), edges=V(SetT(EDGE), E, None, None, 'mut'))
    c.requires(no_parallel(E))
    c.returns_same(self)


for how in ('build()', 'build_empty()', 'build_single_node(v, x)'):
    @contract('use: SampleGraphBuilder.%s.name' % how, 'C04', callable_=False, client='def use(b, n, v, x): return b.set_name(n).%s.name' % how,
              b=BUILDER, n=val(U), v=val(U), x=val(U))
    def b_name(c, b, n, v, x, how=how):
        p, N, E = parts(c, b)
        c.requires(truthyU(n.t), no_parallel(E), not_(is_empty(N)), BI.pv_declared(p, v.t, x.t))
        c.after(b, '_name', U, lambda a, r: a == n.t)
        c.returns(U, n.t)


@contract('SampleGraphBuilder.__copy__', 'C11', callable_=False, self=BUILDER)
def b_copy(c, self):
    p, N, E = parts(c, self)
    c.requires(no_parallel(E))
    c.result_obj('SampleGraphBuilder', components_provider=c.abs(self, 'components_provider'), name=c.abs(self, 'name'),
                 nodes=V(SetT(NODE), N, None, None, 'mut'), edges=V(SetT(EDGE), E, None, None, 'mut'))


@contract('SampleGraph.builder', 'C11', callable_=False, self=val(SG))
def sg_builder(c, self):
    s = self.t
    c.requires(no_parallel(edges(s)))
    c.result_obj('SampleGraphBuilder', components_provider=V(P, prov(s)), name=c.attr(self, 'name'),
                 nodes=V(SetT(NODE), nodes(s), None, None, 'mut'), edges=V(SetT(EDGE), edges(s), None, None, 'mut'))


# ---- C05: connectivity of edge sets given as (endpoint pairs, relation)
XE = TupT(SetT(VV), U)
XS = SetT(XE)
DVV = DictT(VV, SetT(VV))
xends = lambda e: XE.get(e, 0)


def closed_pairs(X, S):
    """no edge of X leaves S"""
    e, a, b = fresh('e', XE), fresh('a', VV), fresh('b', VV)
    return forall([e, a, b], implies(and_(sel(X, e), sel(xends(e), a), sel(xends(e), b), sel(S, a)), sel(S, b)))


def all_or_nothing(X, S):
    """S, if no edge leaves it, contains all endpoints or none"""
    e, a, f, b = fresh('e', XE), fresh('a', VV), fresh('f', XE), fresh('b', VV)
    return implies(closed_pairs(X, S), forall([e, a, f, b], implies(and_(
        sel(X, e), sel(xends(e), a), sel(S, a), sel(X, f), sel(xends(f), b)), sel(S, b))))


# connected: every set of nodes no edge leaves contains all endpoints or none. CUT is a set that shows the contrary, if there is one
CONN = z3.Function('connected', XS.sort, z3.BoolSort())
CUT = z3.Function('cut', XS.sort, SetT(VV).sort)


def conn_def(c, X):
    c.for_all(SetT(VV), lambda S: implies(CONN(X), all_or_nothing(X, S)))
    c.axiom(implies(not_(CONN(X)), not_(all_or_nothing(X, CUT(X)))))


def respects(M, S):
    """S is not left or entered along M"""
    k, n = fresh('k', VV), fresh('n', VV)
    return forall([k, n], implies(and_(sel(DVV.dom(M), k), sel(sel(DVV.val(M), k), n)), sel(S, k) == sel(S, n)))


def expanded(M, old, new):
    """everything added has all its successors"""
    k, n = fresh('k', VV), fresh('n', VV)
    return and_(forall(k, implies(and_(sel(new, k), not_(sel(old, k))), sel(DVV.dom(M), k))),
                forall([k, n], implies(and_(sel(new, k), not_(sel(old, k)), sel(sel(DVV.val(M), k), n)), sel(new, n))))


@contract('SampleGraphBuilder.is_edges_connected/trace', 'C05', closure=dict(tracing_map=defmut(DVV), traced=mut(SetT(VV))), start_node=val(VV))
def b_trace(c, start_node, tracing_map, traced):
    M, T0, v = c.content(tracing_map), c.content(traced), start_node.t
    S = c.ghost('closed', SetT(VV))
    k, n = fresh('k', VV), fresh('n', VV)
    c.requires(sel(DVV.dom(M), v), forall([k, n], implies(and_(sel(DVV.dom(M), k), sel(sel(DVV.val(M), k), n)), sel(DVV.dom(M), n))))
    c.changes(traced, SetT(VV), lambda t: and_(
        subset(T0, t), sel(t, v), expanded(M, T0, t),
        implies(respects(M, S), forall(n, implies(and_(sel(t, n), not_(sel(T0, n))), sel(S, n) == sel(S, v))))))

    def inv(L):
        if L.keys() != {('cell', traced.cid)} or L.x.sort() != VV.sort:
            return None
        a, t = L.init(traced, SetT(VV)), L.now(traced, SetT(VV))
        n = fresh('n', VV)
        return [subset(a, t), forall(n, implies(L.d(n), sel(t, n))), expanded(M, a, t),
                implies(respects(M, S), forall(n, implies(and_(sel(t, n), not_(sel(a, n))), sel(S, n) == sel(S, v))))]
    c.invariant(inv)


@contract('SampleGraphBuilder.is_edges_connected', 'C05', edges=val(XS))
def b_connected(c, edges):
    X = edges.t
    c.requires(not_(is_empty(X)), q('all', XE, lambda e: implies(sel(X, e), T.CARD(xends(e)) == 2)))
    c.ghost_is('closed', CUT(X))
    conn_def(c, X)
    c.returns(BOOL, CONN(X))

    def inv(L):
        ms = L.others(DVV, [])
        if len(L.keys()) != 1 or len(ms) != 1 or L.x.sort() != XE.sort:
            return None
        M = ms[0][1]
        k, n, e = fresh('k', VV), fresh('n', VV), fresh('e', XE)
        return [forall(k, sel(DVV.dom(M), k) == exists(e, and_(L.d(e), sel(xends(e), k)))),
                forall([k, n], implies(sel(DVV.dom(M), k), sel(sel(DVV.val(M), k), n) == exists(e, and_(
                    L.d(e), sel(xends(e), k), sel(xends(e), n), k != n))))]
    c.invariant(inv)


FRESH = obj('SampleGraphBuilder', components_provider=val(P), name=val(U))


def bad_edge(p, X):
    """some edge does not join two different variables or has an undeclared component"""
    return q('ex', XE, lambda e: and_(sel(X, e), not_(and_(two_vars(xends(e)), declared_all(p, xends(e)), relation_ok(p, xends(e), XE.get(e, 1))))))


def x_nodes(X):
    return setof(NODE, lambda n: q('ex', XE, lambda e: and_(sel(X, e), sel(xends(e), VV.mk(var(n), value(n))))))


def x_edges(X):
    return setof(EDGE, lambda e: q('ex', XE, lambda x: and_(sel(X, x), e == EDGE.mk(node_set(xends(x)), XE.get(x, 1)))))


def from_edges(c, self, X, validate):
    p = c.abs(self, 'components_provider').t
    c.requires(not_(is_empty(X)), q('all', XE, lambda e: implies(sel(X, e), T.CARD(xends(e)) == 2)))
    c.raises(or_(and_(validate, not_(CONN(X))), bad_edge(p, X)))
    c.refuse_frame = False
    c.may_change(self)
    c.returns(SG, SG.mk(x_nodes(X), x_edges(X), p))


@contract('SampleGraphBuilder.validate_endpoints', 'C05', callable_=False, endpoints=val(PAIRS))
def b_validate(c, endpoints):
    c.raises(not_(two_vars(endpoints.t)))


@contract('SampleGraphBuilder.build_from_edges', 'C05', callable_=False, self=FRESH, edges=val(XS), validate_connectivity=val(BOOL))
def b_from_edges(c, self, edges, validate_connectivity):
    from_edges(c, self, edges.t, validate_connectivity.t)


@contract('use: SampleGraphBuilder.build_from_edges(edges)', 'C05', callable_=False, client='def use(b, e): return b.build_from_edges(e)', b=FRESH, e=val(XS))
def b_from_edges_default(c, b, e):
    from_edges(c, b, e.t, TRUE)


@contract('use: build_from_edges(edges_set_view())', 'C05', callable_=False,
          client='def use(b, s): return b.build_from_edges(s.edges_set_view())', b=FRESH, s=val(SG))
def b_round_trip(c, b, s):
    p = c.abs(b, 'components_provider').t
    s = s.t
    N, E = nodes(s), edges(s)
    c.requires(not_(is_empty(E)), closed(N, E), q('all', NODE, lambda n: implies(sel(N, n), q('ex', EDGE, lambda e: and_(sel(E, e), sel(ends(e), n))))))
    c.raises(or_(not_(CONN(edges_view(s))), bad_edge(p, edges_view(s))))
    c.refuse_frame = False
    c.may_change(b)
    c.returns(SG, SG.mk(N, E, p))


# ---- C06: joining a sample
NSET, ESET, EPD = SetT(NODE), SetT(EDGE), DictT(SetT(NODE), EDGE)


def in_or_out(X, S):
    """every edge of X lies in S or outside"""
    e, a, b = fresh('e', EDGE), fresh('a', NODE), fresh('b', NODE)
    return forall([e, a, b], implies(and_(sel(X, e), sel(ends(e), a), sel(ends(e), b), sel(S, a)), sel(S, b)))


def touches(X, S, inside=True):
    e, a = fresh('e', EDGE), fresh('a', NODE)
    return exists([e, a], and_(sel(X, e), sel(ends(e), a), sel(S, a) if inside else not_(sel(S, a))))


def separates(N, X, S):
    """S shows that the edges X do not connect to the nodes N, or (if there are none) to each other"""
    return and_(in_or_out(X, S), subset(N, S), touches(X, S, False), or_(not_(is_empty(N)), touches(X, S)))


# the edges X do not connect to N: some S separates them. SEP is such an S, if there is one
DISC = z3.Function('disconnected', NSET.sort, ESET.sort, z3.BoolSort())
SEP = z3.Function('separation', NSET.sort, ESET.sort, NSET.sort)
compl = lambda S: setof(NODE, lambda n: not_(sel(S, n)))


def disc_def(c, N, X):
    c.define(implies(DISC(N, X), separates(N, X, SEP(N, X))))
    # used at the separations of other arguments, and at N itself
    use = lambda S: S.eq(N) or z3.is_app(S) and S.decl().eq(SEP) and not S.eq(SEP(N, X))
    c.for_all(NSET, lambda S: and_(implies(separates(N, X, S), DISC(N, X)), implies(separates(N, X, compl(S)), DISC(N, X))) if use(S) else T.TRUE)
    c.term(SEP(N, X))


def v_nodes(X):
    return setof(NODE, lambda n: q('ex', EDGE, lambda e: and_(sel(X, e), sel(ends(e), n))))


def clash(E, X):
    """an edge of X joins the same nodes as one of E, by another relation"""
    e, f = fresh('e', EDGE), fresh('f', EDGE)
    return exists([e, f], and_(sel(X, e), sel(E, f), eq_term(ends(e), ends(f)), rel(e) != rel(f)))


def var_clash(N, X):
    """a node of X that is not in N has the variable of another node"""
    V_ = v_nodes(X)
    m, n = fresh('m', NODE), fresh('n', NODE)
    return exists([m, n], and_(sel(V_, m), not_(sel(N, m)), or_(sel(N, n), sel(V_, n)), m != n, var(m) == var(n)))


def ends_distinct(X):
    """the endpoints of an edge have different variables"""
    e, a, b = fresh('e', EDGE), fresh('a', NODE), fresh('b', NODE)
    return forall([e, a, b], implies(and_(sel(X, e), sel(ends(e), a), sel(ends(e), b), var(a) == var(b)), a == b))


def indexed(M, E):
    """M maps exactly the endpoint sets of E, each to an edge of E over it"""
    e, k = fresh('e', EDGE), fresh('k', NSET)
    return and_(forall(e, implies(sel(E, e), sel(EPD.dom(M), ends(e)))),
                forall(k, implies(sel(EPD.dom(M), k), and_(sel(E, sel(EPD.val(M), k)), eq_term(ends(sel(EPD.val(M), k)), k)))))


def wf_edges(X):
    return q('all', EDGE, lambda e: implies(sel(X, e), wf_edge(e)))


@contract('SampleGraphBuilder.join_sample/join_edges', 'C06', closure=dict(self=BUILDER), edges=mut(ESET))
def b_join_edges(c, edges, self):
    rn, re_, rm = c.attr_of(self, NSET), c.attr_of(self, ESET), c.attr_of(self, EPD)
    N, E, M, X = c.content(rn), c.content(re_), c.content(rm), c.content(edges)
    c.requires(not_(is_empty(X)), wf_edges(X), ends_distinct(X), no_parallel(X), closed(N, E), no_parallel(E), indexed(M, E))
    disc_def(c, N, X)
    c.raises(or_(clash(E, X), var_clash(N, X), DISC(N, X)))
    c.refuse_frame = False
    N2, E2 = union(N, v_nodes(X)), union(E, X)
    c.sets(rn, NSET, N2)
    c.sets(re_, ESET, E2)
    c.changes(rm, EPD, lambda m: indexed(m, E2))
    S = SEP(N, X)

    def inv(L):
        if L.x.sort() != EDGE.sort:
            return None
        rest = L.others(ESET, [re_])
        if len(rest) != 1 or len(L.keys()) != 4:
            return None
        nc, Nn, En, Mn = rest[0][1], L.now(rn, NSET), L.now(re_, ESET), L.now(rm, EPD)
        e, f, n, m = fresh('e', EDGE), fresh('f', EDGE), fresh('n', NODE), fresh('m', NODE)
        joined = lambda e: and_(L.d(e), not_(sel(nc, e)))
        return [forall(e, implies(sel(nc, e), L.d(e))),
                forall(e, sel(En, e) == or_(sel(E, e), joined(e))),
                forall(n, sel(Nn, n) == or_(sel(N, n), exists(e, and_(joined(e), sel(ends(e), n))))),
                indexed(Mn, En),
                forall([e, f], implies(and_(joined(e), sel(E, f), eq_term(ends(e), ends(f))), rel(e) == rel(f))),
                forall([m, n], implies(and_(sel(Nn, m), not_(sel(N, m)), sel(Nn, n), var(m) == var(n)), m == n)),
                forall([e, n], implies(and_(sel(nc, e), sel(ends(e), n)), not_(sel(N, n)))),
                implies(and_(is_empty(N), exists(e, L.d(e))), exists(e, joined(e))),
                implies(and_(in_or_out(X, S), subset(N, S)), or_(
                    subset(Nn, S), and_(is_empty(N), forall(n, implies(sel(Nn, n), not_(sel(S, n)))))))]
    c.invariant(inv)


@contract('SampleGraphBuilder.join_sample', 'C06', callable_=False, self=BUILDER, sample=val(SG))
def b_join_sample(c, self, sample):
    p, N, E = parts(c, self)
    s = sample.t
    M_, X = nodes(s), edges(s)
    c.requires(closed(N, E), no_parallel(E), closed(M_, X), no_parallel(X), ends_distinct(X),
               q('all', NODE, lambda n: implies(and_(sel(M_, n), not_(is_empty(X))), q('ex', EDGE, lambda e: and_(sel(X, e), sel(ends(e), n))))))
    disc_def(c, N, X)
    bad_single = not_(and_(T.CARD(M_) == 1, or_(subset(M_, N), is_empty(N))))
    c.raises(or_(prov(s) != p, and_(is_empty(X), bad_single), and_(not_(is_empty(X)), or_(clash(E, X), var_clash(N, X), DISC(N, X)))))
    c.refuse_frame = False
    c.becomes(self, components_provider=c.abs(self, 'components_provider'), name=c.abs(self, 'name'),
              nodes=V(NSET, union(N, M_), None, None, 'mut'), edges=V(ESET, union(E, X), None, None, 'mut'))
    c.returns_same(self)


@contract('SampleGraphBuilder.can_sample_be_joined', 'C06', callable_=False, self=BUILDER, sample=val(SG))
def b_can_join(c, self, sample):
    p, N, E = parts(c, self)
    s = sample.t
    c.requires(closed(N, E), no_parallel(E), wf_edges(edges(s)))
    c.raises(prov(s) != p)
    c.returns(BOOL, not_(clash(E, edges(s))))
