"""Contracts of sample_graph.SampleGraph (C03, C07, C08, C09)."""
from pyv.spec import *
from pyv.terms import *
from pyv import terms as T
from pyv.engine import *
from pyv import builtins as BI
from pyv.solver import prove
import z3

# ---- vocabulary
nodes = lambda s: SG.get(s, 'nodes')
edges = lambda s: SG.get(s, 'edges')
prov = lambda s: SG.get(s, 'prov')
var = lambda n: NODE.get(n, 'variable')
value = lambda n: NODE.get(n, 'value')
ends = lambda e: EDGE.get(e, 'endpoints')
rel = lambda e: EDGE.get(e, 'relation')
VV = TupT(U, U)
pair = lambda n: VV.mk(var(n), value(n))


def q(kind, ty, f):
    x = fresh('x', ty)
    return (forall if kind == 'all' else exists)(x, f(x))


def wf_edge(e):
    """an edge has exactly two endpoints"""
    return T.CARD(ends(e)) == 2


def wf(s):
    """a sample graph as the builders make it: edges have two endpoints, which are nodes of the graph"""
    e, n = fresh('e', EDGE), fresh('n', NODE)
    return and_(forall(e, implies(sel(edges(s), e), wf_edge(e))),
                forall([e, n], implies(and_(sel(edges(s), e), sel(ends(e), n)), sel(nodes(s), n))))


def distinct_vars(s):
    """the two endpoints of an edge have different variables (add_relation and build_from_edges see to that)"""
    e, n, m = fresh('e', EDGE), fresh('n', NODE), fresh('m', NODE)
    return forall([e, n, m], implies(and_(sel(edges(s), e), sel(ends(e), n), sel(ends(e), m), n != m), var(n) != var(m)))


def admitted(s, known):
    """all components were handed out by the provider of the graph"""
    e, n = fresh('e', EDGE), fresh('n', NODE)
    p = prov(s)
    return and_(forall(n, implies(sel(nodes(s), n), and_(sel(known, BI.PN.mk(p, n)), BI.pv_declared(p, var(n), value(n))))),
                forall(e, implies(sel(edges(s), e), BI.edge_admitted(p, known, ends(e), rel(e)))))


def hash_set(s):
    return setof(NE, lambda y: or_(and_(NE.isa(0, y), sel(nodes(s), NE.proj(0, y))),
                                   and_(NE.isa(1, y), sel(edges(s), NE.proj(1, y)))))


def variables(s):
    return setof(U, lambda v: q('ex', NODE, lambda n: and_(sel(nodes(s), n), var(n) == v)))


SINGLE = z3.Function('single_variable', SG.sort, U.sort)      # some variable of the graph; the only one where it is used


# the value a graph gives a variable, None if it does not include it; used where there is only one
VALUE = z3.Function('value_of', SG.sort, U.sort, U.sort)


def has_one_value(s, v):
    a, b = fresh('a', U), fresh('b', U)
    return forall([a, b], implies(and_(sel(nodes(s), NODE.mk(v, a)), sel(nodes(s), NODE.mk(v, b))), a == b))


def value_facts(c):
    """from here on a lookup gives VALUE: the value of a variable that has one"""
    if c.mode == 'verify':
        c.st.envs['ghost']['value_of'] = True
    s, n = fresh('s', SG), fresh('n', NODE)
    c.axiom(forall([s, n], implies(and_(sel(nodes(s), n), has_one_value(s, var(n))), value(n) == VALUE(s, var(n)))))


def passes(flt, r):
    """flt: None or the set term of admitted relations; an empty one admits all"""
    return TRUE if flt is None else sel(ADM(flt), r)


ADM = T.Opaque('admitted_relations', [SetT(U)], SetT(U), lambda F: setof(U, lambda r: or_(is_empty(F), sel(F, r))))


FILTER = [none(), mut(SetT(U))]


def flt_term(c, f):
    return None if is_none(f) else c.content(f)


# ---- C03
@contract('SampleGraph.__eq__', 'C03', self=val(SG), other=val(SG))
def sg_eq(c, self, other):
    c.returns(BOOL, and_(eq_term(nodes(self.t), nodes(other.t)), eq_term(edges(self.t), edges(other.t))))


@contract('SampleGraph.__eq__', 'C03', label='SampleGraph.__eq__ (other kinds)', callable_=False, self=val(SG),
          other=[val(NODE), val(EDGE), val(U), val(INT), none()])
def sg_eq_other(c, self, other):
    c.returns(BOOL, FALSE)


@contract('SampleGraph.__hash__', 'C03', callable_=False, self=val(SG))
def sg_hash(c, self):
    # equal graphs hash equally: nothing but nodes and edges occurs in the hash
    c.depends_only(INT, nodes(self.t), edges(self.t))


@contract('SampleGraph.is_subgraph', 'C03 C14'.split(), self=val(SG), other=val(SG))
def sg_sub(c, self, other):
    c.returns(BOOL, and_(subset(nodes(self.t), nodes(other.t)), subset(edges(self.t), edges(other.t))))


@contract('SampleGraph.similarity', 'C03 C17'.split(), self=val(SG), other=val(SG))
def sg_sim(c, self, other):
    a, b = hash_set(self.t), hash_set(other.t)
    c.requires(not_(and_(is_empty(a), is_empty(b))))
    c.returns(REAL, to_real(T.CARD(inter(a, b))) / to_real(T.CARD(union(a, b))))
    c.ensures(REAL, lambda r: and_(r >= 0, r <= 1, (r == 1) == and_(eq_term(nodes(self.t), nodes(other.t)), eq_term(edges(self.t), edges(other.t)))))


def flag(attr, ty, f):
    @contract('use: SampleGraph.%s' % attr, 'C03', callable_=False, client='def use(g): return g.%s' % attr, g=val(SG))
    def _(c, g):
        c.returns(ty, f(g.t))


flag('is_k_0', BOOL, lambda s: and_(is_empty(nodes(s)), is_empty(edges(s))))
flag('is_single_node', BOOL, lambda s: is_empty(edges(s)))
flag('included_variables', SetT(U), variables)
flag('nodes', SetT(NODE), nodes)
flag('edges', SetT(EDGE), edges)


# ---- C07
@contract('SampleGraph.values', 'C07', fresh='set', self=val(SG))
def sg_values(c, self):
    c.returns(SetT(VV), setof(VV, lambda y: sel(nodes(self.t), NODE.mk(VV.get(y, 0), VV.get(y, 1)))))


@contract('SampleGraph.have_value', 'C07', self=val(SG), variable=val(U), value=val(U))
def sg_have_value(c, self, variable, value):
    c.returns(BOOL, sel(nodes(self.t), NODE.mk(variable.t, value.t)))


@contract('SampleGraph.have_variable', 'C07', self=val(SG), variable=val(U))
def sg_have_variable(c, self, variable):
    c.returns(BOOL, sel(variables(self.t), variable.t))


@contract('SampleGraph.value_for_variable', 'C07', self=val(SG), variable=val(U))
def sg_vfv(c, self, variable):
    v = variable.t
    has = sel(variables(self.t), v)
    c.requires(q('all', NODE, lambda n: implies(sel(nodes(self.t), n), value(n) != NONE)))
    named = c.mode == 'verify' or c.st.envs['ghost'].get('value_of')
    unique = has_one_value(self.t, v)
    r = VALUE(self.t, v)
    if named:
        c.define(and_(implies(and_(has, unique), sel(nodes(self.t), NODE.mk(v, r))), implies(not_(has), r == NONE)))
    if c.mode == 'call' and named and prove(c.st.hyps(), unique, 'mid').ok:
        c.returns(U, r)
    else:
        c.ensures(U, lambda x: and_(implies(has, sel(nodes(self.t), NODE.mk(v, x))), implies(not_(has), x == NONE),
                                    implies(unique, x == r) if named else TRUE))


@contract('SampleGraph.neighboring_values', 'C07', fresh='dict', self=val(SG), center=val(NODE), relation_filter=FILTER)
def sg_neigh(c, self, center, relation_filter):
    f = flt_term(c, relation_filter)
    s, n0 = self.t, center.t
    if f is not None:
        c.reveal(ADM, f)
    c.requires(wf(s))
    DT = DictT(NODE, EDGE)
    link = lambda e, m: and_(sel(edges(s), e), sel(ends(e), n0), sel(ends(e), m), m != n0, passes(f, rel(e)))

    def post(r):
        m = fresh('m', NODE)
        return and_(forall(m, sel(DT.dom(r), m) == q('ex', EDGE, lambda e: link(e, m))),
                    forall(m, implies(sel(DT.dom(r), m), link(sel(DT.val(r), m), m))))
    c.ensures(DT, post)


@contract('SampleGraph.variables_subgraph_hash', 'C07', self=val(SG), variables=mut(SetT(U)))
def sg_subhash(c, self, variables):
    vs = c.content(variables)
    s = self.t
    c.returns(SetT(NE), setof(NE, lambda y: or_(
        and_(NE.isa(0, y), sel(nodes(s), NE.proj(0, y)), sel(vs, var(NE.proj(0, y)))),
        and_(NE.isa(1, y), sel(edges(s), NE.proj(1, y)),
             q('all', NODE, lambda n: implies(sel(ends(NE.proj(1, y)), n), sel(vs, var(n))))))))


def ep_vars(e):
    return setof(U, lambda v: q('ex', NODE, lambda n: and_(sel(ends(e), n), var(n) == v)))


def ep_pairs(s):
    return setof(SetT(U), lambda y: q('ex', EDGE, lambda e: and_(sel(edges(s), e), eq_term(y, ep_vars(e)))))


EPP = T.Opaque('endpoint_variables', [SG], SetT(SetT(U)), ep_pairs)


@contract('SampleGraph.edges_endpoint_variables', 'C07 C18 C19'.split(), self=val(SG))
def sg_epv(c, self):
    c.reveal(EPP, self.t)
    c.returns(SetT(SetT(U)), EPP(self.t))


@contract('SampleGraph.single_node_variable', 'C07', self=val(SG))
def sg_snv(c, self):
    s = self.t
    c.requires(not_(is_empty(nodes(s))))
    c.raises(not_(is_empty(edges(s))))
    x, y = fresh('x', U), fresh('y', U)
    c.define(implies(not_(is_empty(nodes(s))), sel(variables(s), SINGLE(s))))
    one = forall([x, y], implies(and_(sel(variables(s), x), sel(variables(s), y)), x == y))
    c.requires(one)
    c.returns(U, SINGLE(s))


EV = TupT(SetT(VV), U)


def edge_view(e):
    return EV.mk(setof(VV, lambda y: sel(ends(e), NODE.mk(VV.get(y, 0), VV.get(y, 1)))), rel(e))


def edges_view(s):
    return setof(EV, lambda y: q('ex', EDGE, lambda e: and_(sel(edges(s), e), eq_term(y, edge_view(e)))))


@contract('SampleGraph.edges_set_view', 'C07 C05'.split(), label='SampleGraph.edges_set_view (with edges)', callable_=False, self=val(SG))
def sg_esv(c, self):
    c.requires(not_(is_empty(edges(self.t))))
    c.returns(SetT(EV), edges_view(self.t))


@contract('SampleGraph.edges_set_view', 'C07 C05'.split(), label='SampleGraph.edges_set_view (single node)', callable_=False, self=val(SG))
def sg_esv1(c, self):
    c.requires(is_empty(edges(self.t)), not_(is_empty(nodes(self.t))))
    c.ensures(VV, lambda r: sel(nodes(self.t), NODE.mk(VV.get(r, 0), VV.get(r, 1))))


@contract('SampleGraph.edges_set_view', 'C07 C05'.split(), label='SampleGraph.edges_set_view (empty)', callable_=False, self=val(SG))
def sg_esv0(c, self):
    c.requires(is_empty(edges(self.t)), is_empty(nodes(self.t)))
    c.returns_none()


# ---- C08
DNE = DictT(NODE, SetT(EDGE))


def belt_link(s, centre, f, e, m):
    """e is an admitted edge between m, outside the centre, and a node of the centre"""
    n = fresh('n', NODE)
    return and_(sel(edges(s), e), passes(f, rel(e)), sel(ends(e), m), not_(sel(centre, m)),
                exists(n, and_(sel(ends(e), n), sel(centre, n))))


def belt(s, centre, f):
    m, e = fresh('m', NODE), fresh('e', EDGE)
    return dict_make(DNE, lambda m: q('ex', EDGE, lambda e: belt_link(s, centre, f, e, m)),
                     lambda m: setof(EDGE, lambda e: belt_link(s, centre, f, e, m)))


@contract('SampleGraph.belt_nodes', 'C08 C17'.split(), fresh='dict', self=val(SG), center_nodes=[mut(SetT(NODE)), val(SetT(NODE))], relation_filter=FILTER)
def sg_belt(c, self, center_nodes, relation_filter):
    f = flt_term(c, relation_filter)
    s, cn = self.t, c.content(center_nodes)
    if f is not None:
        c.reveal(ADM, f)
    c.requires(wf(s))
    c.raises(is_empty(cn))
    c.returns(DNE, belt(s, cn, f))


NI = Ty('Dist', lambda: z3.ArraySort(NODE.sort, z3.IntSort()))


def belt_adm(s, centre, A):
    link = lambda m, e: and_(sel(edges(s), e), sel(A, rel(e)), sel(ends(e), m), not_(sel(centre, m)),
                             q('ex', NODE, lambda n: and_(sel(ends(e), n), sel(centre, n))))
    return setof(NODE, lambda m: q('ex', EDGE, lambda e: link(m, e)))


def dist_def(s, centre, F):
    m = fresh('m', NODE)
    b = belt_adm(s, centre, F)
    d = DIST(s, union(centre, b), F)
    return lam(m, ite(sel(centre, m), z3.IntVal(0), ite(sel(b, m), z3.IntVal(1), ite(
        and_(not_(is_empty(b)), sel(d, m) > 0), sel(d, m) + 1, z3.IntVal(-1)))))


# number of belts needed to reach a node from the centre, -1 if it is never reached; recursive over ever wider centres
DIST = T.Opaque('belt_distance', [SG, SetT(NODE), SetT(U)], NI, dist_def)


@contract('SampleGraph.external_nodes', 'C08 C17'.split(), fresh='dict', self=val(SG), internal_nodes=[mut(SetT(NODE)), val(SetT(NODE))], relation_filter=FILTER)
def sg_ext(c, self, internal_nodes, relation_filter):
    f = flt_term(c, relation_filter)
    F = z3.K(USort, TRUE) if f is None else ADM(f)
    s, cn = self.t, c.content(internal_nodes)
    S = c.ghost('closed', SetT(NODE))
    c.requires(wf(s))
    c.raises(is_empty(cn))
    c.reveal(DIST, s, cn, F)
    d = DIST(s, cn, F)
    e, n, m = fresh('e', EDGE), fresh('n', NODE), fresh('m', NODE)
    link = and_(sel(edges(s), e), passes(f, rel(e)), sel(ends(e), n), sel(ends(e), m), n != m)
    near = lambda e, m: and_(sel(edges(s), e), passes(f, rel(e)), sel(ends(e), m),
                             q('ex', NODE, lambda k: and_(sel(ends(e), k), sel(d, k) >= 0, sel(d, k) < sel(d, m))))

    closed = forall([e, n, m], implies(and_(link, sel(S, n)), sel(S, m)))
    for clause in [
            lambda r: eq_term(DNE.dom(r), lam(m, sel(d, m) > 0)),
            lambda r: forall([m, e], implies(sel(d, m) > 0, sel(sel(DNE.val(r), m), e) == near(e, m))),
            # d is the distance from the internal nodes: 0 there, at most one more across an edge, and no reached node lacks
            # a nearer neighbour
            lambda r: forall(m, and_(sel(d, m) >= -1, (sel(d, m) == 0) == sel(cn, m))),
            lambda r: forall([e, n, m], implies(and_(link, sel(d, n) >= 0), and_(sel(d, m) >= 0, sel(d, m) <= sel(d, n) + 1))),
            lambda r: forall(m, implies(sel(d, m) > 0, q('ex', EDGE, lambda e: sel(sel(DNE.val(r), m), e)))),
            # only reachable nodes: whatever set contains the internal nodes and is closed along admitted edges contains all of them
            lambda r: implies(and_(subset(cn, S), closed), forall(m, implies(sel(d, m) > 0, sel(S, m))))]:
        c.ensures(DNE, clause)


# ---- C09
DUU = DictT(U, U)


def image_node(r, n):
    return NODE.mk(var(n), ite(sel(DUU.dom(r), var(n)), sel(DUU.val(r), var(n)), value(n)))


def image_edge(r, e):
    return EDGE.mk(setof(NODE, lambda m: q('ex', NODE, lambda n: and_(sel(ends(e), n), eq_term(m, image_node(r, n))))), rel(e))


def image_nodes(r, s):
    return setof(NODE, lambda m: q('ex', NODE, lambda n: and_(sel(nodes(s), n), eq_term(m, image_node(r, n)))))


def image_edges(r, s):
    return setof(EDGE, lambda m: q('ex', EDGE, lambda e: and_(sel(edges(s), e), eq_term(m, image_edge(r, e)))))


@contract('SampleGraph.transform_with_replaced_values', 'C09', callable_=False, self=val(SG), to_replace=mut(DUU), name=[val(U), none()])
def sg_transform(c, self, to_replace, name):
    s, r = self.t, c.content(to_replace)
    c.requires(wf(s), distinct_vars(s), admitted(s, c.known()))
    n = fresh('n', NODE)
    c.raises(exists(n, and_(sel(nodes(s), n), sel(DUU.dom(r), var(n)),
                            not_(BI.pv_declared(prov(s), var(n), sel(DUU.val(r), var(n)))))))
    c.returns(SG, SG.mk(image_nodes(r, s), image_edges(r, s), prov(s)))
    c.same_if(and_(eq_term(image_nodes(r, s), nodes(s)), eq_term(image_edges(r, s), edges(s))), self)
