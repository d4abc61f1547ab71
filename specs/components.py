"""Contracts of graph_components (C01, C02)."""
from .graph import *

# ---- C01: equality and hashing by content. The verifier itself compares nodes and edges by content; these contracts
# show that the __eq__ and __hash__ of the source do.
OTHERS = [val(INT), val(U), none(), val(SG)]


@contract('ValueNode.__eq__', 'C01', callable_=False, self=val(NODE), other=val(NODE))
def vn_eq(c, self, other):
    c.returns(BOOL, and_(var(self.t) == var(other.t), value(self.t) == value(other.t)))


@contract('ValueNode.__eq__', 'C01', label='ValueNode.__eq__ (other kinds)', callable_=False, self=val(NODE), other=OTHERS + [val(EDGE)])
def vn_eq_other(c, self, other):
    c.returns(BOOL, FALSE)


@contract('ValueNode.__hash__', 'C01', callable_=False, self=val(NODE))
def vn_hash(c, self):
    c.depends_only(INT, var(self.t), value(self.t))


@contract('ValueNode.var_val', 'C01', self=val(NODE))
def vn_vv(c, self):
    c.returns(VV, pair(self.t))


@contract('RelationEdge.__eq__', 'C01', callable_=False, self=val(EDGE), other=val(EDGE))
def re_eq(c, self, other):
    c.returns(BOOL, and_(eq_term(ends(self.t), ends(other.t)), rel(self.t) == rel(other.t)))


@contract('RelationEdge.__eq__', 'C01', label='RelationEdge.__eq__ (other kinds)', callable_=False, self=val(EDGE), other=OTHERS + [val(NODE)])
def re_eq_other(c, self, other):
    c.returns(BOOL, FALSE)


@contract('RelationEdge.__hash__', 'C01', callable_=False, self=val(EDGE))
def re_hash(c, self):
    c.depends_only(INT, ends(self.t), rel(self.t))


@contract('use: RelationEdge.a/b', 'C01', callable_=False, client='def use(e): return e.a, e.b', e=val(EDGE))
def re_ab(c, e):
    TT = TupT(NODE, NODE)
    c.requires(wf_edge(e.t))
    c.ensures(TT, lambda r: and_(TT.get(r, 0) != TT.get(r, 1),
                                 eq_term(ends(e.t), setof(NODE, lambda n: or_(n == TT.get(r, 0), n == TT.get(r, 1))))))


@contract('use: RelationEdge.endpoints', 'C01', callable_=False, client='def use(e): return e.endpoints, e.relation', e=val(EDGE))
def re_attrs(c, e):
    TT = TupT(SetT(NODE), U)
    c.requires(wf_edge(e.t))
    c.returns(TT, TT.mk(ends(e.t), rel(e.t)))


@contract('use: ValueNode.variable', 'C01', callable_=False, client='def use(n): return n.variable, n.value', n=val(NODE))
def vn_attrs(c, n):
    c.returns(VV, pair(n.t))


@contract('RelationEdge.is_endpoint', 'C01', self=val(EDGE), node=val(NODE))
def re_isep(c, self, node):
    c.returns(BOOL, sel(ends(self.t), node.t))


@contract('RelationEdge.opposite_endpoint', 'C01', self=val(EDGE), node=val(NODE))
def re_opp(c, self, node):
    e, n = self.t, node.t
    c.requires(wf_edge(e))
    c.raises(not_(sel(ends(e), n)))
    c.ensures(NODE, lambda r: and_(sel(ends(e), r), r != n, eq_term(ends(e), setof(NODE, lambda m: or_(m == n, m == r)))))


DREL = obj('DirectedRelation', source_variable=val(U), target_variable=val(U), relation=val(U))
DF = ('source_variable', 'target_variable', 'relation')


@contract('DirectedRelation.__eq__', 'C01', callable_=False, self=DREL, other=DREL)
def dr_eq(c, self, other):
    c.returns(BOOL, and_(*[eq_term(c.attr(self, a).t, c.attr(other, a).t) for a in DF]))


@contract('DirectedRelation.__eq__', 'C01', label='DirectedRelation.__eq__ (other kinds)', callable_=False, self=DREL,
          other=[val(INT), none(), val(NODE), val(EDGE), val(SG)])
def dr_eq_other(c, self, other):
    c.returns(BOOL, FALSE)


@contract('DirectedRelation.__hash__', 'C01', callable_=False, self=DREL)
def dr_hash(c, self):
    c.depends_only(INT, *[c.attr(self, a).t for a in DF])


# ---- C02: the provider. Nodes and edges carry an identity here, so that handing out the same object is expressible.
DV = DictT(U, SetT(U))
NKEY, EKEY = VV, TupT(SetT(NODE), U)
DN, DNI = DictT(NKEY, NODE), DictT(NKEY, NODEI)
DE, DEI = DictT(EKEY, EDGE), DictT(EKEY, EDGEI)
CTOR = dict(variables=mut(DV), relations=mut(SetT(U)))
NODE_OBJ = {'ValueNode': (NODEI, ['variable', 'value'])}
EDGE_OBJ = {'RelationEdge': (EDGEI, ['endpoints', 'relation'])}


def declared(c, self, v, x):
    d = c.abs(self, 'variables').t
    return and_(sel(DV.dom(d), v), sel(sel(DV.val(d), v), x))


def inv_nodes(d, DT=DNI):
    """every cached node carries the variable and value it is cached under"""
    k = fresh('k', NKEY)
    ty = DT.v
    return forall(k, implies(sel(DT.dom(d), k), and_(ty.get(sel(DT.val(d), k), 0) == NKEY.get(k, 0), ty.get(sel(DT.val(d), k), 1) == NKEY.get(k, 1))))


def inv_edges(d):
    k = fresh('k', EKEY)
    return forall(k, implies(sel(DEI.dom(d), k), and_(eq_term(EDGEI.get(sel(DEI.val(d), k), 0), EKEY.get(k, 0)), EDGEI.get(sel(DEI.val(d), k), 1) == EKEY.get(k, 1))))


def interned(DT, before, after, key, r):
    """the result is the object held under its key from now on, and no other entry changes"""
    k = fresh('k', DT.k)
    return and_(sel(DT.dom(after), key), eq_term(sel(DT.val(after), key), r),
                forall(k, implies(k != key, sel(DT.dom(after), k) == sel(DT.dom(before), k))),
                forall(k, implies(sel(DT.dom(before), k), and_(sel(DT.dom(after), k), eq_term(sel(DT.val(after), k), sel(DT.val(before), k))))))


@contract('BuilderComponentsProvider.get_node', 'C02', callable_=False, data=NODE_OBJ,
          self=obj('BuilderComponentsProvider', attrs=dict(nodes=mut(DNI), edges=mut(DE)), **CTOR), variable=val(U), value=val(U))
def p_get_node(c, self, variable, value):
    before = c.content(c.attr(self, 'nodes'))
    c.requires(inv_nodes(before))
    v, x = variable.t, value.t
    c.raises(not_(declared(c, self, v, x)))
    c.ensures(NODEI, lambda r: and_(NODEI.get(r, 0) == v, NODEI.get(r, 1) == x))
    c.after(self, 'nodes', DNI, lambda a, r: and_(inv_nodes(a), interned(DNI, before, a, NKEY.mk(v, x), r)))


@contract('BuilderComponentsProvider.get_edge', 'C02', callable_=False, data=EDGE_OBJ,
          self=obj('BuilderComponentsProvider', attrs=dict(nodes=mut(DN), edges=mut(DEI)), **CTOR), endpoints=val(SetT(NODE)), relation=val(U))
def p_get_edge(c, self, endpoints, relation):
    before = c.content(c.attr(self, 'edges'))
    nds = c.content(c.attr(self, 'nodes'))
    E, r_ = endpoints.t, relation.t
    c.requires(inv_nodes(nds, DN), inv_edges(before), T.CARD(E) == 2)
    rels = c.abs(self, 'relations').t
    known = q('all', NODE, lambda n: implies(sel(E, n), sel(DN.dom(nds), NKEY.mk(var(n), NODE.get(n, 1)))))
    has = lambda v: q('ex', NODE, lambda n: and_(sel(E, n), var(n) == v))
    ok = and_(known, sel(rels, BI.inner_relation(r_)), implies(is_dr(r_), and_(has(dr_src(r_)), has(dr_tgt(r_)))))
    c.raises(not_(ok))
    c.ensures(EDGEI, lambda r: and_(eq_term(EDGEI.get(r, 0), E), EDGEI.get(r, 1) == r_))
    c.after(self, 'edges', DEI, lambda a, r: and_(inv_edges(a), interned(DEI, before, a, EKEY.mk(E, r_), r)))


@contract('BuilderComponentsProvider.variables', 'C02', callable_=False,
          self=obj('BuilderComponentsProvider', attrs=dict(nodes=mut(DN), edges=mut(DE)), **CTOR))
def p_variables(c, self):
    d = c.abs(self, 'variables').t
    TT = TupT(U, SetT(U))
    c.returns(SetT(TT), setof(TT, lambda y: and_(sel(DV.dom(d), TT.get(y, 0)), eq_term(TT.get(y, 1), sel(DV.val(d), TT.get(y, 0))))))


@contract('BuilderComponentsProvider.relations', 'C02', callable_=False,
          self=obj('BuilderComponentsProvider', attrs=dict(nodes=mut(DN), edges=mut(DE)), **CTOR))
def p_relations(c, self):
    c.returns(SetT(U), c.abs(self, 'relations').t)


@contract('use: BuilderComponentsProvider', 'C02', callable_=False,
          client='def use(variables, relations):\n    p = BuilderComponentsProvider(variables, relations)\n    return p.variables(), p.relations(), p.nodes, p.edges',
          variables=mut(DV), relations=mut(SetT(U)))
def p_new(c, variables, relations):
    d, r = c.content(variables), c.content(relations)
    TT = TupT(U, SetT(U))
    v = fresh('v', U)
    c.raises(or_(is_empty(DV.dom(d)), is_empty(r), exists(v, and_(sel(DV.dom(d), v), is_empty(sel(DV.val(d), v))))))
    RT = TupT(SetT(TT), SetT(U), DN, DE)
    c.ensures(RT, lambda x: and_(
        eq_term(RT.get(x, 0), setof(TT, lambda y: and_(sel(DV.dom(d), TT.get(y, 0)), eq_term(TT.get(y, 1), sel(DV.val(d), TT.get(y, 0)))))),
        eq_term(RT.get(x, 1), r), is_empty(DN.dom(RT.get(x, 2))), is_empty(DE.dom(RT.get(x, 3)))))
