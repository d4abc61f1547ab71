"""Contracts of sample_space, relation_graph and conditional_graph (C13 to C18, C23)."""
from .sets import *

EVV = TupT(SetT(VV), U)                  # exported edge: endpoints as pairs, relation
RG = obj('RelationGraph', components_provider=val(P), name=val(U), outcomes=val(SS))
CG = obj('ConditionalGraph', components_provider=val(P), evidence=val(SG), name=val(U), outcomes=val(SS))


def outs(c, self):
    """counts of the outcomes"""
    return samples(c.abs(self, 'outcomes').t)


def pr(c, self):
    return c.abs(self, 'components_provider').t


def spaces(name, props, fn, fresh=None, **params):
    """the same contract for relation graphs and conditional graphs"""
    for cls, mk in (('RelationGraph', RG), ('ConditionalGraph', CG)):
        @contract('%s.%s' % (cls, name), props, callable_=False, fresh=fresh, self=mk, **params)
        def _(c, self, **kw):
            fn(c, pr(c, self), outs(c, self), **kw)


def occurs_node(d, n):
    return q('ex', SG, lambda s: and_(held(d, s), sel(nodes(s), n)))


def values_in(d, v):
    return setof(U, lambda x: occurs_node(d, NODE.mk(v, x)))


VS = TupT(U, SetT(U))


def included(d):
    return setof(VS, lambda y: and_(q('ex', U, lambda x: occurs_node(d, NODE.mk(VS.get(y, 0), x))),
                                    eq_term(VS.get(y, 1), values_in(d, VS.get(y, 0)))))


# ---- C13
spaces('included_variables', 'C13', lambda c, p, d: c.returns(SetT(VS), included(d)))
spaces('included_relations', 'C13', lambda c, p, d: c.returns(SetT(U), setof(U, lambda r: q(
    'ex', SG, lambda s: q('ex', EDGE, lambda e: and_(held(d, s), sel(edges(s), e), rel(e) == r))))))


def find(c, p, d, values):
    c.requires(compatible(d, p))
    vs = c.content(values)
    has = lambda s: q('all', VV, lambda y: implies(sel(vs, y), sel(nodes(s), NODE.mk(VV.get(y, 0), VV.get(y, 1)))))
    c.returns(SS, SS.mk(p, dict_make(D, lambda s: and_(held(d, s), has(s)), lambda s: count(d, s))))


spaces('find_for_values', 'C13', find, values=mut(SetT(VV)))


# ---- C14
@contract('RelationGraph.conditional_graph', 'C14', callable_=False, self=RG, evidence=val(SG), name=[none(), val(U)])
def rg_conditional(c, self, evidence, name):
    d, p, e = outs(c, self), pr(c, self), evidence.t
    c.raises(prov(e) != p)
    keep = lambda s: or_(and_(subset(nodes(e), nodes(s)), subset(edges(e), edges(s))), disjoint(variables(e), variables(s)))
    nm = c.attr(self, 'name')
    c.result_obj('ConditionalGraph', skip=('name', '_name'), components_provider=c.abs(self, 'components_provider'), evidence=evidence, name=nm,
                 outcomes=V(SS, SS.mk(p, dict_make(D, lambda s: and_(held(d, s), keep(s)), lambda s: count(d, s)))))


RGSKIP = ('name', '_name')


@contract('ConditionalGraph.relation_graph', 'C14', callable_=False, self=CG, name=[none(), val(U)])
def cg_relation(c, self, name):
    c.result_obj('RelationGraph', skip=RGSKIP, components_provider=c.abs(self, 'components_provider'), name=V(U, NONE), outcomes=c.abs(self, 'outcomes'))


# ---- C23
SSB_IN = obj('SampleSetBuilder', components_provider=val(P), samples=mut(D))


def rgb(**kw):
    return obj('RelationGraphBuilder', attrs={'_id_counter': val(INT)}, variables=none(), relations=none(), name=val(U),
               components_provider=val(P), **kw)


RGB = rgb(outcomes=SSB_IN)


def acc(c, self):
    """the accumulated outcomes: the builder's inner sample set builder"""
    return c.attr(self, '_outcomes')


def start(c, self):
    o = acc(c, self)
    p = pr(c, self)
    c.requires(c.t(c.attr(o, '_components_provider')) == p)
    ref = c.attr(o, '_samples')
    k, ty, t = c.en.content(c.st, ref)
    return o, p, (c.en.empty_of(D) if ty is None else t)


@contract('RelationGraphBuilder.add_outcome', 'C23', callable_=False, self=RGB, outcome=val(SG), count=val(INT))
def rgb_add(c, self, outcome, count):
    o, p, d = start(c, self)
    c.raises(or_(prov(outcome.t) != p, count.t < 1))
    c.after(o, '_samples', D, lambda t, r: eq_term(t, put(d, outcome.t, n_of(d, outcome.t) + count.t)))
    c.returns_same(self)


@contract('RelationGraphBuilder.build', 'C23 C11'.split(), callable_=False, self=RGB)
def rgb_build(c, self):
    o, p, d = start(c, self)
    c.raises(is_empty(D.dom(d)))
    c.result_obj('RelationGraph', skip=RGSKIP, components_provider=c.abs(self, 'components_provider'), name=c.abs(self, 'name'), outcomes=V(SS, SS.mk(p, d)))


@contract('RelationGraphBuilder.set_name', 'C23', callable_=False, self=RGB, name=val(U))
def rgb_name(c, self, name):
    c.after(self, '_name', U, lambda t, r: t == name.t)
    c.returns_same(self)


@contract('RelationGraphBuilder.next_id', 'C23', callable_=False, self=RGB)
def rgb_id(c, self):
    # every id is one more than the counter before and becomes the counter: ids only grow, none is repeated
    old = c.t(c.attr(self, '_id_counter'))
    c.ensures(INT, lambda r: r > old)
    c.after(self, '_id_counter', INT, lambda t, r: t >= r)


DUS = DictT(U, SetT(U))


@contract('use: RelationGraphBuilder', 'C23', callable_=False, client="""
def use(v, r, name):
    b = RelationGraphBuilder(v, r, name)
    return b.variables, b.relations
""", v=mut(DUS), r=mut(SetT(U)), name=val(U))
def rgb_new(c, v, r, name):
    dv, dr_ = c.content(v), c.content(r)
    c.raises(or_(is_empty(DUS.dom(dv)), is_empty(dr_), q('ex', U, lambda x: and_(sel(DUS.dom(dv), x), is_empty(sel(DUS.val(dv), x))))))
    ty = TupT(SetT(VS), SetT(U))
    c.returns(ty, ty.mk(setof(VS, lambda y: and_(sel(DUS.dom(dv), VS.get(y, 0)), eq_term(VS.get(y, 1), sel(DUS.val(dv), VS.get(y, 0))))), dr_))


@contract('use: a new RelationGraphBuilder has no outcome', 'C23', callable_=False, client="""
def use(p, name):
    RelationGraphBuilder(None, None, name, None, p).build()
""", p=val(P), name=val(U))
def rgb_fresh(c, p, name):
    c.raises(TRUE)


LSG = ListT(SG)


@contract('RelationGraphBuilder.add_outcomes', 'C23', callable_=False, self=RGB, outcomes=val(LSG), count=val(INT))
def rgb_adds(c, self, outcomes, count):
    o, p, d = start(c, self)
    n, at = LSG.len(outcomes.t), LSG.at(outcomes.t)
    i = fresh('i', INT)
    inr = lambda i: and_(i >= 0, i < n)
    c.refuse_frame = False
    c.raises(exists(i, and_(inr(i), or_(prov(sel(at, i)) != p, count.t < 1))))
    times = lambda s: T.sum_x(i, ite(and_(inr(i), sel(at, i) == s), count.t, z3.IntVal(0)))
    c.after(o, '_samples', D, lambda t, r: eq_term(t, dict_make(D, lambda s: or_(held(d, s), exists(i, and_(inr(i), sel(at, i) == s))),
                                                                  lambda s: n_of(d, s) + times(s))))
    c.returns_same(self)


@contract('use: RelationGraph of a builder', 'C23', callable_=False, client="""
def use(p, name, d):
    g = RelationGraphBuilder(None, None, name, SampleSetBuilder(p, d), p).build()
    return g.name, g.variables == p.variables() and g.relations == p.relations()
""", p=val(P), name=val(U), d=mut(D))
def rgb_names(c, p, name, d):
    c.requires(truthyU(name.t))
    c.raises(is_empty(D.dom(c.content(d))))
    c.returns(TupT(U, BOOL), TupT(U, BOOL).mk(name.t, TRUE))


def derived(cls, mk):
    @contract('%s.builder' % cls, 'C23 C11'.split(), callable_=False, label='%s.builder then build' % cls, client=None, self=mk)
    def _(c, self):
        d, p = outs(c, self), pr(c, self)
        c.requires(sprov(c.abs(self, 'outcomes').t) == p)
        c.result_obj('RelationGraphBuilder', variables=NoneV, relations=NoneV, name=c.attr(self, 'name'), outcomes=('SampleSetBuilder', dict(
            components_provider=V(P, p), samples=V(D, d, None, None, 'mut'))), components_provider=V(P, p))


derived('RelationGraph', RG)
derived('ConditionalGraph', CG)


@contract('use: build_sample', 'C23', callable_=False, client="""
def use(p, d, g):
    return RelationGraphBuilder(None, None, None, SampleSetBuilder(p, d), p).build_sample(lambda b: g).build().outcomes
""", p=val(P), d=mut(D), g=val(SG))
def rgb_build_sample(c, p, d, g):
    dd = c.content(d)
    c.raises(prov(g.t) != p.t)
    c.returns(SS, SS.mk(p.t, put(dd, g.t, n_of(dd, g.t) + 1)))


# ---- C18
EV = SetT(SetT(U))


evars = EPP


def k0(s):
    return and_(is_empty(nodes(s)), is_empty(edges(s)))


def two(d, f):
    s, t = fresh('s', SG), fresh('t', SG)
    return forall([s, t], implies(and_(held(d, s), held(d, t)), f(s, t)))


@contract('RelationGraph.is_factorized', 'C18', callable_=False, self=RG)
def rg_factorized(c, self):
    d = outs(c, self)
    c.requires(all_wf(d))
    c.returns(BOOL, and_(q('all', SG, lambda s: implies(held(d, s), not_(k0(s)))),
                         two(d, lambda s, t: or_(eq_term(evars(s), evars(t)), disjoint(evars(s), evars(t))))))


def all_wf(d):
    return q('all', SG, lambda s: implies(held(d, s), and_(wf(s), distinct_vars(s))))


def fkey(s):
    """key of the factor of an outcome: its endpoint-variable pairs, or its variable when it has no edges"""
    return setof(T.UV, lambda y: ite(is_empty(edges(s)), eq_term(y, T.UV.inj(0, SINGLE(s))),
                                     and_(T.UV.isa(1, y), sel(EPP(s), T.UV.proj(1, y)))))


FKEY = T.Opaque('factor_key', [SG], SetT(T.UV), fkey)


def factorized(c, p, d):
    c.fold(FKEY)
    fkey = FKEY
    c.requires(all_wf(d))
    c.requires(compatible(d, p))
    a, b = fresh('a', NODE), fresh('b', NODE)
    c.requires(q('all', SG, lambda s: implies(and_(held(d, s), is_empty(edges(s))),
                                              forall([a, b], implies(and_(sel(nodes(s), a), sel(nodes(s), b)), eq_term(a, b))))))
    good = and_(q('all', SG, lambda s: implies(held(d, s), not_(k0(s)))),
                two(d, lambda s, t: or_(eq_term(fkey(s), fkey(t)), disjoint(fkey(s), fkey(t)))))
    c.raises(not_(good))
    ty = SetT(SS)
    c.returns(ty, setof(SS, lambda r: q('ex', SG, lambda s: and_(held(d, s), eq_term(r, SS.mk(p, dict_make(
        D, lambda t: and_(held(d, t), eq_term(fkey(s), fkey(t))), lambda t: count(d, t))))))))


spaces('factorized', 'C18', factorized)


@contract('RelationGraph.is_joined', 'C18', callable_=False, self=RG)
def rg_joined(c, self):
    d = outs(c, self)
    c.returns(BOOL, two(d, lambda s, t: eq_term(variables(s), variables(t))))


# ---- C15
DUR = DictT(U, T.REAL)
DDR = DictT(U, DUR)
UOBS = z3.Const('str:u', USort)


def one_value(s):
    """every variable has at most one value in the graph"""
    a, b = fresh('a', NODE), fresh('b', NODE)
    return forall([a, b], implies(and_(sel(nodes(s), a), sel(nodes(s), b), var(a) == var(b)), a == b))


def declared_var(p, v):
    return q('ex', U, lambda x: BI.pv_declared(p, v, x))


def weight(d, f):
    """total count of the outcomes with f"""
    s = fresh('s', SG)
    return T.sum_x(s, ite(and_(held(d, s), f(s)), count(d, s), z3.IntVal(0)))


DUI = DictT(U, INT)
DDI = DictT(U, DUI)
WVX = z3.Function('weight_of_value', U.sort, U.sort, z3.IntSort())
WV = z3.Function('weight_of_variable', U.sort, z3.IntSort())


def marginals(c, p, d, variables, unobserved):
    c.requires(q('all', SG, lambda s: implies(held(d, s), and_(one_value(s), count(d, s) >= 1, q(
        'all', NODE, lambda n: implies(sel(nodes(s), n), and_(BI.pv_declared(p, var(n), value(n)), value(n) != UOBS, value(n) != NONE)))))))
    want = lambda v: TRUE if is_none(variables) else or_(is_empty(c.content(variables)), sel(c.content(variables), v))
    uo = unobserved.t
    v, x, s = fresh('v', U), fresh('x', U), fresh('s', SG)
    holds = lambda v, x: (lambda s: sel(nodes(s), NODE.mk(v, x)))
    has = lambda v: (lambda s: q('ex', U, lambda x: sel(nodes(s), NODE.mk(v, x))))
    gives = lambda v, x: (lambda s: and_(has(v)(s), x == VALUE(s, v)))
    occ = lambda v: q('ex', SG, lambda s: and_(held(d, s), has(v)(s)))
    total = weight(d, lambda s: TRUE)
    value_facts(c)
    # the two ways to say that an outcome holds a value weigh the same, and the values of a variable weigh what the variable does
    c.lemma([v, x], weight(d, gives(v, x)) == weight(d, holds(v, x)))
    c.lemma([v], and_(weight(d, has(v)) <= total, weight(d, has(v)) >= 0, implies(occ(v), weight(d, has(v)) >= 1)))
    y = fresh('y', U)
    c.lemma([v], T.sum_x(y, ite(q('ex', SG, lambda s: and_(held(d, s), gives(v, y)(s))), weight(d, gives(v, y)), z3.IntVal(0))) == weight(d, has(v)))
    c.name_cell('counts', DDI, dict_make(DDI, lambda v: and_(want(v), occ(v)), lambda v: dict_make(
        DUI, lambda x: q('ex', SG, lambda s: and_(held(d, s), gives(v, x)(s))), lambda x: weight(d, gives(v, x)))), lambda G: [])
    R = z3.ToReal

    def dist(v):
        return dict_make(DUR, lambda x: or_(occurs_node(d, NODE.mk(v, x)), and_(uo, x == UOBS)), lambda x: ite(
            uo, ite(x == UOBS, R(total - weight(d, has(v))), R(weight(d, holds(v, x)))) / R(total),
            R(weight(d, holds(v, x))) / R(weight(d, has(v)))))
    c.returns(DDR, dict_make(DDR, lambda v: and_(want(v), q('ex', U, lambda x: occurs_node(d, NODE.mk(v, x)))), dist))


spaces('marginal_variables_probability', 'X15', marginals, variables=[none(), mut(SetT(U))], unobserved=val(BOOL))
