"""Contracts of sample_set (C10, C11, C12, C13)."""
from .builder import *

D = DictT(SG, INT)
sprov = lambda s: SS.get(s, 'prov')
samples = lambda s: SS.get(s, 'samples')
held = lambda d, s: sel(D.dom(d), s)
count = lambda d, s: sel(D.val(d), s)
SC = TupT(SG, INT)
SSB = obj('SampleSetBuilder', components_provider=val(P), samples=mut(D))


def n_of(d, s):
    """count of a sample, 0 if it is not held"""
    return ite(held(d, s), count(d, s), z3.IntVal(0))


def put(d, s, n):
    return dict_make(D, lambda x: or_(held(d, x), x == s), lambda x: ite(x == s, n, count(d, x)))


def plus(a, b):
    return dict_make(D, lambda x: or_(held(a, x), held(b, x)), lambda x: n_of(a, x) + n_of(b, x))


def without(d, keys):
    return dict_make(D, lambda x: and_(held(d, x), not_(sel(keys, x))), lambda x: count(d, x))


def sum_of(s, f):
    x = fresh('s', s.sort().domain())
    v = f(x)
    return T.sum_x(x, ite(sel(s, x), v, T._zero(v.sort())))


def total(d):
    return sum_of(D.dom(d), lambda s: count(d, s))


def compatible(d, p):
    """all samples were made with the components of p"""
    return q('all', SG, lambda s: implies(held(d, s), prov(s) == p))


def bparts(c, self):
    return c.abs(self, 'components_provider').t, c.abs(self, 'samples').t


def now(c, self, d):
    c.becomes(self, components_provider=c.abs(self, 'components_provider'), samples=V(D, d, None, None, 'mut'))


@contract('SampleSetBuilder.add', 'C10', callable_=False, self=SSB, sample=val(SG), count=val(INT))
def ssb_add(c, self, sample, count):
    p, d = bparts(c, self)
    c.raises(prov(sample.t) != p)
    now(c, self, put(d, sample.t, n_of(d, sample.t) + count.t))
    c.returns_same(self)


@contract('SampleSetBuilder.add_all', 'C10', callable_=False, self=SSB, samples=val(SS))
def ssb_add_all(c, self, samples):
    p, d = bparts(c, self)
    o = SS.get(samples.t, 'samples')
    c.raises(not_(compatible(o, p)))
    c.refuse_frame = False
    now(c, self, plus(d, o))
    c.returns_same(self)


@contract('SampleSetBuilder.remove', 'C10', callable_=False, self=SSB, sample=val(SG))
def ssb_remove(c, self, sample):
    p, d = bparts(c, self)
    s = sample.t
    c.raises(not_(held(d, s)))
    now(c, self, without(d, setof(SG, lambda x: x == s)))
    c.returns(SC, SC.mk(s, count(d, s)))


@contract('SampleSetBuilder.remove_all', 'C10', callable_=False, self=SSB, samples=val(SS))
def ssb_remove_all(c, self, samples):
    p, d = bparts(c, self)
    o = SS.get(samples.t, 'samples')
    c.raises(not_(subset(D.dom(o), D.dom(d))))
    c.refuse_frame = False
    now(c, self, without(d, D.dom(o)))
    c.returns_same(self)


@contract('SampleSetBuilder.length', 'C10', callable_=False, self=SSB)
def ssb_length(c, self):
    p, d = bparts(c, self)
    c.returns(INT, total(d))


@contract('SampleSetBuilder.empty', 'C10', callable_=False, self=SSB)
def ssb_empty(c, self):
    p, d = bparts(c, self)
    c.returns(SS, SS.mk(p, dict_make(D, lambda x: FALSE, lambda x: z3.IntVal(0))))


@contract('SampleSetBuilder.build', 'C10 C11'.split(), callable_=False, self=SSB)
def ssb_build(c, self):
    p, d = bparts(c, self)
    c.returns(SS, SS.mk(p, d))


@contract('SampleSetBuilder.copy', 'C10 C11'.split(), callable_=False, self=SSB)
def ssb_copy(c, self):
    p, d = bparts(c, self)
    c.result_obj('SampleSetBuilder', components_provider=c.abs(self, 'components_provider'), samples=V(D, d, None, None, 'mut'))


def items_of(d):
    return setof(SC, lambda y: and_(held(d, SC.get(y, 0)), SC.get(y, 1) == count(d, SC.get(y, 0))))


# queries of the base class, on both kinds of receiver
def both(name, props, fn, **params):
    def reg(kind, maker, dct):
        @contract('%s.%s' % (kind, name), props, callable_=(kind == 'SampleSet'), self=maker, fresh=params.get('fresh'),
                  **{k: v for k, v in params.items() if k != 'fresh'})
        def _(c, self, **kw):
            fn(c, *dct(c, self), **kw)
    reg('SampleSet', val(SS), lambda c, s: (sprov(s.t), samples(s.t)))
    reg('SampleSetBuilder', SSB, bparts)


both('items', 'C10', lambda c, p, d: c.returns(SetT(SC), items_of(d)), fresh='set')
both('samples', 'C10', lambda c, p, d: c.returns(SetT(SG), D.dom(d)), fresh='set')


def count_of(c, p, d, sample):
    c.raises(not_(held(d, sample.t)))
    c.returns(INT, count(d, sample.t))


both('count_of', 'C10', count_of, sample=val(SG))
both('__bool__', 'C10', lambda c, p, d: c.returns(BOOL, not_(is_empty(D.dom(d)))))


@contract('SampleSet.is_compatible', 'C10', self=val(SS), other=val(SS))
def ss_compat(c, self, other):
    c.returns(BOOL, sprov(self.t) == sprov(other.t))


@contract('SampleGraph.is_compatible', 'C10 C06'.split(), self=val(SG), other_components_provider=val(P))
def sg_compat(c, self, other_components_provider):
    c.returns(BOOL, prov(self.t) == other_components_provider.t)


@contract('SampleSet.__eq__', 'C10', callable_=False, self=val(SS), other=val(SS))
def ss_eq(c, self, other):
    c.returns(BOOL, eq_term(samples(self.t), samples(other.t)))


@contract('SampleSet.__eq__', 'C10', label='SampleSet.__eq__ (other kinds)', callable_=False, self=val(SS),
          other=[val(SG), val(U), val(INT), none()])
def ss_eq_other(c, self, other):
    c.returns(BOOL, FALSE)


@contract('SampleSet.__hash__', 'C10', callable_=False, self=val(SS))
def ss_hash(c, self):
    c.depends_only(INT, samples(self.t))


@contract('SampleSet.__len__', 'C10', callable_=False, self=val(SS))
def ss_len(c, self):
    c.returns(INT, total(samples(self.t)))


@contract('use: SampleSet.length', 'C10', callable_=False, client='def use(s): return s.length', s=val(SS))
def ss_length(c, s):
    c.returns(INT, total(samples(s.t)))


@contract('use: SampleSet()', 'C10 C11'.split(), callable_=False, client='def use(p, d): return SampleSet(p, d)', p=val(P), d=mut(D))
def ss_new(c, p, d):
    c.returns(SS, SS.mk(p.t, c.content(d)))


@contract('SampleSet.builder', 'C10 C11'.split(), callable_=False, self=val(SS))
def ss_builder(c, self):
    c.result_obj('SampleSetBuilder', components_provider=V(P, sprov(self.t)), samples=V(D, samples(self.t), None, None, 'mut'))


@contract('SampleSet.union', 'C10', self=val(SS), other=val(SS))
def ss_union(c, self, other):
    a, b = samples(self.t), samples(other.t)
    c.requires(compatible(b, sprov(other.t)))
    c.raises(sprov(self.t) != sprov(other.t))
    c.returns(SS, SS.mk(sprov(self.t), plus(a, b)))


# ---- C12
@contract('SampleSet.probability_of', 'C12', self=val(SS), sample=val(SG))
def ss_prob(c, self, sample):
    d = samples(self.t)
    c.requires(q('all', SG, lambda s: implies(held(d, s), count(d, s) > 0)))
    c.raises(not_(held(d, sample.t)))
    c.returns(REAL, to_real(count(d, sample.t)) / to_real(total(d)))


SR = TupT(SG, REAL)


@contract('SampleSet.probabilities', 'C12', fresh='set', self=val(SS))
def ss_probs(c, self):
    d = samples(self.t)
    c.requires(q('all', SG, lambda s: implies(held(d, s), count(d, s) > 0)), not_(is_empty(D.dom(d))))
    c.returns(SetT(SR), setof(SR, lambda y: and_(held(d, SR.get(y, 0)),
                                                 SR.get(y, 1) == to_real(count(d, SR.get(y, 0))) / to_real(total(d)))))


# ---- C13
@contract('SampleSet.filter_samples', 'C13', callable_=False, self=val(SS), p=pred(SG))
def ss_filter(c, self, p):
    d = samples(self.t)
    c.returns(SS, SS.mk(sprov(self.t), dict_make(D, lambda x: and_(held(d, x), sel(p.arr, x)), lambda x: count(d, x))))


@contract('SampleSet.have_value', 'C13', self=val(SS), variable=val(U), value=val(U))
def ss_have_value(c, self, variable, value):
    d = samples(self.t)
    c.returns(BOOL, q('ex', SG, lambda s: and_(held(d, s), sel(nodes(s), NODE.mk(variable.t, value.t)))))


@contract('SampleSet.have_variable', 'C13', self=val(SS), variable=val(U))
def ss_have_variable(c, self, variable):
    d = samples(self.t)
    c.returns(BOOL, q('ex', SG, lambda s: and_(held(d, s), sel(variables(s), variable.t))))


def match(d):
    """no variable has two values across the samples"""
    s, t, n, m = fresh('s', SG), fresh('t', SG), fresh('n', NODE), fresh('m', NODE)
    return forall([s, t, n, m], implies(and_(held(d, s), held(d, t), sel(nodes(s), n), sel(nodes(t), m), var(n) == var(m)), value(n) == value(m)))


@contract('SampleSet.is_all_values_match', 'C13', self=val(SS))
def ss_match(c, self):
    c.returns(BOOL, match(samples(self.t)))


def single_valued(s):
    n, m = fresh('n', NODE), fresh('m', NODE)
    return forall([n, m], implies(and_(sel(nodes(s), n), sel(nodes(s), m), var(n) == var(m)), n == m))


@contract('SampleSet.can_join_samples', 'C13 C20'.split(), self=val(SS))
def ss_can_join(c, self):
    d = samples(self.t)
    c.requires(not_(is_empty(D.dom(d))), q('all', SG, lambda s: implies(held(d, s), and_(
        single_valued(s), q('all', NODE, lambda n: implies(sel(nodes(s), n), value(n) != NONE))))))
    c.returns(BOOL, match(d))
