"""Discharging verification conditions.

prove(hyps, goal) splits the goal, adds ground facts about the finite sums, products and
cardinalities that occur (AGGREGATE LEMMAS below, each true of finite sets), lifts lambdas to defined
array symbols, and asks z3 (several configurations) and then cvc5.
"""
import itertools
import os
import subprocess
import tempfile
import time
import z3
from .terms import *
from . import terms as T

STATS = {'queries': 0, 'z3': 0, 'cvc5': 0, 'solver_s': 0.0}
BEAT = lambda what, secs: None      # told before work that could get stuck: the configuration and its time limit
SKIP = set()                        # configurations that got stuck on this obligation
AXIOMS = []          # closed formulas about the fixed vocabulary, added to every query


# ---------------------------------------------------------------- goal splitting
def _sk(q, tag):
    vs = [fresh(tag, q.var_sort(i)) for i in range(q.num_vars())]
    return norm(z3.substitute_vars(q.body(), *reversed(vs)))


def split_goal(hyps, goal, depth=0):
    """list of (hyps, literal goal)"""
    if z3.is_true(goal):
        return []
    if z3.is_and(goal):
        out = []
        for c in goal.children():
            out += split_goal(hyps, c, depth)
        return out
    if z3.is_implies(goal):
        return split_goal(hyps + flat(goal.arg(0), 'sk'), goal.arg(1), depth)
    if z3.is_quantifier(goal) and goal.is_forall():
        return split_goal(hyps, _sk(goal, 'sk'), depth)
    if z3.is_not(goal):
        a = goal.arg(0)
        if z3.is_quantifier(a) and a.is_exists():
            return split_goal(hyps, not_(_sk(a, 'sk')), depth)
        if z3.is_or(a):
            return split_goal(hyps, and_(*[not_(c) for c in a.children()]), depth)
        if z3.is_not(a):
            return split_goal(hyps, a.arg(0), depth)
        if z3.is_and(a):
            return [(hyps + c, FALSE) for c in cases(flat(a, 'sk'))]
        return [(hyps + c, FALSE) for c in cases(flat(a, 'sk'))]
    if z3.is_eq(goal) and depth < 8:
        a, b = goal.arg(0), goal.arg(1)
        if a.sort() == z3.BoolSort():
            return split_goal(hyps + flat(a, 'sk'), b, depth + 1) + split_goal(hyps + flat(b, 'sk'), a, depth + 1)
        e = T.eq_term(a, b)
        if not e.eq(goal):
            return split_goal(hyps, e, depth + 1)
        if isinstance(a.sort(), z3.ArraySortRef):
            x = fresh('sk', a.sort().domain())
            return split_goal(hyps, norm(T.eq_term(sel(a, x), sel(b, x))), depth + 1)
        if isinstance(a.sort(), z3.DatatypeSortRef) and a.sort().num_constructors() == 1:
            s = a.sort()
            return split_goal(hyps, and_(*[T.eq_term(T.acc_(s, i, a), T.acc_(s, i, b))
                                           for i in range(s.constructor(0).arity())]), depth + 1)
    if z3.is_or(goal) and depth < 8:
        ch = goal.children()
        for i, c in enumerate(ch):
            if z3.is_quantifier(c) and c.is_forall() or z3.is_and(c) or z3.is_not(c):
                rest = [not_(d) for j, d in enumerate(ch) if j != i]
                return split_goal(hyps + sum([flat(r, 'sk') for r in rest], []), c, depth + 1)
    if z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_ITE and goal.sort() == z3.BoolSort():
        c, a, b = goal.children()
        return split_goal(hyps + flat(c, 'sk'), a, depth) + split_goal(hyps + flat(not_(c), 'sk'), b, depth)
    return [(hyps, goal)]


def cases(new):
    """new hypotheses, split over their disjunctions: a list of lists"""
    out = [[]]
    for h in new:
        alts = None
        if z3.is_or(h):
            alts = h.children()
        elif z3.is_not(h) and z3.is_and(h.arg(0)):
            alts = [norm(not_(c)) for c in h.arg(0).children()]
        if alts is None or len(alts) * len(out) > 12:
            out = [o + [h] for o in out]
        else:
            out = [o + flat(a, 'sk') for o in out for a in alts]
    return out


def flat(h, tag='ex'):
    if z3.is_and(h):
        return sum([flat(c, tag) for c in h.children()], [])
    if z3.is_true(h):
        return []
    if z3.is_quantifier(h) and h.is_exists():
        return flat(_sk(h, tag), tag)
    if z3.is_not(h):
        a = h.arg(0)
        if z3.is_or(a):
            return sum([flat(not_(c), tag) for c in a.children()], [])
        if z3.is_quantifier(a) and a.is_forall():
            return flat(not_(_sk(a, tag)), tag)
        if z3.is_implies(a):
            return flat(a.arg(0), tag) + flat(not_(a.arg(1)), tag)
        if z3.is_not(a):
            return flat(a.arg(0), tag)
        if z3.is_quantifier(a) and a.is_exists():
            ys, b = T.open_(a)
            cs = T.conjuncts(b)
            for i, c in enumerate(cs):
                if z3.is_or(c) and c.num_args() <= 3 and any(z3.is_quantifier(d) for d in c.children()):
                    return sum([flat(not_(T.exists(ys, and_(*cs[:i], d, *cs[i + 1:]))), tag) for d in c.children()], [])
            pos = [c for c in cs if not z3.is_not(c)]
            neg = [c.arg(0) for c in cs if z3.is_not(c)]
            if not neg and len(pos) > 1:
                k = [i for i, c in enumerate(pos) if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_SELECT]
                pos, neg = [pos[i] for i in k], [not_(and_(*[c for i, c in enumerate(pos) if i not in k]))]
                if z3.is_false(neg[0]):
                    return [h]
            if pos and neg:
                return [T.close('forall', ys, z3.Implies(and_(*pos), or_(*neg)))]
    return [h]


# ---------------------------------------------------------------- closed aggregates
_fv = {}


def free_level(t):
    k = t.get_id()
    if k in _fv:
        return _fv[k][1]
    if z3.is_var(t):
        r = z3.get_var_index(t) + 1
    elif z3.is_quantifier(t):
        r = max(0, free_level(t.body()) - t.num_vars())
    else:
        r = max([free_level(c) for c in t.children()], default=0)
    _fv[k] = (t, r)
    return r


KINDS = ('SUM', 'PROD', 'CARD')


def is_agg(t):
    return z3.is_app(t) and t.num_args() == 1 and '<' in t.decl().name() and t.decl().name().split('<')[0] in KINDS


def collect(ts, pred):
    seen, out = set(), []
    stack = list(ts)
    while stack:
        u = stack.pop()
        k = u.get_id()
        if k in seen:
            continue
        seen.add(k)
        if pred(u) and free_level(u) == 0:
            out.append(u)
        if z3.is_quantifier(u):
            stack.append(u.body())
        else:
            stack.extend(u.children())
    return out


def collect_open(ts):
    """aggregates under binders: {key: (bound constants, aggregate term)}"""
    out, seen = {}, set()

    def go(u, bound, depth):
        k = (u.get_id(), tuple(b.get_id() for b in bound))
        if k in seen or (T.height(u) == 0 and not has_agg(u)):
            return
        seen.add(k)
        if z3.is_quantifier(u):
            xs = [z3.Const('oc_%d_%d' % (depth, i), u.var_sort(i)) for i in range(u.num_vars())]
            go(z3.substitute_vars(u.body(), *reversed(xs)), bound + xs, depth + 1)
            return
        if is_agg(u):
            fv = [b for b in bound if occurs(b, u)]
            if fv:
                key = u
                for b in fv:
                    key = T.close('lambda', [b], key)
                out.setdefault(key.get_id(), (key, fv, u))
        for c in u.children():
            go(c, bound, depth)
    for t in ts:
        go(t, [], 0)
    return [(fv, u) for _, fv, u in out.values()]


_hasagg = {}


def has_agg(u):
    k = u.get_id()
    c = _hasagg.get(k)
    if c is None:
        ch = [u.body()] if z3.is_quantifier(u) else u.children()
        c = _hasagg[k] = (u, is_agg(u) or any(has_agg(x) for x in ch))
    return c[1]


def open_lemmas(ts):
    """the lemmas about single aggregates, for aggregates under binders: witnesses are functions of the bound variables"""
    out = []
    for fv, u in collect_open(ts)[:12]:
        wit = []
        ls = [norm(l) for l in agg_lemmas([u], wit)]
        sub = [(w, z3.Function('%s_f' % w.decl().name(), *[b.sort() for b in fv], w.sort())(*fv)) for w in wit]
        body = z3.substitute(and_(*ls), *sub)
        cs = [z3.Const('ol_%d' % i, b.sort()) for i, b in enumerate(fv)]
        pr = list(zip(fv, cs))
        out.append((cs, z3.substitute(body, *pr), z3.substitute(u, *pr)))
    return out


# ---------------------------------------------------------------- AGGREGATE LEMMAS
def kind_of(t):
    return t.decl().name().split('<')[0]


def agg_lemmas(aggs, wit=None):
    """Ground facts about the aggregate terms. Every fresh constant w below stands for a witness: each lemma has
    the form  "w is a witness of C, or L"  and is valid for a suitable choice of w because L follows from not-exists C;
    a w used in several lemmas witnesses the same C in all of them."""
    out = []
    wit = [] if wit is None else wit

    def wfresh(n, d):
        w = T.fresh(n, d)
        if n == 'w':
            wit.append(w)
        return w
    fresh = wfresh
    cards = [t for t in aggs if kind_of(t) == 'CARD']
    for t in cards:
        s = t.arg(0)
        dom = s.sort().domain()
        x, y, z = fresh('x', dom), fresh('y', dom), fresh('z', dom)
        w1, w2, w3 = fresh('w', dom), fresh('w', dom), fresh('w', dom)
        m = lambda v: sel(s, v)
        out += [t >= 0,
                # w1, w2, w3: the first elements of the set in some order
                implies(t >= 1, m(w1)), implies(t >= 2, and_(m(w2), w1 != w2)),
                implies(t >= 3, and_(m(w3), w3 != w1, w3 != w2)),
                implies(t <= 0, forall(x, not_(m(x)))),
                implies(t == 1, forall(x, implies(m(x), x == w1))),
                implies(t == 2, forall(x, implies(m(x), or_(x == w1, x == w2))))]
        if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_STORE:
            base, e, b = s.arg(0), s.arg(1), s.arg(2)
            if z3.is_true(b):
                out.append(t == T.CARD(base) + ite(sel(base, e), z3.IntVal(0), z3.IntVal(1)))
            elif z3.is_false(b):
                out.append(t == T.CARD(base) - ite(sel(base, e), z3.IntVal(1), z3.IntVal(0)))
    for a, b in itertools.combinations(cards, 2):
        if a.arg(0).sort() != b.arg(0).sort():
            continue
        s, t = a.arg(0), b.arg(0)
        dom = s.sort().domain()
        # wa: an element of s outside t if there is one; wb: an element of t outside s if there is one
        wa, wb = fresh('w', dom), fresh('w', dom)
        nsub = and_(sel(s, wa), not_(sel(t, wa)))
        nsup = and_(sel(t, wb), not_(sel(s, wb)))
        x = fresh('x', dom)
        out += [or_(nsub, a <= b), or_(nsup, b <= a), or_(nsub, nsup, a == b),
                or_(nsub, a < b, forall(x, implies(sel(t, x), sel(s, x)))),
                or_(nsup, b < a, forall(x, implies(sel(s, x), sel(t, x))))]
    if 3 <= len(cards) <= 6:
        for a, b, c in itertools.permutations(cards, 3):
            if a.get_id() < b.get_id() and a.arg(0).sort() == b.arg(0).sort() == c.arg(0).sort():
                s, t, u = a.arg(0), b.arg(0), c.arg(0)
                w = fresh('w', s.sort().domain())
                # w: where u is not the disjoint union of s and t; otherwise the cardinalities add up
                out.append(or_(and_(sel(s, w), sel(t, w)), sel(u, w) != or_(sel(s, w), sel(t, w)), c == a + b))
    nums = [t for t in aggs if kind_of(t) != 'CARD']
    for t in nums:
        kind = kind_of(t)
        f = t.arg(0)
        unit = T._zero(t.sort(), 0 if kind == 'SUM' else 1)
        dom = f.sort().domain()
        w = fresh('w', dom)
        out.append(or_(sel(f, w) != unit, t == unit))            # every term neutral
        if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_STORE:
            g, e, v = f.arg(0), f.arg(1), f.arg(2)
            t0 = T.agg(kind, g)
            if kind == 'SUM':
                out.append(t == t0 - sel(g, e) + v)
            else:
                out.append(implies(sel(g, e) == unit, t == t0 * v))
        if kind == 'SUM':
            w = fresh('w', dom)                                    # a negative term, if any
            x = fresh('x', dom)
            out.append(or_(sel(f, w) < 0, t >= 0))
            out.append(or_(sel(f, w) < 0, forall(x, sel(f, x) <= t)))
            out.append(or_(sel(f, w) < 0, t > 0, forall(x, sel(f, x) == 0)))
        elif kind == 'PROD':
            w = fresh('w', dom)
            out.append(or_(sel(f, w) < 1, t >= 1))
    for a, b in itertools.combinations(nums, 2):
        if not a.decl().eq(b.decl()):
            continue
        f, g = a.arg(0), b.arg(0)
        dom = f.sort().domain()
        w = fresh('w', dom)
        out.append(or_(sel(f, w) != sel(g, w), a == b))
        if kind_of(a) == 'SUM':
            w, v = fresh('w', dom), fresh('w', dom)
            out.append(or_(sel(f, w) > sel(g, w), a <= b))
            out.append(or_(sel(f, v) < sel(g, v), a >= b))
    sums = [t for t in nums if kind_of(t) == 'SUM']
    if 3 <= len(sums) <= 6:
        for a, b, c in itertools.permutations(sums, 3):
            if a.get_id() < b.get_id() and a.decl().eq(b.decl()) and b.decl().eq(c.decl()):
                f, g, h = a.arg(0), b.arg(0), c.arg(0)
                w = fresh('w', f.sort().domain())
                out.append(or_(sel(h, w) != sel(f, w) + sel(g, w), c == a + b))
    for a, b in itertools.permutations(sums, 2):
        if a.arg(0).sort().domain() == b.arg(0).sort().domain() and a.sort() == z3.IntSort() and b.sort() == z3.RealSort():
            w = fresh('w', a.arg(0).sort().domain())
            out.append(or_(z3.ToReal(sel(a.arg(0), w)) != sel(b.arg(0), w), z3.ToReal(a) == b))
    return out


# ---------------------------------------------------------------- lambda lifting
def image_facts(app, rest, xs, b):
    """for a set {y | exists n. ... y = t(n) ...}: instances of its definition at y = t(n)"""
    if len(xs) != 1 or not (z3.is_quantifier(b) and b.is_exists()):
        return []
    y = xs[0]
    ns, body = T.open_(b)
    cands = []

    def walk(u, d):
        if d > 5 or len(cands) > 3:
            return
        if z3.is_eq(u):
            for p, q in ((u.arg(0), u.arg(1)), (u.arg(1), u.arg(0))):
                if p.eq(y) and not occurs(y, q) and not any(q.eq(c) for c in cands):
                    cands.append(q)
        elif z3.is_and(u) or z3.is_or(u) or z3.is_app(u) and u.decl().kind() == z3.Z3_OP_ITE:
            for c in u.children():
                if c.sort() == z3.BoolSort():
                    walk(c, d + 1)
    walk(body, 0)
    out = []
    sels = [c for c in T.conjuncts(body) if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_SELECT and not occurs(y, c)
            and all(occurs(n, c) for n in ns)]
    for t in cands:
        if not all(occurs(n, t) or sels for n in ns):
            continue
        f = implies(norm(z3.substitute(body, (y, t))), z3.Select(app, t))
        vs = [v for v in rest + ns if occurs(v, f)]
        cs = [z3.Const('im_%d' % i, v.sort()) for i, v in enumerate(vs)]
        pr = list(zip(vs, cs))
        f = z3.substitute(f, *pr)
        pats = []
        if sels and all(any(occurs(v, u) for u in (sels[0], app)) for v in vs):
            pats = [z3.substitute(sels[0], *pr)]
            if not all(occurs(v, sels[0]) for v in vs):
                pats = [z3.MultiPattern(pats[0], z3.substitute(app, *pr))]
        out.append(z3.ForAll(cs, f, patterns=pats) if pats else z3.ForAll(cs, f))
    return out


def converses(h):
    """for a hypothesis  forall ys. A => (p == (B and exists x. C)):  forall ys, x. A and B and C => p, which has more triggers"""
    if not (z3.is_quantifier(h) and h.is_forall()):
        return []
    ys, b = T.open_(h)
    out = []

    def go(pre, u):
        if z3.is_implies(u):
            go(pre + [u.arg(0)], u.arg(1))
        elif z3.is_and(u):
            for c in u.children():
                go(pre, c)
        elif z3.is_eq(u) and u.arg(0).sort() == z3.BoolSort():
            for p, w in ((u.arg(0), u.arg(1)), (u.arg(1), u.arg(0))):
                cs = T.conjuncts(w)
                ex = [c for c in cs if z3.is_quantifier(c) and c.is_exists()]
                if len(ex) != 1 or z3.is_quantifier(p):
                    continue
                xs, c = T.open_(ex[0])
                rest = [d for d in cs if not d.eq(ex[0])]
                vs = [v for v in ys + xs]
                out.append(T.close('forall', vs, implies(and_(*pre, *rest, c), p)))
    go([], b)
    return out


class Lifter:
    def __init__(self):
        self.table = {}
        self.defs = []
        self.closed = {}
        self.keep = []
        self.unify, self.tries, self.found = None, 0, False
        self.sets = []

    def go(self, u, bound):
        if not bound:
            c = self.closed.get(u.get_id())
            if c is not None:
                return c[1]
        r = self._go(u, bound)
        if not bound:
            self.closed[u.get_id()] = (u, r)
        return r

    def _go(self, u, bound):
        if T.height(u) == 0:
            return u
        if z3.is_quantifier(u):
            xs, b = T.open_(u)
            b = self.go(b, bound + xs)
            if not u.is_lambda():
                return T.close('forall' if u.is_forall() else 'exists', xs, b)
            lamt = T.close('lambda', xs, b)
            fv = [c for c in bound if T.occurs(c, lamt)]
            if not fv:
                key, rest = lamt, []
            else:
                key, rest = lamt, fv
                for c in reversed(fv):
                    key = T.close('lambda', [c], key)
            k = key.get_id()
            if k not in self.table and self.unify is not None and self.tries < 60:
                self.tries += len(self.sets)
                o = find_alias(self.unify + self.defs, key, len(rest), self.sets)
                if o is not None:
                    self.found = True
                    self.table[k] = (key, self.table[o.get_id()][1])
            if k in self.table:
                sym = self.table[k][1]
            else:
                n = 'lam!%d' % next(T._ids)
                sym = z3.Function(n, *[c.sort() for c in rest], lamt.sort()) if rest else z3.Const(n, lamt.sort())
                self.table[k] = (key, sym)
                self.sets.append((key, len(rest)))
                app = sym(*rest) if rest else sym
                lhs = z3.Select(app, *xs)
                vs = rest + xs
                cs = [z3.Const('d_%d' % i, v.sort()) for i, v in enumerate(vs)]
                pr = list(zip(vs, cs))
                lhs2 = z3.substitute(lhs, *pr)
                self.defs.append(z3.ForAll(cs, lhs2 == z3.substitute(b, *pr), patterns=[lhs2]))
                self.defs += image_facts(app, rest, xs, b)
            return sym(*rest) if rest else sym
        ch = [self.go(c, bound) for c in u.children()]
        if all(a.eq(b) for a, b in zip(ch, u.children())):
            return u
        d = u.decl()
        k = d.kind()
        if k == z3.Z3_OP_AND:
            return z3.And(*ch)
        if k == z3.Z3_OP_OR:
            return z3.Or(*ch)
        if k == z3.Z3_OP_ADD:
            return z3.Sum(ch)
        if k == z3.Z3_OP_MUL:
            return z3.Product(ch)
        if k == z3.Z3_OP_DISTINCT:
            return z3.Distinct(*ch)
        if k == z3.Z3_OP_CONST_ARRAY:
            return z3.K(u.sort().domain(), ch[0])
        return d(*ch)


def symbols(ts):
    seen, out = set(), set()
    stack = list(ts)
    while stack:
        u = stack.pop()
        k = u.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_quantifier(u):
            stack.append(u.body())
        elif z3.is_app(u):
            if u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(u.decl().name())
            stack.extend(u.children())
    return out


def relevant(hyps, goal, axioms):
    """drop hypotheses sharing no symbol (transitively) with the goal: fewer hypotheses is always sound"""
    if z3.is_false(goal):
        return hyps + axioms
    rest = [(h, symbols([h])) for h in hyps + axioms]
    want = symbols([goal])
    out = []
    changed = True
    while changed:
        changed = False
        nxt = []
        for h, s in rest:
            if s & want or not s:
                out.append(h)
                want |= s
                changed = True
            else:
                nxt.append((h, s))
        rest = nxt
    return out


def find_alias(hyps, key, n, sets):
    """an earlier set, written differently, that is provably equal (for all values of its parameters)"""
    for other, m in reversed(sets):
        if m != n or other.sort() != key.sort() or len(symbols([key]) ^ symbols([other])) > 6:
            continue
        u, v = key, other
        for _ in range(n + 1):
            xs = [fresh('sk', u.var_sort(j)) for j in range(u.num_vars())]
            u = z3.substitute_vars(u.body(), *reversed(xs))
            v = z3.substitute_vars(v.body(), *reversed(xs))
        goal = norm(T.eq_term(norm(u), norm(v)))
        if prove(hyps, goal, 'alias').ok:
            return other
    return None


def prepare(hyps, goal, unify=False):
    """closed first-order problem: list of assertions whose unsatisfiability proves the goal"""
    base = list(hyps) + [norm(not_(goal))]
    syms = symbols(base)
    for name, need, ax in AXIOMS:
        if any(n in syms for n in need):
            base.append(ax)
    known = []
    lem = []
    for _ in range(3):
        aggs = collect(base + lem, is_agg)
        new = [t for t in aggs if not any(t.eq(k) for k in known)]
        if not new or len(known) > 12:
            break
        known += new
        lem = [norm(l) for l in agg_lemmas(known)]
    base += [f for h in base for f in converses(h)]
    lf = Lifter()
    if unify:
        lf.unify = list(hyps)
    out = [lf.go(a, []) for a in base + lem]
    for cs, body, pat in open_lemmas(base):
        out.append(z3.ForAll(cs, lf.go(body, cs), patterns=[lf.go(pat, cs)]))
    if unify and not lf.found:
        return None
    return out + lf.defs


CONFIGS = [
    {'smt.mbqi': False, 'smt.auto_config': False},
    {},
    {'smt.mbqi': False, 'smt.auto_config': False, 'smt.qi.eager_threshold': 100.0, 'smt.relevancy': 0},
    {'smt.random_seed': 7, 'smt.mbqi': False, 'smt.auto_config': False, 'smt.arith.solver': 2},
]


def check_z3(asserts, cfg, ms):
    n = CONFIGS.index(cfg)
    s = z3.Solver()
    s.set('timeout', ms)
    for k, v in cfg.items():
        try:
            s.set(k, v)
        except z3.Z3Exception:
            pass
    s.add(*asserts)
    t = time.time()
    if n in SKIP:
        return z3.unknown, s
    BEAT(n, ms / 1000)
    r = s.check()
    BEAT(None, 60)
    STATS['solver_s'] += time.time() - t
    return r, s


def check_cvc5(asserts, ms):
    s = z3.Solver()
    s.add(*asserts)
    txt = s.to_smt2()
    if '(lambda' in txt:
        return 'unknown'
    txt = '(set-logic ALL)\n' + txt
    BEAT(None, ms / 1000)
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    t = time.time()
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % ms, '--full-saturate-quant', f.name], capture_output=True, text=True,
                           timeout=ms / 1000 + 5)
        out = p.stdout.strip().split('\n')[0] if p.stdout else 'unknown'
    except (subprocess.TimeoutExpired, OSError):
        out = 'unknown'
    finally:
        os.unlink(f.name)
        STATS['solver_s'] += time.time() - t
    return out if out in ('unsat', 'sat') else 'unknown'


class Result:
    def __init__(self, ok, status, backend, detail='', secs=0.0):
        self.ok, self.status, self.backend, self.detail, self.secs = ok, status, backend, detail, secs

    def __repr__(self):
        return 'Result(%s,%s,%s,%.2fs)' % (self.ok, self.status, self.backend, self.secs)


PLANS = {
    'alias': [(0, 200)],
    'quick': [(0, 150)],
    'mid': [(0, 800), (1, 800), ('unify', 0), (0, 800)],
    'ext': [(0, 1500), (1, 1500), (0, 8000), ('cvc5', 8000)],
    'full': [(0, 1500), (1, 1500), ('unify', 0), (0, 3000), (1, 3000), (2, 4000), ('cvc5', 8000), (0, 15000), (3, 15000), (1, 10000), ('cvc5', 30000)],
    'deep': [(0, 3000), (1, 3000), ('unify', 0), (0, 3000), (1, 3000), (2, 4000), ('cvc5', 8000), (0, 40000), (3, 40000), (1, 20000), ('cvc5', 60000)],
}


def propagate(hyps, goal):
    """hypotheses with those implications resolved whose premise is a hypothesis itself"""
    hyps = list(hyps)
    ng = flat(norm(not_(goal)))
    known = {h.get_id() for h in hyps + ng}
    keep = hyps + ng
    for _ in range(4):
        out, changed = [], False
        for h in hyps:
            if z3.is_implies(h) and all(c.get_id() in known for c in flat(h.arg(0))):
                new = flat(h.arg(1))
                keep += new + [h]
                known |= {c.get_id() for c in new}
                out += new
                changed = True
            elif z3.is_implies(h) and len(flat(h.arg(0))) == 1 and norm(not_(flat(h.arg(0))[0])).get_id() in known:
                keep.append(h)
                changed = True
            else:
                out.append(h)
        hyps = out
        if not changed:
            break
    return hyps


def instances(hyps, cap=40, rounds=2, at=None):
    """instances of the universal hypotheses  forall ys. .. X[y] .. => B  at the c with X[c] among the hypotheses"""
    out = []
    seen = {h.get_id() for h in hyps}
    keep = list(hyps)
    for _ in range(rounds):
        known = hyps + out
        ids = {h.get_id() for h in known}
        have = {}
        for h in known:
            if z3.is_app(h) and h.decl().kind() == z3.Z3_OP_SELECT and h.num_args() == 2:
                if at is None or at(h.arg(1)):
                    have.setdefault(h.arg(0).get_id(), []).append(h.arg(1))
        new = []
        for h in known:
            if not (z3.is_quantifier(h) and h.is_forall()):
                continue
            ys, b = T.open_(h)
            if not z3.is_implies(b) or len(ys) > 2:
                continue
            conj = T.conjuncts(b.arg(0))
            cand = {}
            for c in conj:
                if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_SELECT and c.num_args() == 2:
                    for i, y in enumerate(ys):
                        if c.arg(1).eq(y) and c.arg(0).get_id() in have and i not in cand:
                            cand[i] = have[c.arg(0).get_id()]
            if len(cand) != len(ys):
                continue
            for vs in itertools.product(*[cand[i] for i in range(len(ys))]):
                f = norm(z3.substitute(b, *zip(ys, vs)))
                if f.get_id() in seen or len(out) + len(new) >= cap:
                    continue
                seen.add(f.get_id())
                keep.append(f)
                if z3.is_implies(f) and all(c.get_id() in ids for c in flat(f.arg(0))):
                    new += flat(f.arg(1))
                else:
                    new += flat(f)
        keep += new
        if not new:
            break
        out += new
    return out


def discharge(hyps, goal, plan='full'):
    """one literal goal"""
    STATS['queries'] += 1
    t0 = time.time()
    if plan != 'alias':
        hyps = propagate(hyps, goal)
        tries = []
        if plan != 'quick':
            inst = instances(propagate(hyps + flat(norm(not_(goal))), FALSE))
            if inst:
                tries.append([h for h in hyps if not z3.is_quantifier(h)] + inst)
            local = lambda t: any(is_local(n) for n in symbols([t]))
            inst = instances(propagate(hyps + flat(norm(not_(goal))), FALSE), at=local)
            if inst:
                tries.insert(0, [h for h in hyps + inst if local(h)])
            nobef = [h for h in hyps if not any('.before' in n for n in symbols([h]))]
            if not has_agg(goal):
                tries.append([h for h in nobef if not has_agg(h) and not z3.is_implies(h)])
            tries.append(nobef)
            if not has_agg(goal):
                tries.append([h for h in hyps if not has_agg(h)])
        for few in tries:
            if len(few) != len(hyps):
                r, s = check_z3(prepare(few, goal), CONFIGS[0], 300)
                if r == z3.unsat:
                    STATS['z3'] += 1
                    return Result(True, 'unsat', 'z3', '', time.time() - t0)
    if any(z3.is_false(h) for h in hyps):
        return Result(True, 'unsat', 'trivial', '', 0.0)
    try:
        asserts = prepare(hyps, goal)
    except z3.Z3Exception as e:
        return Result(False, 'error', 'prepare', str(e))
    detail = ''
    skip = False
    for i, ms in PLANS[plan]:
        if i == 'unify':
            a2 = prepare(hyps, goal, True)
            if a2 is None:
                if plan == 'mid':
                    break
            else:
                asserts = a2
            continue
        if i == 'cvc5':
            r = check_cvc5(asserts, ms)
            if r == 'unsat':
                STATS['cvc5'] += 1
                return Result(True, 'unsat', 'cvc5', '', time.time() - t0)
            continue
        r, s = check_z3(asserts, CONFIGS[i], ms)
        if r == z3.unsat:
            STATS['z3'] += 1
            return Result(True, 'unsat', 'z3', '', time.time() - t0)
        if r == z3.sat:
            try:
                d = str(s.model())[:4000]
            except z3.Z3Exception:
                d = 'sat'
            return Result(False, 'sat', 'z3', d, time.time() - t0)
        detail = s.reason_unknown()
    return Result(False, 'unknown', 'z3+cvc5', detail, time.time() - t0)


def is_local(n):
    return n.startswith('sk!') or n.endswith('.x')


def consts_of(t):
    out, seen, stack = [], set(), [t]
    while stack:
        u = stack.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_quantifier(u):
            stack.append(u.body())
        elif z3.is_const(u):
            if u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(u)
        else:
            stack.extend(u.children())
    return out


def eliminate(hyps, goal):
    """replace a constant that a hypothesis equates with a built value by that value"""
    for _ in range(4):
        hit = None
        for i, h in enumerate(hyps):
            if z3.is_eq(h):
                for a, b in ((h.arg(0), h.arg(1)), (h.arg(1), h.arg(0))):
                    if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and is_local(a.decl().name()) and not occurs(a, b) \
                            and z3.is_app(b) and b.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR and b.num_args():
                        hit = (i, a, b)
        if hit is None:
            break
        i, a, b = hit
        pairs = [(c, fresh('sk', c.sort())) for c in consts_of(b) if c.decl().name().startswith('ex!')]
        if pairs:
            hyps = [norm(z3.substitute(h, *pairs)) for h in hyps]
            goal = norm(z3.substitute(goal, *pairs))
            b = z3.substitute(b, *pairs)
        new = []
        for j, h in enumerate(hyps):
            if j != i:
                new += flat(norm(subst(h, (a, b)))) if occurs(a, h) else [h]
        hyps, goal = new, norm(subst(goal, (a, b)))
    return hyps, goal


def by_cases(hyps, goal, plan, depth=2):
    """split over the last disjunction among the hypotheses"""
    hyps = propagate(hyps, goal)
    for i in range(len(hyps) - 1, -1, -1):
        h = hyps[i]
        c = cases([h])
        if len(c) > 1 and not z3.is_quantifier(h):
            rest = hyps[:i] + hyps[i + 1:]
            secs = 0
            for alt in c:
                r = discharge(rest + alt, goal, plan)
                if not r.ok and depth > 1:
                    r = by_cases(rest + alt, goal, plan, depth - 1) or r
                secs += r.secs
                if not r.ok:
                    return r
            r.secs = secs
            return r
    return None


def witness(hyps, goal):
    """an existential goal, at the constants made while splitting"""
    if not (z3.is_quantifier(goal) and goal.is_exists() and goal.num_vars() <= 2):
        return None
    cs = [c for c in consts_of(and_(*hyps)) if is_local(c.decl().name())]
    cand = [[c for c in cs if c.sort() == goal.var_sort(i)][:4] for i in range(goal.num_vars())]
    for vs in itertools.product(*cand):
        r = prove(hyps, norm(z3.substitute_vars(goal.body(), *reversed(vs))), 'mid')
        if r.ok:
            return r
    return None


def same_sets(hyps):
    """sets with equally many elements, one provably contained in the other, are equal"""
    out = []
    for g in hyps:
        if z3.is_eq(g) and all(is_agg(u) and kind_of(u) == 'CARD' for u in g.children()) and g.arg(0).decl().eq(g.arg(1).decl()):
            a, b = g.arg(0).arg(0), g.arg(1).arg(0)
            x = fresh('x', a.sort().domain())
            for s, t in ((a, b), (b, a)):
                if prove(hyps + [sel(s, x)], sel(t, x), 'quick').ok:
                    out.append(norm(forall(x, sel(a, x) == sel(b, x))))
                    break
    return out


def prove(hyps, goal, plan='full', on_part=None):
    """Result for the whole goal; stops at the first literal goal that fails"""
    hs = []
    for h in hyps:
        hs += flat(norm(h))
    goal = norm(goal)
    parts = split_goal(hs, goal)
    total, backends = 0.0, set()
    for h, g in parts:
        r = None
        if plan not in ('alias', 'quick'):
            h = h + same_sets(h)
            h, g = eliminate(h, g)
        if z3.is_eq(g) and plan not in ('alias', 'quick') and all(is_agg(u) for u in g.children()) and g.arg(0).decl().eq(g.arg(1).decl()):
            # equal sets (or equal terms) suffice
            x = fresh('sk', g.arg(0).arg(0).sort().domain())
            r = prove(h, norm(T.eq_term(sel(g.arg(0).arg(0), x), sel(g.arg(1).arg(0), x))), plan if plan == 'mid' else 'ext')
        if r is None or not r.ok:
            long = plan not in ('alias', 'quick', 'mid')
            r = discharge(h, g, 'mid' if long else plan)
            if not r.ok and plan not in ('alias', 'quick'):
                s = by_cases(h, g, 'mid')
                if s is None or not s.ok:
                    s = witness(h, g) or s
                if s is not None and s.ok:
                    r = s
                elif long and r.status != 'sat':
                    r = discharge(h, g, plan)
        total += r.secs
        if not r.ok:
            r.detail = 'subgoal: %s\n%s' % (str(g)[:1500], r.detail)
            r.secs = total
            r.part = (h, g)
            return r
        backends.add(r.backend)
    return Result(True, 'unsat', '+'.join(sorted(backends)) or 'trivial', '', total)
