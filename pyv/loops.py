"""Loops and comprehensions over finite families of unknown size and order.

A loop `for e in X: body` is executed once, symbolically, for one element x of X from an arbitrary state of
everything the body changes (the accumulators).  From that one step a candidate invariant is read off for every
part of every accumulator, as a function of the set D of elements already visited:
   membership   acc_D(y) = acc_0(y) or  exists x in D. psi(x, y)      (or the dual, for removals)
   number       acc_D(y) = acc_0(y) + sum over x in D of delta(x, y)
   other value  acc_D(y) = the value written by an x in D that writes y, else acc_0(y)
The candidate is only used after its inductive step  (acc_D, x not in D, body => acc_{D+x})  has been proved;
these proofs are recorded as obligations of the function.  After the loop D is all of X; a path that leaves the
loop early (return, raise, break) does so at some x and some D.  Nothing is unrolled.
"""
import itertools
import os
import ast
import z3
from .terms import *
from . import terms as T
from .engine import *


class Leaf:
    def __init__(self, idx, kind, ty, get, guard):
        self.idx, self.kind, self.ty, self.get, self.guard = idx, kind, ty, get, guard

    def eff(self, t, ys):
        r = self.get(t, ys)
        if self.kind == 'bool':
            return and_(self.guard(t, ys), r)
        if self.kind == 'num':
            return ite(self.guard(t, ys), r, T._zero(r.sort()))
        return r


def leaves(ty, idx=(), get=None, guard=None):
    get = get or (lambda t, ys: t)
    guard = guard or (lambda t, ys: TRUE)
    n = len(idx)
    if isinstance(ty, SetT):
        return [Leaf(idx + (ty.elem,), 'bool', BOOL, lambda t, ys: sel(get(t, ys), ys[n]), guard)]
    if isinstance(ty, DictT):
        out = [Leaf(idx + (ty.k,), 'bool', BOOL, lambda t, ys: sel(ty.dom(get(t, ys)), ys[n]), guard)]
        return out + leaves(ty.v, idx + (ty.k,), lambda t, ys: sel(ty.val(get(t, ys)), ys[n]),
                            lambda t, ys: and_(guard(t, ys), sel(ty.dom(get(t, ys)), ys[n])))
    if isinstance(ty, TupT) or ty in (SG, SS) and not idx:
        out = []
        for i, (_, ft) in enumerate(ty.fields):
            out += leaves(ft, idx, lambda t, ys, i=i: ty.get(get(t, ys), i), guard)
        return out
    if ty == BOOL:
        return [Leaf(idx, 'bool', BOOL, get, guard)]
    if ty in (INT, REAL):
        return [Leaf(idx, 'num', ty, get, guard)]
    return [Leaf(idx, 'val', ty, get, guard)]


def build(ty, it, eff, idx=()):
    """term of type ty from the effective values of its leaves"""
    if isinstance(ty, SetT):
        y = fresh('y', ty.elem)
        return lam(y, eff(next(it), idx + (y,)))
    if isinstance(ty, DictT):
        k = fresh('k', ty.k)
        dm = eff(next(it), idx + (k,))
        inner = build(ty.v, it, eff, idx + (k,))
        return ty.mk(lam(k, dm), lam(k, ite(dm, inner, default(ty.v))))
    if isinstance(ty, TupT) or ty in (SG, SS) and not idx:
        return ty.mk(*[build(ft, it, eff, idx) for _, ft in ty.fields])
    return eff(next(it), idx)


def zero_of(ty):
    if isinstance(ty, SetT):
        return empty_set(ty.elem)
    if isinstance(ty, DictT):
        return dict_empty(ty)
    if isinstance(ty, TupT) or ty in (SG, SS):
        return ty.mk(*[zero_of(ft) for _, ft in ty.fields])
    if ty == BOOL:
        return FALSE
    if ty == INT:
        return z3.IntVal(0)
    if ty == REAL:
        return z3.RealVal(0)
    return default(ty)


def full_of(ty):
    if isinstance(ty, SetT):
        return z3.K(ty.elem.sort, TRUE)
    if isinstance(ty, DictT):
        return ty.mk(z3.K(ty.k.sort, TRUE), z3.K(ty.k.sort, full_of(ty.v)))
    if isinstance(ty, TupT) or ty in (SG, SS):
        return ty.mk(*[full_of(ft) for _, ft in ty.fields])
    if ty == BOOL:
        return TRUE
    return zero_of(ty)


class Acc:
    """one accumulator: ('cell', cid) | ('name', eid, name) | ('attr', oid, name)"""

    def __init__(self, key, ty, init):
        self.key, self.ty, self.init = key, ty, init
        self.const = None

    def install(self, en, st, t, ver=None):
        k = self.key
        if k[0] == 'cell':
            c = st.heap[k[1]]
            st.heap[k[1]] = c.but(ty=self.ty, t=t, gen=None, ver=c.ver if ver is None else ver)
        else:
            if isinstance(self.ty, (SetT, DictT)) and self.ref:
                v = st.new_cell('dict' if isinstance(self.ty, DictT) else 'set', self.ty, t)
            else:
                v = V(self.ty, t)
            if k[0] == 'name':
                st.envs[k[1]][k[2]] = v
            else:
                st.objs[k[1]][1][k[2]] = v

    def read(self, en, st):
        k = self.key
        if k[0] == 'cell':
            c = st.heap[k[1]]
            return en.coerce(c.t, c.ty, self.ty) if c.ty is not None else zero_of(self.ty)
        v = st.envs[k[1]][k[2]] if k[0] == 'name' else st.objs[k[1]][1][k[2]]
        return en.term(st, v, self.ty)

    ref = False


class Skip:
    pass


SKIP = Skip()


class PathRec:
    def __init__(self, st, kind, value, pcs, facts):
        self.st, self.kind, self.value, self.pcs, self.facts = st, kind, value, pcs, facts
        self.rpcs = pcs


def reduce_pcs(nexts):
    """rpcs: the part of the path condition that tells the paths that complete the iteration apart"""
    def pos(r, depth, ids):
        return len(r.pcs) > depth and [p.get_id() for p in r.pcs[:depth]] == ids
    for r in nexts:
        out, ids = [], []
        for i, c in enumerate(r.pcs):
            if any(o is not r and pos(o, i, ids) and not o.pcs[i].eq(c) for o in nexts):
                out.append(c)
            ids.append(c.get_id())
        r.rpcs = out


def subst_val(v, pairs):
    if isinstance(v, V):
        return V(v.ty, subst(v.t, *pairs), None, {k: subst_val(x, pairs) for k, x in v.extra.items()} if v.extra else None, v.kind)
    if isinstance(v, Tup):
        return Tup([subst_val(i, pairs) for i in v.items])
    if isinstance(v, Seq):
        d = v.dom
        return Seq(Dom(d.x, subst(d.guard, *pairs), subst_val(d.elem, pairs), d.inj), v.sorted)
    if isinstance(v, Path):
        return Path(v.cid, [(k, subst(s, *pairs) if k == 'key' else s) for k, s in v.steps], v.ver, v.kind)
    if isinstance(v, Iter):
        return Iter(subst_val(v.v, pairs))
    return v


def subst_state(st, pairs):
    if not pairs:
        return
    for cid, c in list(st.heap.items()):
        if c.kind == 'alias':
            st.heap[cid] = c.but(t=subst_val(c.t, pairs))
        elif c.kind == 'list':
            st.heap[cid] = c.but(t=[subst_val(i, pairs) for i in c.t])
        elif c.kind == 'seq':
            st.heap[cid] = c.but(t=subst_val(c.t, pairs))
        elif c.ty is not None:
            t = subst(c.t, *pairs)
            if not t.eq(c.t):
                st.heap[cid] = c.but(t=t, gen=None)
    for oid, (cls, at) in st.objs.items():
        for n in list(at):
            at[n] = subst_val(at[n], pairs)
    for e in st.envs.values():
        for n in list(e):
            if not n.startswith('$'):
                e[n] = subst_val(e[n], pairs)
    st.pc = [subst(p, *pairs) for p in st.pc]
    st.facts = [subst(p, *pairs) for p in st.facts]
    st.derived = {}


def ite_leaves(t, cond=()):
    """[(conditions, value)] of an if-then-else tree"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = t.children()
        return ite_leaves(a, cond + (c,)) + ite_leaves(b, cond + (not_(c),))
    return [(cond, t)]


def mentions(t, consts):
    return any(occurs(c, t) for c in consts)


def merge_ite(pairs):
    """pairs [(cond, term)]"""
    t = pairs[-1][1]
    for c, u in reversed(pairs[:-1]):
        t = ite(c, u, t)
    return t


def iter_cell(en, st, it):
    """cell a live iteration runs over"""
    v = en.deref(st, it)
    while isinstance(v, (View, Iter)):
        v = en.deref(st, v.ref if isinstance(v, View) else v.v)
    if isinstance(v, (Ref, Path)):
        return v.cid
    return None


class Outcome:
    def __init__(self, st, sig, yields=None):
        self.st, self.sig, self.yields = st, sig, yields


def run_body(en, st, dom, body, x, prefix):
    """paths of one iteration from state st; returns PathRecs"""
    st2 = st.copy()
    outer_scope = st2.scope
    st2.scope = Scope(prefix)
    np0, nf0 = len(st2.pc), len(st2.facts)
    g, elem = dom.at(x)
    st2.pc.append(g)
    recs = []
    for s, (kind, val) in en.run_paths(st2, lambda s: body(s, elem)):
        recs.append(PathRec(s, kind, val, s.pc[np0 + 1:], s.facts[nf0:]))
    return recs


def values_same(en, a, b):
    if a is b:
        return True
    if isinstance(a, V) and isinstance(b, V):
        return a.ty == b.ty and a.t.eq(b.t)
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.cid == b.cid
    if isinstance(a, Lst) and isinstance(b, Lst):
        return a.cid == b.cid
    if isinstance(a, Obj) and isinstance(b, Obj):
        return a.oid == b.oid
    return False


def changes(en, st0, recs):
    """what the 'next' and 'break' paths change, relative to st0"""
    cells, names, attrs = {}, {}, {}
    for r in recs:
        if r.kind not in ('next', 'break'):
            continue
        for cid, c in st0.heap.items():
            c2 = r.st.heap.get(cid)
            if c2 is c:
                continue
            if c2.kind == c.kind and c.kind not in ('list', 'olist', 'seq') and c2.ty == c.ty and (c.ty is None or c2.t.eq(c.t)) and c2.owner == c.owner:
                continue
            cells.setdefault(cid, []).append(c2)
        for oid, (cls, at) in st0.objs.items():
            if oid not in r.st.objs:
                continue
            for n, v in r.st.objs[oid][1].items():
                if not n.startswith('$') and (n not in at or not values_same(en, at[n], v)):
                    attrs.setdefault((oid, n), []).append((r.st, v))
        for eid, env in st0.envs.items():
            if eid == 'ghost':
                continue
            for n, v in r.st.envs[eid].items():
                if n.startswith('$'):
                    continue
                if n not in env or not values_same(en, env[n], v):
                    names.setdefault((eid, n), []).append((r.st, v))
    return cells, names, attrs


def sweep(en, st, dom, body, want=False):
    """outcomes of running body for every element of dom (a Dom); the first outcome is normal completion"""
    ctx = en.ctx[-1]
    lid = st.scope.name('L')
    key = None
    if not en.nofork:
        key = (tuple(ctx.taken), lid, len(st.pc))
        hit = ctx.shared.get(key)
        if hit is not None:
            if not en.dry:
                en.obls += hit[1]
            return hit[0]
    mark = len(en.obls)
    outs = _sweep(en, st, dom, body, lid)
    if key is not None:
        ctx.shared[key] = (outs, en.obls[mark:])
    return outs


def _sweep(en, st, dom, body, lid):
    x = z3.Const(lid + '.x', dom.x.sort())
    g, elem = dom.at(x)
    # --- what changes, from the real initial state first, then from arbitrary accumulators
    accs, poisoned, lists = {}, set(), set()
    start = st.copy()
    en.dry += 1
    try:
        for _ in range(12):
            mark = len(en.obls)
            try:
                recs = run_body(en, start, dom, body, x, lid + '.')
            except PoisonUse as p:
                k = ('name', p.eid, p.name)
                if k in accs or (p.eid, p.name) not in poisoned or p.name not in st.envs[p.eid]:
                    raise
                types = carried_type(en, st, st.envs[p.eid][p.name], poison_types.get((lid, p.eid, p.name)))
                accs[k] = mk_acc(en, st, k, types, lid)
                start = rebuild_start(en, st, accs, poisoned - {(a[1], a[2]) for a in accs if a[0] == 'name'}, lists)
                continue
            cells, names, attrs = changes(en, start, recs)
            new = False
            for cid, cs in cells.items():
                c0 = st.heap[cid]
                if c0.kind in ('list', 'olist'):
                    if cid not in lists:
                        if c0.kind != 'list' or c0.t:
                            raise Unsupported('list changed in a loop')
                        lists.add(cid)
                        new = True
                    continue
                if any(c.kind == 'alias' for c in cs) or c0.kind in ('seq', 'alias'):
                    raise Unsupported('container moved inside a loop')
                ty = None if ('cell', cid) not in accs else accs[('cell', cid)].ty
                ty0 = ty
                ty = en.join_ty(ty, c0.ty)
                for c in cs:
                    ty = en.join_ty(ty, c.ty)
                if ty is None:
                    continue
                if ty0 != ty:
                    accs[('cell', cid)] = mk_acc(en, st, ('cell', cid), ty, lid)
                    new = True
            for (oid, n), vs in attrs.items():
                k = ('attr', oid, n)
                if n not in st.objs[oid][1]:
                    raise Unsupported('attribute created in a loop')
                ty = carried_type(en, st, st.objs[oid][1][n], vs)
                if k not in accs or accs[k].ty != ty:
                    accs[k] = mk_acc(en, st, k, ty, lid)
                    new = True
            for (eid, n), vs in names.items():
                k = ('name', eid, n)
                if k in accs:
                    ty = accs[k].ty
                    for s, v in vs:
                        ty = en.join_ty(ty, en.type_of(s, v))
                    if ty != accs[k].ty:
                        accs[k] = mk_acc(en, st, k, ty, lid)
                        new = True
                elif (eid, n) not in poisoned:
                    poisoned.add((eid, n))
                    poison_types[(lid, eid, n)] = vs
                    new = True
            if not new:
                break
            del en.obls[mark:]
            start = rebuild_start(en, st, accs, poisoned - {(a[1], a[2]) for a in accs if a[0] == 'name'}, lists)
        else:
            raise Unsupported('loop state does not stabilise')
    finally:
        en.dry -= 1
    poisoned -= {(a[1], a[2]) for a in accs if a[0] == 'name'}
    poisoned -= {(e, n) for (e, n) in poisoned if n not in ()} & set()
    it_cell = dom.cell if hasattr(dom, 'cell') else None
    if it_cell is not None and ('cell', it_cell) in accs and (dom.nested or not isinstance(accs[('cell', it_cell)].ty, DictT)):
        raise Unsupported('the container a loop runs over is changed by it')
    # --- one more run, now collecting the obligations of the body
    if not en.dry:
        mark = len(en.obls)
        recs = run_body(en, start, dom, body, x, lid + '.')
        body_obls = en.obls[mark:]
        del en.obls[mark:]
    else:
        body_obls = []
    nexts = [r for r in recs if r.kind == 'next']
    reduce_pcs(nexts)
    exits = [r for r in recs if r.kind != 'next']
    alist = list(accs.values())
    created = {}
    for r in recs:
        created.update(r.st.scope.created)
    D = z3.Const(lid + '.D', z3.ArraySort(x.sort(), z3.BoolSort()))
    G = lam(x, g)
    xs = x.sort()
    # created constants as functions of the element
    gen = {c.decl().name(): z3.Const(c.decl().name() + '[]', z3.ArraySort(xs, c.sort())) for c in created.values()}

    def at_x(t, xx):
        """created constants of the iteration of element xx"""
        pairs = [(c, z3.Select(gen[n], x)) for n, c in created.items()]
        t = subst(t, *pairs) if pairs else t
        return t if xx.eq(x) else subst(t, (x, xx))

    base_facts = list(start.facts)
    form = None
    if alist and nexts:
        if en.inv is not None and len(en.stack) == 1:
            form = invariant_form(en, st, start, alist, nexts, x, g, D, at_x, lid)
        if form is None:
            form = synth(en, st, start, alist, nexts, x, g, D, at_x, lid, base_facts, created)
    if alist and not nexts:
        # every element leaves the loop: at most the first is visited, the accumulators are untouched before
        form = Form(alist, {}, [], x, at_x, lid)

    if it_cell is not None and ('cell', it_cell) in accs and form is not None:
        # values may be changed while a dictionary is iterated, its keys not
        i = [a.key for a in alist].index(('cell', it_cell))
        if isinstance(form, InvForm) or (i, 0) in form.choice:
            raise Unsupported('the container a loop runs over is changed by it')

    def closed(d, dterm):
        if form is None:
            return [], []
        return form.at(d, dterm)

    # --- obligations of the body, at an arbitrary stage
    FD, factsD = closed(lambda y: sel(D, y), D)
    pairs = [(a.const, t) for a, t in zip(alist, FD)]
    stage = [T.subset(D, G), not_(sel(D, x))]
    if exits:
        # every element visited before completed its iteration
        ac = [a.const for a in alist]
        y = fresh('y', xs)
        done = or_(*[and_(*[p for p in r.pcs if not mentions(p, ac)], *[f for f in r.facts if not mentions(f, ac)]) for r in nexts])
        stage.append(forall(y, implies(sel(D, y), at_x(done, y))))
    canon0 = set(f.get_id() for f in start.facts) - set(f.get_id() for f in st.facts)
    n0 = len(st.facts)

    def transfer(hyps):
        out = []
        for h in hyps:
            if h.get_id() in canon0:
                continue
            out.append(subst(h, *pairs))
        return out
    for o in body_obls:
        en.obls.append(Obligation(o.fun, o.desc, transfer(o.hyps) + stage + factsD, subst(o.goal, *pairs), o.kind))
    outs = []
    # --- normal completion
    fin = st.copy()
    FG, factsG = closed(lambda y: subst(g, (x, y)), z3.Const(lid + '.G', G.sort()))
    for a, t in zip(alist, FG):
        ver = None
        if a.key[0] == 'cell':
            vs = [r.st.heap[a.key[1]].ver for r in recs]
            ver = max(vs) + (1 if max(vs) != st.heap[a.key[1]].ver else 0)
        a.install(en, fin, norm(t), ver)
    for f in factsG:
        fin.fact(f)
    for (eid, n) in poisoned:
        fin.envs[eid][n] = Poison()
    used = set()
    # what every element's iteration established
    Bf = z3.Const(lid + '.before', z3.ArraySort(xs, z3.ArraySort(xs, z3.BoolSort())))
    yld = None
    need = bool(exits)
    disj = []
    for r in nexts:
        fs = [f for f in r.facts if mentions(f, created.values())] if created else []
        fs = fs if not exits else [f for f in r.facts if mentions(f, created.values()) or mentions(f, [x])]
        disj.append(and_(*r.pcs, *fs))
        if fs:
            need = True
    FB = factsB = None

    def stage_before(t):
        """t (about x and the accumulators) for the stage at which x was visited"""
        nonlocal FB, factsB
        if alist and mentions(t, [a.const for a in alist]):
            if FB is None:
                FB, factsB = closed(lambda y: sel(sel(Bf, x), y), z3.Select(Bf, x))
            t = subst(t, *[(a.const, u) for a, u in zip(alist, FB)])
        return at_x(t, x)
    if need:
        body_fact = stage_before(or_(*disj)) if disj else FALSE
        f = forall(x, implies(g, body_fact))
        fin.fact(f)
    yields = []
    for r in nexts:
        if r.value is SKIP or r.value is None:
            continue
        yields.append((stage_before(and_(*r.rpcs)), subst_gen(r.value, stage_before), r))
    if FB is not None:
        y, z = fresh('y', xs), fresh('z', xs)
        fin.fact(forall([y, z], implies(sel(sel(Bf, y), z), subst(g, (x, z)))))
        fin.fact(forall(y, not_(sel(sel(Bf, y), y))))
        fin.fact(forall([y, z], implies(and_(subst(g, (x, y)), subst(g, (x, z))),
                                        or_(y == z, sel(sel(Bf, y), z), sel(sel(Bf, z), y)))))
        fin.fact(forall([y, z], implies(and_(subst(g, (x, y)), sel(sel(Bf, y), z)), not_(sel(sel(Bf, z), y)))))
        for f in factsB:
            fin.fact(forall(x, implies(g, f)))
        # of the elements that put y into an accumulator one is the first
        for ch in form.choice.values():
            if type(ch) is ChOr:
                y, z = fresh('y', xs), fresh('z', xs)
                py, pz = at_x(ch.psi, y), at_x(ch.psi, z)
                gy = subst(g, (x, y))
                fin.fact(forall(list(ch.zs), implies(exists(y, and_(gy, py)), exists(y, and_(
                    gy, py, forall(z, implies(sel(sel(Bf, y), z), not_(pz))))))))
    for cid in lists:
        merged = []
        for r in nexts:
            items = r.st.heap[cid].t
            if len(items) > 1:
                raise Unsupported('more than one append per iteration')
            if items:
                merged.append((stage_before(and_(*r.rpcs)), subst_gen(items[0], stage_before), r))
        fin.heap[cid] = Cell('seq', None, family(en, fin, x, g, merged, nexts, dom.inj), 'fresh')
    for n, c in created.items():
        fin.scope.created[gen[n].decl().name()] = gen[n]
    for c in (Bf,):
        fin.scope.created[c.decl().name()] = c
    if form is not None:
        form.register(fin.scope)
    fin.nid = max([fin.nid] + [r.st.nid for r in recs])
    if not exits or not infeasible(en, fin):
        outs.append(Outcome(fin, ('next', None), (x, g, yields, nexts)))
    # --- early exits
    for r in exits:
        s = r.st.copy()
        sc = st.scope.copy()
        for n, c in list(s.scope.created.items()) + [(x.decl().name(), x), (D.decl().name(), D)]:
            sc.created[n] = c
        if form is not None:
            form.register(sc)
        s.scope = sc
        s.facts = [f for f in s.facts if f.get_id() not in canon0]
        subst_state(s, pairs)
        s.facts += stage + factsD
        for (eid, n) in poisoned:
            if n in s.envs[eid] and isinstance(s.envs[eid][n], Poison):
                pass
        if infeasible(en, s):
            continue
        outs.append(Outcome(s, (r.kind, r.value if not isinstance(r.value, (V, Tup, Seq)) else subst_val(r.value, pairs))))
    return outs


poison_types = {}


def infeasible(en, st):
    return en.is_proved(st.hyps(), FALSE, 'quick')


def subst_gen(v, f):
    if isinstance(v, V):
        return V(v.ty, f(v.t), None, v.extra, v.kind)
    if isinstance(v, Tup):
        return Tup([subst_gen(i, f) for i in v.items])
    if isinstance(v, Seq):
        d = v.dom
        return Seq(Dom(d.x, f(d.guard), subst_gen(d.elem, f), d.inj), v.sorted)
    return v


def carried_type(en, st, v0, vs):
    v0 = en.deref(st, v0)
    if isinstance(v0, (Obj, Fun, Bound, Lst, Seq, View, Tup)):
        raise Unsupported('value carried across iterations: %r' % (v0,))
    ty = en.type_of(st, v0)
    for s, v in vs or []:
        ty = en.join_ty(ty, en.type_of(s, en.deref(s, v)))
    if ty is None:
        raise Unsupported('value of unknown type carried across iterations')
    return ty


def mk_acc(en, st, key, ty, lid):
    if key[0] == 'cell':
        c = st.heap[key[1]]
        init = zero_of(ty) if c.ty is None else en.coerce(c.t, c.ty, ty)
        a = Acc(key, ty, init)
    else:
        v = st.envs[key[1]][key[2]] if key[0] == 'name' else st.objs[key[1]][1][key[2]]
        v = en.deref(st, v)
        a = Acc(key, ty, en.term(st, v, ty))
        a.ref = not isinstance(v, V)
    a.const = z3.Const('%s.A%s' % (lid, '_'.join(str(k) for k in key)), ty.sort)
    return a


def rebuild_start(en, st, accs, poisoned, lists):
    s = st.copy()
    for a in accs.values():
        a.install(en, s, a.const)
        for f in T.canonical(a.ty, a.const):
            s.fact(f)
        if a.key[0] == 'cell' and s.heap[a.key[1]].owner == 'ghost':
            s.fact(T.subset(a.init, a.const))      # the provider never forgets a node it handed out
    for eid, n in poisoned:
        if n in s.envs[eid]:
            s.envs[eid][n] = Poison()
    for cid in lists:
        s.heap[cid] = s.heap[cid].but(kind='olist', t=())
    s.derived = {}
    return s


# ------------------------------------------------------------------------------------------- closed forms
class Form:
    def __init__(self, accs, choice, order, x, at_x, lid):
        self.accs, self.choice, self.x, self.at_x, self.lid = accs, choice, x, at_x, lid

    def register(self, scope):
        pass

    def at(self, d, dterm):
        """(terms of the accumulators, facts) when the visited elements are those with d"""
        terms, facts = [], []
        x = self.x
        for ai, a in enumerate(self.accs):
            ls = leaves(a.ty)
            pos = {id(l): i for i, l in enumerate(ls)}

            def eff(l, ys):
                i0 = l.eff(a.init, ys)
                ch = self.choice.get((ai, pos[id(l)]))
                if ch is None:
                    return i0
                return ch.at(self, l, a, ys, i0, d, dterm)
            t = build(a.ty, iter(ls), eff)
            terms.append(t)
            for i, l in enumerate(ls):
                ch = self.choice.get((ai, i))
                if ch is not None:
                    facts += ch.facts(self, l, a, d, dterm)
        return terms, facts


def inst(t, zs, ys):
    return subst(t, *zip(zs, ys))


class ChOr:
    rank = 0

    def __init__(self, zs, psi):
        self.zs, self.psi = zs, psi

    def at(self, fm, l, a, ys, i0, d, dterm):
        x = fresh('x', fm.x.sort())
        p = inst(fm.at_x(self.psi, x), self.zs, ys)
        return or_(i0, exists(x, and_(d(x), p)))

    def facts(self, fm, l, a, d, dterm):
        return []

    def step(self, e0, e1, x, st=None):
        return eq_term(e1, or_(e0, self.psi))


class ChAndNot(ChOr):
    def at(self, fm, l, a, ys, i0, d, dterm):
        x = fresh('x', fm.x.sort())
        p = inst(fm.at_x(self.psi, x), self.zs, ys)
        return and_(i0, not_(exists(x, and_(d(x), p))))

    def step(self, e0, e1, x, st=None):
        return eq_term(e1, and_(e0, not_(self.psi)))


class ChSum(ChOr):
    def at(self, fm, l, a, ys, i0, d, dterm):
        x = fresh('x', fm.x.sort())
        p = inst(fm.at_x(self.psi, x), self.zs, ys)
        s = T.sum_x(x, ite(d(x), p, T._zero(p.sort())))
        return s if T.is_num(i0, 0) else (i0 if T.is_num(s, 0) else i0 + s)

    def step(self, e0, e1, x, st=None):
        return eq_term(e1, e0 + self.psi)


class ChClear(ChOr):
    """number whose key is removed from the domain by the elements with psi"""
    def at(self, fm, l, a, ys, i0, d, dterm):
        x = fresh('x', fm.x.sort())
        p = inst(fm.at_x(self.psi, x), self.zs, ys)
        return ite(exists(x, and_(d(x), p)), T._zero(i0.sort()), i0)

    def step(self, e0, e1, x, st=None):
        return eq_term(e1, ite(self.psi, T._zero(e0.sort()), e0))


class ChKeep(ChOr):
    """value unchanged as long as its key stays in the domain"""
    def at(self, fm, l, a, ys, i0, d, dterm):
        return l.get(a.init, ys)


class ChMap(ChOr):
    """each element rewrites the part under its own key: psi is the new content"""
    def at(self, fm, l, a, ys, i0, d, dterm):
        p = inst(fm.at_x(self.psi, ys[0]), self.zs, ys)
        return ite(d(ys[0]), p, i0)

    def step(self, e0, e1, x, st=None):
        return eq_term(e1, ite(self.zs[0] == x, self.psi, e0))


class ChPoint:
    """at most one element writes y: h(y)"""
    def __init__(self, zs, psi, w, h, rest):
        self.zs, self.psi, self.w, self.h, self.rest = zs, psi, w, h, rest

    def at(self, fm, l, a, ys, i0, d, dterm):
        h = inst(self.h, self.zs, ys)
        c = inst(fm.at_x(self.rest, h), self.zs, ys)
        w = inst(fm.at_x(self.w, h), self.zs, ys)
        return ite(and_(d(h), c), w, i0)

    def facts(self, fm, l, a, d, dterm):
        return []


class ChVal:
    """uninterpreted function of the visited set, described by facts; mode agree | some"""
    def __init__(self, zs, psi, w, mode, lid, n, ty):
        self.zs, self.psi, self.w, self.mode = zs, psi, w, mode
        self.name = '%s.val%s' % (lid, n)
        self.ty = ty

    def fun(self, dsort):
        return z3.Function(self.name, dsort, *[z.sort() for z in self.zs], self.ty.sort)

    def at(self, fm, l, a, ys, i0, d, dterm):
        return self.fun(dterm.sort())(dterm, *ys)

    def facts(self, fm, l, a, d, dterm):
        f = self.fun(dterm.sort())
        zs = self.zs
        x = fm.x
        return self.describe(fm, l, a, d, f(dterm, *zs))

    def describe(self, fm, l, a, d, v):
        """facts about the value v at self.zs"""
        zs, x = list(self.zs), fresh('x', fm.x.sort())
        psi, w = fm.at_x(self.psi, x), fm.at_x(self.w, x)
        i0 = l.get(a.init, zs)
        g0 = l.guard(a.init, zs)
        wr = exists(x, and_(d(x), psi, eq_term(v, w)))
        out = []
        if self.mode == 'agree':
            out.append(forall(zs + [x], implies(and_(d(x), psi), eq_term(v, w))))
            out.append(forall(zs, implies(g0, eq_term(v, i0))))
        elif self.mode == 'some':          # later writes may win
            out.append(forall(zs, implies(exists(x, and_(d(x), psi)), wr)))
            out.append(forall(zs, implies(and_(g0, not_(exists(x, and_(d(x), psi)))), eq_term(v, i0))))
        elif self.mode == 'any':
            out.append(forall(zs, implies(or_(g0, exists(x, and_(d(x), psi))), or_(and_(g0, eq_term(v, i0)), wr))))
        return out


class Loop:
    """what a stated invariant may speak about: the loop's elements and its accumulators"""
    def __init__(self, en, st, accs, terms, x, g, d):
        self.en, self.st, self.accs, self.terms, self.x, self.g, self.d = en, st, accs, terms, x, g, d

    def cid(self, v):
        v = self.en.deref(self.st, v)
        return v.cid if isinstance(v, Ref) else None

    def init(self, v, ty):
        for a in self.accs:
            if a.key == ('cell', self.cid(v)):
                return self.en.coerce(a.init, a.ty, ty)
        k, t0, t = self.en.content(self.st, v)
        return self.en.empty_of(ty) if t0 is None else self.en.coerce(t, t0, ty)

    def now(self, v, ty):
        for a, t in zip(self.accs, self.terms):
            if a.key == ('cell', self.cid(v)):
                return self.en.coerce(t, a.ty, ty)
        return self.init(v, ty)

    def others(self, ty, known):
        """content now of the accumulators of type ty that are not among the known containers"""
        ids = [('cell', self.cid(v)) for v in known]
        return [(a.init, t) for a, t in zip(self.accs, self.terms) if a.key not in ids and a.ty == ty]

    def keys(self):
        return {a.key for a in self.accs}


class InvForm(Form):
    def __init__(self, en, st, accs, x, g, at_x, lid):
        Form.__init__(self, accs, {}, [], x, at_x, lid)
        self.en, self.st, self.g = en, st, g

    def formula(self, terms, d):
        r = self.en.inv(Loop(self.en, self.st, self.accs, terms, self.x, self.g, d))
        return None if r is None else [norm(f) for f in (r if isinstance(r, (list, tuple)) else [r])]

    def at(self, d, dterm):
        terms, facts = [], []
        for i, a in enumerate(self.accs):
            t = z3.Function('%s.inv%d' % (self.lid, i), dterm.sort(), a.ty.sort)(dterm)
            terms.append(t)
            facts += T.canonical(a.ty, t)
        return terms, facts + self.formula(terms, d)


def invariant_form(en, st, start, accs, nexts, x, g, D, at_x, lid):
    """the stated invariant: holds before the first iteration, and every iteration keeps it"""
    fm = InvForm(en, st, accs, x, g, at_x, lid)
    first = fm.formula([a.init for a in accs], lambda y: FALSE)
    if first is None:
        return None
    if en.dry:
        return fm
    for f in first:
        if not z3.is_true(f):
            en.obls.append(Obligation(en.cur, 'loop invariant holds at the start', st.hyps(), f, 'loop'))
    FD, factsD = fm.at(lambda y: sel(D, y), D)
    pairs = [(a.const, t) for a, t in zip(accs, FD)]
    for r in nexts:
        hy = [subst(h, *pairs) for h in start.facts + start.pc + [g] + r.pcs + r.facts]
        hy += factsD + [not_(sel(D, x)), T.subset(D, lam(x, g))]
        after = [subst(norm(a.read(en, r.st)), *pairs) for a in accs]
        for f in fm.formula(after, lambda y: or_(sel(D, y), y == x)):
            if not z3.is_true(f):
                en.obls.append(Obligation(en.cur, 'loop invariant is kept', hy, f, 'loop'))
    return fm


def synth(en, st, start, accs, nexts, x, g, D, at_x, lid, base_facts, created):
    """closed form of the accumulators, proved inductive"""
    consts = [a.const for a in accs]
    after = []
    pcs = [and_(*r.pcs) for r in nexts]
    for a in accs:
        after.append(norm(merge_ite([(and_(*r.rpcs), a.read(en, r.st)) for r in nexts])))
    hyp = list(start.facts) + list(start.pc) + [g, or_(*[and_(pc, *r.facts) for pc, r in zip(pcs, nexts)])]
    empties = [(a.const, zero_of(a.ty)) for a in accs]
    fulls = [(a.const, full_of(a.ty)) for a in accs]
    inits = [(a.const, a.init) for a in accs]
    cands = {}
    proved = {}

    def check(goal, hyps=hyp, plan='mid'):
        goal = norm(goal)
        if z3.is_true(goal):
            return True
        r = en.is_proved(hyps, goal, plan)
        return r

    for ai, a in enumerate(accs):
        for li, l in enumerate(leaves(a.ty)):
            zs = [fresh('z', t) for t in l.idx]
            e0, e1 = norm(l.eff(a.const, zs)), norm(l.eff(after[ai], zs))
            key = (ai, li)
            lst = []
            if l.kind == 'bool':
                if e1.eq(e0):
                    continue
                for cls, env in ((ChOr, empties), (ChAndNot, fulls), (ChOr, inits)):
                    p = norm(subst(e1 if cls is ChOr else not_(e1), *env))
                    if not mentions(p, consts):
                        lst.append(cls(zs, p))
            elif l.kind == 'num':
                if e1.eq(e0):
                    continue
                for env in (empties, fulls, [(b.const, zero_of(b.ty) if b is a else b.init) for b in accs]):
                    p = norm(subst(e1, *env))
                    if not mentions(p, consts) and not any(c.psi.eq(subst(p, *zip(zs, c.zs))) for c in lst):
                        lst.append(ChSum(zs, p))
                for c in cands.get((ai, li - 1), []):
                    if isinstance(c, ChAndNot) and len(c.zs) == len(zs) and all(p.sort() == q.sort() for p, q in zip(c.zs, zs)):
                        lst.insert(0, ChClear(zs, inst(c.psi, c.zs, zs)))
            else:
                r0, r1 = norm(l.get(a.const, zs)), norm(l.get(after[ai], zs))
                if r0.eq(r1):
                    continue
                lst = val_cands(zs, r0, r1, consts, empties, inits, x, lid, '%d_%d' % key, l,
                                lambda c, t: en.is_proved(hyp + [c], eq_term(t, r0), 'quick'))
                if not lst:
                    lst = [ChKeep(zs, FALSE)]
            if zs and zs[0].sort() == x.sort() and not a.init.eq(zero_of(a.ty)) and en.is_proved(hyp + [zs[0] != x], eq_term(e1, e0), 'quick'):
                p = norm(subst(norm(subst(e1, (zs[0], x))), *inits))
                if not mentions(p, consts):
                    lst = [ChMap(zs, p)]
            ok = False
            for c in lst:
                if isinstance(c, ChKeep):
                    if check(forall(zs, implies(l.guard(after[ai], zs), and_(l.guard(a.const, zs), eq_term(r0, r1))))):
                        cands[key] = [c]
                        proved[key] = c
                        ok = True
                        break
                    raise Unsupported('no closed form for a value written in a loop')
                if isinstance(c, ChOr) and check(forall(zs, c.step(e0, e1, x))):
                    cands[key] = [c]
                    proved[key] = c
                    ok = True
                    break
            if not ok:
                cands[key] = lst
    unproved = [k for k in cands if k not in proved]
    log = []
    if not unproved:
        fm = Form(accs, {k: v[0] for k, v in cands.items()}, None, x, at_x, lid)
        record(en, accs, fm, after, hyp, x, proved)
        return fm
    n = 1
    for k in unproved:
        n *= len(cands[k])
    if n == 0 or n > 24:
        for k in unproved:
            debug('candidates', key_str(accs[k[0]], k[1]), [(type(c).__name__, c.psi) for c in cands[k]], after[k[0]])
        raise Unsupported('no closed form for the loop state')
    for combo in itertools.product(*[cands[k] for k in unproved]):
        ch = {k: v[0] for k, v in cands.items()}
        ch.update(dict(zip(unproved, combo)))
        fm = Form(accs, ch, None, x, at_x, lid)
        FD, factsD = fm.at(lambda y: sel(D, y), D)
        pairs = [(a.const, norm(t)) for a, t in zip(accs, FD)]
        hyps = [subst(h, *pairs) for h in hyp] + factsD + [not_(sel(D, x)), T.subset(D, lam(x, g))]
        good = True
        goals = []
        for (ai, li) in unproved:
            a = accs[ai]
            l = leaves(a.ty)[li]
            c = ch[(ai, li)]
            goal = step_goal(fm, c, a, l, after[ai], pairs, D, x, proved)
            if not check(goal, hyps):
                good = False
                debug('not inductive', key_str(a, li), type(c).__name__, getattr(c, 'psi', None), 'W', getattr(c, 'w', None))
                if 'PYV_DEBUG' in os.environ:
                    for gg in T.conjuncts(norm(goal)):
                        rr = check(gg, hyps)
                        debug('part', rr, gg)
                break
            goals.append((hyps, goal))
        if good:
            record(en, accs, fm, after, hyp, x, proved)
            for h, gl in goals:
                if not en.dry:
                    en.obls.append(Obligation(en.cur, 'loop summary is inductive', h, gl, 'loop'))
            return fm
    raise Unsupported('no inductive closed form for the loop state')


def debug(*a):
    if 'PYV_DEBUG' in os.environ:
        print('   debug', *[str(x)[:1500] for x in a])


def key_str(a, li):
    return '%s leaf %d of %s' % (a.key, li, a.ty)


def record(en, accs, fm, after, hyp, x, proved):
    if en.dry:
        return
    for (ai, li), c in proved.items():
        a = accs[ai]
        l = leaves(a.ty)[li]
        if isinstance(c, ChKeep):
            goal = forall(c.zs, implies(l.guard(after[ai], c.zs), and_(l.guard(a.const, c.zs),
                                        eq_term(l.get(a.const, c.zs), l.get(after[ai], c.zs)))))
        else:
            goal = forall(c.zs, c.step(norm(l.eff(a.const, c.zs)), norm(l.eff(after[ai], c.zs)), x))
        if not z3.is_true(norm(goal)):
            en.obls.append(Obligation(en.cur, 'loop summary is inductive', hyp, goal, 'loop'))


def step_goal(fm, c, a, l, after, pairs, D, x, proved):
    """value of the leaf after the body at stage D equals the form at D + x"""
    ys = list(c.zs)
    aft = subst(after, *pairs)
    e1 = norm(l.eff(aft, ys))
    # the current element's created constants are the ones its own iteration made
    d2 = lambda y: or_(sel(D, y), eq_term(y, x))
    if isinstance(c, ChVal):
        v = norm(l.get(aft, ys))
        # for the element x itself psi and w are those of this iteration
        out = []
        zs = list(c.zs)
        i0, g0 = l.get(a.init, zs), l.guard(a.init, zs)
        x2 = fresh('x2', x.sort())
        psi2, w2 = fm.at_x(c.psi, x2), fm.at_x(c.w, x2)
        psi, w = c.psi, c.w
        old = exists(x2, and_(sel(D, x2), psi2))
        oldw = exists(x2, and_(sel(D, x2), psi2, eq_term(v, w2)))
        if c.mode == 'agree':
            out.append(forall(zs, implies(psi, eq_term(v, w))))
            out.append(forall(zs + [x2], implies(and_(sel(D, x2), psi2), eq_term(v, w2))))
            out.append(forall(zs, implies(g0, eq_term(v, i0))))
        elif c.mode == 'some':
            out.append(forall(zs, implies(or_(old, psi), or_(oldw, and_(psi, eq_term(v, w))))))
            out.append(forall(zs, implies(and_(g0, not_(old), not_(psi)), eq_term(v, i0))))
        else:
            out.append(forall(zs, implies(or_(g0, old, psi), or_(and_(g0, eq_term(v, i0)), oldw, and_(psi, eq_term(v, w))))))
        return and_(*out)
    if isinstance(c, ChPoint):
        i0 = l.get(a.init, ys)
        h = c.h
        v = norm(l.get(aft, ys))
        cc, w = fm.at_x(c.rest, h), fm.at_x(c.w, h)
        # created constants of x's own iteration
        own = and_(eq_term(h, x), c.rest)
        want = ite(own, c.w, ite(and_(sel(D, h), cc), w, i0))
        return forall(ys, implies(l.guard(aft, ys), eq_term(v, want)))
    e0 = l.eff(a.init, ys)
    x2 = fresh('x2', x.sort())
    p2 = fm.at_x(c.psi, x2)
    if isinstance(c, ChSum):
        prev = l.eff(dict((p[0].get_id(), p[1]) for p in pairs)[a.const.get_id()], ys)
        return forall(ys, eq_term(e1, prev + c.psi))
    prev = l.eff(dict((p[0].get_id(), p[1]) for p in pairs)[a.const.get_id()], ys)
    return forall(ys, c.step(norm(prev), e1, x))


def val_cands(zs, r0, r1, consts, empties, inits, x, lid, n, l, same):
    parts = ite_leaves(r1)
    psi, ws = [], []
    for cond, t in parts:
        if t.eq(r0):
            continue
        c = and_(*cond)
        ce = norm(subst(c, *empties)) if mentions(c, consts) else c
        if mentions(t, consts):
            if same(c, t):
                continue
            t = norm(subst(t, *empties))
        if is_default(t) and not z3.is_false(ce):
            # the value outside the domain
            if z3.is_false(norm(ce)):
                continue
            continue
        psi.append(ce)
        ws.append((ce, t))
    if not ws:
        return []
    w = merge_ite(ws)
    p = or_(*psi)
    if z3.is_false(p):
        return []
    out = []
    conj = T.conjuncts(p)
    op = T._onepoint(conj, [x])
    if op is not None:
        _, h, rest = op
        out.append(ChPoint(zs, p, w, h, and_(*rest)))
    for mode in ('agree', 'some', 'any'):
        out.append(ChVal(zs, p, w, mode, lid, n + mode, l.ty))
    return out


def is_default(t):
    return z3.is_const(t) and t.decl().name().startswith('dflt<')


# ------------------------------------------------------------------------------------------- families
def family(en, st, x, g, merged, nexts, src_inj):
    """Seq of the values yielded per element"""
    if not merged:
        return None
    pairs = [(c, v) for c, v, _ in merged]
    elem = merge_vals(en, st, pairs)
    if elem is None:
        raise Unsupported('elements of mixed kinds')
    total = len(merged) == len(nexts)
    guard = g if total else and_(g, or_(*[c for c, _ in pairs]))
    d = Dom(x, norm(guard), elem, False)
    d.inj = injective(en, st, d) if src_inj else False
    return Seq(d)


def merge_vals(en, st, pairs):
    v = pairs[-1][1]
    for c, u in reversed(pairs[:-1]):
        v = merge_v(en, st, c, u, v)
        if v is None:
            return None
    return v


def merge_v(en, st, c, a, b):
    if isinstance(a, V) and isinstance(b, V):
        try:
            ty = en.join_ty(a.ty, b.ty)
            return V(ty, ite(c, en.coerce(a.t, a.ty, ty), en.coerce(b.t, b.ty, ty)))
        except Unsupported:
            return None
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        it = [merge_v(en, st, c, p, q) for p, q in zip(a.items, b.items)]
        return None if any(i is None for i in it) else Tup(it)
    return None


def elem_terms(v):
    if isinstance(v, V):
        return [v.t]
    if isinstance(v, Tup):
        return [t for i in v.items for t in elem_terms(i)]
    return []


def injective(en, st, d):
    """is the element determined by the index, provably"""
    ts = elem_terms(d.elem)
    if any(t.eq(d.x) for t in ts):
        return True
    if not ts or not any(occurs(d.x, t) for t in ts):
        return False
    # pair index whose components occur
    if isinstance(d.x.sort(), z3.DatatypeSortRef) and d.x.sort().num_constructors() == 1:
        s = d.x.sort()
        acc = [s.accessor(0, i)(d.x) for i in range(s.constructor(0).arity())]
        if all(any(t.eq(a) for t in ts) for a in acc):
            return True
    y = fresh('y', d.x.sort())
    goal = forall([d.x, y], implies(and_(d.guard, subst(d.guard, (d.x, y)), *[eq_term(t, subst(t, (d.x, y))) for t in ts]),
                                    eq_term(d.x, y)))
    return en.is_proved(st.hyps(), goal, 'quick')


def pair_dom(en, d1, inner):
    """family over pairs: inner(x1) is a Dom depending on d1.x"""
    s1, s2 = d1.x.sort(), inner.x.sort()
    nm = 'Pair<%s,%s>' % (T._short(s1), T._short(s2))
    ps = T.datatype(nm, [('mk' + nm, [('fst', Ty('s', s1)), ('snd', Ty('s', s2))])])
    p = fresh('p', ps)
    a, b = ps.accessor(0, 0)(p), ps.accessor(0, 1)(p)
    sub = ((d1.x, a), (inner.x, b))
    gd = and_(subst(d1.guard, *sub), subst(inner.guard, *sub))
    return Dom(p, gd, subst_val(inner.elem, sub), False)


# ------------------------------------------------------------------------------------------- entry points
def take(en, st, outs):
    """continue with one of the outcomes"""
    if not outs:
        raise Infeasible()
    k = en.choose(len(outs)) if len(outs) > 1 else 0
    o = outs[k]
    ghost = st.envs.get('ghost')
    st.become(o.st)
    return o


def signal(o):
    kind, v = o.sig
    if kind == 'raise':
        raise PyExc(v)
    if kind == 'return':
        raise ReturnSig(v)


def dom_of(en, st, it):
    d = en.to_dom(st, it)
    if isinstance(d, list):
        return d
    cid = iter_cell(en, st, it)
    d2 = Dom(d.x, d.guard, d.elem, d.inj)
    d2.cell = cid
    v = en.deref(st, it)
    while isinstance(v, (View, Iter)):
        v = en.deref(st, v.ref if isinstance(v, View) else v.v)
    d2.nested = isinstance(v, Path)
    return d2


def for_loop(en, st, eid, node, it, body):
    d = dom_of(en, st, it)
    if isinstance(d, list):
        for e in d:
            try:
                body(st, e)
            except ContinueSig:
                continue
            except BreakSig:
                st.envs[eid]['$broke'] = True
                return
        return

    def run(s, e):
        body(s, e)
    outs = sweep(en, st, d, run)
    o = take(en, st, outs)
    signal(o)
    if o.sig[0] == 'break':
        st.envs[eid]['$broke'] = True
    name_cells(en, st)


def name_cells(en, st):
    """containers that hold what the contract has a name for"""
    for ty, t, G in st.envs['ghost'].get('cells', ()):
        for cid, c in list(st.heap.items()):
            if c.ty == ty and c.owner != 'ghost' and not c.t.eq(G) and mentions_loop(c.t):
                goal = []
                for l in leaves(ty):
                    zs = [fresh('z', i) for i in l.idx]
                    goal.append(forall(zs, eq_term(norm(l.eff(c.t, zs)), norm(l.eff(t, zs)))))
                goal = norm(and_(*goal))
                if en.is_proved(st.hyps(), goal, 'mid'):
                    if not en.dry:
                        en.obls.append(Obligation(en.cur, 'content of a local container', st.hyps(), goal, 'loop'))
                    st.heap[cid] = c.but(t=G)


def mentions_loop(t):
    return not (z3.is_const(t) and not is_lambda(t))


def while_loop(en, st, eid, s):
    raise Unsupported('while loop at line %d' % s.lineno)


def comprehension(en, st, eid, e, kind):
    """result value of a comprehension"""
    if kind == 'dict':
        elt = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
    else:
        elt = e.elt
    sub = st.new_env({}, eid, st.envs[eid]['$fun'])
    res = gens(en, st, sub, e.generators, 0, lambda s: en.eval(s, sub, elt))
    if isinstance(res, list):
        if kind == 'list':
            return st.new_list(res)
        if kind == 'set':
            r = st.new_cell('set')
            for v in res:
                en.builtins.method(en, st, r, 'add', [v], {})
            return r
        r = st.new_cell('dict')
        for v in res:
            k, w = en.unpack(st, v, 2)
            en.setitem(st, r, k, w)
        return r
    if res is None:
        return {'list': lambda: st.new_list([]), 'set': lambda: st.new_cell('set'), 'dict': lambda: st.new_cell('dict')}[kind]()
    if kind == 'list':
        return res
    if kind == 'set':
        sv = en.to_set(st, res)
        return st.new_cell('set', sv.ty, sv.t, gen=res.dom if res.dom.inj else None)
    return dict_of(en, st, res)


def gens(en, st, sub, generators, i, leaf):
    """Seq, list or None (empty) of the values of leaf over the generators from i on"""
    gen = generators[i]
    if gen.is_async:
        raise Unsupported('async comprehension')
    it = en.eval(st, sub, gen.iter)
    d = dom_of(en, st, it)

    def body(s, elem):
        en.assign(s, sub, gen.target, elem)
        for c in gen.ifs:
            t = norm(en.cond(s, sub, c))
            if z3.is_true(t):
                continue
            if z3.is_false(t):
                return SKIP
            if any(p.eq(t) for p in s.pc):
                continue
            if en.choose(2) == 1:
                s.pc.append(not_(t))
                return SKIP
            s.pc.append(t)
        if i + 1 < len(generators):
            return gens(en, s, sub, generators, i + 1, leaf)
        return immut(en, s, leaf(s))
    if isinstance(d, list):
        out = []
        for e in d:
            v = body(st, e)
            if v is SKIP or v is None:
                continue
            if i + 1 < len(generators):
                if not isinstance(v, list):
                    raise Unsupported('nested comprehension')
                out += v
            else:
                out.append(v)
        return out
    outs = sweep(en, st, d, body)
    o = take(en, st, outs)
    signal(o)
    x, g, yields, nexts = o.yields
    if not yields:
        return None
    if i + 1 < len(generators):
        parts = []
        for c, v, r in yields:
            if isinstance(v, list):
                raise Unsupported('nested comprehension')
            parts.append((c, v))
        if len(parts) != 1:
            raise Unsupported('nested comprehension with several cases')
        c, v = parts[0]
        gd = g if len(nexts) == 1 else and_(g, c)
        inner = v.dom
        xi = fresh('xi', inner.x.sort())
        inner = Dom(xi, subst(inner.guard, (inner.x, xi)), subst_val(inner.elem, [(inner.x, xi)]), inner.inj)
        pd = pair_dom(en, Dom(x, gd, None, d.inj), inner)
        pd.inj = injective(en, st, pd) if d.inj and inner.inj else False
        return Seq(pd)
    return family(en, st, x, g, yields, nexts, d.inj)


def immut(en, st, v):
    """snapshot of a value for use as an element"""
    v = en.deref(st, v)
    if isinstance(v, (Ref, Path)):
        k, ty, t = en.content(st, v)
        if ty is None:
            raise Unsupported('container of unknown type as an element')
        return V(ty, t)
    if isinstance(v, Tup):
        return Tup([immut(en, st, i) for i in v.items])
    return v


def dict_of(en, st, seq):
    """dict from a family of pairs (key, value)"""
    d = seq.dom
    k, w = en.unpack(st, d.elem, 2)
    kt, wt = en.type_of(st, k), en.type_of(st, w)
    if kt is None or wt is None:
        raise Unsupported('dictionary with untyped items')
    ty = DictT(kt, wt)
    kterm, wterm = en.term(st, k), en.term(st, w)
    y = fresh('y', kt)
    psi = and_(d.guard, eq_term(y, kterm))
    dom = lam(y, exists(d.x, psi))
    op = T._onepoint(T.conjuncts(norm(psi)), [d.x])
    if op is not None:
        _, h, rest = op
        c = subst(and_(*rest), (d.x, h))
        return st.new_cell('dict', ty, ty.mk(dom, lam(y, ite(c, subst(wterm, (d.x, h)), default(wt)))))
    x2 = fresh('x2', d.x.sort())
    # several elements may give the same key
    val = st.scope.fresh('dictval', z3.ArraySort(kt.sort, wt.sort))
    fun = forall([d.x, x2], implies(and_(d.guard, subst(d.guard, (d.x, x2)), eq_term(kterm, subst(kterm, (d.x, x2)))),
                                    eq_term(wterm, subst(wterm, (d.x, x2)))))
    if en.is_proved(st.hyps(), fun, 'mid'):
        st.fact(forall(d.x, implies(d.guard, eq_term(sel(val, kterm), wterm))))
    else:
        st.fact(forall(y, implies(sel(dom, y), exists(d.x, and_(psi, eq_term(sel(val, y), wterm))))))
    st.fact(forall(y, implies(not_(sel(dom, y)), sel(val, y) == default(wt))))
    return st.new_cell('dict', ty, ty.mk(dom, val))


def map_filter(en, st, name, f, it):
    d = dom_of(en, st, it)

    def one(s, e):
        r = en.call(s, f, [e], {})
        if name == 'map':
            return immut(en, s, r)
        t = norm(en.truth(s, r))
        if z3.is_true(t):
            return immut(en, s, e)
        if z3.is_false(t):
            return SKIP
        if en.choose(2) == 1:
            s.pc.append(not_(t))
            return SKIP
        s.pc.append(t)
        return immut(en, s, e)
    if isinstance(d, list):
        out = [one(st, e) for e in d]
        return st.new_list([v for v in out if v is not SKIP])
    o = take(en, st, sweep(en, st, d, one))
    signal(o)
    x, g, yields, nexts = o.yields
    if not yields:
        return st.new_list([])
    return family(en, st, x, g, yields, nexts, d.inj)
