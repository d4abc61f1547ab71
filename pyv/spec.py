"""Contracts and their verification.

A contract is a Python function that receives a SpecCtx and the symbolic arguments and states
   c.requires(t)          precondition
   c.raises(t)            raises AssertionError exactly when t (otherwise returns)
   c.returns(ty, t)       the result equals t
   c.ensures(ty, f)       f(result) holds
   c.sets(ref, ty, t)     the container's content afterwards
   c.result_obj(cls, **ctor)   the result is a fresh object equal to cls(**ctor) attribute by attribute
   c.becomes(obj, **ctor) afterwards obj has the attributes cls(**ctor) would have
Everything not mentioned must be unchanged, results must not share containers with the receiver, the arguments
or anything reachable from them.  The same contract is what callers use in place of the body.
"""
import ast
import textwrap
import z3
from .terms import *
from . import terms as T
from .engine import *
from . import loops


class Maker:
    def __init__(self, f, key=''):
        self.f, self.key = f, key

    def __call__(self, en, st, name):
        return self.f(en, st, name)


def val(ty):
    def f(en, st, name):
        t = st.scope.fresh(name, ty)
        for x in T.canonical(ty, t):
            st.fact(x)
        return V(ty, t)
    m = Maker(f, 'val')
    m.ty = ty
    return m


def mut(ty):
    def f(en, st, name):
        t = st.scope.fresh(name, ty)
        for x in T.canonical(ty, t):
            st.fact(x)
        return st.new_cell('dict' if isinstance(ty, DictT) else 'set', ty, t, owner='pre')
    m = Maker(f, 'mut')
    m.ty = ty
    return m


def defmut(ty):
    """defaultdict of sets"""
    def f(en, st, name):
        r = mut(ty)(en, st, name)
        st.heap[r.cid] = st.heap[r.cid].but(factory='set')
        return r
    m = Maker(f, 'mut')
    m.ty = ty
    return m


def none():
    return Maker(lambda en, st, name: NoneV, 'none')


def const(v):
    return Maker(lambda en, st, name: v, 'const')


def pred(argty, retty=BOOL):
    def f(en, st, name):
        return PFun(argty, retty, st.scope.fresh(name, z3.ArraySort(argty.sort, retty.sort)))
    return Maker(f, 'pred')


def obj(cls, attrs=None, **ctor):
    """object made by the real constructor from symbolic constructor arguments; attrs: attributes that later operations
    may have changed, with arbitrary content of the given type"""
    def f(en, st, name):
        given = {k: m(en, st, name + '.' + k) for k, m in ctor.items()}
        o = construct_raw(en, st, cls, given)
        for k, m in (attrs or {}).items():
            if k not in st.objs[o.oid][1]:
                raise Unsupported('%s has no attribute %s' % (cls, k))
            st.objs[o.oid][1][k] = m(en, st, name + '.' + k)
        st.envs['ghost']['abs'] = dict(st.envs['ghost'].get('abs', {}))
        st.envs['ghost']['abs'][o.oid] = {k: snapshot(en, st, v) for k, v in given.items()}
        return o
    m = Maker(f, 'obj')
    m.cls = cls
    return m


def snapshot(en, st, v):
    v = en.deref(st, v)
    if isinstance(v, (Ref, Path)):
        k, ty, t = en.content(st, v)
        return V(ty, t)
    return v


def construct_raw(en, st, cls, given):
    c, f = en.p.find(cls, '__init__')
    if f is None:
        raise Unsupported('%s has no constructor' % cls)
    fun = Fun(f, None, c, en.p.classes[c].mod, c + '.__init__')
    o = st.new_obj(cls, {})
    en.dry += 1
    try:
        en.invoke(st, fun, [o], dict(given))
    except PyExc:
        raise Infeasible()
    finally:
        en.dry -= 1
    return o


class SpecCtx:
    def __init__(self, en, st, mode):
        self.en, self.st, self.mode = en, st, mode
        self.req, self.raise_ts, self.ret, self.ens = [], [], None, []
        self.set_list, self.become, self.fresh_names = [], [], 0
        self.robj = None
        self.alias = None
        self.may_raise = None
        self.known_after = None
        self.refuse_frame = True
        self.dep = None
        self.same = []
        self.after_list = []
        self.changed = []
        self.inv = None
        self.every = []
        self.open_objs = []
        self.lemmas = []

    # --- vocabulary
    def t(self, v, ty=None):
        return self.en.term(self.st, v, ty)

    def content(self, v):
        return self.en.content(self.st, v)[2]

    def attr(self, o, name):
        return self.en.getattr(self.st, o, name)

    def abs(self, o, name):
        return self.st.envs['ghost']['abs'][o.oid][name]

    def known(self):
        return self.st.heap[self.st.envs['ghost']['known'].cid].t

    def reveal(self, op, *args):
        """the definition of an opaque function (at these arguments, or everywhere)"""
        if self.mode == 'verify':
            self.st.fact(op.at(*args) if args else op.axiom())

    def lemma(self, vs, goal):
        """goal for all vs follows from the preconditions: proved as an obligation of its own, then available"""
        self.lemmas.append((list(vs), norm(goal)))

    def name_cell(self, name, ty, t, facts):
        """a local container that provably holds t after a loop is known by a name from then on; facts(name) describe it"""
        G = z3.Const('named_%s' % name, ty.sort)
        if self.mode == 'verify':
            g = self.st.envs['ghost']
            g['cells'] = g.get('cells', []) + [(ty, norm(t), G)]
            for f in T.canonical(ty, G) + list(facts(G)):
                self.st.fact(norm(f))
        return G

    def fold(self, op):
        """names values op(x) of the body by op where they are assigned"""
        if self.mode == 'verify':
            g = self.st.envs['ghost']
            g['folds'] = g.get('folds', []) + [op]
            self.reveal(op)

    def ghost(self, name, ty):
        """ghost parameter: the contract holds for every value of it. Recursive calls pass it on."""
        g = self.st.envs['ghost'].get('params', {})
        if self.mode == 'verify':
            t = self.st.scope.fresh('ghost_' + name, ty)
            self.st.envs['ghost']['params'] = dict(g, **{name: t})
            return t
        return g[name] if name in g else self.st.scope.fresh('ghost_' + name, ty)

    def ghost_is(self, name, t):
        """the value calls of the body pass for a ghost parameter"""
        if self.mode == 'verify':
            self.st.envs['ghost']['params'] = dict(self.st.envs['ghost'].get('params', {}), **{name: t})

    def axiom(self, f):
        """instance of a definition"""
        if self.mode == 'verify':
            self.st.fact(norm(f))

    # --- clauses
    def requires(self, *ts):
        self.req += [norm(t) for t in ts]

    def raises(self, t):
        self.raise_ts.append(norm(t))

    def returns(self, ty, t):
        self.ret = (ty, norm(t))

    def returns_none(self):
        self.ret = ('none',)

    def returns_same(self, v):
        """the very object v"""
        self.ret = ('same', v)

    def same_if(self, cond, v):
        """when cond holds the result is the very object v"""
        self.same.append((norm(cond), v))

    def ensures(self, ty, f):
        self.ens.append((ty, f))

    def depends_only(self, ty, *terms):
        """the result is a function of these terms alone (nothing else the body can see influences it)"""
        self.dep = (ty, [norm(t) for t in terms])

    def sets(self, ref, ty, t):
        self.set_list.append((ref, ty, norm(t)))

    def after(self, o, name, ty, f):
        """f(content of attribute name of o afterwards, result)"""
        self.after_list.append((o, name, ty, f))

    def changes(self, ref, ty, f):
        """f(content of the container afterwards)"""
        self.changed.append((ref, ty, f))

    def cont(self, v, ty):
        """content of a container of type ty"""
        k, t0, t = self.en.content(self.st, v)
        return self.en.empty_of(ty) if t0 is None else self.en.coerce(t, t0, ty)

    def invariant(self, f):
        """f(L): invariant of the loops of the body, or None where the closed form is to be found"""
        self.inv = f

    def for_all(self, ty, f):
        """hypothesis that holds for every value of type ty (an axiom or a precondition); used at the values of that type
        which the run made"""
        self.every.append((ty, f))
        if self.mode == 'call':
            g = self.st.envs['ghost']
            g['every'] = g.get('every', []) + [(ty, f)]

    def term(self, *ts):
        """terms at which such hypotheses are used, too"""
        g = self.st.envs['ghost']
        g['terms'] = g.get('terms', []) + list(ts)

    def define(self, f):
        """instance of a definition, at call sites as well"""
        self.st.fact(norm(f))

    def attr_of(self, o, ty):
        """the container of type ty that o holds"""
        cls, at = self.st.objs[o.oid]
        mem = self.en.__dict__.setdefault('attr_names', {})
        found = [k for k, v in at.items() if isinstance(v, Ref) and self.en.content(self.st, v)[1] == ty]
        if len(found) == 1:
            mem[cls, repr(ty)] = found[0]
        elif not found and (cls, repr(ty)) in mem:      # still empty
            found = [mem[cls, repr(ty)]]
        if len(found) != 1:
            raise Unsupported('an object holds %d containers of type %s' % (len(found), ty))
        r = at[found[0]]
        if self.en.content(self.st, r)[1] is None:
            self.st.heap[r.cid] = self.st.heap[r.cid].but(ty=ty, t=self.en.empty_of(ty))
        return r

    def result_obj(self, cls, skip=(), **ctor):
        """skip: attributes the contract leaves open"""
        self.robj = (cls, ctor, skip)

    def becomes(self, o, **ctor):
        self.become.append((o, ctor))

    def may_change(self, o):
        """the contract leaves the content of o afterwards open"""
        self.open_objs.append(o)

    def known_becomes(self, t):
        self.known_after = norm(t)


class Contract:
    def __init__(self, qual, fn, params, callable_=True, label=None, nested=None):
        self.qual, self.fn, self.params, self.callable = qual, fn, params, callable_
        self.label = label or qual
        self.props = set()
        self.nested = nested

    def variants(self):
        out = [{}]
        for n, m in self.params.items():
            ms = m if isinstance(m, list) else [m]
            out = [dict(o, **{n: x}) for o in out for x in ms]
        return out

    # ---- use at a call site
    def usable(self, en, st, fun, args, kw):
        if not self.callable:
            return False
        if en.cur == self.qual and len(en.stack) == 0:
            return False
        try:
            names, d = en.bind(st.copy(), fun, args, kw)
        except (Unsupported, ForkNeeded):
            return False
        for n in names:
            if n not in self.params:
                return False
            v = en.deref(st, d[n])
            ms = self.params[n] if isinstance(self.params[n], list) else [self.params[n]]
            if not any(self.fits(en, st, m, v) for m in ms):
                return False
        return not self.closure or self.closure_of(en, st, fun) is not None

    def fits(self, en, st, m, v):
        if m.key == 'val':
            if isinstance(v, V):
                if v.ty == m.ty:
                    return True
                return v.ty == INT and m.ty == REAL
            if isinstance(m.ty, (SetT, TupT)) and isinstance(v, (Tup, Ref, Path)):
                try:
                    return en.type_of(st, v) == m.ty
                except Unsupported:
                    return False
            return False
        if m.key == 'mut':
            return isinstance(v, (Ref, Path)) and en.content(st, v)[1] in (m.ty, None)
        if m.key == 'none':
            return is_none(v)
        if m.key == 'obj':
            return isinstance(v, Obj) and st.objs[v.oid][0] == m.cls
        return False

    def closure_of(self, en, st, fun):
        """values of the closure variables the contract speaks about, or None"""
        out = {}
        for n, m in self.closure.items():
            try:
                v = en.deref(st, en.lookup(st, fun.eid, n))
            except Unsupported:
                return None
            if not self.fits(en, st, m, v):
                return None
            if isinstance(v, Ref) and st.heap[v.cid].ty is None:
                st.heap[v.cid] = st.heap[v.cid].but(ty=m.ty, t=en.empty_of(m.ty))
            out[n] = v
        return out

    def apply(self, en, st, fun, argvals):
        names = [a.arg for a in fun.node.args.args] + [a.arg for a in fun.node.args.kwonlyargs]
        args = {}
        for n, v in zip(names, argvals):
            v = en.deref(st, v)
            ms = self.params[n] if isinstance(self.params[n], list) else [self.params[n]]
            m = [m for m in ms if self.fits(en, st, m, v)][0]
            if m.key == 'val' and not isinstance(v, V):
                v = V(m.ty, en.term(st, v, m.ty))
            if isinstance(v, Ref) and en.content(st, v)[1] is None:
                v = st.new_cell(st.heap[v.cid].kind, m.ty, en.empty_of(m.ty))
            args[n] = v
        en.used.add(self.label)
        c = SpecCtx(en, st, 'call')
        if self.closure:
            args.update(self.closure_of(en, st, fun))
        self.fn(c, **args)
        for r in c.req:
            en.oblige(st, r, 'precondition of %s' % self.qual, 'pre')
        for r in c.raise_ts:
            if en.branch(st, r):
                raise PyExc('AssertionError')
        if c.become or c.robj or c.open_objs:
            raise Unsupported('contract of %s is not usable at a call' % self.qual)
        for ref, ty, t in c.set_list:
            en.set_content(st, ref, ty, t, True)
        if c.known_after is not None:
            r = st.envs['ghost']['known']
            st.heap[r.cid] = st.heap[r.cid].but(t=c.known_after)
        if c.ret is not None:
            if c.ret[0] in ('none', 'same'):
                self.effects(en, st, c, None)
                return NoneV if c.ret[0] == 'none' else c.ret[1]
            ty, t = c.ret
        elif c.ens:
            ty = c.ens[0][0]
            t = st.scope.fresh('ret_' + fun.node.name, ty)
            for f in T.canonical(ty, t):
                st.fact(f)
        else:
            self.effects(en, st, c, None)
            return NoneV
        for ety, f in c.ens:
            st.fact(norm(f(t)))
        self.effects(en, st, c, t)
        if getattr(self, 'fresh_container', None):
            return st.new_cell(self.fresh_container, ty, t)
        return V(ty, t)


    def effects(self, en, st, c, res):
        """containers the contract describes by a relation get a new content"""
        new = []
        for ref, ty, f in c.changed:
            new.append((ref, ty, lambda t, f=f: f(t)))
        for o, name, ty, f in c.after_list:
            a = en.deref(st, st.objs[o.oid][1][name])
            if isinstance(a, (Ref, Path)):
                new.append((a, ty, lambda t, f=f: f(t, res)))
            else:
                t = st.scope.fresh('new_' + name, ty)
                for x in T.canonical(ty, t):
                    st.fact(x)
                st.objs[o.oid][1][name] = V(ty, t)
                st.fact(norm(f(t, res)))
        for ref, ty, f in new:
            t = st.scope.fresh('new', ty)
            for x in T.canonical(ty, t):
                st.fact(x)
            en.set_content(st, ref, ty, t, True)
            st.fact(norm(f(t)))


CLIENTS = {}
REG = {}          # label -> Contract
BY_QUAL = {}


def contract(qual, props=(), label=None, callable_=True, fresh=None, client=None, data=None, closure=None, **params):
    """client: text of a function that uses the code under contract; its result is what the contract speaks about"""
    def deco(fn):
        if client is not None:
            CLIENTS[qual] = ast.parse(textwrap.dedent(client)).body[0]
        k = Contract(qual, fn, params, callable_, label)
        k.props = set(props if isinstance(props, (list, tuple, set)) else [props])
        k.fresh_container = fresh
        k.data = data
        k.closure = closure or {}
        REG[k.label] = k
        if callable_ and client is None and qual not in BY_QUAL:
            BY_QUAL[qual] = k
        return fn
    return deco


def find_fun(en, qual):
    if qual in CLIENTS:
        return Fun(CLIENTS[qual], None, None, '', qual)
    if '/' in qual:
        outer, name = qual.rsplit('/', 1)
        of = find_fun(en, outer)
        found = [n for n in ast.walk(of.node) if isinstance(n, ast.FunctionDef) and n.name == name and n is not of.node]
        if len(found) != 1:
            raise Unsupported('%s not found' % qual)
        return Fun(found[0], None, of.cls, of.mod, of.qual + '/' + name)
    if '.' in qual:
        cls, name = qual.split('.')
        if cls not in en.p.classes:
            raise Unsupported('class %s not found' % cls)
        c, f = en.p.find(cls, name)
        if f is None:
            raise Unsupported('%s not found' % qual)
        st = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in f.decorator_list)
        return Fun(f, None, c, en.p.classes[c].mod, c + '.' + name, st)
    if qual in en.p.functions:
        n, m = en.p.functions[qual]
        return Fun(n, None, None, m, qual)
    raise Unsupported('%s not found' % qual)


def base_state():
    st = State()
    st.envs['ghost'] = {'$parent': None, '$fun': None, 'abs': {}}
    r = st.new_cell('set', SetT(TupT(P, NODE)), z3.Const('known', SetT(TupT(P, NODE)).sort), owner='ghost')
    st.envs['ghost']['known'] = r
    return st


def verify(en, con):
    """obligations of one contract; Unsupported if the body is outside the subset"""
    en.obls = []
    total, vac = [], []
    if con.data:
        en.data = dict(en.data, **con.data)
        en.by_ty = {t.name: c for c, (t, _) in en.data.items()}
    for i, var in enumerate(con.variants()):
        fun = find_fun(en, con.qual)
        en.cur = con.label
        en.stack = []
        st0 = base_state()
        st0.scope = Scope('%s:' % (i if len(con.variants()) > 1 else ''))
        done = {'dep': []}

        def thunk(st):
            args = {}
            for n, m in var.items():
                args[n] = m(en, st, n)
            c = SpecCtx(en, st, 'verify')
            if con.closure:
                fun2 = find_fun(en, con.qual)
                outer = find_fun(en, con.qual.rsplit('/', 1)[0])
                close = {n: m(en, st, n) for n, m in con.closure.items()}
                fun2.eid = st.new_env(close, None, outer)
                for n in outer.node.body:
                    if isinstance(n, ast.FunctionDef) and n.name not in close:
                        en.s_FunctionDef(st, fun2.eid, n)
                con.fn(c, **args, **close)
            else:
                fun2 = fun
                con.fn(c, **args)
            en.inv = c.inv
            for r in c.req:
                st.fact(r)
            for vs, goal in c.lemmas:
                if not en.dry and ('lemma', goal.get_id()) not in done:
                    done['lemma', goal.get_id()] = goal
                    en.obls.append(Obligation(con.label, 'lemma', st.hyps(), goal, 'lemma'))
                st.fact(forall(vs, goal))
            if 'vac' not in done:
                done['vac'] = True
                vac.append(st.hyps())
            pre = st.copy()
            en.unfolding = con.qual
            outcome = 'return'
            try:
                names, d = en.bind(st, fun2, [], args)
                res = en.invoke(st, fun2, [d[n] for n in names], {})
            except PyExc as e:
                if e.name != 'AssertionError':
                    en.oblige(st, FALSE, 'raises %s' % e.name, 'post')
                    return
                outcome = 'raise'
            except ReturnSig:
                raise Unsupported('return outside a function')
            for ty, f in c.every + st.envs['ghost'].get('every', []):
                for t in made(en, st, ty):
                    st.fact(norm(f(t)))
            check_post(en, st, pre, c, con, outcome, None if outcome == 'raise' else res, args)
            if c.dep is not None and outcome == 'return':
                done['dep'].append((st.hyps(), result_term(en, st, res, c.dep[0]), c.dep[1], dict(st.scope.created)))
        paths = en.run_paths(st0, thunk, limit=200)
        if not paths and not en.obls:
            raise Unsupported('no feasible path')
        dep = {}
        for d in done['dep']:
            dep.setdefault((tuple(h.get_id() for h in d[0]), d[1].get_id()), d)
        for h1, r1, k1, _ in dep.values():
            for h2, r2, k2, cr in dep.values():
                ren = [(k, z3.Const(k.decl().name() + "'", k.sort())) for k in other_consts(h2 + [r2] + k2, cr)]
                h2_ = [subst(h, *ren) for h in h2]
                en.obls.append(Obligation(con.label, 'the result depends on the named content only',
                                          h1 + h2_ + [eq_term(a, subst(b, *ren)) for a, b in zip(k1, k2)],
                                          norm(eq_term(r1, subst(r2, *ren))), 'post'))
        for s, r in paths:
            if r[0] not in ('next',):
                raise Unsupported('unexpected end of path %s' % (r,))
    obls = en.obls
    en.obls = []
    return obls, vac


def made(en, st, ty):
    """terms of type ty the run made: contents of containers and the unknowns introduced for calls and loops"""
    out = {}
    for c in st.heap.values():
        if c.kind in ('set', 'dict') and c.ty == ty:
            out[c.t.get_id()] = c.t
    for k in st.scope.created.values():
        if k.sort() == ty.sort:
            out[k.get_id()] = k
    for t in st.envs['ghost'].get('terms', []):
        if t.sort() == ty.sort:
            out[t.get_id()] = t
    for t in list(out.values()):
        for u in T.subterms(t):
            if u.sort() == ty.sort and z3.is_app(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED and not T.has_bound(u):
                out[u.get_id()] = u
    return list(out.values())


def other_consts(ts, created):
    """constants that stand for inputs or choices of one run"""
    out, seen, stack = {}, set(), list(ts)
    while stack:
        u = stack.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_quantifier(u):
            stack.append(u.body())
            continue
        if z3.is_const(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = u.decl().name()
            if n in created or n.startswith('opaque:') or ':' in n and not n.startswith('str:') or '#' in n:
                out[n] = u
        stack.extend(u.children())
    return list(out.values())


def reach(en, st, v, seen=None):
    """ids of mutable cells and objects reachable from a value"""
    seen = set() if seen is None else seen
    v = en.deref(st, v)
    if isinstance(v, (Ref, Lst)):
        if ('c', v.cid) not in seen:
            seen.add(('c', v.cid))
            c = st.heap[v.cid]
            if c.kind == 'list':
                for i in c.t:
                    reach(en, st, i, seen)
    elif isinstance(v, Path):
        seen.add(('c', v.cid))
    elif isinstance(v, Obj):
        if ('o', v.oid) not in seen:
            seen.add(('o', v.oid))
            for a in st.objs[v.oid][1].values():
                reach(en, st, a, seen)
    elif isinstance(v, Tup):
        for i in v.items:
            reach(en, st, i, seen)
    elif isinstance(v, View):
        reach(en, st, v.ref, seen)
    return seen


def check_post(en, st, pre, c, con, outcome, res, args):
    raise_t = or_(*c.raise_ts)
    if outcome == 'raise':
        en.oblige(st, raise_t, 'refused only when the contract says so', 'post')
        if c.refuse_frame:
            frame(en, st, pre, {}, 'after a refusal ')
        return
    if c.raise_ts:
        en.oblige(st, not_(raise_t), 'refused whenever the contract says so', 'post')
    allowed = {}
    for ref, ty, t in c.set_list:
        r = en.deref(st, ref)
        if not isinstance(r, Ref):
            raise Unsupported('sets on a value')
        allowed[r.cid] = (ty, t)
    for ref, ty, f in c.changed:
        r = en.deref(st, ref)
        if not isinstance(r, Ref):
            raise Unsupported('changes on a value')
        allowed[r.cid] = None
        cell = st.heap[r.cid]
        cur = en.empty_of(ty) if cell.ty is None else en.coerce(cell.t, cell.ty, ty)
        for g in parts_of(f(cur)):
            en.oblige(st, g, 'content afterwards', 'post')
    free_objs = set()
    for o in [o for o, _ in c.become] + c.open_objs:
        free_objs.add(o.oid)
        for x in reach(en, pre, o):
            if x[0] == 'c':
                allowed[x[1]] = None
    free_attrs = set()
    for o, name, ty, f in c.after_list:
        free_attrs.add((o.oid, name))
        a = en.deref(pre, pre.objs[o.oid][1].get(name))
        if isinstance(a, Ref):
            allowed[a.cid] = None
    if c.known_after is not None:
        allowed[st.envs['ghost']['known'].cid] = (SetT(TupT(P, NODE)), c.known_after)
    for cid, want in allowed.items():
        if want is not None:
            ty, t = want
            cell = st.heap[cid]
            cur = en.empty_of(ty) if cell.ty is None else en.coerce(cell.t, cell.ty, ty)
            en.oblige(st, eq_term(cur, t), 'content afterwards', 'post')
    frame(en, st, pre, allowed, '', free_objs, free_attrs)
    for o, name, ty, f in c.after_list:
        a = en.deref(st, en.getattr(st, o, name))
        if isinstance(a, Ref):
            cell = st.heap[a.cid]
            at = en.empty_of(ty) if cell.ty is None else en.coerce(cell.t, cell.ty, ty)
        else:
            at = en.term(st, a, ty)
        rt = None
        if res is not None and c.ens:
            rt = result_term(en, st, res, c.ens[0][0])
        en.oblige(st, f(at, rt), 'attribute %s afterwards' % name, 'post')
    for o, ctor in c.become:
        same_obj(en, st, o, st.objs[o.oid][0], ctor, 'state afterwards')
    if c.robj is not None:
        cls, ctor, skip = c.robj
        r = en.deref(st, res)
        if not isinstance(r, Obj):
            en.oblige(st, FALSE, 'result is a %s' % cls, 'post')
        else:
            en.oblige(st, z3.BoolVal(st.objs[r.oid][0] == cls), 'result is a %s' % cls, 'post')
            if st.objs[r.oid][0] == cls:
                en.oblige(st, z3.BoolVal(r.oid not in pre.objs), 'result is a new object', 'frame')
                same_obj(en, st, r, cls, ctor, 'result', skip)
    if c.ret is not None:
        if c.ret[0] == 'none':
            en.oblige(st, z3.BoolVal(is_none(res)), 'returns nothing', 'post')
        elif c.ret[0] == 'same':
            r, w = en.deref(st, res), en.deref(st, c.ret[1])
            if isinstance(w, Obj):
                en.oblige(st, z3.BoolVal(isinstance(r, Obj) and r.oid == w.oid), 'returns the receiver', 'post')
            else:
                raise Unsupported('same')
        else:
            ty, t = c.ret
            en.oblige(st, eq_term(result_term(en, st, res, ty), t), 'result', 'post')
    for cond, v in c.same:
        r = en.deref(st, res)
        for k, alt in (alternatives(r) if isinstance(r, V) else [(TRUE, r)]):
            if alt is not en.deref(st, v):
                en.oblige(st, not_(and_(k, cond)), 'the very same object is returned', 'post')
    for ty, f in c.ens:
        en.oblige(st, f(result_term(en, st, res, ty)), 'result', 'post')
    if res is not None and not (c.ret is not None and c.ret[0] == 'same'):
        shared = reach(en, st, res)
        bad = [x for x in shared if (x[0] == 'c' and x[1] in pre.heap and pre.heap[x[1]].owner != 'ghost')
               or (x[0] == 'o' and x[1] in pre.objs)]
        imm = [x for x in shared if x[0] == 'c' and st.heap[x[1]].owner == 'immut']
        en.oblige(st, z3.BoolVal(not bad and not imm), 'the result shares no mutable container with anything else', 'frame')


def parts_of(g):
    return list(g) if isinstance(g, (list, tuple)) else [g]


def result_term(en, st, res, ty):
    r = en.deref(st, res)
    if isinstance(r, Seq):
        if isinstance(ty, ListT):
            raise Unsupported('list result')
        sv = en.to_set(st, r)
        return en.coerce(sv.t, sv.ty, ty)
    if isinstance(r, Ref) and st.heap[r.cid].ty is None:
        return en.empty_of(ty)
    if isinstance(r, V) and r.ty != ty and not (r.ty == INT and ty == REAL):
        try:
            return en.coerce(r.t, r.ty, ty)
        except Unsupported:
            en.oblige(st, FALSE, 'the result is a %s (got %s)' % (ty, r.ty), 'post')
            raise Dead()
    return en.term(st, r, ty)


def frame(en, st, pre, allowed, why, free_objs=(), free_attrs=()):
    for cid, c in pre.heap.items():
        if cid in allowed:
            continue
        c2 = st.heap[cid]
        if c2 is c:
            continue
        if c.kind == 'list':
            if c2.kind != 'list' or len(c2.t) != len(c.t) or any(a is not b for a, b in zip(c.t, c2.t)):
                en.oblige(st, FALSE, why + 'a list that must stay unchanged was changed', 'frame')
            continue
        if c.owner == 'ghost':
            continue            # the provider's interning caches may grow
        if c2.kind == 'alias':
            en.oblige(st, FALSE, why + 'a container was moved', 'frame')
            continue
        if c.ty is None and c2.ty is None:
            continue
        ty = c2.ty or c.ty
        a = en.empty_of(ty) if c.ty is None else en.coerce(c.t, c.ty, ty)
        b = en.empty_of(ty) if c2.ty is None else c2.t
        en.oblige(st, eq_term(a, b), why + 'everything else is unchanged', 'frame')
    for oid, (cls, at) in pre.objs.items():
        if oid in free_objs:
            continue
        now = st.objs[oid][1]
        for n in set(at) | set(now):
            if (oid, n) in free_attrs:
                continue
            if n not in at or n not in now:
                en.oblige(st, FALSE, why + 'attribute %s appears or disappears' % n, 'frame')
            elif not loops.values_same(en, at[n], now[n]):
                a, b = en.deref(pre, at[n]), en.deref(st, now[n])
                if isinstance(a, V) and isinstance(b, V) and a.ty == b.ty:
                    en.oblige(st, eq_term(a.t, b.t), why + 'attribute %s is unchanged' % n, 'frame')
                else:
                    en.oblige(st, FALSE, why + 'attribute %s is unchanged' % n, 'frame')


def as_cells(s2, ctor):
    out = {}
    for k, v in ctor.items():
        if isinstance(v, V) and isinstance(v.ty, DictT):
            v = s2.new_cell('dict', v.ty, v.t)
        elif isinstance(v, V) and isinstance(v.ty, SetT) and v.kind == 'mut':
            v = s2.new_cell('set', v.ty, v.t)
        out[k] = v
    return out


def same_obj(en, st, o, cls, ctor, what, skip=()):
    """attributes of o equal those of cls(**ctor)"""
    s2 = st.copy()
    given = {}
    for k, v in ctor.items():
        if isinstance(v, V) and isinstance(v.ty, DictT):
            v = s2.new_cell('dict', v.ty, v.t)
        elif isinstance(v, V) and isinstance(v.ty, SetT) and v.kind == 'mut':
            v = s2.new_cell('set', v.ty, v.t)
        elif isinstance(v, tuple):
            v = construct_raw(en, s2, v[0], as_cells(s2, v[1]))
        given[k] = v
    ref = construct_raw(en, s2, cls, given)
    # forks of the constructor are path conditions of this comparison
    st.pc = list(s2.pc)
    st.facts = list(s2.facts)
    want = s2.objs[ref.oid][1]
    have = st.objs[o.oid][1]
    for n in sorted(set(want) | set(have)):
        if n not in want or n not in have:
            en.oblige(st, FALSE, '%s: attribute %s' % (what, n), 'post')
            continue
        if n in skip:
            continue
        same_value(en, st, have[n], s2, want[n], '%s: attribute %s' % (what, n))


def same_value(en, st, a, s2, b, what):
    a, b = en.deref(st, a), en.deref(s2, b)
    if isinstance(a, Obj) and isinstance(b, Obj):
        ca, cb = st.objs[a.oid], s2.objs[b.oid]
        if ca[0] != cb[0]:
            en.oblige(st, FALSE, what, 'post')
            return
        for n in sorted(set(ca[1]) | set(cb[1])):
            if n not in ca[1] or n not in cb[1]:
                en.oblige(st, FALSE, what + '.' + n, 'post')
            else:
                same_value(en, st, ca[1][n], s2, cb[1][n], what + '.' + n)
        return
    ka = en.content(st, a)
    kb = en.content(s2, b)
    if ka[0] is not None or kb[0] is not None:
        ty = ka[1] or kb[1]
        if ty is None:
            return
        if ka[1] is not None and kb[1] is not None:
            ty = en.join_ty(ka[1], kb[1])
        ta = en.empty_of(ty) if ka[1] is None else en.coerce(ka[2], ka[1], ty)
        tb = en.empty_of(ty) if kb[1] is None else en.coerce(kb[2], kb[1], ty)
        en.oblige(st, eq_term(ta, tb), what, 'post')
        return
    if isinstance(a, V) and isinstance(b, V):
        if a.kind == 'str' and b.kind == 'str':
            return
        if a.ty != b.ty:
            en.oblige(st, FALSE, what, 'post')
            return
        en.oblige(st, eq_term(a.t, b.t), what, 'post')
        return
    raise Unsupported('comparison of %r and %r' % (a, b))
