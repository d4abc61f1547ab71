"""Types and terms of the logic the verification conditions are written in.

Every Python value the verified code handles has a type here, and every type has one z3 sort:
  U            an arbitrary Python object known only by lawful equality (variables, values, relations,
               names, None, string literals; a DirectedRelation is dr(source, target, relation))
  BOOL INT REAL    bool, int (unbounded, as in Python), float (treated as a mathematical real)
  NODE EDGE SG SS ...   datatypes for the repository's immutable classes (see classes.py)
  SetT(t)      set / frozenset: characteristic function
  DictT(k, v)  dict: domain and values, values outside the domain are the constant default of v
  TupT(...)    tuple
Sets and dicts are finite in every run; the finite-cardinality and finite-sum facts in solver.py
rely on that.
"""
import itertools
import z3

_ids = itertools.count()


class Ty:
    def __init__(self, name, sort):
        self.name, self._sort = name, sort

    @property
    def sort(self):
        if callable(self._sort):
            self._sort = self._sort()
        return self._sort

    def __repr__(self):
        return self.name

    def __eq__(self, o):
        return isinstance(o, Ty) and self.name == o.name

    def __hash__(self):
        return hash(self.name)


USort = z3.DeclareSort('U')
PSort = z3.DeclareSort('Prov')
U = Ty('U', USort)
P = Ty('P', PSort)
BOOL = Ty('Bool', z3.BoolSort())
INT = Ty('Int', z3.IntSort())
REAL = Ty('Real', z3.RealSort())

NONE = z3.Const('None', USort)
dr = z3.Function('dr', USort, USort, USort, USort)
dr_src = z3.Function('dr_src', USort, USort)
dr_tgt = z3.Function('dr_tgt', USort, USort)
dr_rel = z3.Function('dr_rel', USort, USort)
is_dr = z3.Function('is_dr', USort, z3.BoolSort())
truthyU = z3.Function('truthy', USort, z3.BoolSort())

_datatypes = {}


def datatype(name, ctors):
    """ctors: list of (ctor name, [(field, Ty)])"""
    if name in _datatypes:
        return _datatypes[name]
    d = z3.Datatype(name)
    for c, fs in ctors:
        d.declare(c, *[('%s@%s' % (f, name), t.sort) for f, t in fs])
    s = d.create()
    _datatypes[name] = s
    return s


class DataTy(Ty):
    """single-constructor datatype"""

    def __init__(self, name, fields):
        self.name = name
        self.fields = fields
        self._sort = lambda: datatype(name, [('mk' + name, fields)])

    def mk(self, *args):
        return self.sort.constructor(0)(*args)

    def get(self, term, i):
        if isinstance(i, str):
            i = [f for f, _ in self.fields].index(i)
        if z3.is_app(term) and term.decl().eq(self.sort.constructor(0)):
            return term.arg(i)
        if z3.is_app(term) and term.decl().kind() == z3.Z3_OP_ITE:
            a, b = self.get(term.arg(1), i), self.get(term.arg(2), i)
            return a if a.eq(b) else z3.If(term.arg(0), a, b)
        return self.sort.accessor(0, i)(term)

    def is_mk(self, term):
        return z3.is_app(term) and term.decl().eq(self.sort.constructor(0))


class SetT(Ty):
    def __init__(self, elem):
        self.elem = elem
        self.name = 'Set<%s>' % elem.name
        self._sort = lambda: z3.ArraySort(elem.sort, z3.BoolSort())


class DictT(DataTy):
    def __init__(self, k, v):
        self.k, self.v = k, v
        self.name = 'Dict<%s,%s>' % (k.name, v.name)
        self._f = None
        self._sort = lambda: datatype(self.name, [('mk' + self.name, self.fields)])

    @property
    def fields(self):
        if self._f is None:
            arr = Ty('Arr<%s,%s>' % (self.k.name, self.v.name), lambda: z3.ArraySort(self.k.sort, self.v.sort))
            self._f = [('dom', SetT(self.k)), ('val', arr)]
        return self._f

    def dom(self, t):
        return self.get(t, 0)

    def val(self, t):
        return self.get(t, 1)


class TupT(DataTy):
    def __init__(self, *ts):
        self.ts = ts
        self.name = 'Tup<%s>' % ','.join(t.name for t in ts)
        self.fields = [('i%d' % i, t) for i, t in enumerate(ts)]
        self._sort = lambda: datatype(self.name, [('mk' + self.name, self.fields)])


class ObjTy(TupT):
    """mutable object of a repository class stored inside a container: its attributes"""
    def __init__(self, cls, names, ts):
        TupT.__init__(self, *ts)
        self.cls, self.names = cls, list(names)
        self.name = 'Obj<%s,%s>' % (cls, ','.join('%s:%s' % (n, t.name) for n, t in zip(names, ts)))
        self.fields = [('o_%s' % n, t) for n, t in zip(names, ts)]


NODE = DataTy('Node', [('variable', U), ('value', U)])
EDGE = DataTy('Edge', [('endpoints', SetT(NODE)), ('relation', U)])
# objects with identity (only in the contracts of the provider that interns them)
NODEI = DataTy('NodeObj', [('variable', U), ('value', U), ('ident', U)])
EDGEI = DataTy('EdgeObj', [('endpoints', SetT(NODE)), ('relation', U), ('ident', U)])
SG = DataTy('SG', [('nodes', SetT(NODE)), ('edges', SetT(EDGE)), ('prov', P)])
SS = DataTy('SS', [('prov', P), ('samples', DictT(SG, INT))])


class UnionTy(Ty):
    """several alternatives, one constructor each"""

    def __init__(self, name, alts):
        self.name, self.alts = name, alts
        self._sort = lambda: datatype(name, [('in%d_%s' % (i, name), [('v%d_%s' % (i, name), t)]) for i, t in enumerate(alts)])

    def inj(self, i, term):
        return self.sort.constructor(i)(term)

    def isa(self, i, term):
        return self.sort.recognizer(i)(term)

    def proj(self, i, term):
        return self.sort.accessor(i, 0)(term)


NE = UnionTy('NE', [NODE, EDGE])
UV = UnionTy('UV', [U, SetT(U)])          # variables and sets of variables (a variable is taken not to be such a set)


def default(ty):
    return z3.Const('dflt<%s>' % ty.name, ty.sort)


def fresh(name, ty):
    s = ty.sort if isinstance(ty, Ty) else ty
    return z3.Const('%s!%d' % (name, next(_ids)), s)


def is_lambda(t):
    return z3.is_quantifier(t) and t.is_lambda()


def sel(a, *i):
    """a[i] with beta reduction and through if-then-else and store"""
    if is_lambda(a):
        return norm_top(z3.substitute_vars(a.body(), *reversed(i)))
    if z3.is_app(a):
        k = a.decl().kind()
        if k == z3.Z3_OP_CONST_ARRAY:
            return a.arg(0)
        if k == z3.Z3_OP_ITE and (_reducible(a.arg(1)) or _reducible(a.arg(2))):
            return ite(a.arg(0), sel(a.arg(1), *i), sel(a.arg(2), *i))
        if k == z3.Z3_OP_STORE:
            e = eq_term(i[0], a.arg(1))
            if z3.is_true(e):
                return a.arg(2)
            if z3.is_false(e):
                return sel(a.arg(0), *i)
            return ite(e, a.arg(2), sel(a.arg(0), *i))
    return z3.Select(a, *i)


def norm_top(t):
    return t


def _reducible(a):
    if is_lambda(a):
        return True
    if z3.is_app(a):
        k = a.decl().kind()
        if k in (z3.Z3_OP_STORE, z3.Z3_OP_CONST_ARRAY):
            return True
        if k == z3.Z3_OP_ITE:
            return _reducible(a.arg(1)) or _reducible(a.arg(2))
    return False


def ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    if a.sort() == z3.BoolSort():
        if z3.is_true(a) and z3.is_false(b):
            return c
        if z3.is_true(a):
            return or_(c, b)
        if z3.is_false(a):
            return and_(not_(c), b)
        if z3.is_and(b) and any(d.eq(not_(c)) for d in b.children()):
            return ite(c, a, and_(*[d for d in b.children() if not d.eq(not_(c))]))
        if z3.is_true(b):
            return or_(not_(c), a)
        if z3.is_false(b):
            return and_(c, a)
    srt = a.sort()
    if isinstance(srt, z3.DatatypeSortRef) and srt.num_constructors() == 1:
        k = srt.constructor(0)
        if (z3.is_app(a) and a.decl().eq(k)) or (z3.is_app(b) and b.decl().eq(k)):
            return k(*[ite(c, acc_(srt, i, a), acc_(srt, i, b)) for i in range(k.arity())])
    if isinstance(srt, z3.ArraySortRef) and srt.range() == z3.BoolSort() and (is_lambda(a) or is_lambda(b)):
        y = fresh('y', srt.domain())
        return lam(y, ite(c, sel(a, y), sel(b, y)))
    return z3.If(c, a, b)


TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def and_(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            x = z3.BoolVal(x)
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return FALSE
        if z3.is_and(x):
            out.extend(x.children())
        else:
            out.append(x)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else z3.And(*out)


def or_(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            x = z3.BoolVal(x)
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return TRUE
        if z3.is_or(x):
            out.extend(x.children())
        else:
            out.append(x)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else z3.Or(*out)


def not_(x):
    if z3.is_true(x):
        return FALSE
    if z3.is_false(x):
        return TRUE
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def implies(a, b):
    if z3.is_true(a):
        return b
    if z3.is_false(a) or z3.is_true(b):
        return TRUE
    if z3.is_false(b):
        return not_(a)
    return z3.Implies(a, b)


def occurs(x, t):
    """does constant x occur in t"""
    seen = set()
    stack = [t]
    while stack:
        u = stack.pop()
        k = u.get_id()
        if k in seen:
            continue
        seen.add(k)
        if u.eq(x):
            return True
        if z3.is_quantifier(u):
            stack.append(u.body())
        else:
            stack.extend(u.children())
    return False


_height = {}


def height(t):
    """nesting depth of binders in t (asts are kept alive by the cache, so ids stay valid)"""
    k = t.get_id()
    c = _height.get(k)
    if c is not None:
        return c[1]
    stack = [t]
    while stack:
        u = stack[-1]
        k = u.get_id()
        if k in _height:
            stack.pop()
            continue
        ch = [u.body()] if z3.is_quantifier(u) else u.children()
        todo = [c for c in ch if c.get_id() not in _height]
        if todo:
            stack.extend(todo)
            continue
        h = max([_height[c.get_id()][1] for c in ch], default=0)
        if z3.is_quantifier(u):
            h += 1
        _height[k] = (u, h)
        stack.pop()
    return _height[t.get_id()][1]


def close(kind, xs, body):
    """bind constants xs in body, with canonical bound names so that alpha-equal terms are identical"""
    h = height(body) + 1
    cs = [z3.Const('q%d_%d' % (h, i), x.sort()) for i, x in enumerate(xs)]
    body = z3.substitute(body, *[(x, c) for x, c in zip(xs, cs) if not x.eq(c)])
    if kind == 'lambda':
        return z3.Lambda(cs, body)
    return z3.ForAll(cs, body) if kind == 'forall' else z3.Exists(cs, body)


def open_(q):
    """(fresh constants, body) of a quantifier or lambda; q must be closed"""
    xs = [fresh('o', q.var_sort(i)) for i in range(q.num_vars())]
    return xs, z3.substitute_vars(q.body(), *reversed(xs))


def _fields(conj, xs):
    """(x, value, rest of conj) if equations give every field of x"""
    for x in xs:
        s = x.sort()
        if not (isinstance(s, z3.DatatypeSortRef) and s.num_constructors() == 1 and s.constructor(0).arity() > 0):
            continue
        got, used, extra = {}, [], []
        fields = [s.accessor(0, j)(x) for j in range(s.constructor(0).arity())]

        def take(a, b):
            for j, f in enumerate(fields):
                if j not in got and a.eq(f) and not occurs(x, b):
                    got[j] = b
                    return True
            return False
        for n, c in enumerate(conj):
            if not z3.is_eq(c):
                continue
            for l, r in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                if take(l, r):
                    used.append(n)
                    break
                if z3.is_app(l) and l.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR and l.sort().num_constructors() == 1 \
                        and occurs(x, l) and not occurs(x, r):
                    left, some = [], False
                    for j in range(l.num_args()):
                        rj = acc_(l.sort(), j, r)
                        if take(l.arg(j), rj):
                            some = True
                        else:
                            left.append(eq_term(l.arg(j), rj))
                    if some:
                        used.append(n)
                        extra += left
                        break
        if len(got) == len(fields):
            return x, s.constructor(0)(*[got[j] for j in range(len(fields))]), [c for n, c in enumerate(conj) if n not in used] + extra
    return None


def _onepoint(conj, xs):
    """(x, value, rest of conj) if some conjunct is x == value"""
    r = _onepoint1(conj, xs)
    return r if r is not None else _fields(conj, xs)


def _onepoint1(conj, xs):
    for n, c in enumerate(conj):
        if z3.is_eq(c):
            l, r = c.arg(0), c.arg(1)
            for p, q in ((l, r), (r, l)):
                for x in xs:
                    if p.eq(x) and not occurs(x, q):
                        return x, q, conj[:n] + conj[n + 1:]
            # mk(x, y) == t   is expanded by eq_term already; x == mk(..) handled above
            for p, q in ((l, r), (r, l)):
                if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR and any(occurs(x, p) for x in xs) \
                        and not (z3.is_app(q) and q.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR):
                    s = p.sort()
                    if s.num_constructors() == 1 and not any(occurs(x, q) for x in xs):
                        parts = [p.arg(j) == s.accessor(0, j)(q) for j in range(p.num_args())]
                        for j, e in enumerate(parts):
                            for x in xs:
                                if p.arg(j).eq(x):
                                    rest = conj[:n] + conj[n + 1:] + parts[:j] + parts[j + 1:]
                                    return x, s.accessor(0, j)(q), rest
    return None


def conjuncts(t):
    if z3.is_and(t):
        return [d for c in t.children() for d in conjuncts(c)]
    if z3.is_true(t):
        return []
    return [t]


def _cases(xs, body):
    """case split of a variable of union type: list of (variables, body) or None"""
    for x in xs:
        s = x.sort()
        if isinstance(s, z3.DatatypeSortRef) and (s.num_constructors() > 1 or s.name().startswith('Pair<')):
            rest = [y for y in xs if not y.eq(x)]
            out = []
            for i in range(s.num_constructors()):
                c = s.constructor(i)
                ys = [fresh('u', c.domain(j)) for j in range(c.arity())]
                out.append((rest + ys, norm(z3.substitute(body, (x, c(*ys))))))
            return out
    return None


def _revar(xs, body):
    """x only occurs as its fields, and S[c(all fields of x)] occurs: bind y = c(fields of x) instead"""
    for x in xs:
        dom = x.sort()
        if not (isinstance(dom, z3.DatatypeSortRef) and dom.num_constructors() == 1 and dom.constructor(0).arity() > 0):
            continue
        n = dom.constructor(0).arity()
        fields = [dom.accessor(0, j)(x) for j in range(n)]
        seen, stack, bare, hit = set(), [body], False, None
        while stack and not bare:
            u = stack.pop()
            if u.get_id() in seen:
                continue
            seen.add(u.get_id())
            if u.eq(x):
                bare = True
            elif any(u.eq(f) for f in fields):
                continue
            elif z3.is_quantifier(u):
                stack.append(u.body())
            else:
                if hit is None and z3.is_app(u) and u.decl().kind() == z3.Z3_OP_SELECT and u.num_args() == 2:
                    i = u.arg(1)
                    if z3.is_app(i) and i.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR and i.sort().num_constructors() == 1 and i.num_args() == n \
                            and all(any(i.arg(k).eq(f) for k in range(n)) for f in fields):
                        hit = i
                stack.extend(u.children())
        if bare or hit is None:
            continue
        s = hit.sort()
        y = fresh('o', s)
        back = [s.accessor(0, next(k for k in range(n) if hit.arg(k).eq(f)))(y) for f in fields]
        b = z3.substitute(body, (hit, y), *zip(fields, back))
        return [y if z.eq(x) else z for z in xs], norm(b)
    return None


def exists(xs, body):
    """Exists with the one-point rule"""
    if not isinstance(xs, (list, tuple)):
        xs = [xs]
    xs = [x for x in xs if occurs(x, body)]
    if not xs or z3.is_true(body) or z3.is_false(body):
        return body
    cs = _cases(xs, body)
    if cs is not None:
        return or_(*[exists(a, b) for a, b in cs])
    if z3.is_or(body):
        return or_(*[exists(xs, c) for c in body.children()])
    conj = conjuncts(body)
    op = _onepoint(conj, xs)
    if op is not None:
        x, v, rest = op
        b = subst(and_(*rest), (x, v))
        return exists([y for y in xs if not y.eq(x)], b)
    free = [c for c in conj if not any(occurs(x, c) for x in xs)]
    if free:
        dep = [c for c in conj if any(occurs(x, c) for x in xs)]
        return and_(*free, exists(xs, and_(*dep)))
    for n, c in enumerate(conj):
        # nested existential: merge, so that its equalities can be used
        if z3.is_quantifier(c) and c.is_exists():
            ys, b = open_(c)
            return exists(list(xs) + ys, and_(*conj[:n], b, *conj[n + 1:]))
        if z3.is_or(c) and any(z3.is_eq(d) or z3.is_and(d) for d in c.children()) and len(conj) < 12 \
                and any(_onepoint(conjuncts(d), xs) for d in c.children()):
            return or_(*[exists(xs, and_(*conj[:n], d, *conj[n + 1:])) for d in c.children()])
    rv = _revar(xs, body)
    if rv is not None:
        return exists(*rv)
    return close('exists', xs, body)


def forall(xs, body):
    if not isinstance(xs, (list, tuple)):
        xs = [xs]
    xs = [x for x in xs if occurs(x, body)]
    if not xs or z3.is_true(body) or z3.is_false(body):
        return body
    cs = _cases(xs, body)
    if cs is not None:
        return and_(*[forall(a, b) for a, b in cs])
    if z3.is_and(body):
        return and_(*[forall(xs, c) for c in body.children()])
    if z3.is_not(body):
        return not_(exists(xs, body.arg(0)))
    if z3.is_implies(body):
        a, b = body.arg(0), body.arg(1)
        if z3.is_or(a):
            return and_(*[forall(xs, implies(c, b)) for c in a.children()])
        conj = conjuncts(a)
        op = _onepoint(conj, xs)
        if op is not None:
            x, v, rest = op
            return forall([y for y in xs if not y.eq(x)], subst(implies(and_(*rest), b), (x, v)))
        for n, c in enumerate(conj):
            if z3.is_quantifier(c) and c.is_exists():
                ys, bb = open_(c)
                return forall(list(xs) + ys, implies(and_(*conj[:n], bb, *conj[n + 1:]), b))
    if z3.is_quantifier(body) and body.is_forall():
        ys, b = open_(body)
        return forall(list(xs) + ys, b)
    if len(xs) == 1 and z3.is_eq(body) and body.arg(0).sort() == z3.BoolSort():
        # a set that is a singleton
        for p, q in ((body.arg(0), body.arg(1)), (body.arg(1), body.arg(0))):
            op = _onepoint(conjuncts(q), xs) if z3.is_eq(q) else None
            if op is not None and not op[2]:
                return and_(subst(p, (op[0], op[1])), forall(xs, implies(p, q)))
    rv = _revar(xs, body)
    if rv is not None:
        return forall(*rv)
    return close('forall', xs, body)


def lam(x, body):
    """characteristic function / array  x -> body"""
    # eta: lam x. a[x]  ->  a
    if z3.is_app(body) and body.decl().kind() == z3.Z3_OP_SELECT and body.num_args() == 2 \
            and body.arg(1).eq(x) and not occurs(x, body.arg(0)):
        return body.arg(0)
    if not occurs(x, body):
        return z3.K(x.sort(), body)
    return close('lambda', [x], body)


def empty_set(elem):
    return z3.K(elem.sort, FALSE)


def is_empty_term(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_CONST_ARRAY and z3.is_false(t.arg(0))


def setof(elem, f):
    x = fresh('x', elem)
    return lam(x, f(x))


def member(x, s):
    return sel(s, x)


def _elem_sort(s):
    return s.sort().domain()


def subset(a, b):
    if is_empty_term(a):
        return TRUE
    x = fresh('x', _elem_sort(a))
    return forall(x, implies(sel(a, x), sel(b, x)))


def disjoint(a, b):
    if is_empty_term(a) or is_empty_term(b):
        return TRUE
    x = fresh('x', _elem_sort(a))
    return forall(x, not_(and_(sel(a, x), sel(b, x))))


def is_empty(a):
    if is_empty_term(a):
        return TRUE
    x = fresh('x', _elem_sort(a))
    return forall(x, not_(sel(a, x)))


def union(a, b):
    if is_empty_term(a):
        return b
    if is_empty_term(b):
        return a
    x = fresh('x', _elem_sort(a))
    return lam(x, or_(sel(a, x), sel(b, x)))


def inter(a, b):
    x = fresh('x', _elem_sort(a))
    return lam(x, and_(sel(a, x), sel(b, x)))


def diff(a, b):
    if is_empty_term(b):
        return a
    x = fresh('x', _elem_sort(a))
    return lam(x, and_(sel(a, x), not_(sel(b, x))))


def symdiff(a, b):
    x = fresh('x', _elem_sort(a))
    return lam(x, z3.Xor(sel(a, x), sel(b, x)))


def insert(a, e):
    return z3.Store(a, e, TRUE)


def remove(a, e):
    return z3.Store(a, e, FALSE)


def singleton(e):
    return z3.Store(z3.K(e.sort(), FALSE), e, TRUE)


def _dt_of(sort):
    return isinstance(sort, z3.DatatypeSortRef)


def eq_term(a, b):
    """equality, decomposed over constructors; array equality is left to the solver"""
    if a.eq(b):
        return TRUE
    s = a.sort()
    if s == z3.BoolSort():
        if z3.is_true(a):
            return b
        if z3.is_true(b):
            return a
        if z3.is_false(a):
            return not_(b)
        if z3.is_false(b):
            return not_(a)
        return a == b
    if s in (z3.IntSort(), z3.RealSort()):
        if _num(a) and _num(b):
            return z3.BoolVal(a.as_fraction() == b.as_fraction() if s == z3.RealSort() else a.as_long() == b.as_long())
        return a == b
    if s == USort:
        if a.decl().name().startswith('str:') and b.decl().name().startswith('str:'):
            return FALSE
        for p, q in ((a, b), (b, a)):
            if p.eq(NONE) and q.decl().name().startswith('str:'):
                return FALSE
    if isinstance(s, z3.ArraySortRef):
        d = s.domain()
        if isinstance(d, z3.DatatypeSortRef) and d.num_constructors() > 1 and (_built(a) or _built(b)):
            x = fresh('x', d)
            return forall(x, eq_term(sel(a, x), sel(b, x)))
    if _dt_of(s):
        for p, q in ((a, b), (b, a)):
            if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
                if z3.is_app(q) and q.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
                    if not q.decl().eq(p.decl()):
                        return FALSE
                    return and_(*[eq_term(p.arg(j), q.arg(j)) for j in range(p.num_args())])
        for p, q in ((a, b), (b, a)):
            if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_ITE:
                return ite(p.arg(0), eq_term(p.arg(1), q), eq_term(p.arg(2), q))
    return a == b


def _built(a):
    """array term that is a lambda, or ite/store over lambdas"""
    if is_lambda(a):
        return True
    if z3.is_app(a):
        k = a.decl().kind()
        if k in (z3.Z3_OP_STORE, z3.Z3_OP_CONST_ARRAY):
            return True
        if k == z3.Z3_OP_ITE:
            return _built(a.arg(1)) or _built(a.arg(2))
    return False


# ---------------------------------------------------------------- dicts
def dict_empty(ty):
    return ty.mk(z3.K(ty.k.sort, FALSE), z3.K(ty.k.sort, default(ty.v)))


def dict_store(ty, d, k, v):
    return ty.mk(z3.Store(ty.dom(d), k, TRUE), z3.Store(ty.val(d), k, v))


def dict_remove(ty, d, k):
    return ty.mk(z3.Store(ty.dom(d), k, FALSE), z3.Store(ty.val(d), k, default(ty.v)))


def dict_make(ty, dom_f, val_f):
    k = fresh('k', ty.k)
    dm = dom_f(k)
    return ty.mk(lam(k, dm), lam(k, ite(dm, val_f(k), default(ty.v))))


def canonical(ty, t):
    """facts: values outside the domain are the default, at every depth that is a dict"""
    out = []
    if isinstance(ty, DictT):
        k = fresh('k', ty.k)
        out.append(forall(k, implies(not_(sel(ty.dom(t), k)), sel(ty.val(t), k) == default(ty.v))))
        inner = canonical(ty.v, sel(ty.val(t), k))
        out += [forall(k, implies(sel(ty.dom(t), k), f)) for f in inner]
    elif isinstance(ty, SetT):
        x = fresh('x', ty.elem)
        out += [forall(x, implies(sel(t, x), f)) for f in canonical(ty.elem, x)]
    elif isinstance(ty, DataTy):
        for i, (f, ft) in enumerate(ty.fields):
            out += canonical(ft, ty.get(t, i))
    return out


# ---------------------------------------------------------------- finite sums, products and cardinality
_aggs = {}


def _short(sort):
    return sort.sexpr().replace(' ', '_').replace('|', '')


def agg(kind, f):
    """aggregate of the array f: SUM (finite support), PROD (1 almost everywhere), CARD (finite set), BAG"""
    key = (kind, f.sort().sexpr())
    if key not in _aggs:
        rng = f.sort().range() if kind in ('SUM', 'PROD') else (z3.IntSort() if kind == 'CARD' else USort)
        _aggs[key] = z3.Function('%s<%s>' % (kind, _short(f.sort())), f.sort(), rng)
    return _aggs[key](f)


def CARD(s):
    if is_empty_term(s):
        return z3.IntVal(0)
    return agg('CARD', _rename(s))


def _rename(s):
    """{x | base[c(fields of x, permuted)]} has as many elements as base"""
    if not is_lambda(s) or s.num_vars() != 1:
        return s
    dom = s.var_sort(0)
    if not (isinstance(dom, z3.DatatypeSortRef) and dom.num_constructors() == 1):
        return s
    (x,), b = open_(s)
    if not (z3.is_app(b) and b.decl().kind() == z3.Z3_OP_SELECT and b.num_args() == 2) or occurs(x, b.arg(0)):
        return s
    i, n = b.arg(1), dom.constructor(0).arity()
    if not (z3.is_app(i) and i.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR and i.sort().num_constructors() == 1 and i.num_args() == n):
        return s
    have = [i.arg(j) for j in range(n)]
    if all(any(dom.accessor(0, j)(x).eq(h) for h in have) for j in range(n)):
        return b.arg(0)
    return s


def _zero(sort, unit=0):
    return z3.IntVal(unit) if sort == z3.IntSort() else z3.RealVal(unit)


def _num(t):
    return z3.is_int_value(t) or z3.is_rational_value(t)


def is_num(t, v):
    return _num(t) and t.as_string() in (str(v), '%d.0' % v) or (z3.is_rational_value(t) and t.as_fraction() == v)


def sum_x(x, body):
    """SUM over x of body, simplified: one-point, swap of nested sums, scaling"""
    if is_num(body, 0):
        return body
    if z3.is_app(body):
        k = body.decl().kind()
        if k == z3.Z3_OP_ITE:
            c, a, b = body.children()
            if is_num(a, 0) and not is_num(b, 0):
                c, a, b = not_(c), b, a
            if is_num(b, 0):
                if not occurs(x, c):
                    return ite(c, sum_x(x, a), b)
                if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
                    c2, a2, b2 = a.children()
                    if is_num(b2, 0):
                        return sum_x(x, z3.If(and_(c, c2), a2, b2))
                    if is_num(a2, 0):
                        return sum_x(x, z3.If(and_(c, not_(c2)), b2, a2))
                conj = conjuncts(c)
                op = _onepoint(conj, [x])
                if op is not None:
                    _, v, rest = op
                    return subst(ite(and_(*rest), a, b), (x, v))
                free = [d for d in conj if not occurs(x, d)]
                if free:
                    dep = [d for d in conj if occurs(x, d)]
                    return ite(and_(*free), sum_x(x, z3.If(and_(*dep), a, b)), b)
                if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_DIV and not occurs(x, a.arg(1)):
                    return sum_x(x, z3.If(c, a.arg(0), b)) / a.arg(1)
                if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_TO_REAL:
                    return z3.ToReal(sum_x(x, z3.If(c, a.arg(0), z3.IntVal(0))))
                if z3.is_app(a) and a.decl().name().startswith('SUM<') and is_lambda(a.arg(0)):
                    ys, inner = open_(a.arg(0))
                    r = sum_x(x, ite(c, inner, _zero(inner.sort())))
                    if not (z3.is_app(r) and r.decl().name().startswith('SUM<')):
                        return sum_x(ys[0], r)      # swapping the two sums made progress
        if k == z3.Z3_OP_DIV and not occurs(x, body.arg(1)):
            return sum_x(x, body.arg(0)) / body.arg(1)
        if k == z3.Z3_OP_TO_REAL:
            return z3.ToReal(sum_x(x, body.arg(0)))
        if body.decl().name().startswith('SUM<') and is_lambda(body.arg(0)):
            ys, inner = open_(body.arg(0))
            r = sum_x(x, inner)
            if not (z3.is_app(r) and r.decl().name().startswith('SUM<')):
                return sum_x(ys[0], r)
    return agg('SUM', lam(x, body))


def prod_x(x, body):
    return agg('PROD', lam(x, body))


def bag_x(x, guard, body):
    """the multiset of body over x with guard, as an opaque value that depends on nothing else"""
    key = 'BAG'
    g = lam(x, guard)
    f = lam(x, ite(guard, body, default_sort(body.sort())))
    k2 = (key, g.sort().sexpr(), f.sort().sexpr())
    if k2 not in _aggs:
        _aggs[k2] = z3.Function('BAG<%s,%s>' % (_short(g.sort()), _short(f.sort())), g.sort(), f.sort(), USort)
    return _aggs[k2](g, f)


def default_sort(s):
    return z3.Const('dflt<%s>' % _short(s), s)


def to_real(t):
    return z3.ToReal(t) if t.sort() == z3.IntSort() else t


def subst(t, *pairs):
    """replace constants, then beta-reduce selects that became reducible"""
    pairs = [(a, b) for a, b in pairs if not a.eq(b)]
    if not pairs:
        return t
    r = z3.substitute(t, *pairs)
    if any(isinstance(a.sort(), z3.ArraySortRef) or isinstance(a.sort(), z3.DatatypeSortRef) for a, _ in pairs):
        return norm(r)
    return r


_norm = {}


def norm(t):
    """beta reduction, constructor/accessor reduction and boolean simplification, everywhere"""
    c = _norm.get(t.get_id())
    if c is not None:
        return c[1]
    if z3.is_quantifier(t):
        xs, b = open_(t)
        nb = norm(b)
        if nb.eq(b):
            r = t
        elif t.is_lambda():
            r = lam(xs[0], nb) if len(xs) == 1 else close('lambda', xs, nb)
        elif t.is_forall():
            r = forall(xs, nb)
        else:
            r = exists(xs, nb)
    elif z3.is_app(t) and t.num_args():
        ch = [norm(c) for c in t.children()]
        r = rebuild(t, ch)
    else:
        r = t
    _norm[t.get_id()] = (t, r)
    return r


def rebuild(u, ch):
    d = u.decl()
    k = d.kind()
    if k == z3.Z3_OP_SELECT:
        r = sel(ch[0], *ch[1:])
        if is_lambda(ch[0]) and any(is_lambda(c) or z3.is_app(c) and c.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR for c in ch[1:]):
            return norm(r)
        return r
    if k == z3.Z3_OP_AND:
        return _and_ctx(and_(*ch))
    if k == z3.Z3_OP_OR:
        return or_(*ch)
    if k == z3.Z3_OP_NOT:
        return not_(ch[0])
    if k == z3.Z3_OP_IMPLIES:
        return implies(*ch)
    if k == z3.Z3_OP_ITE:
        return ite(*ch)
    if k == z3.Z3_OP_EQ:
        return eq_term(ch[0], ch[1])
    if k in (z3.Z3_OP_DT_IS, z3.Z3_OP_DT_RECOGNISER):
        s = u.arg(0).sort()
        if z3.is_app(ch[0]) and ch[0].decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
            for i in range(s.num_constructors()):
                if ch[0].decl().eq(s.constructor(i)):
                    return z3.BoolVal(norm_rec(s, i).eq(d) or d.params()[0].eq(s.constructor(i)) if d.params() else norm_rec(s, i).eq(d))
    if k == z3.Z3_OP_DT_ACCESSOR:
        s = u.arg(0).sort()
        if s.num_constructors() > 1 and z3.is_app(ch[0]) and ch[0].decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
            for i in range(s.num_constructors()):
                if ch[0].decl().eq(s.constructor(i)):
                    for j in range(s.constructor(i).arity()):
                        if s.accessor(i, j).eq(d):
                            return ch[0].arg(j)
        if s.num_constructors() == 1:
            for i in range(s.constructor(0).arity()):
                if s.accessor(0, i).eq(d):
                    return acc_(s, i, ch[0])
    if k == z3.Z3_OP_DT_CONSTRUCTOR and ch and u.sort().num_constructors() == 1:
        s = u.sort()
        a = ch[0]
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_DT_ACCESSOR and a.arg(0).sort() == s \
                and all(c.eq(s.accessor(0, j)(a.arg(0))) for j, c in enumerate(ch)):
            return a.arg(0)
    if k == z3.Z3_OP_UNINTERPRETED and len(ch) == 1 and d.name().startswith('CARD<') and is_lambda(ch[0]):
        return CARD(ch[0])
    if all(a.eq(b) for a, b in zip(ch, u.children())):
        return u
    if k == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*ch)
    if k == z3.Z3_OP_ADD:
        return z3.Sum(ch)
    if k == z3.Z3_OP_MUL:
        return z3.Product(ch)
    if k == z3.Z3_OP_CONST_ARRAY:
        return z3.K(u.sort().domain(), ch[0])
    return d(*ch)


def _and_ctx(t):
    """A and (B if A else C)  ->  A and B"""
    if not z3.is_and(t) or not any(z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ITE for c in t.children()):
        return t
    ch = t.children()
    ids = {c.get_id() for c in ch}
    out = []
    for c in ch:
        if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ITE:
            if all(d.get_id() in ids for d in conjuncts(c.arg(0))):
                c = c.arg(1)
            elif not_(c.arg(0)).get_id() in ids:
                c = c.arg(2)
        out.append(c)
    return and_(*out)


def norm_rec(s, i):
    return s.recognizer(i)


def acc_(s, i, term):
    if z3.is_app(term) and term.decl().eq(s.constructor(0)):
        return term.arg(i)
    if z3.is_app(term) and term.decl().kind() == z3.Z3_OP_ITE:
        return ite(term.arg(0), acc_(s, i, term.arg(1)), acc_(s, i, term.arg(2)))
    return s.accessor(0, i)(term)


class Opaque:
    """a defined function whose definition is used only where it is revealed"""
    def __init__(self, name, argtys, retty, define):
        self.f = z3.Function(name, *[a.sort for a in argtys], retty.sort)
        self.argtys, self.retty, self.define = argtys, retty, define

    def __call__(self, *args):
        return self.f(*args)

    def axiom(self):
        xs = [z3.Const('op_%d' % i, a.sort) for i, a in enumerate(self.argtys)]
        app = self.f(*xs)
        body = norm(eq_term(app, self.define(*xs)))
        return z3.ForAll(xs, body, patterns=[app])

    def at(self, *args):
        return norm(eq_term(self.f(*args), self.define(*args)))


def subterms(t):
    """all subterms, quantifier bodies included"""
    out, seen, stack = [], set(), [t]
    while stack:
        u = stack.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        out.append(u)
        if z3.is_quantifier(u):
            stack.append(u.body())
        else:
            stack.extend(u.children())
    return out


def has_bound(t):
    return any(z3.is_var(u) for u in subterms(t))
