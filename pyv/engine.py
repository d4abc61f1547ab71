"""Symbolic execution of the real Python source (ast of /repo's working tree), direct style with replayed
decisions: run_paths() runs a piece of code once per feasible path.  Loops are replaced by closed-form
summaries that are checked to be inductive (loops.py); calls use contracts where there is one and are
inlined otherwise.  Anything outside the modelled subset raises Unsupported.
"""
import ast
import os
import z3
from .terms import *
from . import terms as T
from .solver import prove


class Unsupported(Exception):
    pass


class PoisonUse(Unsupported):
    def __init__(self, eid, name):
        Unsupported.__init__(self, 'value of %s after or across loop iterations' % name)
        self.eid, self.name = eid, name


class PyExc(Exception):
    def __init__(self, name):
        self.name = name


class ReturnSig(Exception):
    def __init__(self, value):
        self.value = value


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class ForkNeeded(Exception):
    pass


class Infeasible(Exception):
    pass


class Dead(Exception):
    """the path ends here because an obligation that cannot hold was recorded"""


# ------------------------------------------------------------------------------------------- values
class V:
    """immutable value: a term and its type"""
    __slots__ = ('ty', 't', 'gen', 'extra', 'kind')

    def __init__(self, ty, t, gen=None, extra=None, kind=None):
        self.ty, self.t, self.gen, self.extra, self.kind = ty, t, gen, extra, kind

    def __repr__(self):
        return 'V(%s, %s)' % (self.ty, str(self.t)[:200])


class Ref:
    """mutable container"""
    __slots__ = ('cid',)

    def __init__(self, cid):
        self.cid = cid

    def __repr__(self):
        return 'Ref(%s)' % self.cid


class Path:
    """alias into a nested container of a cell: steps are ('key', term) or ('idx', i)"""
    __slots__ = ('cid', 'steps', 'ver', 'kind')

    def __init__(self, cid, steps, ver, kind):
        self.cid, self.steps, self.ver, self.kind = cid, steps, ver, kind


class Obj:
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def __repr__(self):
        return 'Obj(%s)' % self.oid


class Tup:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return 'Tup%r' % (self.items,)


class Lst:
    """list with known items (mutable cell of python values)"""
    __slots__ = ('cid',)

    def __init__(self, cid):
        self.cid = cid


class Dom:
    """finite indexed family: elem(x) for x with guard(x); inj: elem is injective in x"""

    def __init__(self, x, guard, elem, inj):
        self.x, self.guard, self.elem, self.inj = x, guard, elem, inj

    def at(self, x):
        p = (self.x, x)
        return subst(self.guard, p), subst_value(self.elem, p)


class Seq:
    """sequence of unknown order given by a Dom (lists built from sets, generators, sorted lists)"""
    __slots__ = ('dom', 'sorted', 'lst')

    def __init__(self, dom, is_sorted=False):
        self.dom = dom
        self.sorted = is_sorted
        self.lst = None          # (len term, array Int -> elem) once indexed


class View:
    """live dict view: keys / values / items of a Ref"""
    __slots__ = ('kind', 'ref')

    def __init__(self, kind, ref):
        self.kind, self.ref = kind, ref


class Iter:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Fun:
    __slots__ = ('node', 'eid', 'cls', 'mod', 'qual', 'static')

    def __init__(self, node, eid, cls, mod, qual, static=False):
        self.node, self.eid, self.cls, self.mod, self.qual, self.static = node, eid, cls, mod, qual, static


class Bound:
    __slots__ = ('self', 'fun')

    def __init__(self, s, fun):
        self.self, self.fun = s, fun


class Method:
    """method of a builtin container value"""
    __slots__ = ('self', 'name')

    def __init__(self, s, name):
        self.self, self.name = s, name


class Cls:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class Builtin:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class Super:
    __slots__ = ('self', 'cls')

    def __init__(self, s, cls):
        self.self, self.cls = s, cls


class IdOf:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class PFun:
    """opaque pure function parameter: array from argument to result"""
    __slots__ = ('argty', 'retty', 'arr')

    def __init__(self, argty, retty, arr):
        self.argty, self.retty, self.arr = argty, retty, arr


class Poison:
    def __repr__(self):
        return 'Poison'


NoneV = V(U, NONE)


def alternatives(v):
    return v.extra['$alts'] if v.extra and '$alts' in v.extra else [(TRUE, v)]


def is_none(v):
    return isinstance(v, V) and v.ty == U and v.t.eq(NONE)


def subst_value(v, *pairs):
    if isinstance(v, V):
        if any(occurs(a, v.t) for a, _ in pairs):
            return V(v.ty, subst(v.t, *pairs), None, v.extra, v.kind)
        return v
    if isinstance(v, Tup):
        return Tup([subst_value(i, *pairs) for i in v.items])
    if isinstance(v, Seq):
        d = v.dom
        return Seq(Dom(d.x, subst(d.guard, *pairs), subst_value(d.elem, *pairs), d.inj), v.sorted)
    if isinstance(v, Path):
        return Path(v.cid, [(k, subst(s, *pairs) if k == 'key' else s) for k, s in v.steps], v.ver, v.kind)
    return v


def boolV(t):
    if isinstance(t, bool):
        t = z3.BoolVal(t)
    return V(BOOL, t)


def intV(n):
    return V(INT, z3.IntVal(n))


def str_const(s):
    return z3.Const('str:' + s, USort)


# ------------------------------------------------------------------------------------------- state
class Cell:
    __slots__ = ('kind', 'ty', 't', 'owner', 'gen', 'ver', 'factory')

    def __init__(self, kind, ty, t, owner='fresh', gen=None, ver=0, factory=None):
        self.kind, self.ty, self.t, self.owner, self.gen, self.ver, self.factory = kind, ty, t, owner, gen, ver, factory

    def but(self, **kw):
        c = Cell(self.kind, self.ty, self.t, self.owner, self.gen, self.ver, self.factory)
        for k, v in kw.items():
            setattr(c, k, v)
        return c


class Scope:
    """deterministic names for the symbols a run introduces"""

    def __init__(self, prefix):
        self.prefix = prefix
        self.count = {}
        self.created = {}

    def copy(self):
        s = Scope(self.prefix)
        s.count = dict(self.count)
        s.created = dict(self.created)
        return s

    def name(self, tag):
        n = self.count.get(tag, 0)
        self.count[tag] = n + 1
        return '%s%s#%d' % (self.prefix, tag, n)

    def fresh(self, tag, ty):
        s = ty.sort if isinstance(ty, Ty) else ty
        c = z3.Const(self.name(tag), s)
        self.created[c.decl().name()] = c
        return c


class State:
    def __init__(self):
        self.heap, self.objs, self.envs = {}, {}, {}
        self.pc, self.facts = [], []
        self.scope = Scope('')
        self.derived = {}
        self.nid = 0
        self.bag = None

    def copy(self):
        s = State()
        s.heap = dict(self.heap)
        s.objs = {k: (c, dict(a)) for k, (c, a) in self.objs.items()}
        s.envs = {k: dict(e) for k, e in self.envs.items()}
        s.pc, s.facts = list(self.pc), list(self.facts)
        s.scope = self.scope.copy()
        s.derived = dict(self.derived)
        s.nid = self.nid
        s.bag = None if self.bag is None else list(self.bag)
        return s

    def become(self, o):
        """take over the contents of another state"""
        o = o.copy()
        self.__dict__.update(o.__dict__)

    def hyps(self):
        return self.facts + self.pc

    def new_id(self):
        self.nid += 1
        return self.nid

    def new_cell(self, kind, ty=None, t=None, **kw):
        cid = self.new_id()
        self.heap[cid] = Cell(kind, ty, t, **kw)
        return Ref(cid)

    def new_list(self, items):
        cid = self.new_id()
        self.heap[cid] = Cell('list', None, list(items))
        return Lst(cid)

    def new_env(self, d, parent=None, funinfo=None):
        eid = self.new_id()
        e = dict(d)
        e['$parent'] = parent
        e['$fun'] = funinfo
        self.envs[eid] = e
        return eid

    def new_obj(self, cls, attrs):
        oid = self.new_id()
        self.objs[oid] = (cls, dict(attrs))
        return Obj(oid)

    def fact(self, f):
        if not z3.is_true(f):
            self.facts.append(f)


class Ctx:
    def __init__(self, dec, shared):
        self.dec, self.i, self.taken, self.alts, self.shared = dec, 0, [], [], shared


class Obligation:
    def __init__(self, fun, desc, hyps, goal, kind):
        self.fun, self.desc, self.hyps, self.goal, self.kind = fun, desc, hyps, goal, kind
        self.result = None


# ------------------------------------------------------------------------------------------- source
class ClassInfo:
    def __init__(self, name, node, mod):
        self.name, self.node, self.mod = name, node, mod
        self.bases = [b.id for b in node.bases if isinstance(b, ast.Name)]
        self.methods = {n.name: n for n in node.body if isinstance(n, ast.FunctionDef)}


class Program:
    def __init__(self, root):
        self.classes, self.functions, self.modules = {}, {}, {}
        d = os.path.join(root, 'scripts', 'relnet')
        for f in sorted(os.listdir(d)):
            if f.endswith('.py'):
                src = open(os.path.join(d, f)).read()
                tree = ast.parse(src)
                m = f[:-3]
                self.modules[m] = tree
                for n in tree.body:
                    if isinstance(n, ast.ClassDef):
                        self.classes[n.name] = ClassInfo(n.name, n, m)
                    elif isinstance(n, ast.FunctionDef):
                        self.functions[n.name] = (n, m)

    def mro(self, cls):
        out = []
        todo = [cls]
        while todo:
            c = todo.pop(0)
            if c in self.classes and c not in out:
                out.append(c)
                todo += self.classes[c].bases
        return out

    def find(self, cls, name):
        for c in self.mro(cls):
            if name in self.classes[c].methods:
                return c, self.classes[c].methods[name]
        return None, None

    def is_sub(self, a, b):
        return b in self.mro(a)


SET_KINDS = ('set',)
MODS = {'isclose', 'prod', 'defaultdict', 'os', 'math', 'functools', 'itertools', 'reduce', 'chain', 'Counter'}
BUILTINS = {'len', 'sum', 'any', 'all', 'sorted', 'list', 'set', 'frozenset', 'dict', 'tuple', 'bool', 'int', 'float',
            'str', 'id', 'hash', 'isinstance', 'next', 'iter', 'print', 'abs', 'super', 'min', 'max', 'filter', 'map',
            'repr', 'enumerate', 'zip', 'range', 'reversed', 'callable', 'type', 'object'}
EXCS = {'AssertionError', 'KeyError', 'ValueError', 'StopIteration', 'IndexError', 'ZeroDivisionError', 'TypeError',
        'NotImplementedError', 'RuntimeError', 'Exception', 'AttributeError'}


def card2_axioms():
    """a set of two elements is the set of its two chosen elements (pa, pb are choice functions)"""
    out = []
    for ty in (SetT(NODE), SetT(TupT(U, U)), SetT(U)):
        s = fresh('s', ty)
        x = fresh('x', ty.elem)
        pa = z3.Function('pa<%s>' % ty.name, ty.sort, ty.elem.sort)
        pb = z3.Function('pb<%s>' % ty.name, ty.sort, ty.elem.sort)
        c = CARD(s)
        body = implies(c == 2, and_(z3.Select(s, pa(s)), z3.Select(s, pb(s)), pa(s) != pb(s),
                                    forall(x, implies(z3.Select(s, x), or_(x == pa(s), x == pb(s))))))
        cs = z3.Const('s', ty.sort)
        ax = z3.ForAll([cs], z3.substitute(body, (s, cs)), patterns=[z3.substitute(c, (s, cs))])
        out.append(('card2', [c.decl().name()], ax))
    return out


class Engine:
    def __init__(self, program, contracts, data, classes):
        """contracts: qualname -> Contract; data: class name -> (DataTy, ctor parameter per field);
        classes: class name -> ClassSpec of mutable classes"""
        self.p, self.contracts, self.data, self.classes = program, contracts, data, classes
        self.by_ty = {ty.name: c for c, (ty, _) in data.items()}
        self.ctx = []
        self.nofork = 0
        self.dry = 0
        self.obls = []
        self.cur = None
        self.depth = 0
        self.feas = {}
        self.inline_only = set()
        self.called = set()
        self.inlined = set()
        self.stack = []
        self.trivial = []
        self.inv = None          # loop invariant of the contract being verified
        self.used = set()        # contracts relied on at call sites

    # ------------------------------------------------------------------ obligations and paths
    def oblige(self, st, cond, desc, kind='safety'):
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        cond = norm(cond)
        if z3.is_true(cond):
            if not self.dry:
                self.trivial.append((self.cur, desc, kind))
            return
        if not self.dry:
            self.obls.append(Obligation(self.cur, desc, st.hyps(), cond, kind))
        st.fact(cond)

    def is_proved(self, hyps, goal, plan='quick'):
        goal = norm(goal)
        if z3.is_true(goal):
            return True
        key = (tuple(h.get_id() for h in hyps), goal.get_id(), plan)
        c = self.feas.get(key)
        if c is None:
            c = (list(hyps), goal, prove(hyps, goal, plan).ok)
            self.feas[key] = c
        return c[2]

    def branch(self, st, cond):
        if isinstance(cond, bool):
            return cond
        cond = norm(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        for h in st.pc:
            if h.eq(cond):
                return True
            if h.eq(not_(cond)):
                return False
        if self.nofork:
            raise ForkNeeded()
        c = self.ctx[-1]
        if c.i < len(c.dec):
            ch = c.dec[c.i]
        else:
            hy = st.hyps()
            t_ok = not self.is_proved(hy, not_(cond))
            f_ok = not self.is_proved(hy, cond)
            if not t_ok and not f_ok:
                raise Infeasible()
            if t_ok and f_ok:
                c.alts.append(list(c.taken) + [False])
            ch = t_ok
        c.taken.append(ch)
        c.i += 1
        st.pc.append(cond if ch else not_(cond))
        return ch

    def choose(self, n):
        """n-way choice"""
        if n == 1:
            return 0
        if self.nofork:
            raise ForkNeeded()
        c = self.ctx[-1]
        if c.i < len(c.dec):
            ch = c.dec[c.i]
        else:
            ch = 0
            for k in range(1, n):
                c.alts.append(list(c.taken) + [k])
        c.taken.append(ch)
        c.i += 1
        return ch

    def run_paths(self, st0, thunk, limit=64):
        out = []
        todo = [[]]
        shared = {}
        saved = self.nofork
        self.nofork = 0
        mark = len(self.obls)
        while todo:
            dec = todo.pop(0)
            st = st0.copy()
            ctx = Ctx(dec, shared)
            self.ctx.append(ctx)
            omark = len(self.obls)
            try:
                res = ('next', thunk(st))
            except ReturnSig as r:
                res = ('return', r.value)
            except BreakSig:
                res = ('break', None)
            except ContinueSig:
                res = ('next', None)
            except PyExc as e:
                res = ('raise', e.name)
            except Infeasible:
                res = None
            except Dead:
                res = 'dead'
            finally:
                self.ctx.pop()
                self.nofork = saved
            self.nofork = 0
            todo += ctx.alts
            if res is None:
                del self.obls[omark:]
                continue
            if res == 'dead':
                continue
            out.append((st, res))
            if len(out) > limit:
                raise Unsupported('too many paths')
        self.nofork = saved
        return out

    # ------------------------------------------------------------------ terms of values
    def deref(self, st, v):
        """follow alias cells"""
        while isinstance(v, Ref) and st.heap[v.cid].kind == 'alias':
            v = st.heap[v.cid].t
        if isinstance(v, Lst) and st.heap[v.cid].kind == 'seq':
            v = st.heap[v.cid].t
            return Tup([]) if v is None else v
        return v

    def items_of(self, st, v):
        if isinstance(v, Tup):
            return v.items
        c = st.heap[v.cid]
        if c.kind != 'list':
            raise Unsupported('list read while a loop builds it')
        return c.t

    def type_of(self, st, v):
        v = self.deref(st, v)
        if isinstance(v, V):
            return v.ty
        if isinstance(v, Ref):
            return st.heap[v.cid].ty
        if isinstance(v, Path):
            return self.path_ty(st, v)
        if isinstance(v, Tup):
            ts = [self.type_of(st, i) for i in v.items]
            if any(t is None for t in ts):
                return None
            return TupT(*ts)
        if isinstance(v, Obj):
            cls, at = st.objs[v.oid]
            names = sorted(n for n in at if not n.startswith('$'))
            ts = [self.type_of(st, at[n]) for n in names]
            return None if any(t is None for t in ts) else ObjTy(cls, names, ts)
        return None

    def path_ty(self, st, p):
        ty = st.heap[p.cid].ty
        for k, s in p.steps:
            ty = ty.v if k == 'key' else ty.ts[s]
        return ty

    def term(self, st, v, want=None):
        """term of a value, coerced to type want"""
        v = self.deref(st, v)
        if isinstance(v, V):
            t, ty = v.t, v.ty
        elif isinstance(v, Ref):
            c = st.heap[v.cid]
            if c.ty is None:
                if want is None:
                    raise Unsupported('type of an empty container unknown')
                return self.empty_of(want)
            t, ty = c.t, c.ty
        elif isinstance(v, Path):
            t, ty = self.path_get(st, v), self.path_ty(st, v)
        elif isinstance(v, Tup):
            if isinstance(want, TupT) and len(want.ts) == len(v.items):
                return want.mk(*[self.term(st, i, w) for i, w in zip(v.items, want.ts)])
            ts = [self.type_of(st, i) for i in v.items]
            if any(x is None for x in ts):
                raise Unsupported('type of a tuple item unknown')
            ty = TupT(*ts)
            t = ty.mk(*[self.term(st, i) for i in v.items])
        elif isinstance(v, View):
            return self.term(st, self.view_set(st, v), want)
        elif isinstance(v, Obj):
            ty = self.type_of(st, v)
            if ty is None:
                raise Unsupported('object with attributes of unknown type')
            t = ty.mk(*[self.term(st, st.objs[v.oid][1][n]) for n in ty.names])
        elif isinstance(v, Lst):
            items = st.heap[v.cid].t
            raise Unsupported('list used as a term')
        else:
            raise Unsupported('no term for %r' % (v,))
        if want is None or ty == want:
            return t
        return self.coerce(t, ty, want)

    def coerce(self, t, ty, want):
        if ty == want:
            return t
        if ty == INT and want == REAL:
            return z3.ToReal(t)
        if ty == BOOL and want == INT:
            return ite(t, z3.IntVal(1), z3.IntVal(0))
        if isinstance(want, UnionTy) and ty in want.alts:
            return want.inj(want.alts.index(ty), t)
        if isinstance(ty, SetT) and isinstance(want, SetT):
            if isinstance(want.elem, UnionTy) and ty.elem in want.elem.alts:
                i = want.elem.alts.index(ty.elem)
                return setof(want.elem, lambda y: and_(want.elem.isa(i, y), sel(t, want.elem.proj(i, y))))
        if isinstance(ty, DictT) and isinstance(want, DictT) and ty.k == want.k:
            return dict_make(want, lambda k: sel(ty.dom(t), k), lambda k: self.coerce(sel(ty.val(t), k), ty.v, want.v))
        if isinstance(ty, TupT) and isinstance(want, TupT) and len(ty.ts) == len(want.ts) and type(ty) is type(want):
            return want.mk(*[self.coerce(ty.get(t, i), a, b) for i, (a, b) in enumerate(zip(ty.ts, want.ts))])
        if is_none_term(t) and want == P:
            return z3.Const('NoneProv', PSort)
        raise Unsupported('cannot use %s as %s' % (ty, want))

    def join_ty(self, a, b):
        if a is None or a == b:
            return b
        if b is None:
            return a
        if {a, b} == {INT, REAL}:
            return REAL
        if {a, b} <= {NODE, EDGE} or (a == NE and b in NE.alts) or (b == NE and a in NE.alts):
            return NE
        for p, q in ((a, b), (b, a)):
            if p == UV and q in UV.alts or p == U and q == SetT(U):
                return UV
        if isinstance(a, ObjTy) or isinstance(b, ObjTy):
            if isinstance(a, ObjTy) and isinstance(b, ObjTy) and (a.cls, a.names) == (b.cls, b.names):
                return ObjTy(a.cls, a.names, [self.join_ty(x, y) for x, y in zip(a.ts, b.ts)])
            raise Unsupported('mixed types %s and %s' % (a, b))
        if isinstance(a, TupT) and isinstance(b, TupT) and len(a.ts) == len(b.ts):
            return TupT(*[self.join_ty(x, y) for x, y in zip(a.ts, b.ts)])
        if isinstance(a, SetT) and isinstance(b, SetT):
            return SetT(self.join_ty(a.elem, b.elem))
        if isinstance(a, DictT) and isinstance(b, DictT):
            return DictT(self.join_ty(a.k, b.k), self.join_ty(a.v, b.v))
        raise Unsupported('mixed types %s and %s' % (a, b))

    def empty_of(self, ty):
        if isinstance(ty, SetT):
            return empty_set(ty.elem)
        if isinstance(ty, DictT):
            return dict_empty(ty)
        raise Unsupported('empty %s' % ty)

    # ------------------------------------------------------------------ cells
    def path_get(self, st, p):
        c = st.heap[p.cid]
        if c.ver != p.ver:
            raise Unsupported('alias into a container that was restructured')
        t, ty = c.t, c.ty
        for k, s in p.steps:
            if k == 'key':
                t, ty = sel(ty.val(t), s), ty.v
            else:
                t, ty = ty.get(t, s), ty.ts[s]
        return t

    def path_set(self, st, p, new, newty):
        c = st.heap[p.cid]
        if c.ver != p.ver:
            raise Unsupported('alias into a container that was restructured')
        if self.path_ty(st, p) != newty:
            want = self.retype(c.ty, p.steps, newty)
            st.heap[p.cid] = c = c.but(t=self.coerce(c.t, c.ty, want), ty=want)

        def upd(t, ty, steps):
            if not steps:
                return new
            k, s = steps[0]
            if k == 'key':
                inner = upd(sel(ty.val(t), s), ty.v, steps[1:])
                return ty.mk(ty.dom(t), z3.Store(ty.val(t), s, inner))
            comps = [ty.get(t, i) for i in range(len(ty.ts))]
            comps[s] = upd(comps[s], ty.ts[s], steps[1:])
            return ty.mk(*comps)
        self.check_mutable(st, p.cid)
        st.heap[p.cid] = c.but(t=upd(c.t, c.ty, p.steps), gen=None)

    def retype(self, ty, steps, new):
        if not steps:
            return new
        k, s = steps[0]
        if k == 'key':
            return DictT(ty.k, self.retype(ty.v, steps[1:], new))
        ts = list(ty.ts)
        ts[s] = self.retype(ts[s], steps[1:], new)
        return ObjTy(ty.cls, ty.names, ts) if isinstance(ty, ObjTy) else TupT(*ts)

    def check_mutable(self, st, cid):
        o = st.heap[cid].owner
        if o == 'immut':
            self.oblige(st, FALSE, 'a container inside a built (immutable) object is modified', 'frame')
            raise Dead()

    def content(self, st, v):
        """(kind, ty, term) of a container value"""
        v = self.deref(st, v)
        if isinstance(v, Ref):
            c = st.heap[v.cid]
            return c.kind, c.ty, c.t
        if isinstance(v, Path):
            ty = self.path_ty(st, v)
            return v.kind, ty, self.path_get(st, v)
        if isinstance(v, V) and isinstance(v.ty, SetT):
            return 'frozenset', v.ty, v.t
        if isinstance(v, V) and isinstance(v.ty, DictT):
            return 'dict', v.ty, v.t
        if isinstance(v, View):
            s = self.view_set(st, v)
            return 'frozenset', s.ty, s.t
        if isinstance(v, Seq):
            s = self.to_set(st, v)
            return self.content(st, s)
        return None, None, None

    def set_content(self, st, v, ty, t, restructure=False):
        v = self.deref(st, v)
        if isinstance(v, Ref):
            self.check_mutable(st, v.cid)
            c = st.heap[v.cid]
            st.heap[v.cid] = c.but(ty=ty, t=t, gen=None, ver=c.ver + (1 if restructure else 0))
        elif isinstance(v, Path):
            self.path_set(st, v, t, ty)
        else:
            raise Unsupported('mutation of an immutable value')

    def view_set(self, st, v):
        """view as an immutable set value (keys, items) with its generator"""
        k, ty, t = self.content(st, v.ref)
        if ty is None:
            raise Unsupported('view of an empty untyped dict')
        d = self.to_dom(st, v)
        if v.kind == 'keys':
            return V(SetT(ty.k), ty.dom(t), d)
        if v.kind == 'items':
            pt = TupT(ty.k, ty.v)
            s = setof(pt, lambda y: and_(sel(ty.dom(t), pt.get(y, 0)), eq_term(pt.get(y, 1), sel(ty.val(t), pt.get(y, 0)))))
            return V(SetT(pt), s, d)
        s = setof(ty.v, lambda y: self._ex(ty.k, lambda k: and_(sel(ty.dom(t), k), eq_term(sel(ty.val(t), k), y))))
        return V(SetT(ty.v), s, d)

    def _ex(self, ty, f):
        x = fresh('x', ty)
        return exists(x, f(x))

    def wrap(self, ty, t):
        """value for a term"""
        return V(ty, t)

    def to_dom(self, st, v):
        """Dom of an iterable, or None if it is empty, or a python list of values if known"""
        v = self.deref(st, v)
        if isinstance(v, Iter):
            return self.to_dom(st, v.v)
        if isinstance(v, Seq):
            return v.dom
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Lst):
            return list(self.items_of(st, v))
        if isinstance(v, View):
            k, ty, t = self.content(st, v.ref)
            if ty is None:
                return []
            x = fresh('k', ty.k)
            g = sel(ty.dom(t), x)
            if v.kind == 'keys':
                return Dom(x, g, V(ty.k, x), True)
            ref = self.deref(st, v.ref)
            if isinstance(ty.v, (SetT, DictT, ObjTy)) and isinstance(ref, (Ref, Path)) and not (isinstance(ref, Ref) and st.heap[ref.cid].owner == 'immut'):
                # the containers themselves, not copies
                w = Path(ref.cid, (ref.steps if isinstance(ref, Path) else []) + [('key', x)],
                         ref.ver if isinstance(ref, Path) else st.heap[ref.cid].ver, 'dict' if isinstance(ty.v, DictT) else 'set')
            else:
                w = V(ty.v, sel(ty.val(t), x))
            if v.kind == 'values':
                return Dom(x, g, w, False)
            return Dom(x, g, Tup([V(ty.k, x), w]), True)
        if isinstance(v, V) and v.gen is not None and v.gen.inj:
            return v.gen
        if isinstance(v, Ref) and st.heap[v.cid].gen is not None and st.heap[v.cid].gen.inj:
            return st.heap[v.cid].gen
        if isinstance(v, V) and isinstance(v.ty, TupT):
            return [V(t, v.ty.get(v.t, i)) for i, t in enumerate(v.ty.ts)]
        if isinstance(v, V) and isinstance(v.ty, ListT):
            x = fresh('i', INT)
            return Dom(x, and_(x >= 0, x < v.ty.len(v.t)), V(v.ty.elem, sel(v.ty.at(v.t), x)), False)
        k, ty, t = self.content(st, v)
        if k is None:
            raise Unsupported('cannot iterate over %r' % (v,))
        if ty is None:
            return []
        if isinstance(ty, DictT):
            x = fresh('k', ty.k)
            return Dom(x, sel(ty.dom(t), x), V(ty.k, x), True)
        if isinstance(ty, ListT):
            x = fresh('i', INT)
            return Dom(x, and_(x >= 0, x < ty.len(t)), V(ty.elem, sel(ty.at(t), x)), False)
        x = fresh('x', ty.elem)
        return Dom(x, sel(t, x), V(ty.elem, x), True)

    def to_set(self, st, v):
        """immutable set value of an iterable (None type if empty)"""
        v = self.deref(st, v)
        k, ty, t = (None, None, None) if isinstance(v, Seq) else self.content(st, v)
        if k is not None and isinstance(ty, SetT):
            gen = v.gen if isinstance(v, V) else (st.heap[v.cid].gen if isinstance(v, Ref) else None)
            return V(ty, t, gen)
        d = self.to_dom(st, v)
        if isinstance(d, list):
            if not d:
                return None
            ty = None
            for e in d:
                ty = self.join_ty(ty, self.type_of(st, e))
            t = empty_set(ty)
            for e in d:
                t = insert(t, self.term(st, e, ty))
            return V(SetT(ty), t)
        et = self.type_of(st, d.elem)
        if et is None:
            raise Unsupported('set of untyped elements')
        e = self.term(st, d.elem)
        if e.eq(d.x):
            s = lam(d.x, d.guard)
        else:
            s = setof(et, lambda y: exists(d.x, and_(d.guard, eq_term(y, e))))
        return V(SetT(et), s, d if d.inj else None)

    def truth(self, st, v):
        """truth value as a term"""
        v = self.deref(st, v)
        if isinstance(v, V):
            if v.ty == BOOL:
                return v.t
            if v.ty == U:
                if v.t.eq(NONE):
                    return FALSE
                return truthyU(v.t)
            if v.ty in (INT, REAL):
                return not_(eq_term(v.t, T._zero(v.t.sort())))
            if v.ty == P:
                return TRUE
            if isinstance(v.ty, SetT):
                return not_(is_empty(v.t))
            if isinstance(v.ty, DictT):
                return not_(is_empty(v.ty.dom(v.t)))
            if isinstance(v.ty, TupT):
                return z3.BoolVal(len(v.ty.ts) > 0)
            if isinstance(v.ty, ListT):
                return v.ty.len(v.t) > 0
            cls = self.by_ty.get(v.ty.name)
            if cls:
                return self.obj_truth(st, v, cls)
        if isinstance(v, (Ref, Path)):
            k, ty, t = self.content(st, v)
            if ty is None:
                return FALSE
            if isinstance(ty, DictT):
                return not_(is_empty(ty.dom(t)))
            return not_(is_empty(t))
        if isinstance(v, Obj):
            return self.obj_truth(st, v, st.objs[v.oid][0])
        if isinstance(v, Tup):
            return z3.BoolVal(bool(v.items))
        if isinstance(v, Lst):
            return z3.BoolVal(bool(self.items_of(st, v)))
        if isinstance(v, Seq):
            return exists(v.dom.x, v.dom.guard)
        if isinstance(v, View):
            return self.truth(st, v.ref)
        if isinstance(v, (Fun, Bound, Cls, Builtin, Method)):
            return TRUE
        raise Unsupported('truth of %r' % (v,))

    def obj_truth(self, st, v, cls):
        for m in ('__bool__', '__len__'):
            c, f = self.p.find(cls, m)
            if f is not None:
                r = self.call(st, Bound(v, Fun(f, None, c, self.p.classes[c].mod, c + '.' + m)), [], {})
                return self.truth(st, r)
        return TRUE

    def equal(self, st, a, b):
        """== as a term"""
        a, b = self.deref(st, a), self.deref(st, b)
        if isinstance(a, IdOf) and isinstance(b, IdOf):
            return self.identical(st, a.v, b.v)
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return FALSE
            return and_(*[self.equal(st, x, y) for x, y in zip(a.items, b.items)])
        for p, q in ((a, b), (b, a)):
            if isinstance(p, Tup) and isinstance(q, V) and isinstance(q.ty, TupT):
                if len(p.items) != len(q.ty.ts):
                    return FALSE
                return and_(*[self.equal(st, x, V(t, q.ty.get(q.t, i)))
                              for i, (x, t) in enumerate(zip(p.items, q.ty.ts))])
        if isinstance(a, Obj) or isinstance(b, Obj):
            if isinstance(a, Obj) and isinstance(b, Obj) and a.oid == b.oid:
                return TRUE
            raise Unsupported('comparison of objects')
        for p, q in ((a, b), (b, a)):
            if isinstance(p, Ref) and st.heap[p.cid].ty is None:
                return not_(self.truth(st, q))
        ta, tb = self.type_of(st, a), self.type_of(st, b)
        if ta is None or tb is None:
            raise Unsupported('comparison of %r and %r' % (a, b))
        if ta == tb:
            if isinstance(a, V) and self.by_ty.get(ta.name):
                # equality of the repository's value classes: their contract (C01, C03, C10) is equality of content
                if ta in (NODEI, EDGEI):
                    bt = self.term(st, b)
                    return and_(*[eq_term(ta.get(a.t, i), ta.get(bt, i)) for i in (0, 1)])
                return eq_term(a.t, self.term(st, b))
            return eq_term(self.term(st, a), self.term(st, b))
        if {ta, tb} <= {INT, REAL, BOOL}:
            w = REAL if REAL in (ta, tb) else INT
            return eq_term(self.term(st, a, w), self.term(st, b, w))
        for p, q in ((ta, tb), (tb, ta)):
            if p == U and isinstance(q, (SetT, DictT, TupT)) or p == U and q in (NODE, EDGE, SG, SS, P):
                if (a if p is ta else b).t.eq(NONE):
                    return FALSE
                raise Unsupported('comparison of an arbitrary object with %s' % q)
        try:
            w = self.join_ty(ta, tb)
            return eq_term(self.term(st, a, w), self.term(st, b, w))
        except Unsupported:
            pass
        return FALSE

    def identical(self, st, a, b):
        a, b = self.deref(st, a), self.deref(st, b)
        if a is b:
            return TRUE
        if is_none(a) or is_none(b):
            o = b if is_none(a) else a
            if isinstance(o, V) and o.ty == U:
                return eq_term(o.t, NONE)
            return z3.BoolVal(is_none(o))
        if isinstance(a, V) and isinstance(b, V) and a.ty == b.ty == P:
            return eq_term(a.t, b.t)
        if isinstance(a, Obj) and isinstance(b, Obj):
            return z3.BoolVal(a.oid == b.oid)
        if isinstance(a, V) and isinstance(b, V) and a.ty == b.ty == BOOL:
            return eq_term(a.t, b.t)
        raise Unsupported('identity of %r and %r' % (a, b))

    def contains(self, st, x, c):
        c = self.deref(st, c)
        if isinstance(c, View):
            if c.kind == 'keys':
                return self.contains(st, x, c.ref)
            c = self.view_set(st, c) if self.content(st, c.ref)[1] is not None else Tup([])
        if isinstance(c, (Tup, Lst)):
            items = c.items if isinstance(c, Tup) else self.items_of(st, c)
            return or_(*[self.equal(st, x, i) for i in items])
        if isinstance(c, Seq):
            return exists(c.dom.x, and_(c.dom.guard, self.equal(st, x, c.dom.elem)))
        k, ty, t = self.content(st, c)
        if k is None:
            raise Unsupported('in %r' % (c,))
        if ty is None:
            return FALSE
        if isinstance(ty, DictT):
            return sel(ty.dom(t), self.term(st, x, ty.k))
        if isinstance(ty, SetT):
            xt = self.type_of(st, x)
            if xt is not None and xt != ty.elem and not isinstance(ty.elem, UnionTy):
                try:
                    return sel(t, self.term(st, x, ty.elem))
                except Unsupported:
                    if {xt, ty.elem} & {NODE, EDGE, SG}:
                        return FALSE
                    raise
            return sel(t, self.term(st, x, ty.elem))
        raise Unsupported('in %s' % ty)

    # ------------------------------------------------------------------ attributes
    def derive(self, st, v, cls):
        """attributes of an immutable object, by running its real __init__ on its fields"""
        key = (cls, v.t.get_id())
        if key in st.derived:
            return st.derived[key][1]
        ty, params = self.data[cls]
        attrs = self.run_init(st, cls, {p: V(ft, ty.get(v.t, i)) for i, (p, (_, ft)) in enumerate(zip(params, ty.fields))},
                              pure=True)
        st.derived[key] = (v.t, attrs)
        return attrs

    def run_init(self, st, cls, given, pure):
        c, f = self.p.find(cls, '__init__')
        if f is None:
            raise Unsupported('%s has no __init__' % cls)
        o = st.new_obj(cls, {})
        args = {}
        names = [a.arg for a in f.args.args[1:]] + [a.arg for a in f.args.kwonlyargs]
        for n in names:
            if n in given:
                v = given[n]
                if isinstance(v, V) and isinstance(v.ty, DictT):
                    v = st.new_cell('dict', v.ty, v.t, owner='immut')
                args[n] = v
            else:
                args[n] = V(U, z3.Const('opaque:%s.%s' % (cls, n), USort))
        fun = Fun(f, None, c, self.p.classes[c].mod, c + '.__init__')
        self.dry += 1
        saved = self.nofork
        try:
            self.nofork = 1 if pure else saved
            self.invoke(st, fun, [o], args)
        except ForkNeeded:
            raise Unsupported('%s.__init__ branches on its arguments' % cls)
        except PyExc:
            raise Infeasible()
        finally:
            self.dry -= 1
            self.nofork = saved
        attrs = dict(st.objs[o.oid][1])
        for a in attrs.values():
            if isinstance(a, Ref):
                st.heap[a.cid] = st.heap[a.cid].but(owner='immut')
        del st.objs[o.oid]
        return attrs

    def stored_obj(self, st, v):
        """handle on an object stored inside a container: its containers are aliases into that container"""
        ty = self.type_of(st, v)
        at = {'$stored': NoneV}
        t = self.term(st, v)
        for i, (n, ft) in enumerate(zip(ty.names, ty.ts)):
            if isinstance(ft, (SetT, DictT)):
                if isinstance(v, Path):
                    at[n] = Path(v.cid, v.steps + [('idx', i)], v.ver, 'dict' if isinstance(ft, DictT) else 'set')
                else:
                    at[n] = V(ft, ty.get(t, i))
            elif isinstance(ft, TupT):
                raise Unsupported('nested object stored in a container')
            else:
                at[n] = V(ft, ty.get(t, i))
        return st.new_obj(ty.cls, at)

    def getattr(self, st, v, name):
        v = self.deref(st, v)
        if isinstance(v, (Path, V)) and isinstance(self.type_of(st, v), ObjTy):
            v = self.stored_obj(st, v)
        if isinstance(v, Obj):
            cls, attrs = st.objs[v.oid]
            if name in attrs:
                return attrs[name]
            return self.method(st, v, cls, name)
        if isinstance(v, V):
            if v.extra and name in v.extra:
                return v.extra[name]
            cls = self.by_ty.get(v.ty.name)
            if cls:
                c, f = self.p.find(cls, name)
                if f is not None:
                    return self.method(st, v, cls, name)
                attrs = self.derive(st, v, cls)
                if name in attrs:
                    return attrs[name]
                raise Unsupported('no attribute %s of %s' % (name, cls))
            if v.ty == P:
                return Bound(v, Builtin('Provider.' + name))
            if v.ty == U:
                m = {'relation': dr_rel, 'source_variable': dr_src, 'target_variable': dr_tgt}
                if name in m and 'DirectedRelation' in self.p.classes:
                    self.oblige(st, is_dr(v.t), 'attribute %s of something that is not a directed relation' % name)
                    return V(U, m[name](v.t))
                return Method(v, name)
        if isinstance(v, Cls):
            c, f = self.p.find(v.name, name)
            if f is not None:
                st_ = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in f.decorator_list)
                fn = Fun(f, None, c, self.p.classes[c].mod, c + '.' + name, st_)
                return fn
            raise Unsupported('class attribute %s.%s' % (v.name, name))
        if isinstance(v, Super):
            for c in self.p.mro(v.cls)[1:]:
                if name in self.p.classes[c].methods:
                    return Bound(v.self, Fun(self.p.classes[c].methods[name], None, c, self.p.classes[c].mod, c + '.' + name))
            if name == '__init__':
                return Builtin('noop')
            raise Unsupported('super().%s' % name)
        if isinstance(v, Builtin):
            return Builtin(v.name + '.' + name)
        return Method(v, name)

    def method(self, st, v, cls, name):
        c, f = self.p.find(cls, name)
        if f is None:
            raise Unsupported('no attribute %s of %s' % (name, cls))
        decs = [d.id for d in f.decorator_list if isinstance(d, ast.Name)]
        fn = Fun(f, None, c, self.p.classes[c].mod, c + '.' + name, 'staticmethod' in decs)
        if 'staticmethod' in decs:
            return fn
        if 'property' in decs:
            return self.call(st, Bound(v, fn), [], {})
        if decs and set(decs) - {'abstractmethod'}:
            raise Unsupported('decorator %s' % decs)
        return Bound(v, fn)

    def setattr(self, st, v, name, val):
        if isinstance(v, (Path, V)) and isinstance(self.type_of(st, v), ObjTy):
            raise Unsupported('attribute of an object stored in a container is assigned')
        if isinstance(v, Obj):
            if '$stored' in st.objs[v.oid][1]:
                raise Unsupported('attribute of an object stored in a container is assigned')
            st.objs[v.oid][1][name] = val
            return
        if isinstance(v, V) and self.by_ty.get(v.ty.name):
            self.oblige(st, FALSE, 'attribute %s of a built (immutable) object is assigned' % name, 'frame')
            raise Dead()
        raise Unsupported('attribute assignment on %r' % (v,))

    # ------------------------------------------------------------------ calls
    def call(self, st, f, args, kw):
        if isinstance(f, Bound):
            if isinstance(f.fun, Builtin):
                return self.builtins.provider(self, st, f.self, f.fun.name, args, kw)
            return self.call_fun(st, f.fun, [f.self] + list(args), kw)
        if isinstance(f, Fun):
            return self.call_fun(st, f, list(args), kw)
        if isinstance(f, Method):
            return self.builtins.method(self, st, f.self, f.name, args, kw)
        if isinstance(f, Builtin):
            return self.builtins.builtin(self, st, f.name, args, kw)
        if isinstance(f, Cls):
            return self.construct(st, f.name, args, kw)
        if isinstance(f, PFun):
            return V(f.retty, sel(f.arr, self.term(st, args[0], f.argty)))
        raise Unsupported('call of %r' % (f,))

    def bind(self, st, fun, args, kw):
        """parameter name -> value"""
        a = fun.node.args
        if a.vararg or a.kwarg or a.posonlyargs:
            raise Unsupported('star parameters')
        names = [x.arg for x in a.args]
        d = {}
        if len(args) > len(names):
            raise Unsupported('too many arguments')
        for n, v in zip(names, args):
            d[n] = v
        for k, v in kw.items():
            if k in d:
                raise Unsupported('duplicate argument %s' % k)
            d[k] = v
        defs = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for kn, kd in zip(a.kwonlyargs, a.kw_defaults):
            names.append(kn.arg)
            if kd is not None:
                defs[kn.arg] = kd
        for n in names:
            if n not in d:
                if n not in defs:
                    raise Unsupported('missing argument %s' % n)
                eid = st.new_env({}, fun.eid, fun)
                d[n] = self.eval(st, eid, defs[n])
        return names, d

    def call_fun(self, st, fun, args, kw):
        con = self.contracts.get(fun.qual)
        if con is not None and fun.qual not in self.inline_only and con.usable(self, st, fun, args, kw):
            names, d = self.bind(st, fun, args, kw)
            self.called.add(fun.qual)
            return con.apply(self, st, fun, [d[n] for n in names])
        return self.invoke(st, fun, args, kw)

    def invoke(self, st, fun, args, kw):
        """inline execution of the body"""
        names, d = self.bind(st, fun, args, kw)
        if len(self.stack) > 12 or self.stack.count(fun.qual) > 1:
            raise Unsupported('recursion without contract: %s' % fun.qual)
        self.stack.append(fun.qual)
        if self.cur is not None and fun.qual != self.cur:
            self.inlined.add(fun.qual)
        try:
            eid = st.new_env(d, fun.eid, fun)
            if isinstance(fun.node, ast.Lambda):
                return self.eval(st, eid, fun.node.body)
            try:
                self.block(st, eid, fun.node.body)
            except ReturnSig as r:
                return r.value
            return NoneV
        finally:
            self.stack.pop()

    def construct(self, st, cls, args, kw):
        if cls not in self.p.classes:
            raise Unsupported('construction of %s' % cls)
        if cls == 'DirectedRelation':
            c, f = self.p.find(cls, '__init__')
            names, d = self.bind(st, Fun(f, None, c, '', cls), [None] + list(args), kw)
            ts = [self.term(st, d[n], U) for n in ('source_variable', 'target_variable', 'relation')]
            return V(U, dr(*ts))
        con = self.contracts.get(cls + '.__init__')
        c, f = self.p.find(cls, '__init__')
        if f is None:
            return st.new_obj(cls, {})
        fun = Fun(f, None, c, self.p.classes[c].mod, c + '.__init__')
        if cls in self.data:
            ty, params = self.data[cls]
            names, d = self.bind(st, fun, [None] + list(args), kw)
            missing = [p for p in params if p not in d]
            if missing:
                raise Unsupported('constructor of %s has no parameter %s' % (cls, missing))
            # run the real constructor for its assertions and errors
            o = st.new_obj(cls, {})
            pre = {n: v for n, v in d.items() if n != names[0]}
            self.invoke(st, fun, [o], pre)
            attrs = st.objs.pop(o.oid)[1]
            fields = []
            for p, (_, ft) in zip(params, ty.fields):
                fields.append(self.term(st, d[p], ft))
            if ty in (NODEI, EDGEI):
                fields.append(st.scope.fresh('object', U))
            for a in attrs.values():
                a = self.deref(st, a)
                if isinstance(a, Ref):
                    self.oblige(st, z3.BoolVal(st.heap[a.cid].owner not in ('pre', 'attr')),
                                'a built %s shares a mutable container with its surroundings' % cls, 'frame')
                    for n, v in d.items():
                        v = self.deref(st, v) if v is not None else None
                        if isinstance(v, Ref) and v.cid == a.cid and cls in ('SampleSet',):
                            self.oblige(st, FALSE, 'a built %s shares the container it was constructed from' % cls, 'frame')
            extra = {n: a for n, a in attrs.items() if n in ('name', '_name')}
            return V(ty, ty.mk(*fields), None, extra)
        o = st.new_obj(cls, {})
        self.call_fun(st, fun, [o] + list(args), kw)
        return o

    # ------------------------------------------------------------------ names
    def lookup(self, st, eid, name):
        e = eid
        while e is not None:
            env = st.envs[e]
            if name in env:
                v = env[name]
                if isinstance(v, Poison):
                    raise PoisonUse(e, name)
                return v
            e = env['$parent']
        if name in self.p.classes:
            return Cls(name)
        if name in self.p.functions:
            n, m = self.p.functions[name]
            return Fun(n, None, None, m, name)
        if name in BUILTINS or name in MODS:
            return Builtin(name)
        if name in EXCS:
            return Builtin(name)
        raise Unsupported('name %s' % name)

    def env_of(self, st, eid, name):
        """environment that holds name for assignment (honours nonlocal)"""
        env = st.envs[eid]
        if name in env.get('$nonlocal', ()):
            e = env['$parent']
            while e is not None:
                if name in st.envs[e]:
                    return e
                e = st.envs[e]['$parent']
        return eid

    # ------------------------------------------------------------------ statements
    def block(self, st, eid, stmts):
        for s in stmts:
            self.stmt(st, eid, s)

    def stmt(self, st, eid, s):
        k = type(s).__name__
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise Unsupported('statement %s at line %s' % (k, getattr(s, 'lineno', '?')))
        m(st, eid, s)

    def s_Pass(self, st, eid, s):
        pass

    def s_Import(self, st, eid, s):
        pass

    def s_ImportFrom(self, st, eid, s):
        pass

    def s_Nonlocal(self, st, eid, s):
        st.envs[eid]['$nonlocal'] = tuple(st.envs[eid].get('$nonlocal', ())) + tuple(s.names)

    def s_Expr(self, st, eid, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(st, eid, s.value)

    def s_Return(self, st, eid, s):
        raise ReturnSig(NoneV if s.value is None else self.eval(st, eid, s.value))

    def s_Break(self, st, eid, s):
        raise BreakSig()

    def s_Continue(self, st, eid, s):
        raise ContinueSig()

    def s_Assert(self, st, eid, s):
        if not self.branch(st, self.cond(st, eid, s.test)):
            raise PyExc('AssertionError')

    def s_Raise(self, st, eid, s):
        e = s.exc
        if isinstance(e, ast.Call):
            e = e.func
        raise PyExc(e.id if isinstance(e, ast.Name) else 'unknown')

    def s_If(self, st, eid, s):
        if self.branch(st, self.cond(st, eid, s.test)):
            self.block(st, eid, s.body)
        else:
            self.block(st, eid, s.orelse)

    def s_FunctionDef(self, st, eid, s):
        info = st.envs[eid]['$fun']
        qual = (info.qual if info else '?') + '/' + s.name
        st.envs[eid][s.name] = Fun(s, eid, info.cls if info else None, info.mod if info else '', qual)

    def s_Assign(self, st, eid, s):
        v = self.eval(st, eid, s.value)
        for t in s.targets:
            self.assign(st, eid, t, v)

    def s_AnnAssign(self, st, eid, s):
        if s.value is not None:
            self.assign(st, eid, s.target, self.eval(st, eid, s.value))

    def s_Delete(self, st, eid, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.builtins.method(self, st, self.eval(st, eid, t.value), '__delitem__', [self.eval(st, eid, t.slice)], {})
            elif isinstance(t, ast.Name):
                st.envs[eid].pop(t.id, None)
            else:
                raise Unsupported('del')

    def assign(self, st, eid, t, v):
        if isinstance(t, ast.Name):
            st.envs[self.env_of(st, eid, t.id)][t.id] = self.fold(st, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(st, v, len(t.elts))
            for a, b in zip(t.elts, items):
                self.assign(st, eid, a, b)
        elif isinstance(t, ast.Attribute):
            self.setattr(st, self.eval(st, eid, t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(st, self.eval(st, eid, t.value), self.eval(st, eid, t.slice), v)
        else:
            raise Unsupported('assignment to %s' % type(t).__name__)

    def fold(self, st, v):
        """v by its name, if it provably is the value of a function the contract names"""
        ops = st.envs['ghost'].get('folds') if 'ghost' in st.envs else None
        if not ops or not isinstance(v, V) or getattr(v, 'kind', None) == 'mut':
            return v
        for op in ops:
            if z3.is_app(v.t) and v.t.decl().eq(op.f):
                continue
            try:
                if self.join_ty(v.ty, op.retty) != op.retty:
                    continue
                t = norm(self.coerce(v.t, v.ty, op.retty))
            except Unsupported:
                continue
            seen = []
            for a in T.subterms(t):
                if a.sort() == op.argtys[0].sort and z3.is_app(a) and not T.has_bound(a) and not any(a.eq(b) for b in seen):
                    seen.append(a)
            for a in seen[:6]:
                goal = norm(eq_term(t, norm(op.define(a))))
                if z3.is_true(goal) or prove(st.hyps(), goal, "mid").ok:
                    return V(op.retty, op(a), v.gen, v.extra, v.kind)
        return v

    def unpack(self, st, v, n):
        v = self.deref(st, v)
        if isinstance(v, Tup):
            if len(v.items) != n:
                raise Unsupported('unpacking')
            return v.items
        if isinstance(v, V) and isinstance(v.ty, TupT):
            if len(v.ty.ts) != n:
                raise Unsupported('unpacking')
            return [V(t, v.ty.get(v.t, i)) for i, t in enumerate(v.ty.ts)]
        if isinstance(v, Path):
            ty = self.path_ty(st, v)
            if isinstance(ty, TupT) and len(ty.ts) == n:
                return [self.sub_path(st, v, ('idx', i), t) for i, t in enumerate(ty.ts)]
        if isinstance(v, Lst) and len(self.items_of(st, v)) == n:
            return list(self.items_of(st, v))
        if isinstance(v, Seq) or isinstance(v, Ref) or (isinstance(v, V) and isinstance(v.ty, SetT)):
            # unpacking a set or list of exactly n elements
            sq = v if isinstance(v, Seq) else Seq(self.to_dom(st, v))
            if isinstance(sq.dom, list):
                raise Unsupported('unpacking')
            return [self.seq_index(st, sq, z3.IntVal(i), exact=n) for i in range(n)]
        raise Unsupported('unpacking of %r' % (v,))

    def sub_path(self, st, p, step, ty):
        if isinstance(ty, (SetT, DictT, TupT)):
            return Path(p.cid, p.steps + [step], p.ver, 'dict' if isinstance(ty, DictT) else 'set')
        t = self.path_get(st, p)
        pt = self.path_ty(st, p)
        return V(ty, pt.get(t, step[1]) if step[0] == 'idx' else sel(pt.val(t), step[1]))

    def s_AugAssign(self, st, eid, s):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(st, eid, t.id)
            new = self.aug(st, s.op, old, self.eval(st, eid, s.value))
            if new is not None:
                st.envs[self.env_of(st, eid, t.id)][t.id] = new
        elif isinstance(t, ast.Attribute):
            o = self.eval(st, eid, t.value)
            new = self.aug(st, s.op, self.getattr(st, o, t.attr), self.eval(st, eid, s.value))
            if new is not None:
                self.setattr(st, o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            c = self.eval(st, eid, t.value)
            k = self.eval(st, eid, t.slice)
            old = self.getitem(st, c, k)
            new = self.aug(st, s.op, old, self.eval(st, eid, s.value))
            if new is not None:
                self.setitem(st, c, k, new, present=True)
        else:
            raise Unsupported('augmented assignment')

    def aug(self, st, op, old, val):
        """new value, or None if old was updated in place"""
        old = self.deref(st, old)
        if isinstance(old, (Ref, Path)):
            m = {'BitOr': 'update', 'Sub': 'difference_update', 'BitAnd': 'intersection_update',
                 'BitXor': 'symmetric_difference_update'}.get(type(op).__name__)
            if m is None:
                raise Unsupported('augmented assignment')
            self.builtins.method(self, st, old, m, [val], {})
            return None
        if isinstance(old, Lst):
            self.builtins.method(self, st, old, 'extend', [val], {})
            return None
        return self.binop(st, op, old, val)

    def s_For(self, st, eid, s):
        if s.type_comment:
            pass
        it = self.eval(st, eid, s.iter)

        def body(st2, elem):
            self.assign(st2, eid, s.target, elem)
            self.block(st2, eid, s.body)
        self.loops.for_loop(self, st, eid, s, it, body)
        if s.orelse:
            if st.envs[eid].pop('$broke', False):
                return
            self.block(st, eid, s.orelse)
        else:
            st.envs[eid].pop('$broke', None)

    def s_While(self, st, eid, s):
        self.loops.while_loop(self, st, eid, s)

    # ------------------------------------------------------------------ expressions
    def cond(self, st, eid, e):
        return self.truth(st, self.eval(st, eid, e))

    def eval(self, st, eid, e):
        k = type(e).__name__
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression %s at line %s' % (k, getattr(e, 'lineno', '?')))
        return m(st, eid, e)

    def e_Constant(self, st, eid, e):
        v = e.value
        if v is None:
            return NoneV
        if isinstance(v, bool):
            return boolV(v)
        if isinstance(v, int):
            return intV(v)
        if isinstance(v, float):
            return V(REAL, z3.RealVal(repr(v)))
        if isinstance(v, str):
            return V(U, str_const(v))
        raise Unsupported('constant %r' % (v,))

    def e_Name(self, st, eid, e):
        return self.lookup(st, eid, e.id)

    def e_NamedExpr(self, st, eid, e):
        v = self.eval(st, eid, e.value)
        self.assign(st, eid, e.target, v)
        return v

    def e_JoinedStr(self, st, eid, e):
        return V(U, st.scope.fresh('str', U), None, None, 'str')

    def e_Attribute(self, st, eid, e):
        return self.getattr(st, self.eval(st, eid, e.value), e.attr)

    def e_Tuple(self, st, eid, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            raise Unsupported('starred')
        return Tup([self.eval(st, eid, x) for x in e.elts])

    def e_List(self, st, eid, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(st, eid, x.value)
                if len(e.elts) == 1:
                    return self.builtins.builtin(self, st, 'list', [v], {})
                d = self.to_dom(st, v)
                if not isinstance(d, list):
                    raise Unsupported('starred list')
                out += d
            else:
                out.append(self.eval(st, eid, x))
        return st.new_list(out)

    def e_Set(self, st, eid, e):
        r = st.new_cell('set')
        for x in e.elts:
            if isinstance(x, ast.Starred):
                self.builtins.method(self, st, r, 'update', [self.eval(st, eid, x.value)], {})
            else:
                self.builtins.method(self, st, r, 'add', [self.eval(st, eid, x)], {})
        return r

    def e_Dict(self, st, eid, e):
        r = st.new_cell('dict')
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.builtins.method(self, st, r, 'update', [self.eval(st, eid, v)], {})
            else:
                kv = self.eval(st, eid, k)
                self.setitem(st, r, kv, self.eval(st, eid, v))
        return r

    def e_Lambda(self, st, eid, e):
        info = st.envs[eid]['$fun']
        return Fun(e, eid, info.cls if info else None, info.mod if info else '', (info.qual if info else '?') + '/<lambda>')

    def speculate(self, st, cond, e, eid):
        """value of e under cond without forking; None if not possible. New facts are guarded."""
        if z3.is_true(cond) or z3.is_false(cond):
            return None
        st2 = st.copy()
        st2.pc.append(cond)
        nf, no = len(st2.facts), len(self.obls)
        self.nofork += 1
        try:
            v = self.eval(st2, eid, e)
        except (ForkNeeded, PyExc, Infeasible, Dead):
            del self.obls[no:]
            return None
        except ReturnSig:
            del self.obls[no:]
            return None
        finally:
            self.nofork -= 1
        for cid, c in st.heap.items():
            if st2.heap.get(cid) is not c:
                del self.obls[no:]
                return None
        if isinstance(v, (Ref, Lst, Obj, Fun)) and (getattr(v, 'cid', None) not in st.heap):
            del self.obls[no:]
            return None
        st.scope = st2.scope
        st.nid = max(st.nid, st2.nid)
        for cid, c in st2.heap.items():
            if cid not in st.heap:
                st.heap[cid] = c
        for x, y in st2.envs.items():
            if x not in st.envs:
                st.envs[x] = y
        for f in st2.facts[nf:]:
            st.fact(implies(cond, f))
        st.derived.update(st2.derived) if False else None
        return v

    def e_BoolOp(self, st, eid, e):
        is_and = isinstance(e.op, ast.And)
        v = self.eval(st, eid, e.values[0])
        for nxt in e.values[1:]:
            t = norm(self.truth(st, v))
            if z3.is_true(t):
                if is_and:
                    v = self.eval(st, eid, nxt)
                    continue
                return v
            if z3.is_false(t):
                if is_and:
                    return v
                v = self.eval(st, eid, nxt)
                continue
            # boolean operands: combine without forking when possible
            w = self.speculate(st, t if is_and else not_(t), nxt, eid)
            if w is not None and isinstance(v, V):
                tw = self.truth_pure(st, w)
                if tw is not None and (v.ty == BOOL and isinstance(w, V) and w.ty == BOOL):
                    v = boolV(and_(t, tw) if is_and else or_(t, tw))
                    continue
                if tw is not None and self._bool_only:
                    v = boolV(and_(t, tw) if is_and else or_(t, tw))
                    continue
            if self.branch(st, t):
                if not is_and:
                    return v
                v = self.eval(st, eid, nxt)
            else:
                if is_and:
                    return v
                v = self.eval(st, eid, nxt)
        return v

    _bool_only = False

    def truth_pure(self, st, v):
        self.nofork += 1
        try:
            return self.truth(st, v)
        except (ForkNeeded, Unsupported, PyExc, Dead):
            return None
        finally:
            self.nofork -= 1

    def e_UnaryOp(self, st, eid, e):
        if isinstance(e.op, ast.Not):
            return boolV(not_(self.cond(st, eid, e.operand)))
        v = self.eval(st, eid, e.operand)
        if isinstance(v, V) and v.ty in (INT, REAL):
            if isinstance(e.op, ast.USub):
                return V(v.ty, z3.simplify(-v.t))
            if isinstance(e.op, ast.UAdd):
                return v
        raise Unsupported('unary operator')

    def e_IfExp(self, st, eid, e):
        c = norm(self.cond(st, eid, e.test))
        if z3.is_true(c):
            return self.eval(st, eid, e.body)
        if z3.is_false(c):
            return self.eval(st, eid, e.orelse)
        a = self.speculate(st, c, e.body, eid)
        if a is not None:
            b = self.speculate(st, not_(c), e.orelse, eid)
            if b is not None:
                m = self.merge2(st, c, a, b)
                if m is not None:
                    return m
        if self.branch(st, c):
            return self.eval(st, eid, e.body)
        return self.eval(st, eid, e.orelse)

    def merge2(self, st, c, a, b):
        a, b = self.deref(st, a), self.deref(st, b)
        if a is b:
            return a
        if isinstance(a, V) and isinstance(b, V):
            try:
                ty = self.join_ty(a.ty, b.ty)
                if a.ty == b.ty or {a.ty, b.ty} == {INT, REAL} or ty == SetT(T.UV):
                    # $alts remembers which object it is under which condition
                    alts = [(and_(c, k), v) for k, v in alternatives(a)] + [(and_(not_(c), k), v) for k, v in alternatives(b)]
                    return V(ty, ite(c, self.coerce(a.t, a.ty, ty), self.coerce(b.t, b.ty, ty)), None,
                             {'$alts': alts} if self.by_ty.get(ty.name) else None, a.kind)
            except Unsupported:
                return None
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            items = [self.merge2(st, c, x, y) for x, y in zip(a.items, b.items)]
            return None if any(i is None for i in items) else Tup(items)
        if all(isinstance(v, Seq) and isinstance(v.dom.elem, V) and v.dom.elem.kind == 'str' for v in (a, b)):
            # two lists of computed strings: some list of strings
            x = fresh('s', U)
            return Seq(Dom(x, sel(st.scope.fresh('strs', SetT(U)), x), V(U, x, None, None, 'str'), False))
        return None

    def e_Compare(self, st, eid, e):
        left = self.eval(st, eid, e.left)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(st, eid, r)
            out.append(self.compare(st, op, left, right))
            left = right
        return boolV(and_(*out))

    def compare(self, st, op, a, b):
        k = type(op).__name__
        if k == 'Eq':
            return self.equal(st, a, b)
        if k == 'NotEq':
            return not_(self.equal(st, a, b))
        if k == 'In':
            return self.contains(st, a, b)
        if k == 'NotIn':
            return not_(self.contains(st, a, b))
        if k == 'Is':
            return self.identical(st, a, b)
        if k == 'IsNot':
            return not_(self.identical(st, a, b))
        a, b = self.deref(st, a), self.deref(st, b)
        ta, tb = self.type_of(st, a), self.type_of(st, b)
        if ta in (INT, REAL, BOOL) and tb in (INT, REAL, BOOL):
            w = REAL if REAL in (ta, tb) else INT
            x, y = self.term(st, a, w), self.term(st, b, w)
            return z3.simplify({'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[k]) \
                if T._num(x) and T._num(y) else {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[k]
        ka = self.content(st, a)[0]
        if ka is not None:
            if k in ('Gt', 'GtE'):
                a, b = b, a
            sub = self.builtins.setrel(self, st, a, b, 'subset')
            if k in ('LtE', 'GtE'):
                return sub
            return and_(sub, not_(self.equal(st, a, b)))
        raise Unsupported('comparison')

    def e_BinOp(self, st, eid, e):
        a = self.eval(st, eid, e.left)
        return self.binop(st, e.op, a, self.eval(st, eid, e.right))

    def binop(self, st, op, a, b):
        k = type(op).__name__
        a, b = self.deref(st, a), self.deref(st, b)
        ta, tb = self.type_of(st, a), self.type_of(st, b)
        if ta in (INT, REAL, BOOL) and tb in (INT, REAL, BOOL):
            if k == 'Div':
                x, y = self.term(st, a, REAL), self.term(st, b, REAL)
                self.oblige(st, not_(eq_term(y, z3.RealVal(0))), 'division by zero')
                return V(REAL, x / y)
            w = REAL if REAL in (ta, tb) else INT
            x, y = self.term(st, a, w), self.term(st, b, w)
            if k == 'Add':
                r = y if T.is_num(x, 0) else (x if T.is_num(y, 0) else x + y)
            elif k == 'Sub':
                r = x if T.is_num(y, 0) else x - y
            elif k == 'Mult':
                r = y if T.is_num(x, 1) else (x if T.is_num(y, 1) else x * y)
            else:
                raise Unsupported('operator %s' % k)
            return V(w, r)
        if k == 'Add' and (isinstance(a, (Seq, Lst)) or isinstance(b, (Seq, Lst))):
            return self.builtins.concat(self, st, a, b)
        if isinstance(a, V) and a.ty == U or isinstance(b, V) and b.ty == U:
            return V(U, st.scope.fresh('str', U), None, None, 'str')
        m = {'BitOr': 'union', 'BitAnd': 'intersection', 'Sub': 'difference', 'BitXor': 'symmetric_difference'}.get(k)
        if m:
            ka = self.content(st, a)[0]
            if ka in ('dict',) and k == 'BitOr' and not isinstance(a, View):
                return self.builtins.dict_or(self, st, a, b)
            return self.builtins.method(self, st, a, m, [b], {})
        raise Unsupported('operator %s on %r, %r' % (k, a, b))

    def e_Call(self, st, eid, e):
        f = e.func
        if isinstance(f, ast.Name) and f.id == 'super':
            env = eid
            while env is not None and (st.envs[env]['$fun'] is None or isinstance(st.envs[env]['$fun'].node, ast.Lambda)):
                env = st.envs[env]['$parent']
            fn = st.envs[env]['$fun']
            first = fn.node.args.args[0].arg
            return Super(self.lookup(st, eid, first), fn.cls)
        fv = self.eval(st, eid, f)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(st, eid, a.value)
                d = self.to_dom(st, v)
                if isinstance(d, list):
                    args += d
                else:
                    args.append(('*', v))
            else:
                args.append(self.eval(st, eid, a))
        for k in e.keywords:
            if k.arg is None:
                raise Unsupported('**kwargs')
            kw[k.arg] = self.eval(st, eid, k.value)
        return self.call(st, fv, args, kw)

    def e_Subscript(self, st, eid, e):
        c = self.eval(st, eid, e.value)
        if isinstance(e.slice, ast.Slice):
            lo = self.eval(st, eid, e.slice.lower) if e.slice.lower else None
            hi = self.eval(st, eid, e.slice.upper) if e.slice.upper else None
            if e.slice.step is not None:
                raise Unsupported('slice step')
            return self.builtins.slice(self, st, c, lo, hi)
        return self.getitem(st, c, self.eval(st, eid, e.slice))

    def getitem(self, st, c, k):
        c = self.deref(st, c)
        if isinstance(c, (Tup, Lst)):
            items = c.items if isinstance(c, Tup) else self.items_of(st, c)
            if isinstance(k, V) and z3.is_int_value(k.t):
                i = k.t.as_long()
                if -len(items) <= i < len(items):
                    return items[i]
                self.oblige(st, FALSE, 'index out of range')
                raise Dead()
            raise Unsupported('symbolic index')
        if isinstance(c, V) and isinstance(c.ty, TupT):
            if isinstance(k, V) and z3.is_int_value(k.t):
                i = k.t.as_long()
                n = len(c.ty.ts)
                i = i + n if i < 0 else i
                return V(c.ty.ts[i], c.ty.get(c.t, i))
        if isinstance(c, V) and isinstance(c.ty, ListT):
            i = self.term(st, k, INT)
            self.oblige(st, and_(i >= 0, i < c.ty.len(c.t)), 'index out of range')
            return V(c.ty.elem, sel(c.ty.at(c.t), i))
        if isinstance(c, Seq):
            return self.seq_index(st, c, self.term(st, k, INT))
        kind, ty, t = self.content(st, c)
        if isinstance(ty, DictT):
            kt = self.term(st, k, ty.k)
            cell = st.heap[c.cid] if isinstance(c, Ref) else None
            if cell is not None and cell.factory is not None:
                # defaultdict: a missing key is added with an empty value
                inn = sel(ty.dom(t), kt)
                t2 = ty.mk(z3.Store(ty.dom(t), kt, TRUE), z3.Store(ty.val(t), kt, ite(inn, sel(ty.val(t), kt), self.empty_of(ty.v))))
                st.heap[c.cid] = cell.but(t=t2)
                return Path(c.cid, [('key', kt)], cell.ver, 'set')
            self.oblige(st, sel(ty.dom(t), kt), 'key is in the dictionary')
            if isinstance(ty.v, (SetT, DictT, TupT)):
                if isinstance(c, Ref):
                    return Path(c.cid, [('key', kt)], cell.ver, 'dict' if isinstance(ty.v, DictT) else 'set')
                if isinstance(c, Path):
                    return Path(c.cid, c.steps + [('key', kt)], c.ver, 'dict' if isinstance(ty.v, DictT) else 'set')
            return V(ty.v, sel(ty.val(t), kt))
        if isinstance(c, Path) and isinstance(ty, TupT) and isinstance(k, V) and z3.is_int_value(k.t):
            i = k.t.as_long()
            return self.sub_path(st, c, ('idx', i), ty.ts[i])
        if kind == 'dict' and ty is None:
            if isinstance(c, Ref) and st.heap[c.cid].factory is not None:
                return LazyItem(c, k)
            self.oblige(st, FALSE, 'key is in the dictionary')
            raise Dead()
        raise Unsupported('subscript of %r' % (c,))

    def seq_index(self, st, s, i, exact=None):
        """element of a list made from a finite family: some enumeration of it without repetition of the index"""
        d = s.dom
        if isinstance(d, list):
            raise Unsupported('index')
        if s.lst is None:
            xs = d.x.sort()
            arr = st.scope.fresh('lst', z3.ArraySort(z3.IntSort(), xs))
            pos = st.scope.fresh('pos', z3.ArraySort(xs, z3.IntSort()))
            n = CARD(lam(d.x, d.guard))
            j, x = fresh('j', INT), fresh('x', xs)
            g = lambda y: subst(d.guard, (d.x, y))
            st.fact(forall(j, implies(and_(j >= 0, j < n), and_(g(sel(arr, j)), eq_term(sel(pos, sel(arr, j)), j)))))
            st.fact(forall(x, implies(g(x), and_(sel(pos, x) >= 0, sel(pos, x) < n, eq_term(sel(arr, sel(pos, x)), x)))))
            s.lst = (n, arr, pos)
        n, arr, pos = s.lst
        if exact is not None:
            self.oblige(st, eq_term(n, z3.IntVal(exact)), 'exactly %d items to unpack' % exact)
        self.oblige(st, and_(i >= 0, i < n) if exact is None else TRUE, 'index within the list')
        x = sel(arr, i)
        # ground instances of the enumeration facts, for the small indices code uses
        st.fact(subst(d.guard, (d.x, x)))
        st.fact(eq_term(sel(pos, x), i))
        return d.at(x)[1]

    def setitem(self, st, c, k, v, present=False):
        c = self.deref(st, c)
        if isinstance(c, LazyItem):
            raise Unsupported('nested lazily typed dictionary')
        if isinstance(c, Lst):
            if isinstance(k, V) and z3.is_int_value(k.t):
                items = list(self.items_of(st, c))
                items[k.t.as_long()] = v
                st.heap[c.cid] = st.heap[c.cid].but(t=items)
                return
            raise Unsupported('list item assignment')
        kind, ty, t = self.content(st, c)
        if kind != 'dict':
            raise Unsupported('item assignment on %r' % (c,))
        kt = self.type_of(st, k)
        vv = self.deref(st, v)
        vt = self.type_of(st, vv)
        if isinstance(vv, Seq):
            vv = self.builtins.seq_value(self, st, vv)
            vt = self.type_of(st, vv)
        if isinstance(vv, Obj):
            at = st.objs[vv.oid][1]
            if '$stored' in at or not isinstance(c, Ref) or vt is None or vt.cls in self.data:
                raise Unsupported('object stored in a dictionary')
            for a in at.values():
                if isinstance(a, (Path, Obj)) or isinstance(a, Ref) and (st.heap[a.cid].kind == 'alias' or st.heap[a.cid].owner != 'fresh'):
                    raise Unsupported('object stored in a dictionary')
        if ty is None:
            if kt is None or vt is None:
                raise Unsupported('dictionary with untyped items')
            ty = DictT(kt, vt)
            t = dict_empty(ty)
        else:
            nk = self.join_ty(ty.k, kt)
            nv = self.join_ty(ty.v, vt)
            if nk != ty.k:
                raise Unsupported('dictionary keys of mixed type')
            if nv != ty.v:
                t = self.coerce(t, ty, DictT(nk, nv))
                ty = DictT(nk, nv)
        kterm = self.term(st, k, ty.k)
        vterm = self.term(st, vv, ty.v)
        restructure = isinstance(ty.v, (SetT, DictT, TupT)) and not (isinstance(vv, V) and isinstance(c, Path))
        if present:
            t2 = ty.mk(ty.dom(t), z3.Store(ty.val(t), kterm, vterm))
        else:
            t2 = dict_store(ty, t, kterm, vterm)
        self.set_content(st, c, ty, t2, restructure)
        # the stored container is now reached through the dictionary: alias the old reference to it
        if isinstance(vv, Ref) and isinstance(c, Ref):
            cc = st.heap[c.cid]
            st.heap[vv.cid] = Cell('alias', None, Path(c.cid, [('key', kterm)], cc.ver, st.heap[vv.cid].kind))
        elif isinstance(vv, Ref):
            st.heap[vv.cid] = st.heap[vv.cid].but(owner='moved')
        elif isinstance(vv, Obj):
            at = st.objs[vv.oid][1]
            for i, n in enumerate(ty.v.names):
                a = at[n]
                if isinstance(a, Ref):
                    st.heap[a.cid] = Cell('alias', None, Path(c.cid, [('key', kterm), ('idx', i)], st.heap[c.cid].ver, st.heap[a.cid].kind))
            at['$stored'] = NoneV

    # comprehensions are loops over an accumulator
    def e_SetComp(self, st, eid, e):
        return self.loops.comprehension(self, st, eid, e, 'set')

    def e_DictComp(self, st, eid, e):
        return self.loops.comprehension(self, st, eid, e, 'dict')

    def e_ListComp(self, st, eid, e):
        return self.loops.comprehension(self, st, eid, e, 'list')

    def e_GeneratorExp(self, st, eid, e):
        return self.loops.comprehension(self, st, eid, e, 'list')


class LazyItem:
    """d[k] of a defaultdict whose type is not known yet"""

    def __init__(self, ref, key):
        self.ref, self.key = ref, key


def is_none_term(t):
    return z3.is_const(t) and t.sort() == USort and t.eq(NONE)


class ListT(DataTy):
    """list with arbitrary length: (len, at)"""

    def __init__(self, elem):
        self.elem = elem
        self.name = 'List<%s>' % elem.name
        self._f = None
        self._sort = lambda: T.datatype(self.name, [('mk' + self.name, self.fields)])

    @property
    def fields(self):
        if self._f is None:
            arr = Ty('IArr<%s>' % self.elem.name, lambda: z3.ArraySort(z3.IntSort(), self.elem.sort))
            self._f = [('len_' + self.name, INT), ('at_' + self.name, arr)]
        return self._f

    def len(self, t):
        return self.get(t, 0)

    def at(self, t):
        return self.get(t, 1)
