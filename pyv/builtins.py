"""Semantics of the Python builtins and container methods the code uses."""
import z3
from .terms import *
from . import terms as T
from .engine import *

hashU = {}


def hash_of(ty, t):
    if ty.name not in hashU:
        hashU[ty.name] = z3.Function('hash<%s>' % ty.name, ty.sort, z3.IntSort())
    return hashU[ty.name](t)


# --------------------------------------------------------------------------- sets
def _pair(en, st, a, b):
    """common typed terms of two set-like values; untyped empties become empty sets"""
    sa, sb = en.to_set(st, a), en.to_set(st, b)
    ka, ta, xa = en.content(st, a) if not isinstance(a, Seq) else (None, None, None)
    if sa is None and sb is None:
        return None, None, None
    if sa is None:
        return sb.ty, en.empty_of(sb.ty), sb.t
    if sb is None:
        return sa.ty, sa.t, en.empty_of(sa.ty)
    ty = en.join_ty(sa.ty, sb.ty)
    return ty, en.coerce(sa.t, sa.ty, ty), en.coerce(sb.t, sb.ty, ty)


def as_setlike(en, st, v):
    """set value of set / keys / dict / list"""
    v = en.deref(st, v)
    k, ty, t = (None, None, None) if isinstance(v, (Seq, Lst, Tup)) else en.content(st, v)
    if k is not None and ty is None:
        return None
    if isinstance(ty, DictT):
        return V(SetT(ty.k), ty.dom(t))
    return en.to_set(st, v)


def setrel(en, st, a, b, rel):
    if isinstance(b, tuple) and b[0] == '*':
        raise Unsupported('starred argument')
    sa, sb = as_setlike(en, st, a), as_setlike(en, st, b)
    if sa is None:
        if rel == 'superset':
            return TRUE if sb is None else is_empty(sb.t)
        return TRUE
    if sb is None:
        return TRUE if rel in ('disjoint', 'superset') else is_empty(sa.t)
    if sa.ty != sb.ty:
        try:
            ty = en.join_ty(sa.ty, sb.ty)
        except Unsupported:
            return TRUE if rel == 'disjoint' else is_empty(sa.t if rel == 'subset' else sb.t)
        x, y = en.coerce(sa.t, sa.ty, ty), en.coerce(sb.t, sb.ty, ty)
    else:
        x, y = sa.t, sb.t
    return {'subset': lambda: subset(x, y), 'superset': lambda: subset(y, x), 'disjoint': lambda: disjoint(x, y)}[rel]()


def setop(en, st, a, op, args):
    """union / intersection / difference / symmetric_difference as a value term (ty, t), None if empty untyped"""
    cur = as_setlike(en, st, a)
    for b in args:
        if isinstance(b, tuple) and b[0] == '*':
            d = en.to_dom(st, b[1])
            if isinstance(d, list):
                for x in d:
                    cur = _op(en, st, cur, op, as_setlike(en, st, x))
                continue
            if op != 'union':
                raise Unsupported('%s over a starred family' % op)
            sb = as_setlike(en, st, d.elem)
            if sb is None:
                continue
            t = setof(sb.ty.elem, lambda y: exists(d.x, and_(d.guard, sel(sb.t, y))))
            cur = _op(en, st, cur, op, V(sb.ty, t))
            continue
        cur = _op(en, st, cur, op, as_setlike(en, st, b))
    return cur


def _op(en, st, a, op, b):
    if a is None:
        return b if op in ('union', 'symmetric_difference') else None
    if b is None:
        return a if op in ('union', 'difference', 'symmetric_difference') else V(a.ty, en.empty_of(a.ty))
    if op == 'difference' or op == 'intersection':
        try:
            ty = en.join_ty(a.ty, b.ty)
        except Unsupported:
            return a if op == 'difference' else V(a.ty, en.empty_of(a.ty))
    ty = en.join_ty(a.ty, b.ty)
    x, y = en.coerce(a.t, a.ty, ty), en.coerce(b.t, b.ty, ty)
    f = {'union': union, 'intersection': inter, 'difference': diff, 'symmetric_difference': symdiff}[op]
    return V(ty, f(x, y))


SET_UPD = {'update': 'union', 'difference_update': 'difference', 'intersection_update': 'intersection',
           'symmetric_difference_update': 'symmetric_difference'}


def new_set(en, st, kind, sv):
    """fresh mutable set cell or frozenset value"""
    if kind == 'frozenset':
        if sv is None:
            return st.new_cell('set')          # an empty frozenset of unknown type: treated as an unshared empty cell
        return V(sv.ty, sv.t, sv.gen)
    if sv is None:
        return st.new_cell('set')
    return st.new_cell('set', sv.ty, sv.t, gen=sv.gen)


def method(en, st, v, name, args, kw):
    v = en.deref(st, v)
    if isinstance(v, LazyItem):
        # first use of an item of a defaultdict of unknown type
        if name == 'add':
            et = en.type_of(st, args[0])
            kt = en.type_of(st, v.key)
            ty = DictT(kt, SetT(et))
            cell = st.heap[v.ref.cid]
            st.heap[v.ref.cid] = cell.but(ty=ty, t=dict_store(ty, dict_empty(ty), en.term(st, v.key, kt),
                                                            insert(empty_set(et), en.term(st, args[0], et))))
            return NoneV
        raise Unsupported('method %s of an untyped defaultdict item' % name)
    if isinstance(v, V) and v.ty == U:
        if name in ('join', 'format', 'isalnum', 'strip', 'upper', 'lower'):
            return V(U, st.scope.fresh('str', U), None, None, 'str')
        if name == '__hash__':
            return V(INT, hash_of(U, v.t))
        raise Unsupported('method %s of an arbitrary object' % name)
    if isinstance(v, Lst):
        return list_method(en, st, v, name, args, kw)
    if name == '__hash__':
        ty = en.type_of(st, v)
        return V(INT, hash_of(ty, en.term(st, v)))
    if name == '__eq__':
        return boolV(en.equal(st, v, args[0]))
    if name == '__contains__':
        return boolV(en.contains(st, args[0], v))
    if name in ('__len__',):
        return builtin(en, st, 'len', [v], {})
    if isinstance(v, Seq):
        raise Unsupported('method %s of a list' % name)
    kind, ty, t = en.content(st, v)
    if kind is None:
        raise Unsupported('method %s of %r' % (name, v))
    is_dict = kind == 'dict' and not isinstance(v, View)
    if is_dict:
        return dict_method(en, st, v, ty, t, name, args, kw)
    frozen = kind == 'frozenset'
    if name in ('union', 'intersection', 'difference', 'symmetric_difference'):
        sv = setop(en, st, v, name, args)
        return new_set(en, st, 'frozenset' if isinstance(v, V) else 'set', sv)
    if name in ('issubset', 'issuperset', 'isdisjoint'):
        return boolV(setrel(en, st, v, args[0], {'issubset': 'subset', 'issuperset': 'superset', 'isdisjoint': 'disjoint'}[name]))
    if name == 'copy':
        return v if frozen else new_set(en, st, 'set', en.to_set(st, v))
    if frozen:
        raise Unsupported('method %s of a frozenset' % name)
    if name in ('add', 'discard', 'remove'):
        et = en.type_of(st, args[0])
        if ty is None:
            if name == 'add':
                if et is None:
                    raise Unsupported('set of untyped elements')
                en.set_content(st, v, SetT(et), insert(empty_set(et), en.term(st, args[0])))
            elif name == 'remove':
                en.oblige(st, FALSE, 'removed element is in the set')
                raise Dead()
            return NoneV
        w = en.join_ty(ty.elem, et)
        if w != ty.elem:
            t = en.coerce(t, ty, SetT(w))
            ty = SetT(w)
        x = en.term(st, args[0], w)
        if name == 'remove':
            en.oblige(st, sel(t, x), 'removed element is in the set')
        en.set_content(st, v, ty, insert(t, x) if name == 'add' else remove(t, x))
        return NoneV
    if name in SET_UPD:
        sv = setop(en, st, v, SET_UPD[name], args)
        if sv is not None:
            en.set_content(st, v, sv.ty, sv.t)
        return NoneV
    if name == 'clear':
        if ty is not None:
            en.set_content(st, v, ty, en.empty_of(ty))
        return NoneV
    if name == 'pop':
        if ty is None:
            en.oblige(st, FALSE, 'pop from an empty set')
            raise Dead()
        x = st.scope.fresh('pop', ty.elem)
        en.oblige(st, not_(is_empty(t)), 'pop from an empty set')
        st.fact(sel(t, x))
        en.set_content(st, v, ty, remove(t, x))
        return V(ty.elem, x)
    raise Unsupported('set method %s' % name)


# --------------------------------------------------------------------------- dicts
def item_value(en, st, v, ty, t, kt):
    """value of a present key, as an alias when it is a container"""
    if isinstance(ty.v, (SetT, DictT, TupT)):
        if isinstance(v, Ref):
            return Path(v.cid, [('key', kt)], st.heap[v.cid].ver, 'dict' if isinstance(ty.v, DictT) else 'set')
        if isinstance(v, Path):
            return Path(v.cid, v.steps + [('key', kt)], v.ver, 'dict' if isinstance(ty.v, DictT) else 'set')
    return V(ty.v, sel(ty.val(t), kt))


def dict_method(en, st, v, ty, t, name, args, kw):
    if name in ('keys', 'values', 'items'):
        return View(name, v)
    if name == 'copy':
        if isinstance(v, Ref) and st.heap[v.cid].factory is not None:
            raise Unsupported('copy of a defaultdict')
        return st.new_cell('dict', ty, t)
    if name in ('get', 'pop', 'setdefault'):
        dflt = args[1] if len(args) > 1 else (NoneV if name != 'pop' else None)
        if ty is None:
            if name == 'setdefault':
                en.setitem(st, v, args[0], dflt)
                return en.getitem(st, v, args[0])
            if dflt is None:
                en.oblige(st, FALSE, 'popped key is in the dictionary')
                raise Dead()
            return dflt
        k = en.term(st, args[0], ty.k)
        inn = sel(ty.dom(t), k)
        if name == 'get':
            dd = en.deref(st, dflt)
            dt = en.type_of(st, dd)
            if isinstance(ty.v, (SetT, DictT)):
                # the caller may modify what it gets only if it is the stored container: keep it abstract as a value
                if isinstance(dd, Ref) and (dt is None or dt == ty.v):
                    e = en.term(st, dd, ty.v)
                    return V(ty.v, ite(inn, sel(ty.val(t), k), e), None, None, 'getcopy')
            elif dt is not None and isinstance(dd, V):
                try:
                    w = en.join_ty(ty.v, dt)
                    return V(w, ite(inn, en.coerce(sel(ty.val(t), k), ty.v, w), en.coerce(dd.t, dt, w)))
                except Unsupported:
                    pass
            if en.branch(st, inn):
                return item_value(en, st, v, ty, t, k)
            return dflt
        if name == 'pop':
            if dflt is None:
                en.oblige(st, inn, 'popped key is in the dictionary')
                r = V(ty.v, sel(ty.val(t), k))
                if isinstance(ty.v, (SetT, DictT)):
                    r = st.new_cell('dict' if isinstance(ty.v, DictT) else 'set', ty.v, r.t)
                en.set_content(st, v, ty, dict_remove(ty, t, k), True)
                return r
            if isinstance(ty.v, (SetT, DictT)):
                e = en.term(st, dflt, ty.v)
                r = st.new_cell('dict' if isinstance(ty.v, DictT) else 'set', ty.v, ite(inn, sel(ty.val(t), k), e))
                en.set_content(st, v, ty, dict_remove(ty, t, k), True)
                return r
            if en.branch(st, inn):
                r = V(ty.v, sel(ty.val(t), k))
                en.set_content(st, v, ty, dict_remove(ty, t, k), True)
                return r
            return dflt
        if name == 'setdefault':
            dd = en.deref(st, dflt)
            e = en.term(st, dd, ty.v)
            t2 = ty.mk(z3.Store(ty.dom(t), k, TRUE), z3.Store(ty.val(t), k, ite(inn, sel(ty.val(t), k), e)))
            en.set_content(st, v, ty, t2)
            return item_value(en, st, v, ty, t2, k)
    if name == '__delitem__':
        if ty is None:
            en.oblige(st, FALSE, 'deleted key is in the dictionary')
            raise Dead()
        k = en.term(st, args[0], ty.k)
        en.oblige(st, sel(ty.dom(t), k), 'deleted key is in the dictionary')
        en.set_content(st, v, ty, dict_remove(ty, t, k), True)
        return NoneV
    if name == 'update':
        r = dict_or(en, st, v, args[0])
        k2, ty2, t2 = en.content(st, r)
        if ty2 is not None:
            en.set_content(st, v, ty2, t2, True)
        return NoneV
    if name == 'clear':
        if ty is not None:
            en.set_content(st, v, ty, dict_empty(ty), True)
        return NoneV
    if name == 'popitem':
        raise Unsupported('popitem')
    if name in ('union', 'intersection', 'difference', 'isdisjoint', 'issubset'):
        raise Unsupported('set method of a dict')
    raise Unsupported('dict method %s' % name)


def dict_or(en, st, a, b):
    ka, ta, xa = en.content(st, a)
    if isinstance(en.deref(st, b), (Seq, Lst)):
        raise Unsupported('update from a list')
    kb, tb, xb = en.content(st, b)
    if kb != 'dict':
        raise Unsupported('dict update from %r' % (b,))
    if ta is None and tb is None:
        return st.new_cell('dict')
    if ta is None:
        return st.new_cell('dict', tb, xb)
    if tb is None:
        return st.new_cell('dict', ta, xa)
    ty = en.join_ty(ta, tb)
    x, y = en.coerce(xa, ta, ty), en.coerce(xb, tb, ty)
    return st.new_cell('dict', ty, dict_make(ty, lambda k: or_(sel(ty.dom(x), k), sel(ty.dom(y), k)),
                                             lambda k: ite(sel(ty.dom(y), k), sel(ty.val(y), k), sel(ty.val(x), k))))


# --------------------------------------------------------------------------- lists
def list_method(en, st, v, name, args, kw):
    if st.heap[v.cid].kind == 'olist':
        if name != 'append':
            raise Unsupported('list changed in a loop')
        from .loops import immut
        st.heap[v.cid] = st.heap[v.cid].but(t=st.heap[v.cid].t + (immut(en, st, args[0]),))
        return NoneV
    items = st.heap[v.cid].t
    if name == 'append':
        st.heap[v.cid] = st.heap[v.cid].but(t=items + [args[0]])
        return NoneV
    if name == 'extend':
        d = en.to_dom(st, args[0])
        if not isinstance(d, list):
            raise Unsupported('extend by an unknown list')
        st.heap[v.cid] = st.heap[v.cid].but(t=items + d)
        return NoneV
    if name == 'copy':
        return st.new_list(items)
    if name == 'pop' and not args and items:
        st.heap[v.cid] = st.heap[v.cid].but(t=items[:-1])
        return items[-1]
    raise Unsupported('list method %s' % name)


def concat(en, st, a, b):
    la = en.to_dom(st, a)
    lb = en.to_dom(st, b)
    if isinstance(la, list) and isinstance(lb, list):
        return st.new_list(la + lb)
    raise Unsupported('list concatenation')


def slice(en, st, c, lo, hi):
    c = en.deref(st, c)
    if isinstance(c, (Lst, Tup)):
        items = c.items if isinstance(c, Tup) else en.items_of(st, c)
        a = lo.t.as_long() if lo is not None and z3.is_int_value(lo.t) else (None if lo is None else 'x')
        b = hi.t.as_long() if hi is not None and z3.is_int_value(hi.t) else (None if hi is None else 'x')
        if 'x' in (a, b):
            raise Unsupported('symbolic slice')
        return Tup(items[a:b]) if isinstance(c, Tup) else st.new_list(items[a:b])
    if isinstance(c, V) and isinstance(c.ty, ListT) and hi is None and lo is not None and z3.is_int_value(lo.t):
        n = lo.t.as_long()
        i = fresh('i', INT)
        ln = c.ty.len(c.t)
        return V(c.ty, c.ty.mk(ite(ln >= n, ln - n, z3.IntVal(0)), lam(i, sel(c.ty.at(c.t), i + n))))
    raise Unsupported('slice of %r' % (c,))


def seq_value(en, st, s):
    raise Unsupported('list stored in a dictionary')


# --------------------------------------------------------------------------- builtins
def builtin(en, st, name, args, kw):
    if name == 'noop':
        return NoneV
    if name == 'len':
        v = en.deref(st, args[0])
        if isinstance(v, Obj) or (isinstance(v, V) and en.by_ty.get(v.ty.name)):
            return en.call(st, en.getattr(st, v, '__len__'), [], {})
        if isinstance(v, (Tup, Lst)):
            return intV(len(v.items if isinstance(v, Tup) else en.items_of(st, v)))
        if isinstance(v, V) and isinstance(v.ty, ListT):
            return V(INT, v.ty.len(v.t))
        if isinstance(v, Seq):
            return V(INT, CARD(lam(v.dom.x, v.dom.guard)))
        if isinstance(v, View):
            v = v.ref
        d = v.gen if isinstance(v, V) else (st.heap[v.cid].gen if isinstance(v, Ref) else None)
        if d is not None and d.inj:
            return V(INT, CARD(lam(d.x, d.guard)))
        k, ty, t = en.content(st, v)
        if k is None:
            raise Unsupported('len of %r' % (v,))
        if ty is None:
            return intV(0)
        return V(INT, CARD(ty.dom(t) if isinstance(ty, DictT) else t))
    if name in ('sum', 'prod', 'math.prod'):
        if len(args) > 1 or kw:
            raise Unsupported('sum with start')
        d = en.to_dom(st, args[0])
        if isinstance(d, list):
            r = intV(0 if name == 'sum' else 1)
            for x in d:
                r = en.binop(st, ast.Add() if name == 'sum' else ast.Mult(), r, x)
            return r
        et = en.type_of(st, d.elem)
        if et not in (INT, REAL, BOOL):
            raise Unsupported('sum of %s' % et)
        e = en.term(st, d.elem, REAL if et == REAL else INT)
        w = REAL if et == REAL else INT
        if name == 'sum':
            return en.fold(st, V(w, sum_x(d.x, ite(d.guard, e, T._zero(e.sort())))))
        return V(w, prod_x(d.x, ite(d.guard, e, T._zero(e.sort(), 1))))
    if name in ('any', 'all'):
        d = en.to_dom(st, args[0])
        if isinstance(d, list):
            ts = [en.truth(st, x) for x in d]
            return boolV(or_(*ts) if name == 'any' else and_(*ts))
        t = en.truth(st, d.elem)
        return boolV(exists(d.x, and_(d.guard, t)) if name == 'any' else forall(d.x, implies(d.guard, t)))
    if name in ('sorted', 'reversed'):
        d = en.to_dom(st, args[0])
        if isinstance(d, list):
            if len(d) <= 1:
                return st.new_list(d)
            raise Unsupported('sorted list')
        return Seq(d, True)
    if name == 'list':
        if not args:
            return st.new_list([])
        v = en.deref(st, args[0])
        if isinstance(v, V) and isinstance(v.ty, ListT):
            return v
        d = en.to_dom(st, v)
        if isinstance(d, list):
            return st.new_list(d)
        return Seq(d, isinstance(v, Seq) and v.sorted)
    if name == 'tuple':
        if not args:
            return Tup([])
        d = en.to_dom(st, args[0])
        if isinstance(d, list):
            return Tup(d)
        return Seq(d, isinstance(args[0], Seq) and args[0].sorted)
    if name in ('set', 'frozenset'):
        if not args:
            return st.new_cell('set')
        v = en.deref(st, args[0])
        if isinstance(v, (Ref, Path, View)) and en.content(st, v if not isinstance(v, View) else v.ref)[1] is None:
            return st.new_cell('set')
        k, ty, t = en.content(st, v) if not isinstance(v, (Seq, Lst, Tup)) else (None, None, None)
        if isinstance(ty, DictT) and not isinstance(v, View):
            return new_set(en, st, name, V(SetT(ty.k), ty.dom(t)))
        return new_set(en, st, name, en.to_set(st, v))
    if name == 'dict':
        if not args:
            return st.new_cell('dict')
        v = en.deref(st, args[0])
        k, ty, t = en.content(st, v)
        if k == 'dict' and not isinstance(v, View):
            return st.new_cell('dict', ty, t)
        raise Unsupported('dict()')
    if name == 'defaultdict':
        f = args[0] if args else None
        if isinstance(f, Builtin) and f.name == 'set':
            return st.new_cell('dict', factory='set')
        raise Unsupported('defaultdict')
    if name == 'bool':
        return boolV(en.truth(st, args[0]))
    if name in ('int', 'float'):
        v = args[0]
        if isinstance(v, V) and v.ty in (INT, REAL):
            if name == 'float':
                return V(REAL, en.term(st, v, REAL))
            if v.ty == INT:
                return v
        raise Unsupported('%s()' % name)
    if name in ('str', 'repr'):
        return V(U, st.scope.fresh('str', U), None, None, 'str')
    if name == 'print':
        return NoneV
    if name == 'id':
        return IdOf(args[0])
    if name == 'hash':
        v = en.deref(st, args[0])
        if isinstance(v, Seq) and v.sorted:
            d = v.dom
            return V(INT, hash_of(U, bag_x(d.x, d.guard, en.term(st, d.elem))))
        if isinstance(v, Seq):
            raise Unsupported('hash of an ordered sequence')
        ty = en.type_of(st, v)
        if ty is None:
            raise Unsupported('hash of %r' % (v,))
        return V(INT, hash_of(ty, en.term(st, v)))
    if name == 'isinstance':
        return boolV(isinstance_(en, st, args[0], args[1]))
    if name == 'iter':
        return Iter(args[0])
    if name == 'next':
        it = args[0]
        if not isinstance(it, (Iter, Seq)):
            raise Unsupported('next')
        d = en.to_dom(st, it)
        if isinstance(d, list):
            if not d:
                if len(args) > 1:
                    return args[1]
                en.oblige(st, FALSE, 'next() of an empty iterable')
                raise Dead()
            return d[0]
        x = st.scope.fresh('next', d.x.sort())
        g, e = d.at(x)
        if len(args) > 1:
            if en.branch(st, exists(d.x, d.guard)):
                st.fact(g)
                return e
            return args[1]
        en.oblige(st, exists(d.x, d.guard), 'next() of an empty iterable')
        st.fact(g)
        return e
    if name == 'isclose' or name == 'math.isclose':
        a, b = en.term(st, args[0], REAL), en.term(st, args[1], REAL)
        c = st.scope.fresh('isclose', BOOL)
        st.fact(implies(eq_term(a, b), c))
        return boolV(c)
    if name == 'abs':
        v = args[0]
        return V(v.ty, ite(v.t >= 0, v.t, -v.t))
    if name in ('min', 'max'):
        if len(args) == 2 and all(isinstance(a, V) and a.ty in (INT, REAL) for a in args):
            w = REAL if REAL in (args[0].ty, args[1].ty) else INT
            a, b = en.term(st, args[0], w), en.term(st, args[1], w)
            return V(w, ite(a <= b, a, b) if name == 'min' else ite(a >= b, a, b))
        raise Unsupported(name)
    if name in ('filter', 'map'):
        return en.loops.map_filter(en, st, name, args[0], args[1])
    raise Unsupported('builtin %s' % name)


def isinstance_(en, st, v, c):
    v = en.deref(st, v)
    if isinstance(c, Tup):
        return or_(*[isinstance_(en, st, v, x) for x in c.items])
    if isinstance(c, Cls):
        if is_none(v):
            return FALSE
        if isinstance(v, Obj):
            return z3.BoolVal(en.p.is_sub(st.objs[v.oid][0], c.name))
        if isinstance(v, V):
            cls = en.by_ty.get(v.ty.name)
            if cls:
                return z3.BoolVal(en.p.is_sub(cls, c.name))
            if v.ty == U:
                if c.name == 'DirectedRelation':
                    return is_dr(v.t)
                return FALSE
            return FALSE
        return FALSE
    if isinstance(c, Builtin):
        k = {'set': lambda: isinstance(v, (Ref, Path)) and en.content(st, v)[0] == 'set',
             'frozenset': lambda: isinstance(v, V) and isinstance(v.ty, SetT),
             'dict': lambda: isinstance(v, (Ref, Path)) and en.content(st, v)[0] == 'dict',
             'tuple': lambda: isinstance(v, Tup) or isinstance(v, V) and isinstance(v.ty, TupT)}.get(c.name)
        if k:
            return z3.BoolVal(bool(k()))
    raise Unsupported('isinstance')


# --------------------------------------------------------------------------- the abstract components provider
pv_declared = z3.Function('declared', PSort, USort, USort, z3.BoolSort())
pv_variable = z3.Function('declared_variable', PSort, USort, z3.BoolSort())
pv_relation = z3.Function('declared_relation', PSort, USort, z3.BoolSort())
KNOWN = SetT(TupT(P, NODE))
PN = KNOWN.elem


def known_cell(st):
    return st.envs['ghost']['known']


def vars_set(p):
    """frozenset of (variable, frozenset of values)"""
    ty = TupT(U, SetT(U))
    return SetT(ty), setof(ty, lambda y: and_(pv_variable(p, ty.get(y, 0)), eq_term(ty.get(y, 1), values_of(p, ty.get(y, 0)))))


def values_of(p, var):
    return setof(U, lambda z: pv_declared(p, var, z))


def inner_relation(r):
    return ite(is_dr(r), dr_rel(r), r)


def edge_admitted(p, known, eps, rel):
    n = fresh('n', NODE)
    has = lambda v: exists(n, and_(sel(eps, n), eq_term(NODE.get(n, 0), v)))
    return and_(forall(n, implies(sel(eps, n), sel(known, PN.mk(p, n)))),
                pv_relation(p, inner_relation(rel)),
                implies(is_dr(rel), and_(has(dr_src(rel)), has(dr_tgt(rel)))))


def provider(en, st, pv, name, args, kw):
    """contract of the components provider (its implementation is verified against it: property C02)"""
    m = name.split('.', 1)[1]
    if kw:
        raise Unsupported('keyword arguments to the provider')
    p = pv.t
    if m == 'variables':
        ty, t = vars_set(p)
        x = fresh('v', U)
        g = Dom(x, pv_variable(p, x), Tup([V(U, x), V(SetT(U), values_of(p, x))]), True)
        return V(ty, t, g)
    if m == 'relations':
        return V(SetT(U), setof(U, lambda y: pv_relation(p, y)))
    if m == 'get_node':
        a, b = en.term(st, args[0], U), en.term(st, args[1], U)
        if not en.branch(st, pv_declared(p, a, b)):
            raise PyExc('AssertionError')
        n = NODE.mk(a, b)
        r = known_cell(st)
        c = st.heap[r.cid]
        st.heap[r.cid] = c.but(t=insert(c.t, PN.mk(p, n)))
        return V(NODE, n)
    if m == 'get_edge':
        eps, rel = en.term(st, args[0], SetT(NODE)), en.term(st, args[1], U)
        en.oblige(st, CARD(eps) == 2, 'an edge is requested for exactly two endpoints')
        adm = norm(edge_admitted(p, st.heap[known_cell(st).cid].t, eps, rel))
        if not en.is_proved(st.hyps(), adm, 'mid') and not en.branch(st, adm):
            raise PyExc('AssertionError')
        return V(EDGE, EDGE.mk(eps, rel))
    raise Unsupported('provider method %s' % m)


AX = []


def axioms():
    x, y, z = fresh('x', U), fresh('y', U), fresh('z', U)
    p = fresh('p', P)
    out = [('truthy', ['truthy'], not_(truthyU(NONE)))]
    d = dr(x, y, z)
    cs = [z3.Const('d%d' % i, USort) for i in range(3)]
    q = lambda f: z3.substitute(f, (x, cs[0]), (y, cs[1]), (z, cs[2]))
    out.append(('dr', ['dr'], z3.ForAll(cs, q(and_(is_dr(d), dr_src(d) == x, dr_tgt(d) == y, dr_rel(d) == z,
                                                 truthyU(d))), patterns=[q(d)])))
    out.append(('declared', ['declared'], forall([p, x, y], implies(pv_declared(p, x, y), pv_variable(p, x)))))
    out.append(('declared_variable', ['declared_variable'],
                forall([p, x], implies(pv_variable(p, x), exists(y, pv_declared(p, x, y))))))
    return out
