"""Symbolic sequences (lists and tuples of symbolic length)."""
import z3

from . import engine, sym
from .engine import Kill, Raised, Unsupported
from .sym import S, SBool, SInt, Sym, mk_bool, mk_int, to_bool, to_int


def symlen(n):
    return isinstance(n, SInt)


class SSeq(Sym):
    """Length n, elements fn(i).  Mutations replace (n, fn)."""
    __slots__ = ('n', 'fn', 'kind', 'cache', 'tag', 'cls', '__weakref__')

    def __init__(self, n, fn, kind='list', tag=None):
        self.n = n
        self.fn = fn
        self.kind = kind
        self.cache = {}
        self.tag = tag

    @property
    def vc_types(self):
        return (list, ) if self.kind == 'list' else (tuple, )

    def at(self, i):
        """Element i, no bounds check; equal index terms share an object."""
        if isinstance(i, (bool, int)):
            key = int(i)
        else:
            c = sym.const_of(i.e)
            key = c if c is not None else ('z', i.e.get_id())
            if c is not None:
                i = c
        nest = engine.CUR.nest
        if nest:
            key = (key, id(nest[-1]))
        if key not in self.cache:
            v = self.fn(i)
            S().keep.append((i, v, nest[-1] if nest else None))
            self.cache[key] = v
        return self.cache[key]

    def nterm(self):
        return to_int(self.n)

    def copy(self, kind=None):
        r = SSeq(self.n, self.fn, kind or self.kind)
        r.cache = dict(self.cache)
        return r

    # ---- python protocol used natively
    def __bool__(self):
        return S().fork(self.nterm() != 0)

    def __len__(self):
        raise Unsupported('native len of a symbolic sequence')

    def __iter__(self):
        raise Unsupported('native iteration of a symbolic sequence')

    def __hash__(self):
        raise Unsupported('hash of a symbolic sequence')

    def __repr__(self):
        return f'SSeq(n={self.n})'

    def __format__(self, spec):
        return '<seq>'

    def __eq__(self, o):
        return seq_eq(self, o)

    def __ne__(self, o):
        return sym.neg(seq_eq(self, o))

    def __contains__(self, x):
        return bool(contains(self, x))

    def __getitem__(self, i):
        return getitem(self, i)

    def __setitem__(self, i, v):
        setitem(self, i, v)

    def __add__(self, o):
        return concat(self, o)

    def __radd__(self, o):
        return concat(o, self)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __mul__(self, k):
        raise Unsupported('seq * k')

    # ---- list methods
    def _set(self, n, fn):
        S_ = S()
        log_write(S_, self, 'seq')
        self.n = n
        self.fn = fn
        self.cache = {}

    def append(self, x):
        old = self.copy()
        n = old.n

        def fn(i):
            return pick(i, n, old.at, lambda j: x)
        self._set(mk_int(to_int(n) + 1), fn)

    def extend(self, o):
        r = concat(self.copy(), o)
        self._set(r.n, r.fn)

    def insert(self, k, x):
        old = self.copy()
        n = old.n
        if isinstance(k, int) and k == 0:
            def fn(i):
                c = mk_bool(to_int(i) == 0)
                if isinstance(c, bool):
                    return x if c else old.at(mk_int(to_int(i) - 1))
                return guarded(c, lambda: x,
                               lambda: old.at(mk_int(to_int(i) - 1)))
            self._set(mk_int(to_int(n) + 1), fn)
            return
        raise Unsupported('insert')

    def pop(self, k=-1):
        n = self.n
        if S().fork(to_int(n) == 0):
            raise IndexError('pop from empty list')
        old = self.copy()
        m = mk_int(to_int(n) - 1)
        if isinstance(k, int) and k == -1:
            x = old.at(m)
            self._set(m, old.fn)
            return x
        if isinstance(k, int) and k == 0:
            x = old.at(0)
            self._set(m, lambda i: old.at(mk_int(to_int(i) + 1)))
            return x
        kk = norm_index(old, k)
        x = old.at(kk)

        def fn(i):
            c = mk_bool(to_int(i) < to_int(kk))
            return guarded(c, lambda: old.at(i),
                           lambda: old.at(mk_int(to_int(i) + 1)))
        self._set(m, fn)
        return x

    def clear(self):
        self._set(0, lambda i: None)

    def sort(self, key=None, reverse=False):
        r = sorted_(self.copy(), key, reverse)
        self._set(r.n, r.fn)

    def reverse(self):
        r = reversed_(self.copy())
        self._set(r.n, r.fn)

    def index(self, x, *a):
        if a:
            raise Unsupported('index with bounds')
        s = S()
        c = contains(self, x)
        if not c:
            raise ValueError('not in list')
        j = SInt(s.fresh('idx', z3.IntSort()))
        s.assume(z3.And(j.e >= 0, j.e < self.nterm()))
        s.assume(to_bool(self.at(j) == x))
        b = z3.Int(f'b!{next(s.counter)}')
        body = bound_bool(lambda: self.at(SInt(b)) == x, [b],
                          z3.And(b >= 0, b < j.e))
        s.assume(z3.ForAll([b], z3.Implies(z3.And(b >= 0, b < j.e),
                                           z3.Not(body))))
        return j

    def count(self, x):
        raise Unsupported('count')

    def remove(self, x):
        j = self.index(x)
        self.pop(j)

    def vc_len(self):
        return self.n

    def vc_ite(self, c, o):
        if isinstance(o, SSeq):
            return SSeq(sym.ite(c, self.n, o.n),
                        lambda i: guarded(c, lambda: self.at(i),
                                          lambda: o.at(i)), self.kind)
        raise sym.MergeFail('seq')


def log_write(s, obj, what):
    for f in s.frames:
        f.append((obj, what))


def guarded(c, a, b):
    """ite whose branches are evaluated lazily; forks if they cannot merge."""
    if isinstance(c, bool):
        return a() if c else b()
    s = S()

    def run():
        return a() if c else b()
    paths = s.pure(run)
    paths = [(pc, r) for pc, r in paths]
    if any(isinstance(r, Raised) for _, r in paths):
        return run()
    try:
        return sym.merge_paths(paths)
    except sym.MergeFail:
        return run()


def pick(i, n, first, second):
    """element i of (first ++ second) where len(first) == n."""
    c = mk_bool(to_int(i) < to_int(n))
    return guarded(c, lambda: first(i),
                   lambda: second(mk_int(to_int(i) - to_int(n))))


def as_seq(x):
    if isinstance(x, SSeq):
        return x
    if isinstance(x, (list, tuple)):
        xs = list(x)
        return SSeq(len(xs), lambda i: const_at(xs, i),
                    'tuple' if isinstance(x, tuple) else 'list')
    if hasattr(x, 'vc_seq'):
        return x.vc_seq()
    raise Unsupported(f'as_seq({type(x).__name__})')


def const_at(xs, i):
    if isinstance(i, int):
        return xs[i]
    if not xs:
        return None

    def rec(k):
        if k == len(xs) - 1:
            return xs[k]
        return guarded(mk_bool(to_int(i) == k), lambda: xs[k],
                       lambda: rec(k + 1))
    return rec(0)


def concat(a, b):
    kind = a.kind if isinstance(a, SSeq) else b.kind
    a, b = as_seq(a), as_seq(b)
    a, b = a.copy(), b.copy()
    n = a.n
    return SSeq(mk_int(to_int(n) + to_int(b.n)),
                lambda i: pick(i, n, a.at, b.at), kind)


def repeat(lst, k):
    """[x] * k"""
    kk = mk_int(z3.If(to_int(k) < 0, z3.IntVal(0), to_int(k)))
    if len(lst) == 1:
        x = lst[0]
        return SSeq(kk, lambda i: x, 'tuple' if isinstance(lst, tuple)
                    else 'list')
    raise Unsupported('repeating a longer list')


def norm_index(sq, i):
    """Python index -> in-range index, or raise IndexError."""
    n, ii = to_int(sq.n), to_int(i)
    s = S()
    if s.fork(z3.And(ii >= 0, ii < n)):
        return mk_int(ii)
    if s.fork(z3.And(ii < 0, ii >= -n)):
        return mk_int(n + ii)
    raise IndexError('list index out of range')


def getitem(sq, i):
    if isinstance(i, slice):
        return slice_(sq, i)
    if not sym.is_intlike(i):
        raise TypeError('list indices must be integers or slices')
    return sq.at(norm_index(sq, i))


def slice_(sq, sl):
    if sl.step not in (None, 1):
        if sl.step == -1 and sl.start is None and sl.stop is None:
            return reversed_(sq)
        raise Unsupported('slice step')
    n = to_int(sq.n)

    def norm(x, d):
        if x is None:
            return d
        x = to_int(x)
        x = z3.If(x < 0, n + x, x)
        return z3.If(x < 0, z3.IntVal(0), z3.If(x > n, n, x))
    a, b = norm(sl.start, z3.IntVal(0)), norm(sl.stop, n)
    m = mk_int(z3.If(b > a, b - a, z3.IntVal(0)))
    a = mk_int(a)
    base = sq.copy()
    return SSeq(m, lambda i: base.at(mk_int(to_int(i) + to_int(a))), sq.kind)


def setitem(sq, i, v):
    if isinstance(i, slice):
        if i.start is None and i.stop is None and i.step is None:
            r = as_seq(v).copy()
            sq._set(r.n, r.fn)
            return
        raise Unsupported('slice assignment to a symbolic list')
    k = norm_index(sq, i)
    old = sq.copy()
    sq._set(old.n, lambda j: guarded(
        mk_bool(to_int(j) == to_int(k)), lambda: v, lambda: old.at(j)))


def delitem(sq, i):
    if isinstance(i, slice):
        raise Unsupported('del slice')
    sq.pop(i)


def bound_bool(fn, binders, guard):
    """Evaluate a boolean Python function under bound variables."""
    s = S()
    paths = s.pure(fn, binders, guard)
    if any(isinstance(r, Raised) for _, r in paths):
        raise Unsupported(f'exception under a binder: {paths}')
    return z3.Or([z3.And(pc, to_bool(r)) for pc, r in paths])


def newvar(base='b'):
    return z3.Int(f'{base}!{next(S().counter)}')


def forall(sq, fn):
    """raw z3: for all elements x of sq (with index): fn(x)"""
    sq = as_seq(sq)
    c = sym.const_of(sq.nterm())
    if c is not None and c <= 12:
        return z3.And([to_bool(fn(sq.at(i))) for i in range(c)] or
                      [z3.BoolVal(True)])
    b = newvar()
    g = z3.And(b >= 0, b < sq.nterm())
    body = bound_bool(lambda: fn(sq.at(SInt(b))), [b], g)
    return z3.ForAll([b], z3.Implies(g, body))


def exists(sq, fn):
    sq = as_seq(sq)
    c = sym.const_of(sq.nterm())
    if c is not None and c <= 12:
        return z3.Or([to_bool(fn(sq.at(i))) for i in range(c)] or
                     [z3.BoolVal(False)])
    b = newvar()
    g = z3.And(b >= 0, b < sq.nterm())
    body = bound_bool(lambda: fn(sq.at(SInt(b))), [b], g)
    return z3.Exists([b], z3.And(g, body))


def contains(sq, x):
    """Branches: a witness index, or a universally quantified absence."""
    s = S()
    c = sym.const_of(sq.nterm())
    if c is not None and c <= 12:
        return mk_bool(exists(sq, lambda y: y == x))
    if s.nest:
        return mk_bool(exists(sq, lambda y: y == x))
    ex = exists(sq, lambda y: y == x)

    def mk():
        b = s.fresh('in', z3.BoolSort())
        s.define(b == ex)
        w = s.fresh('w', z3.IntSort())
        s.define(z3.Implies(b, z3.And(w >= 0, w < sq.nterm(), to_bool(
            sq.at(SInt(w)) == x))))
        return SBool(b)
    return s.memo(('contains', ex), mk)


def seq_eq(a, b):
    if not isinstance(b, (SSeq, list, tuple)):
        return False
    kb = b.kind if isinstance(b, SSeq) else (
        'tuple' if isinstance(b, tuple) else 'list')
    if a.kind != kb:
        return False
    bb = as_seq(b)
    if isinstance(bb.n, int) and bb.n == 0:
        return mk_bool(a.nterm() == 0)
    if not S().fork(a.nterm() == bb.nterm()):
        return False
    c = sym.const_of(bb.nterm())
    if c is not None and c <= 12:
        return mk_bool(z3.And([to_bool(a.at(i) == bb.at(i))
                               for i in range(c)]))
    b_ = newvar()
    g = z3.And(b_ >= 0, b_ < a.nterm())
    body = bound_bool(lambda: a.at(SInt(b_)) == bb.at(SInt(b_)), [b_], g)
    return mk_bool(z3.ForAll([b_], z3.Implies(g, body)))


def reversed_(sq):
    base = as_seq(sq).copy()
    n = base.nterm()
    return SSeq(base.n, lambda i: base.at(mk_int(n - 1 - to_int(i))),
                base.kind)


def sorted_(sq, key=None, reverse=False):
    """A stable sort: a permutation with ordered keys."""
    s = S()
    base = as_seq(sq).copy('list')
    if not isinstance(reverse, bool):
        reverse = bool(reverse)
    n = base.nterm()
    c = sym.const_of(n)
    if c is not None and c <= 1:
        return base
    perm = s.freshfn('perm', z3.IntSort(), z3.IntSort())
    inv = s.freshfn('inv', z3.IntSort(), z3.IntSort())
    i, j = newvar(), newvar()

    def rng(v):
        return z3.And(v >= 0, v < n)
    s.define(z3.ForAll([i], z3.Implies(rng(i), z3.And(
        rng(perm(i)), inv(perm(i)) == i)), patterns=[perm(i)]))
    s.define(z3.ForAll([i], z3.Implies(rng(i), z3.And(
        rng(inv(i)), perm(inv(i)) == i)), patterns=[inv(i)]))
    # make the inverse relevant wherever the base element is mentioned
    res = SSeq(base.n, lambda k: base.at(mk_int(perm(to_int(k)))), 'list')
    kf = key or (lambda x: x)

    def rel():
        a, b = kf(res.at(SInt(i))), kf(res.at(SInt(j)))
        return (a >= b) if reverse else (a <= b)
    g = z3.And(rng(i), rng(j), i < j)
    body = bound_bool(rel, [i, j], g)
    s.define(z3.ForAll([i, j], z3.Implies(g, body)))

    def tie():
        a, b = kf(res.at(SInt(i))), kf(res.at(SInt(j)))
        return a == b
    tb = bound_bool(tie, [i, j], g)
    s.define(z3.ForAll([i, j], z3.Implies(z3.And(g, tb),
                                          perm(i) < perm(j))))
    res.tag = ('sorted', base, perm, inv)
    return res


def sum_(sq, start=0):
    """Sum as an uninterpreted prefix-sum function."""
    s = S()
    sq = as_seq(sq)
    c = sym.const_of(sq.nterm())
    if c is not None and c <= 24:
        r = start
        for i in range(c):
            r = r + sq.at(i)
        return r
    raise Unsupported('sum of a symbolic sequence')


def extremum(sq, pick_, key=None):
    s = S()
    sq = as_seq(sq)
    if s.fork(sq.nterm() == 0):
        raise ValueError('max() arg is an empty sequence')
    w = SInt(s.fresh('arg', z3.IntSort()))
    s.define(z3.Implies(sq.nterm() > 0,
                        z3.And(w.e >= 0, w.e < sq.nterm())))
    m = sq.at(w)
    kf = key or (lambda x: x)
    km = kf(m)
    s.define(forall(sq, lambda x: sym.compare(
        'le' if pick_ == 'gt' else 'ge', kf(x), km)))
    return m


def enumerate_(sq, start=0):
    base = as_seq(sq)
    return SSeq(base.n, lambda i: (mk_int(to_int(i) + to_int(start)),
                                   base.at(i)), 'list')


def zip_(*sqs):
    bs = [as_seq(x) for x in sqs]
    n = bs[0].nterm()
    for b in bs[1:]:
        n = z3.If(b.nterm() < n, b.nterm(), n)
    return SSeq(mk_int(n), lambda i: tuple(b.at(i) for b in bs), 'list')


def range_(*a):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    if not isinstance(st, int) or st == 0:
        raise Unsupported('range with symbolic step')
    l_, h_ = to_int(lo), to_int(hi)
    if st == 1:
        n = h_ - l_
    elif st > 0:
        n = (h_ - l_ + (st - 1)) / st
    else:
        n = (l_ - h_ + (-st - 1)) / (-st)
    n = mk_int(z3.If(n > 0, n, z3.IntVal(0)))
    return SSeq(n, lambda i: mk_int(l_ + to_int(i) * st), 'list', 'range')


def map_filter(sq, f, kind='list'):
    """[...] over a symbolic sequence; f([x]) is a list with 0 or 1 items."""
    s = S()
    base = as_seq(sq).copy()
    c = sym.const_of(base.nterm())
    if c is not None and c <= 12:
        out = []
        for i in range(c):
            out += list(f([base.at(i)]))
        return out
    # one generic element: find out whether the comprehension filters
    b = newvar()
    g = z3.And(b >= 0, b < base.nterm())
    paths = s.pure(lambda: list(f([base.at(SInt(b))])), [b], g)
    if not paths:
        # no feasible element (empty sequence)
        return []
    raised = [pc for pc, r in paths if isinstance(r, Raised)]
    if raised:
        cond = z3.Or(raised)
        if s.nest:
            raise Unsupported('exception in a nested comprehension')
        if not s.fork(z3.Not(z3.Exists([b], z3.And(g, cond)))):
            # some element raises: re-run it outside for its exception
            k = SInt(s.fresh('k', z3.IntSort()))
            s.assume(z3.And(k.e >= 0, k.e < base.nterm()))
            list(f([base.at(k)]))
            raise Kill()
    lens = {len(r) for pc, r in paths if not isinstance(r, Raised)}
    if lens == {1}:
        return SSeq(base.n, lambda i: _one(f, base.at(i)), 'list')
    if not lens:
        raise Kill()
    if max(lens) > 1:
        raise Unsupported('flattening comprehension')
    # filter: strictly increasing index map onto the selected elements
    sel = z3.Or([pc for pc, r in paths
                 if not isinstance(r, Raised) and len(r) == 1] or
                [z3.BoolVal(False)])
    m = s.fresh('flen', z3.IntSort())
    idx = s.freshfn('fidx', z3.IntSort(), z3.IntSort())
    inv = s.freshfn('finv', z3.IntSort(), z3.IntSort())
    n = base.nterm()
    s.define(z3.And(m >= 0, m <= n))
    j, j2 = newvar(), newvar()

    def rng(v):
        return z3.And(v >= 0, v < m)
    s.define(z3.ForAll([j], z3.Implies(rng(j), z3.And(
        idx(j) >= 0, idx(j) < n, inv(idx(j)) == j,
        z3.substitute(sel, (b, idx(j))))), patterns=[idx(j)]))
    s.define(z3.ForAll([j, j2], z3.Implies(z3.And(
        rng(j), rng(j2), j < j2), idx(j) < idx(j2))))
    s.define(z3.ForAll([b], z3.Implies(z3.And(g, sel), z3.And(
        rng(inv(b)), idx(inv(b)) == b)), patterns=[inv(b)]))
    s.define(z3.ForAll([b], z3.Implies(g, (m > 0) if False else
                                       z3.Implies(sel, m > 0))))

    def fn(i):
        k = idx(to_int(i))
        s2 = S()
        if not s2.nest:
            s2.define(z3.Implies(rng(to_int(i)), z3.And(
                k >= 0, k < n, z3.substitute(sel, (b, k)))))
        return _one(f, base.at(mk_int(k)))
    return SSeq(mk_int(m), fn, 'list', ('filter', base, idx, inv))


def _one(f, x):
    """The single item f([x]) yields, on the branch where it yields one."""
    s = S()
    if s.nest:
        r = list(f([x]))
        if len(r) != 1:
            raise Kill()
        return r[0]
    paths = s.pure(lambda: list(f([x])))
    good = [(pc, r[0]) for pc, r in paths
            if not isinstance(r, Raised) and len(r) == 1]
    if not good:
        return None
    try:
        return sym.merge_paths(good)
    except sym.MergeFail:
        r = list(f([x]))
        if len(r) != 1:
            raise Kill()
        return r[0]


def any_(sq):
    if isinstance(sq, SSeq):
        return mk_bool(exists(sq, lambda x: x))
    raise Unsupported('any')


def all_(sq):
    return mk_bool(forall(sq, lambda x: x))
