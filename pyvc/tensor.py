"""Symbolic tensors.

STensor is a torch.Tensor subclass, so the real code's isinstance checks,
register_buffer and torch.* calls accept it; every torch operation on it is
intercepted by __torch_function__ and interpreted on the symbolic contents:
a list of segments of symbolic length, each constant or opaque with a known
number of ones (0/1 masks).  Unknown operations raise Unsupported.
"""
import torch
import z3

from . import engine, seq, sym
from .engine import Unsupported
from .sym import S, SBool, SInt, SFloat, mk_bool, mk_int, to_int


class Seg:
    """n elements; const value v, or fn(i)->value with `cnt` ones."""
    __slots__ = ('n', 'v', 'fn', 'cnt')

    def __init__(self, n, v=None, fn=None, cnt=None):
        self.n, self.v, self.fn, self.cnt = n, v, fn, cnt

    def at(self, i):
        return self.v if self.fn is None else self.fn(i)


def known_le(a, b):
    """fork on a <= b (integers, possibly symbolic)"""
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    return S().fork(to_int(a) <= to_int(b))


class STensor(torch.Tensor):
    """1-D (or 0-D: scalar) symbolic tensor."""

    @staticmethod
    def __new__(cls, *a, **k):
        return torch.Tensor._make_subclass(cls, torch.empty(0))

    def __init__(self, segs=None, dtype='float', scalar=None):
        self.segs = segs
        self.sdtype = dtype
        self.scalar = scalar

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})

    def __deepcopy__(self, memo):
        return mk(list(self.segs), self.sdtype) if self.segs is not None \
            else scalar(self.scalar, self.sdtype)

    def __repr__(self, **k):
        return f'STensor({self.sdtype}, n={len(self.segs or [])} segs)'

    def __bool__(self):
        if self.scalar is not None:
            return bool(self.scalar)
        raise Unsupported('bool of a symbolic vector')

    def __format__(self, spec):
        return '<tensor>'

    def __hash__(self):
        return id(self)

    # contracts read masks through these
    @property
    def vc_n(self):
        n = 0
        for s in self.segs:
            n = mk_int(to_int(n) + to_int(s.n))
        return n

    def vc_at(self, i):
        """element i as a number (no bounds check)"""
        off = 0
        segs = self.segs

        def rec(k, off):
            s = segs[k]
            loc = mk_int(to_int(i) - to_int(off))
            if k == len(segs) - 1:
                return s.at(loc)
            nxt = mk_int(to_int(off) + to_int(s.n))
            return seq.guarded(mk_bool(to_int(i) < to_int(nxt)),
                               lambda: s.at(loc), lambda: rec(k + 1, nxt))
        return rec(0, off) if segs else 0

    def vc_count(self):
        """sum of the elements"""
        r = 0
        for s in self.segs:
            if s.fn is None:
                v = s.v
                if isinstance(v, (bool, SBool)):
                    v = sym.ite(v, 1, 0)
                v = num(v)
                r = r + v * s.n
            else:
                if s.cnt is None:
                    raise Unsupported('sum of an opaque segment')
                r = r + s.cnt
        return r


def num(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, float) and v == int(v):
        return int(v)
    return v


def mk(segs, dtype):
    out = []
    for s in segs:
        if isinstance(s.n, int) and s.n <= 0:
            continue
        out.append(s)
    return STensor(out, dtype)


def scalar(v, dtype='int'):
    t = STensor(None, dtype, v)
    return t


def const(n, v, dtype='float'):
    if not isinstance(n, SInt):
        if n < 0:
            raise RuntimeError('negative dimension')
    elif S().fork(n.e < 0):
        raise RuntimeError('Trying to create tensor with negative dimension')
    return mk([Seg(n, v)], dtype)


def opaque_mask(n, fn, cnt, dtype='bool'):
    return mk([Seg(n, None, fn, cnt)], dtype)


def lift(t):
    """a concrete 1-D/0-D torch tensor -> STensor"""
    if isinstance(t, STensor):
        return t
    if not isinstance(t, torch.Tensor):
        raise Unsupported('lift')
    dt = 'bool' if t.dtype == torch.bool else (
        'float' if t.dtype.is_floating_point else 'int')
    if t.dim() == 0:
        return scalar(t.item(), dt)
    if t.dim() != 1:
        raise Unsupported('lifting a tensor with several dimensions')
    segs = []
    for v in t.tolist():
        if segs and segs[-1].v == v:
            segs[-1] = Seg(segs[-1].n + 1, v)
        else:
            segs.append(Seg(1, v))
    return mk(segs, dt)


def lower(t):
    """all-concrete STensor -> real tensor"""
    vals = []
    for s in t.segs:
        if not isinstance(s.n, int) or s.fn is not None or isinstance(
                s.v, sym.Sym):
            return t
        vals += [s.v] * s.n
    dt = {'bool': torch.bool, 'float': torch.float32,
          'int': torch.int64}[t.sdtype]
    return torch.tensor(vals, dtype=dt)


def map_(t, f, dtype, cnt=None):
    """elementwise; cnt(seg) -> number of ones of the result segment"""
    if t.segs is None:
        return scalar(f(t.scalar), dtype)
    out = []
    for s in t.segs:
        if s.fn is None:
            out.append(Seg(s.n, f(s.v)))
        else:
            out.append(Seg(s.n, None, (lambda g: lambda i: f(g(i)))(s.fn),
                           cnt(s) if cnt else None))
    return mk(out, dtype)


def split(segs, k):
    """(first k elements, rest); 0 <= k <= total on this path"""
    left, rest = [], list(segs)
    need = k
    while rest:
        if isinstance(need, int) and need == 0:
            break
        s = rest[0]
        c = sym.const_of(to_int(need) - to_int(s.n))
        if c is not None:
            ge = c >= 0
        else:
            ge = known_le(s.n, need)
        if ge:
            left.append(s)
            rest.pop(0)
            need = mk_int(to_int(need) - to_int(s.n))
        else:
            rest.pop(0)
            n2 = mk_int(to_int(s.n) - to_int(need))
            if s.fn is None:
                left.append(Seg(need, s.v))
                rest.insert(0, Seg(n2, s.v))
            else:
                ss = S()
                c1 = ss.fresh('cnt', z3.IntSort()) if s.cnt is not None \
                    else None
                if c1 is not None:
                    ss.define(z3.And(
                        c1 >= 0, c1 <= to_int(need),
                        to_int(s.cnt) - c1 >= 0,
                        to_int(s.cnt) - c1 <= to_int(n2)))
                off = need
                f = s.fn
                left.append(Seg(need, None, f,
                                None if c1 is None else mk_int(c1)))
                rest.insert(0, Seg(
                    n2, None,
                    (lambda f, off: lambda i: f(
                        mk_int(to_int(i) + to_int(off))))(f, off),
                    None if c1 is None else mk_int(to_int(s.cnt) - c1)))
            break
    return left, rest


def bounds(t, sl):
    if sl.step not in (None, 1):
        raise Unsupported('tensor slice step')
    n = to_int(t.vc_n)

    def norm(x, d):
        if x is None:
            return mk_int(d)
        if isinstance(x, STensor):
            x = x.scalar
        if isinstance(x, (float, SFloat)):
            raise TypeError('slice indices must be integers or None')
        x = to_int(x)
        x = z3.If(x < 0, n + x, x)
        return mk_int(z3.If(x < 0, z3.IntVal(0), z3.If(x > n, n, x)))
    a, b = norm(sl.start, z3.IntVal(0)), norm(sl.stop, n)
    return a, mk_int(z3.If(to_int(b) > to_int(a), to_int(b), to_int(a)))


def getitem(t, idx):
    t = lift(t)
    if isinstance(idx, slice):
        a, b = bounds(t, idx)
        l, r = split(t.segs, b)
        _, m = split(l, a)
        return mk(m, t.sdtype)
    if sym.is_intlike(idx):
        n = to_int(t.vc_n)
        ii = to_int(idx)
        s = S()
        if s.fork(z3.And(ii >= 0, ii < n)):
            return scalar(t.vc_at(mk_int(ii)), t.sdtype)
        if s.fork(z3.And(ii < 0, ii >= -n)):
            return scalar(t.vc_at(mk_int(n + ii)), t.sdtype)
        raise IndexError('index out of range')
    if isinstance(idx, torch.Tensor):
        return select(t, lift(idx))
    raise Unsupported(f'tensor index {type(idx).__name__}')


def select(t, m):
    raise Unsupported('boolean selection')


def setitem(t, idx, v):
    if not isinstance(t, STensor):
        raise Unsupported('symbolic store into a concrete tensor')
    dt = t.sdtype
    if isinstance(v, STensor) and v.segs is None:
        v = v.scalar
    if isinstance(idx, slice):
        a, b = bounds(t, idx)
        l, r = split(t.segs, b)
        l0, mid = split(l, a)
        n = mk_int(to_int(b) - to_int(a))
        if isinstance(v, torch.Tensor):
            v = lift(v)
            vn = v.vc_n
            if not S().fork(to_int(vn) == to_int(n)):
                if isinstance(vn, int) and vn == 1:
                    new = [Seg(n, v.segs[0].at(0))]
                else:
                    raise RuntimeError('shape mismatch in slice assignment')
            else:
                new = cast(v, dt).segs
        else:
            new = [Seg(n, castv(v, dt))]
        seq.log_write(S(), t, 'tensor')
        t.segs = [s for s in l0 + new + r
                  if not (isinstance(s.n, int) and s.n <= 0)]
        return
    if sym.is_intlike(idx):
        n = to_int(t.vc_n)
        ii = to_int(idx)
        s = S()
        if s.fork(z3.And(ii >= 0, ii < n)):
            k = mk_int(ii)
        elif s.fork(z3.And(ii < 0, ii >= -n)):
            k = mk_int(n + ii)
        else:
            raise IndexError('index out of range')
        return setitem(t, slice(k, mk_int(to_int(k) + 1), None), v)
    raise Unsupported('tensor store')


def castv(v, dt):
    if dt == 'bool':
        if isinstance(v, (bool, SBool)):
            return v
        return mk_bool(sym.to_bool(v))
    if isinstance(v, (bool, SBool)):
        return sym.ite(v, 1, 0)
    if dt == 'int':
        return sym.trunc(v) if isinstance(v, SFloat) else (
            int(v) if isinstance(v, float) else v)
    return num(v)


def cast(t, dt):
    if t.sdtype == dt:
        return mk(list(t.segs), dt) if t.segs is not None else t
    return map_(t, lambda v: castv(v, dt), dt, lambda s: s.cnt)


def binop(a, b, f, dtype):
    if isinstance(b, torch.Tensor):
        b = lift(b)
    if isinstance(a, torch.Tensor):
        a = lift(a)
    if not isinstance(b, STensor):
        return map_(a, lambda v: f(v, b), dtype)
    if not isinstance(a, STensor):
        return map_(b, lambda v: f(a, v), dtype)
    if a.segs is None and b.segs is None:
        return scalar(f(a.scalar, b.scalar), dtype)
    if b.segs is None:
        return map_(a, lambda v: f(v, b.scalar), dtype)
    if a.segs is None:
        return map_(b, lambda v: f(a.scalar, v), dtype)
    if not S().fork(to_int(a.vc_n) == to_int(b.vc_n)):
        if S().fork(z3.And(to_int(a.vc_n) != 1, to_int(b.vc_n) != 1)):
            raise RuntimeError('size mismatch')
        raise Unsupported('broadcast')
    out = []
    ra, rb = list(a.segs), list(b.segs)
    while ra and rb:
        n = ra[0].n
        c = sym.const_of(to_int(n) - to_int(rb[0].n))
        if c == 0:
            pass
        elif (c is not None and c > 0) or (c is None and not known_le(
                n, rb[0].n)):
            n = rb[0].n
        la, ra = split(ra, n)
        lb, rb = split(rb, n)
        # the minimum piece is a single segment on both sides
        if len(la) != 1 or len(lb) != 1:
            if not la or not lb:
                continue
            raise Unsupported('segment alignment')
        x, y = la[0], lb[0]
        if x.fn is None and y.fn is None:
            out.append(Seg(n, f(x.v, y.v)))
        else:
            out.append(Seg(n, None, (lambda x, y: lambda i: f(
                x.at(i), y.at(i)))(x, y), _cnt2(f, x, y)))
    return mk(out, dtype)


def _cnt2(f, x, y):
    """count of the combination when one side is a constant 0/1"""
    for k, o, flip in ((x, y, False), (y, x, True)):
        if k.fn is None and not isinstance(k.v, sym.Sym) and \
                o.cnt is not None:
            r0 = f(0, k.v) if flip else f(k.v, 0)
            r1 = f(1, k.v) if flip else f(k.v, 1)
            try:
                r0, r1 = num(r0), num(r1)
            except Exception:       # noqa: BLE001
                return None
            if r0 == 0 and r1 == 1:
                return o.cnt
            if r0 == 0 and r1 == 0:
                return 0
            if r0 == 1 and r1 == 1:
                return o.n
    return None


def _eq(x, y):
    r = x == y
    return r


def cnt_eq(t, k):
    """count of `t == k` per segment for 0/1 masks"""
    def c(s):
        if isinstance(k, sym.Sym) or s.cnt is None:
            return None
        if k == 1:
            return s.cnt
        if k == 0:
            return mk_int(to_int(s.n) - to_int(s.cnt))
        return 0
    return c


def t_eq(a, b):
    if isinstance(a, STensor) and sym.is_num(b):
        if a.segs is None:
            return scalar(a.scalar == b, 'bool')
        bb = num(b) if not isinstance(b, sym.Sym) else b
        return map_(a, lambda v: _numv(v) == bb, 'bool', cnt_eq(a, bb))
    return binop(a, b, lambda x, y: _numv(x) == _numv(y), 'bool')


def _numv(v):
    if isinstance(v, (bool, SBool)):
        return sym.ite(v, 1, 0)
    return v


def t_not(a):
    return map_(a, lambda v: sym.neg(castv(v, 'bool')), 'bool',
                lambda s: None if s.cnt is None else mk_int(
                    to_int(s.n) - to_int(s.cnt)))


def b_and(x, y):
    return mk_bool(z3.And(sym.to_bool(x), sym.to_bool(y)))


def b_or(x, y):
    return mk_bool(z3.Or(sym.to_bool(x), sym.to_bool(y)))


def dim_arg(args, kwargs, k=1):
    d = args[k] if len(args) > k else kwargs.get('dim', None)
    return d


def t_cat(ts):
    segs = []
    dts = set()
    for t in ts:
        t = lift(t)
        if t.segs is None:
            raise RuntimeError('zero-dimensional tensor cannot be cat')
        dts.add(t.sdtype)
        segs += t.segs
    dt = 'float' if 'float' in dts else ('int' if 'int' in dts else 'bool')
    out = mk(list(segs), dt)
    if len(dts) > 1:
        out.segs = [s for t in ts for s in cast(lift(t), dt).segs]
    return out


def newlike(t, n, v):
    return const(n, v, t.sdtype)


DT = {torch.float32: 'float', torch.float: 'float', torch.bool: 'bool',
      torch.int64: 'int', torch.long: 'int', torch.int: 'int',
      torch.int32: 'int', torch.float64: 'float'}


class Expand:
    """unsqueeze(-1) of a vector; only expand(...)/flatten are known."""


def t_expand_flat(t, r):
    """each element repeated r times"""
    out = []
    for s in t.segs:
        n = mk_int(to_int(s.n) * to_int(r))
        if s.fn is None:
            out.append(Seg(n, s.v))
        else:
            f = s.fn
            rr = r
            out.append(Seg(
                n, None,
                (lambda f: lambda i: f(sym.floordiv(i, rr)
                                       if isinstance(i, SInt) or
                                       isinstance(rr, SInt) else i // rr))(f),
                None if s.cnt is None else mk_int(
                    to_int(s.cnt) * to_int(r))))
    return mk(out, t.sdtype)


class SView(torch.Tensor):
    """a vector seen as [n, 1] or [n, r] (row-constant) or [b, m]."""

    @staticmethod
    def __new__(cls, *a, **k):
        return torch.Tensor._make_subclass(cls, torch.empty(0))

    def __init__(self, base, form, r):
        self.base = base
        self.form = form          # 'rep': row i is r copies of base[i]
        self.r = r

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})

    def __deepcopy__(self, memo):
        return self

    # (torch parses the sizes before it asks __torch_function__)
    def expand(self, *sizes):
        return _expand(self, *sizes)


def fname(func):
    n = getattr(func, '__name__', '?')
    if n == '__get__':
        return 'get:' + func.__self__.__name__
    if n == '__set__':
        return 'set:' + func.__self__.__name__
    return n


def shape_of(t):
    if isinstance(t, SView):
        return (t.base.vc_n, t.r)
    if t.segs is None:
        return ()
    return (t.vc_n, )


class SShape(tuple):
    """stands in for torch.Size"""

    def numel(self):
        r = 1
        for x in self:
            r = r * x
        return r


def dispatch(func, args, kw):
    name = fname(func)
    h = TABLE.get(name)
    if h is None:
        raise Unsupported(f'torch operation {name}')
    return h(*args, **kw)


def _size(t, d=None):
    sh = SShape(shape_of(t))
    return sh if d is None else sh[d]


def _sum(t, *a, **k):
    t = lift(t)
    if t.segs is None:
        return t
    return scalar(t.vc_count(), 'float' if t.sdtype == 'float' else 'int')


def _item(t):
    if isinstance(t, SView):
        raise Unsupported('item')
    if t.segs is not None:
        n = t.vc_n
        if S().fork(to_int(n) != 1):
            raise RuntimeError('item of a tensor with several elements')
        return t.vc_at(0)
    return t.scalar


def _fill(t, v):
    n = t.vc_n
    seq.log_write(S(), t, 'tensor')
    t.segs = [Seg(n, castv(v, t.sdtype))]
    return t


def _copy(t, o, *a, **k):
    o = lift(o)
    if not S().fork(to_int(t.vc_n) == to_int(o.vc_n)):
        raise RuntimeError('copy_ size mismatch')
    seq.log_write(S(), t, 'tensor')
    t.segs = list(cast(o, t.sdtype).segs)
    return t


def _to(t, *a, **k):
    dts = [DT[x] for x in list(a) + list(k.values())
           if isinstance(x, torch.dtype)]
    for x in a:
        if isinstance(x, STensor):
            dts.append(x.sdtype)
    if dts:
        return cast(t, dts[0])
    return t


def _clone(t, **k):
    if t.segs is None:
        return scalar(t.scalar, t.sdtype)
    return mk(list(t.segs), t.sdtype)


def _unsq(t, dim=None, **k):
    if dim in (-1, 1) and t.segs is not None:
        return SView(t, 'rep', 1)
    raise Unsupported('unsqueeze')


def _expand(t, *sizes, **k):
    if len(sizes) == 1 and isinstance(sizes[0], (list, tuple)):
        sizes = tuple(sizes[0])
    if isinstance(t, SView) and t.form == 'rep' and t.r == 1 and \
            len(sizes) == 2:
        n = sizes[0]
        if not (isinstance(n, int) and n == -1):
            if not S().fork(to_int(n) == to_int(t.base.vc_n)):
                raise RuntimeError('expand size mismatch')
        return SView(t.base, 'rep', sizes[1])
    if isinstance(t, SView) and t.form == 'rep' and t.r == 1 and \
            len(sizes) == 3:
        return _expand(t, *[s for s in sizes if not (
            isinstance(s, int) and s == 1)])
    raise Unsupported('expand')


def _flatten(t, *a, **k):
    if isinstance(t, SView):
        if t.form == 'rep':
            r = t.r
            if not isinstance(r, (int, SInt)):
                raise TypeError('expand needs an integer')
            if isinstance(r, SInt) and S().fork(r.e < 0):
                raise RuntimeError('negative expand')
            return t_expand_flat(t.base, r)
        raise Unsupported('flatten')
    return t


def _reshape(t, *sizes):
    if len(sizes) == 1 and isinstance(sizes[0], (list, tuple)):
        sizes = tuple(sizes[0])
    if isinstance(t, SView):
        if sizes == (-1, ):
            return _flatten(t)
        raise Unsupported('reshape')
    if sizes == (-1, ):
        return t
    if len(sizes) == 2 and t.segs is not None:
        a, b = sizes
        n = to_int(t.vc_n)
        s = S()
        if isinstance(a, int) and a == -1:
            if s.fork(to_int(b) <= 0):
                raise RuntimeError('invalid shape')
            qq, r = sym.fdivmod(n, to_int(b))
            if s.fork(r != 0):
                raise RuntimeError('shape invalid for input of size')
            return SRows(t, mk_int(qq), b)
        if isinstance(b, int) and b == -1:
            qq, r = sym.fdivmod(n, to_int(a))
            if s.fork(r != 0):
                raise RuntimeError('shape invalid for input of size')
            return SRows(t, a, mk_int(qq))
        if s.fork(to_int(a) * to_int(b) != n):
            raise RuntimeError('shape invalid for input of size')
        return SRows(t, a, b)
    raise Unsupported('reshape')


class SRows(torch.Tensor):
    """vector reshaped to rows x cols"""

    @staticmethod
    def __new__(cls, *a, **k):
        return torch.Tensor._make_subclass(cls, torch.empty(0))

    def __init__(self, base, rows, cols):
        self.base, self.rows, self.cols = base, rows, cols

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        name = fname(func)
        if name in ('get:shape', 'size'):
            sh = SShape((args[0].rows, args[0].cols))
            return sh if name == 'get:shape' or len(args) == 1 else sh[
                args[1]]
        raise Unsupported(f'{name} on a reshaped symbolic vector')


TABLE = {
    'get:shape': lambda t: SShape(shape_of(t)),
    'size': _size,
    'get:device': lambda t: torch.device('cpu'),
    'get:dtype': lambda t: {'bool': torch.bool, 'float': torch.float32,
                            'int': torch.int64}[t.sdtype],
    'get:data': lambda t: t,
    'get:requires_grad': lambda t: False,
    'get:is_cuda': lambda t: False,
    'get:ndim': lambda t: len(shape_of(t)),
    'get:is_quantized': lambda t: False,
    'get:grad': lambda t: None,
    'get:grad_fn': lambda t: None,
    'get:is_leaf': lambda t: True,
    'is_floating_point': lambda t: t.sdtype == 'float',
    'is_complex': lambda t: False,
    'dim': lambda t: len(shape_of(t)),
    'numel': lambda t: SShape(shape_of(t)).numel(),
    'nelement': lambda t: SShape(shape_of(t)).numel(),
    '__len__': lambda t: shape_of(t)[0],
    'sum': _sum,
    'count_nonzero': _sum,
    'item': _item,
    'fill_': _fill,
    'zero_': lambda t: _fill(t, 0),
    'copy_': _copy,
    'bool': lambda t: cast(t, 'bool'),
    'float': lambda t: cast(t, 'float'),
    'int': lambda t: cast(t, 'int'),
    'long': lambda t: cast(t, 'int'),
    'to': _to,
    'type_as': lambda t, o: cast(t, lift(o).sdtype),
    'cpu': lambda t, *a, **k: t,
    'cuda': lambda t, *a, **k: t,
    'detach': lambda t: t,
    'contiguous': lambda t: t,
    'clone': _clone,
    'eq': t_eq, '__eq__': t_eq,
    'ne': lambda a, b: t_not(t_eq(a, b)),
    '__ne__': lambda a, b: t_not(t_eq(a, b)),
    'logical_not': t_not, '__invert__': t_not, 'bitwise_not': t_not,
    'logical_and': lambda a, b: binop(a, b, b_and, 'bool'),
    '__and__': lambda a, b: binop(a, b, b_and, 'bool'),
    'bitwise_and': lambda a, b: binop(a, b, b_and, 'bool'),
    '__or__': lambda a, b: binop(a, b, b_or, 'bool'),
    'logical_or': lambda a, b: binop(a, b, b_or, 'bool'),
    'cat': lambda ts, dim=0, **k: t_cat(ts),
    'unsqueeze': _unsq,
    'expand': _expand,
    'flatten': _flatten,
    'reshape': _reshape, 'view': _reshape,
    'zeros_like': lambda t, **k: newlike(t, t.vc_n, 0),
    'ones_like': lambda t, **k: newlike(t, t.vc_n, 1),
    '__getitem__': getitem, '__setitem__': setitem,
    'repeat_interleave': lambda t, r, dim=0, **k: t_expand_flat(t, r),
    '__index__': lambda t: (_ for _ in ()).throw(Unsupported('index')),
}


def _arith(f, dt=None):
    def h(a, b, **k):
        return binop(a, b, lambda x, y: f(_numv(x), _numv(y)),
                     dt or 'float')
    return h


for _n, _f in (('add', lambda x, y: x + y), ('sub', lambda x, y: x - y),
               ('mul', lambda x, y: x * y)):
    TABLE[_n] = TABLE[f'__{_n}__'] = _arith(_f)
    TABLE[f'__r{_n}__'] = _arith((lambda g: lambda x, y: g(y, x))(_f))

def _inplace(f):
    def h(t, o, **k):
        r = binop(t, o, lambda x, y: f(_numv(x), _numv(y)), t.sdtype)
        seq.log_write(S(), t, 'tensor')
        if t.segs is None:
            t.scalar = r.scalar
        else:
            t.segs = list(r.segs)
        return t
    return h


def _method(h):
    # (torch parses the operands before it asks __torch_function__)
    return lambda self, o: h(self, o)


for _n, _f in (('add', lambda x, y: x + y), ('sub', lambda x, y: x - y),
               ('mul', lambda x, y: x * y)):
    TABLE[f'{_n}_'] = TABLE[f'__i{_n}__'] = _inplace(_f)
    for _m in (f'__{_n}__', f'__r{_n}__', f'__i{_n}__'):
        setattr(STensor, _m, _method(TABLE[_m]))
for _n, _f in (('lt', lambda x, y: x < y), ('le', lambda x, y: x <= y),
               ('gt', lambda x, y: x > y), ('ge', lambda x, y: x >= y)):
    TABLE[_n] = TABLE[f'__{_n}__'] = _arith(_f, 'bool')


for _m in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
    setattr(STensor, f'__{_m}__', _method(TABLE[f'__{_m}__']))


# ---- creation functions called with symbolic sizes
def _sizes(a, k):
    if 'size' in k:
        a = (k['size'], )
    if len(a) == 1 and isinstance(a[0], (list, tuple)):
        return tuple(a[0])
    return tuple(a)


def creator(v):
    def h(*a, **k):
        sz = _sizes(a, k)
        dt = DT.get(k.get('dtype'), 'float')
        if len(sz) != 1:
            raise Unsupported('creating a multi-dimensional tensor')
        return const(sz[0], v, dt)
    return h


def t_full(size, v, **k):
    sz = _sizes((size, ), {}) if isinstance(size, (list, tuple)) else (size, )
    dt = DT.get(k.get('dtype'), 'bool' if isinstance(v, bool) else 'float')
    return const(sz[0], v, dt)


def t_arange(*a, **k):
    r = seq.range_(*a)
    return mk([Seg(r.n, None, r.at, None)], 'int')


def t_tensor(data, **k):
    if sym.is_num(data):
        return scalar(data, 'float' if isinstance(data, (float, SFloat))
                      else 'int')
    raise Unsupported('torch.tensor of symbolic data')


CREATE = {torch.ones: creator(1), torch.zeros: creator(0),
          torch.full: t_full, torch.arange: t_arange,
          torch.tensor: t_tensor}


def _scatter(t, dim, idx, v, **k):
    """indices given by the mask of their positions (idx.vc_members)"""
    m = getattr(idx, 'vc_members', None)
    if m is None or not sym.is_num(v) or t.segs is None or dim not in (
            0, -1) or any(x.fn is not None or x.v not in (0, False)
                          for x in t.segs) or v not in (1, True):
        raise Unsupported('scatter')
    if not S().fork(to_int(t.vc_n) == to_int(m.vc_n)):
        raise RuntimeError('index out of bounds')
    seq.log_write(S(), t, 'tensor')
    t.segs = list(cast(m, t.sdtype).segs)
    return t


STensor.scatter_ = _scatter
