"""Symbolic scalars.

Integers are mathematical (Python's are).  Floats are reals plus an explicit
rounding step: every operation whose exact result may not be representable
yields a fresh real r with |r - exact| <= 2**-53 |exact|, r between floor and
ceil of the exact value (rounding is monotone and integers below 2**53 are
representable).  Overflow, underflow, inf and nan are not modelled.
"""
from fractions import Fraction

import z3

from . import engine
from .engine import U53, Unsupported


def S():
    s = engine.CUR
    if s is None:
        raise Unsupported('symbolic value used outside a session')
    return s


class Sym:
    __slots__ = ()
    vc_types = ()

    def __reduce_ex__(self, proto):
        raise Unsupported('pickling a symbolic value')

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def frac(x):
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('inf/nan next to a symbolic number')
        return Fraction(x)
    return Fraction(x)


def q(fr):
    return z3.Q(fr.numerator, fr.denominator)


def _grain_of_const(x):
    f = frac(x)
    k = f.denominator.bit_length() - 1
    if k <= 20 and abs(f) < 2**44:
        return k
    return None


def to_real(v):
    """(z3 real term, grain)"""
    if isinstance(v, SFloat):
        return v.e, v.grain
    if isinstance(v, SInt):
        return z3.ToReal(v.e), 0
    if isinstance(v, SBool):
        return z3.If(v.e, z3.RealVal(1), z3.RealVal(0)), 0
    if isinstance(v, (bool, int)):
        return z3.RealVal(int(v)), 0 if abs(int(v)) < 2**53 else None
    if isinstance(v, float):
        return q(frac(v)), _grain_of_const(v)
    return None


def is_num(v):
    return isinstance(v, (SInt, SFloat, SBool, int, float, bool))


def is_intlike(v):
    return isinstance(v, (SInt, SBool, int, bool)) and not isinstance(
        v, float)


def to_int(v):
    if isinstance(v, SInt):
        return v.e
    if isinstance(v, SBool):
        return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, (bool, int)):
        return z3.IntVal(int(v))
    return None


def const_of(e):
    """Python int/Fraction of a z3 numeral, else None."""
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return e.as_fraction()
    return None


def mk_int(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SInt(e)


def mk_bool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def rnd(e, grain=None):
    """Round an exact real term to a float."""
    e = z3.simplify(e)
    if grain is not None and grain <= 20:
        return SFloat(e, grain)
    if z3.is_rational_value(e):
        fr = e.as_fraction()
        try:
            f = float(fr)
        except OverflowError:
            raise Unsupported('overflow')
        return f
    s = S()
    if s.ghost.get('exact'):
        # the contract is about real numbers (tensor arithmetic)
        return SFloat(e, None)

    def make():
        r = s.fresh('rnd', z3.RealSort())
        fl = z3.ToReal(z3.ToInt(e))
        s.define(z3.And(
            z3.If(e >= 0,
                  z3.And(r >= e * (1 - U53), r <= e * (1 + U53)),
                  z3.And(r <= e * (1 - U53), r >= e * (1 + U53))),
            r >= fl, r <= fl + 1, z3.Implies(e == fl, r == e)))
        if not s.nest:
            for (e2, r2) in s.rnds[-10:]:
                s.define(z3.And(z3.Implies(e2 <= e, r2 <= r),
                                z3.Implies(e2 >= e, r2 >= r)))
            s.rnds.append((e, r))
        s.ghost.setdefault('rnd_of', {})[r.get_id()] = e
        return SFloat(r, None)
    return s.memo(('rnd', e), make)


def int_expr(e):
    """The integer term a real term is the embedding of, or None."""
    if z3.is_rational_value(e):
        return z3.IntVal(e.numerator_as_long()) \
            if e.denominator_as_long() == 1 else None
    if not z3.is_app(e):
        return None
    k = e.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return e.arg(0)
    if k in (z3.Z3_OP_MUL, z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        args = [int_expr(x) for x in e.children()]
        if any(x is None for x in args):
            return None
        r = args[0] if k != z3.Z3_OP_UMINUS else -args[0]
        for x in args[1:]:
            r = (r * x if k == z3.Z3_OP_MUL else
                 r + x if k == z3.Z3_OP_ADD else r - x)
        return r
    return None


def _factors(e):
    if z3.is_mul(e):
        return [f for c in e.children() for f in _factors(c)]
    return [e]


def poly_quotient(a, b):
    """The polynomial a / b when every monomial of a holds b's factors."""
    a, b = int_expr(a), int_expr(b)
    if a is None or b is None:
        return None
    a, b = z3.simplify(a, som=True), z3.simplify(b, som=True)
    if z3.is_int_value(b) or z3.is_add(b):
        return None
    bs = _factors(b)
    out = []
    for m in (a.children() if z3.is_add(a) else [a]):
        fs = _factors(m)
        for f in bs:
            k = next((k for k, x in enumerate(fs) if x.eq(f)), None)
            if k is None:
                return None
            fs = fs[:k] + fs[k + 1:]
        r = z3.IntVal(1)
        for x in fs:
            r = r * x
        out.append(r)
    return z3.simplify(z3.Sum(out)) if len(out) > 1 else out[0]


def tdiv(a, b):
    """real term t with t * b == a (b != 0 on this path)."""
    c = const_of(b)
    if c is not None:
        return a / b
    s = S()

    def make():
        t = s.fresh('quot', z3.RealSort())
        s.define(z3.And(t * b == a, z3.Implies(a == 0, t == 0)))
        # sign and unit comparisons, which the nonlinear solver needs
        s.define(z3.Implies(b > 0, z3.And(
            z3.Implies(a > 0, t > 0), z3.Implies(a < 0, t < 0),
            (a <= b) == (t <= 1), (a < b) == (t < 1))))
        s.ghost.setdefault('quot_of', {})[t.get_id()] = (a, b)
        return t
    return s.memo(('tdiv', a, b), make)


def exact_quotient(a, b):
    """q with a == q * b syntactically, or None (b != 0 on this path)."""
    if a.eq(b):
        return z3.IntVal(1)
    if z3.is_int_value(a) and a.as_long() == 0:
        return z3.IntVal(0)
    if z3.is_mul(a):
        ch = a.children()
        for i, x in enumerate(ch):
            qx = exact_quotient(x, b)
            if qx is not None:
                rest = ch[:i] + ch[i + 1:]
                r = qx
                for y in rest:
                    r = r * y
                return r
        return None
    if z3.is_add(a):
        r = None
        for x in a.children():
            qx = exact_quotient(x, b)
            if qx is None:
                return None
            r = qx if r is None else r + qx
        return r
    return None


def fdivmod(a, b):
    """floor division of integer terms, b != 0 on this path."""
    c = const_of(b)
    s = S()
    if c is not None and c > 0:
        return a / b, a % b
    if z3.is_app_of(a, z3.Z3_OP_ITE):
        x, y = fdivmod(a.arg(1), b), fdivmod(a.arg(2), b)
        return (z3.If(a.arg(0), x[0], y[0]), z3.If(a.arg(0), x[1], y[1]))
    qx = exact_quotient(a, b)
    if qx is not None:
        return qx, z3.IntVal(0)

    def make():
        qq = s.fresh('q', z3.IntSort())
        r = s.fresh('r', z3.IntSort())
        s.define(z3.And(a == qq * b + r, z3.If(
            b > 0, z3.And(r >= 0, r < b), z3.And(r <= 0, r > b))))
        s.define(z3.Implies(z3.And(b > 0, a >= 0),
                            z3.And(qq >= 0, qq <= a, (a < b) == (qq == 0))))
        return qq, r
    return s.memo(('fdm', a, b), make)


class SBool(Sym):
    __slots__ = ('e', )
    vc_types = (bool, int)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return S().fork(self.e)

    def __eq__(self, o):
        if isinstance(o, (SBool, bool)):
            return mk_bool(self.e == to_bool(o))
        if is_num(o):
            return SInt(to_int(self)) == o
        return False

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def __hash__(self):
        return _hash(self)

    def __and__(self, o):
        if isinstance(o, (SBool, bool)):
            return mk_bool(z3.And(self.e, to_bool(o)))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SBool, bool)):
            return mk_bool(z3.Or(self.e, to_bool(o)))
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (SBool, bool)):
            return mk_bool(z3.Xor(self.e, to_bool(o)))
        return NotImplemented

    def __invert__(self):
        # Python's ~True is -2; on tensors/numpy it is `not`
        raise Unsupported('~ on a symbolic bool')

    def __format__(self, spec):
        return f'<bool {self.e.get_id()}>'

    def __repr__(self):
        return f'SBool({self.e})'

    def __index__(self):
        raise Unsupported('index of a symbolic bool')

    def _i(self):
        return SInt(to_int(self))

    def __add__(self, o):
        return self._i() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return self._i() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self._i() < o

    def __le__(self, o):
        return self._i() <= o

    def __gt__(self, o):
        return self._i() > o

    def __ge__(self, o):
        return self._i() >= o

    def item(self):
        return self


def to_bool(v):
    if isinstance(v, SBool):
        return v.e
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, z3.BoolRef):
        return v
    if isinstance(v, SInt):
        return v.e != 0
    if isinstance(v, SFloat):
        return v.e != 0
    if isinstance(v, (int, float)):
        return z3.BoolVal(bool(v))
    if v is None:
        return z3.BoolVal(False)
    t = type(v).__name__
    if t in ('bool_', 'bool'):
        return z3.BoolVal(bool(v))
    raise Unsupported(f'not a boolean: {t}')


def neg(v):
    if isinstance(v, SBool):
        return mk_bool(z3.Not(v.e))
    return not v


def _hash(v):
    s = engine.CUR
    if s is not None and s.ghost.get('hash_ok'):
        return v.e.hash()
    raise Unsupported('hash of a symbolic value')


_OPS = {
    'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b,
    'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b,
    'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b,
}


def compare(op, a, b):
    if is_intlike(a) and is_intlike(b):
        return mk_bool(_OPS[op](to_int(a), to_int(b)))
    for x, flip in ((a, False), (b, True)):
        if isinstance(x, float) and x in (float('inf'), float('-inf')):
            # comparisons with infinity are decided
            big = x > 0
            if flip:      # a OP inf
                return {'lt': big, 'le': big, 'gt': not big, 'ge': not big,
                        'eq': False, 'ne': True}[op]
            return {'lt': not big, 'le': not big, 'gt': big, 'ge': big,
                    'eq': False, 'ne': True}[op]
    ra, rb = to_real(a), to_real(b)
    if ra is None or rb is None:
        if op == 'eq':
            return False
        if op == 'ne':
            return True
        return NotImplemented
    if op in ('eq', 'ne'):
        ia, ib = int_expr(ra[0]), int_expr(rb[0])
        if ia is not None and ib is not None and (z3.is_mul(ia) or
                                                  z3.is_add(ia)):
            return mk_bool(_OPS[op](z3.simplify(ia - ib, som=True), 0))
    return mk_bool(_OPS[op](ra[0], rb[0]))


def _maxgrain(g1, g2):
    if g1 is None or g2 is None:
        return None
    return max(g1, g2)


def is_tensor(o):
    return hasattr(o, '__torch_function__') or type(
        o).__module__.startswith('numpy')


def add(a, b):
    if is_intlike(a) and is_intlike(b):
        return mk_int(to_int(a) + to_int(b))
    ra, rb = to_real(a), to_real(b)
    if ra is None or rb is None:
        return NotImplemented
    # adding zero is exact
    for x, y in ((a, rb), (b, ra)):
        if not isinstance(x, Sym) and x == 0:
            return SFloat(y[0], y[1])
    r = rnd(ra[0] + rb[0], _maxgrain(ra[1], rb[1]))
    for x, y in ((ra[0], rb[0]), (rb[0], ra[0])):
        whole_sum(x, y, r)
    return r


def whole_sum(x, y, r):
    """r = float(x + y): adding a whole number to a quotient of whole numbers
    moves its whole part by that number (int_quotient's gap is far above what
    rounding a sum of this size may change)."""
    s = S()
    w = s.ghost.get('whole_of', {}).get(x.get_id())
    iy = int_expr(y) if w is not None else None
    if iy is None or not isinstance(r, SFloat):
        return

    def make():
        if s._check([z3.Not(z3.And(
                iy <= 2**30, iy >= -2**30))], 2000) != z3.unsat:
            return False
        q = s.fresh('quo', z3.IntSort())
        fq = z3.ToReal(q)
        s.define(z3.And(q == w[0] + iy, z3.If(
            w[1] == 0, r.e == fq, z3.And(r.e > fq, r.e < fq + 1))))
        s.ghost.setdefault('whole_sum', {})[r.e.get_id()] = (q, w[1])
        return True
    s.memo(('wholesum', x, y), make)


def sub(a, b):
    if is_intlike(a) and is_intlike(b):
        return mk_int(to_int(a) - to_int(b))
    ra, rb = to_real(a), to_real(b)
    if ra is None or rb is None:
        return NotImplemented
    if not isinstance(b, Sym) and b == 0:
        return SFloat(ra[0], ra[1])
    return rnd(ra[0] - rb[0], _maxgrain(ra[1], rb[1]))


def mul(a, b):
    if is_intlike(a) and is_intlike(b):
        return mk_int(to_int(a) * to_int(b))
    ra, rb = to_real(a), to_real(b)
    if ra is None or rb is None:
        return NotImplemented
    for x, y in ((a, rb), (b, ra)):
        c = None
        if not isinstance(x, Sym):
            c = frac(x)
        if c is not None and c != 0:
            n, d = abs(c).numerator, abs(c).denominator
            if n & (n - 1) == 0 and d & (d - 1) == 0:
                # scaling by a power of two is exact
                g = y[1]
                if g is not None:
                    g = max(0, g + (d.bit_length() - 1) -
                            (n.bit_length() - 1))
                return SFloat(ra[0] * rb[0], g)
        if c == 0:
            return 0.0
    for x, y in ((ra[0], rb[0]), (rb[0], ra[0])):
        quotient_lemma(x, y)
    g = None
    if ra[1] is not None and rb[1] is not None and \
            S().ghost.get('exact_products', True):
        g = ra[1] + rb[1]
        if g > 20:
            g = None
    return rnd(ra[0] * rb[0], g)


def quotient_lemma(x, y):
    """y * float(a / y) is a up to rounding (x = float(a / y))."""
    s = S()
    e = s.ghost.get('rnd_of', {}).get(x.get_id())
    if e is None:
        return
    ab = s.ghost.get('quot_of', {}).get(e.get_id())
    if ab is None or not ab[1].eq(z3.simplify(y)) and not ab[1].eq(y):
        return
    a = ab[0]
    s.define(z3.Implies(z3.And(y > 0, a >= 0), z3.And(
        x * y >= a * (1 - U53), x * y <= a * (1 + U53))))


def truediv(a, b):
    ra, rb = to_real(a), to_real(b)
    if ra is None or rb is None:
        return NotImplemented
    if S().fork(rb[0] == 0):
        raise ZeroDivisionError('division by zero')
    if not isinstance(b, Sym):
        c = frac(b)
        n, d = abs(c).numerator, abs(c).denominator
        if n & (n - 1) == 0 and d & (d - 1) == 0:
            g = ra[1]
            if g is not None:
                g = max(0, g + (n.bit_length() - 1) - (d.bit_length() - 1))
            return SFloat(z3.simplify(ra[0] / rb[0]), g)
    if ra[1] == 0 and rb[1] == 0:
        iq = poly_quotient(ra[0], rb[0])
        if iq is not None:
            return SFloat(z3.ToReal(z3.simplify(iq)), 0)
        return int_quotient(ra[0], rb[0])
    return rnd(tdiv(ra[0], rb[0]))


def int_quotient(a, b):
    """float(a / b) of whole numbers.  When they are small enough the
    rounded quotient keeps its distance from whole numbers, which is said here
    in linear terms."""
    s = S()
    t = tdiv(a, b)
    f = rnd(t)
    ia, ib = int_expr(a), int_expr(b)
    if not s.ghost.get('whole_quotients') or s.nest or ia is None or \
            not isinstance(f, SFloat) or ib is None \
            or z3.is_int_value(ib):
        return f

    def make():
        if s._check([z3.Not(z3.And(ib > 0, ib <= 2**18, ia <= 2**32,
                                   ia >= -2**32))], 2000) != z3.unsat:
            return False
        q, r = s.fresh('quo', z3.IntSort()), s.fresh('rem', z3.IntSort())
        gap = z3.Q(1, 2**19)
        fq = z3.ToReal(q)
        s.define(z3.And(ia == q * ib + r, r >= 0, r < ib, q <= 2**32,
                        q >= -2**32 - 1, z3.If(
            r == 0, z3.And(t == fq, f.e == fq),
            z3.And(t > fq, t < fq + 1, f.e >= fq + gap,
                   f.e <= fq + 1 - gap))))
        s.ghost.setdefault('whole_of', {})[f.e.get_id()] = (q, r)
        return True
    s.memo(('intquot', a, b), make)
    return f


def floordiv(a, b):
    if is_intlike(a) and is_intlike(b):
        ia, ib = to_int(a), to_int(b)
        if S().fork(ib == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        return mk_int(fdivmod(ia, ib)[0])
    ra, rb = to_real(a), to_real(b)
    if ra is None or rb is None:
        return NotImplemented
    if S().fork(rb[0] == 0):
        raise ZeroDivisionError('float floor division by zero')
    if ra[1] is None or rb[1] is None:
        raise Unsupported('floor division of inexact floats')
    t = tdiv(ra[0], rb[0])
    return SFloat(z3.ToReal(z3.ToInt(t)), 0)


def mod(a, b):
    if is_intlike(a) and is_intlike(b):
        ia, ib = to_int(a), to_int(b)
        if S().fork(ib == 0):
            raise ZeroDivisionError('integer modulo by zero')
        return mk_int(fdivmod(ia, ib)[1])
    ra, rb = to_real(a), to_real(b)
    if ra is None or rb is None:
        return NotImplemented
    if ra[1] is None or rb[1] is None:
        raise Unsupported('modulo of inexact floats')
    if S().fork(rb[0] == 0):
        raise ZeroDivisionError('float modulo')
    t = tdiv(ra[0], rb[0])
    return SFloat(ra[0] - rb[0] * z3.ToReal(z3.ToInt(t)),
                  _maxgrain(ra[1], rb[1]))


def power(a, b):
    if isinstance(b, int) and not isinstance(b, bool) and 0 <= b <= 8:
        r = 1
        for _ in range(b):
            r = mul(r, a) if r != 1 or b == 0 else a
        return r
    if is_intlike(a) and is_intlike(b) and not isinstance(a, Sym):
        ib = to_int(b)
        s = S()
        lo, hi = 0, 12
        if s._check([z3.Or(ib < lo, ib > hi)]) == z3.unsat:
            for i in range(lo, hi + 1):
                if s.fork(ib == i):
                    return a**i
    raise Unsupported('general power')


class SNum(Sym):
    __slots__ = ()

    def __add__(self, o):
        return add(self, o)

    def __radd__(self, o):
        return add(o, self)

    def __sub__(self, o):
        return sub(self, o)

    def __rsub__(self, o):
        return sub(o, self)

    def __mul__(self, o):
        from . import seq
        if isinstance(o, (list, tuple)) and isinstance(self, SInt):
            return seq.repeat(o, self)
        return mul(self, o)

    def __rmul__(self, o):
        from . import seq
        if isinstance(o, (list, tuple)) and isinstance(self, SInt):
            return seq.repeat(o, self)
        return mul(o, self)

    def __truediv__(self, o):
        return truediv(self, o)

    def __rtruediv__(self, o):
        return truediv(o, self)

    def __floordiv__(self, o):
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(o, self)

    def __mod__(self, o):
        return mod(self, o)

    def __rmod__(self, o):
        if isinstance(o, str):
            return o
        return mod(o, self)

    def __divmod__(self, o):
        return floordiv(self, o), mod(self, o)

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def __neg__(self):
        return sub(0, self) if isinstance(self, SInt) else SFloat(
            -self.e, self.grain)

    def __pos__(self):
        return self

    def __abs__(self):
        return ite(self >= 0, self, -self)

    def __lt__(self, o):
        return compare('lt', self, o)

    def __le__(self, o):
        return compare('le', self, o)

    def __gt__(self, o):
        return compare('gt', self, o)

    def __ge__(self, o):
        return compare('ge', self, o)

    def __eq__(self, o):
        return compare('eq', self, o)

    def __ne__(self, o):
        return compare('ne', self, o)

    def __hash__(self):
        return _hash(self)

    def __bool__(self):
        return S().fork(self.e != 0)

    def __int__(self):
        raise Unsupported('native int() of a symbolic value')

    def __float__(self):
        raise Unsupported('native float() of a symbolic value')

    def __index__(self):
        raise Unsupported('native index of a symbolic value')

    def __round__(self, nd=None):
        return round_(self, nd)

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return ceil(self)

    def __format__(self, spec):
        return f'<{type(self).__name__} {self.e.get_id()}>'

    def __repr__(self):
        return f'{type(self).__name__}({self.e})'

    __str__ = __repr__

    def item(self):
        raise AttributeError('item')

    def is_integer(self):
        return mk_bool(to_real(self)[0] == z3.ToReal(
            z3.ToInt(to_real(self)[0])))


class SInt(SNum):
    __slots__ = ('e', )
    vc_types = (int, )

    def __init__(self, e):
        self.e = e

    def __lshift__(self, o):
        return self * (2**o)

    @property
    def real(self):
        return self

    def _bits(self, o):
        raise Unsupported('bits of a symbolic integer')

    __or__ = __ror__ = __xor__ = __rxor__ = __invert__ = _bits

    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return mod(self, o + 1)
        return self._bits(o)

    __rand__ = __and__

    def __rshift__(self, o):
        if isinstance(o, int) and o >= 0:
            return floordiv(self, 2**o)
        return self._bits(o)

    def __lshift__(self, o):
        if isinstance(o, int) and o >= 0:
            return mul(self, 2**o)
        return self._bits(o)

    __rrshift__ = __rlshift__ = _bits


class SFloat(SNum):
    __slots__ = ('e', 'grain')
    vc_types = (float, )

    def __init__(self, e, grain=None):
        self.e = e
        self.grain = grain

    def as_integer_ratio(self):
        raise Unsupported('as_integer_ratio')


def trunc(v):
    if isinstance(v, SFloat):
        e = v.e
        ie = int_expr(e)
        if ie is not None:
            return mk_int(ie)
        w = S().ghost.get('whole_of', {}).get(e.get_id()) or \
            S().ghost.get('whole_sum', {}).get(e.get_id())
        if w is not None:
            return mk_int(z3.If(z3.Or(w[0] >= 0, w[1] == 0), w[0], w[0] + 1))
        return mk_int(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))
    if isinstance(v, SBool):
        return SInt(to_int(v))
    return v


def floor(v):
    if isinstance(v, SFloat):
        return mk_int(z3.ToInt(v.e))
    return v


def ceil(v):
    if isinstance(v, SFloat):
        return mk_int(-z3.ToInt(-v.e))
    return v


def round_(v, nd=None):
    if isinstance(v, SInt):
        if nd is None or nd >= 0:
            return v
        raise Unsupported('round(int, negative)')
    if isinstance(v, SBool):
        return SInt(to_int(v))
    s = S()
    e = v.e
    if nd is not None:
        # some number within half a step (and the rounding of that number)
        def near():
            r = s.fresh('rounded', z3.RealSort())
            h = z3.Q(2**40 + 1, 2**41) * q(Fraction(1, 10**nd))
            s.define(z3.And(r - e <= h, e - r <= h))
            return SFloat(r)
        return s.memo(('round', nd, e), near)

    def make():
        f = z3.ToInt(e)
        d = e - z3.ToReal(f)
        half = z3.Q(1, 2)
        return mk_int(z3.If(d < half, f, z3.If(
            d > half, f + 1, z3.If(f % 2 == 0, f, f + 1))))
    return s.memo(('round', e), make)


def tofloat(v):
    if isinstance(v, SFloat):
        return v
    r, g = to_real(v)
    return SFloat(z3.simplify(r), g)


def ite(c, a, b):
    """Merge two values under a (symbolic) condition."""
    if isinstance(c, bool):
        return a if c else b
    ce = to_bool(c)
    ce = z3.simplify(ce)
    if z3.is_true(ce):
        return a
    if z3.is_false(ce):
        return b
    if a is b:
        return a
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return mk_bool(z3.If(ce, to_bool(a), to_bool(b)))
    if is_intlike(a) and is_intlike(b):
        return mk_int(z3.If(ce, to_int(a), to_int(b)))
    if is_num(a) and is_num(b):
        # Python keeps int and float apart; equal reals behave alike in
        # arithmetic, and isinstance on a merged value is refused
        if is_intlike(a) != is_intlike(b):
            raise MergeFail('int/float')
        ra, rb = to_real(a), to_real(b)
        return SFloat(z3.If(ce, ra[0], rb[0]), _maxgrain(ra[1], rb[1]))
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        if isinstance(a, str) and a == b:
            return a
        return SStr(z3.If(ce, to_str(a), to_str(b)))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if hasattr(a, 'vc_ite'):
        return a.vc_ite(c, b)
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        try:
            if a is b or (type(a) is type(b) and type(a).__hash__ and
                          a == b):
                return a
        except Exception:       # noqa: BLE001
            pass
    raise MergeFail(f'{type(a).__name__}/{type(b).__name__}')


class MergeFail(Unsupported):
    pass


def merge_paths(paths):
    """[(pc, value)] -> one value (the pcs are exhaustive and exclusive)."""
    if not paths:
        raise engine.Kill()
    v = paths[-1][1]
    for pc, r in reversed(paths[:-1]):
        v = ite(mk_bool(pc), r, v)
    return v


def smax(vals, pick='gt'):
    vals = list(vals)
    if not vals:
        raise ValueError('max() arg is an empty sequence')
    r = vals[0]
    for v in vals[1:]:
        c = compare(pick, v, r)
        try:
            r = ite(c, v, r)
        except MergeFail:
            r = v if c else r
    return r


# ---------------------------------------------------------------- strings

class SStr(Sym):
    __slots__ = ('e', )
    vc_types = (str, )

    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        if isinstance(o, (str, SStr)):
            return mk_bool(self.e == to_str(o))
        return False

    def __ne__(self, o):
        return neg(self == o)

    def __hash__(self):
        return _hash(self)

    def __add__(self, o):
        if isinstance(o, (str, SStr)):
            return mk_str(z3.Concat(self.e, to_str(o)))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (str, SStr)):
            return mk_str(z3.Concat(to_str(o), self.e))
        return NotImplemented

    def __bool__(self):
        return S().fork(z3.Length(self.e) != 0)

    def __format__(self, spec):
        return f'<str {self.e.get_id()}>'

    def __repr__(self):
        return f'SStr({self.e})'

    def __str__(self):
        return f'<str {self.e.get_id()}>'

    def __iter__(self):
        raise Unsupported('iterating a symbolic string')

    def __contains__(self, o):
        return bool(mk_bool(z3.Contains(self.e, to_str(o))))

    def vc_len(self):
        return mk_int(z3.Length(self.e))

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported('string slice step')
            n = z3.Length(self.e)

            def norm(x, dflt):
                if x is None:
                    return dflt
                x = to_int(x)
                x = z3.If(x < 0, n + x, x)
                return z3.If(x < 0, z3.IntVal(0), z3.If(x > n, n, x))
            if i.stop is None and i.start is not None:
                rest = _after(self.e, to_int(i.start))
                if rest is not None:
                    return rest
            a, b = norm(i.start, z3.IntVal(0)), norm(i.stop, n)
            return mk_str(z3.SubString(self.e, a, z3.If(b > a, b - a, 0)))
        raise Unsupported('string index')

    def startswith(self, p):
        if isinstance(p, tuple):
            r = False
            for x in p:
                r = r or self.startswith(x)
            return r
        if _after(self.e, z3.Length(to_str(p)), to_str(p)) is not None:
            return True
        return mk_bool(z3.PrefixOf(to_str(p), self.e))

    def endswith(self, p):
        return mk_bool(z3.SuffixOf(to_str(p), self.e))

    def removeprefix(self, p):
        if self.startswith(p):
            return self[(len(p) if isinstance(p, str) else p.vc_len()):]
        return self

    def encode(self, *a):
        raise Unsupported('encode')

    def __getattr__(self, name):
        if name in ('lstrip', 'rstrip', 'strip', 'split', 'replace', 'join',
                    'lower', 'upper', 'partition', 'rsplit', 'format',
                    'find', 'rpartition', 'isdigit', 'removesuffix'):
            raise Unsupported(f'str.{name} on a symbolic string')
        raise AttributeError(name)


def _flat(e):
    if z3.is_app_of(e, z3.Z3_OP_SEQ_CONCAT):
        return [x for c in e.children() for x in _flat(c)]
    return [e]


def _after(e, n, head=None):
    """The rest of e after its first n characters, when e is a
    concatenation whose first part has (syntactically) that length."""
    parts = _flat(e)
    if len(parts) < 2 or not z3.simplify(
            z3.Length(parts[0]) == n).eq(z3.BoolVal(True)):
        return None
    if head is not None and not z3.simplify(parts[0] == head).eq(
            z3.BoolVal(True)):
        return None
    rest = parts[1:]
    return mk_str(z3.Concat(*rest) if len(rest) > 1 else rest[0])


def to_str(v):
    if isinstance(v, SStr):
        return v.e
    return z3.StringVal(v)


def mk_str(e):
    e = z3.simplify(e)
    if z3.is_string_value(e):
        return e.as_string()
    return SStr(e)


def iff(a, b):
    return mk_bool(to_bool(a) == to_bool(b))


def both(*cs):
    return mk_bool(z3.And([to_bool(c) for c in cs]))


def either(*cs):
    return mk_bool(z3.Or([to_bool(c) for c in cs]))
