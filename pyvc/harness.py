"""Contracts: one text, three readings.

A contract is a Python function over `v`.  Read symbolically (`SymV`) it is
executed on the instrumented real source with arbitrary inputs and every
`ensure` becomes a proof obligation on every path.  Read concretely (`ConcV`)
it runs on the plain real code: to replay a counter-model, and to cross-check
the engine (and stand in, labelled bounded, where the engine gives up).
"""
import random

import z3

from . import engine, seq, sym
from .engine import Kill, Unsupported

REGISTRY = {}


class Contract:
    def __init__(self, fn, prop, name, targets, kind, samples, modular, loops,
                 budget, slow, opts, bound):
        self.fn, self.prop, self.name = fn, prop, name
        self.targets, self.kind = targets, kind
        self.samples = samples
        self.modular = modular or (lambda: {})
        self.loops = loops or (lambda: [])
        self.budget = budget
        self.slow = slow
        self.opts = opts or {}
        self.bound = bound


def contract(prop, name=None, targets=(), kind='proof', samples=60,
             modular=None, loops=None, budget=None, slow=False, opts=None,
             bound=None):
    """kind: 'proof' or 'bounded' (never run symbolically).

    bound: what the symbolic run is bounded in, if anything; the obligations
    of such a contract are reported as bounded, not as proved.
    """
    def deco(fn):
        n = name or fn.__name__
        REGISTRY.setdefault(prop, {})[n] = Contract(
            fn, prop, n, tuple(targets), kind, samples, modular, loops,
            budget, slow, opts, bound)
        return fn
    return deco


GHOSTS = set()


def ghost(cls):
    """A class of ghost values: code that asks them for something they do not
    know is out of the contract's reach, not wrong."""
    GHOSTS.add(cls.__name__)
    return cls


class OutOfReach(Exception):
    """Raised by ghost values."""


class EnsureFailed(Exception):
    def __init__(self, label, detail=''):
        super().__init__(f'{label} {detail}')
        self.label = label
        self.detail = detail


class SkipCase(Exception):
    """assume() false on a concrete input."""


class SymV:
    sym = True

    def __init__(self, s):
        self.s = s
        self.used = {}

    def _name(self, name):
        k = self.used.get(name, 0)
        self.used[name] = k + 1
        return name if k == 0 else f'{name}.{k}'

    def _in(self, kind, name, val):
        self.s.inputs.append((kind, name, val))
        return val

    # inputs
    def int(self, name, lo=None, hi=None, chi=None, clo=None):
        name = self._name(name)
        e = self.s.fresh(name, z3.IntSort())
        if lo is not None:
            self.s.assume(e >= sym.to_int(lo))
        if hi is not None:
            self.s.assume(e <= sym.to_int(hi))
        return self._in('int', name, sym.SInt(e))

    def float(self, name, lo=None, hi=None, clo=None, chi=None):
        name = self._name(name)
        e = self.s.fresh(name, z3.RealSort())
        if lo is not None:
            self.s.assume(e >= sym.to_real(lo)[0])
        if hi is not None:
            self.s.assume(e <= sym.to_real(hi)[0])
        return self._in('float', name, sym.SFloat(e))

    def bool(self, name):
        name = self._name(name)
        return self._in('bool', name, sym.SBool(
            self.s.fresh(name, z3.BoolSort())))

    def str(self, name):
        name = self._name(name)
        return self._in('str', name, sym.SStr(
            self.s.fresh(name, z3.StringSort())))

    def choose(self, name, options):
        name = self._name(name)
        options = list(options)
        k = self.s.decide(len(options))
        self._in('choice', name, k)
        return options[k]

    def flag(self, name):
        return self.choose(name, [False, True])

    def small(self, name, lo, hi):
        """A concrete integer, case-split (bounded dimension)."""
        return self.choose(name, range(lo, hi + 1))

    def ints(self, name, lo=None, hi=None, min_len=0, kind='list', chi=None,
             max_len=6):
        name = self._name(name)
        n = self.s.fresh(name + '_len', z3.IntSort())
        self.s.assume(n >= min_len)
        f = self.s.freshfn(name, z3.IntSort(), z3.IntSort())
        sq = seq.SSeq(sym.SInt(n), lambda i: sym.SInt(f(sym.to_int(i))), kind)
        b = z3.Int(f'{name}_b')
        cs = []
        if lo is not None:
            cs.append(f(b) >= sym.to_int(lo))
        if hi is not None:
            cs.append(f(b) <= sym.to_int(hi))
        if cs:
            self.s.assume(z3.ForAll([b], z3.Implies(
                z3.And(b >= 0, b < n), z3.And(cs)), patterns=[f(b)]))
        self._in('seq', name, sq)
        # (lists handed to the code are copies: the code may mutate them)
        return sq.copy()

    def floats(self, name, lo=None, hi=None, min_len=0, kind='list',
               chi=None, max_len=6):
        name = self._name(name)
        n = self.s.fresh(name + '_len', z3.IntSort())
        self.s.assume(n >= min_len)
        f = self.s.freshfn(name, z3.IntSort(), z3.RealSort())
        sq = seq.SSeq(sym.SInt(n), lambda i: sym.SFloat(f(sym.to_int(i))),
                      kind)
        b = z3.Int(f'{name}_b')
        cs = []
        if lo is not None:
            cs.append(f(b) >= sym.to_real(lo)[0])
        if hi is not None:
            cs.append(f(b) <= sym.to_real(hi)[0])
        if cs:
            self.s.assume(z3.ForAll([b], z3.Implies(
                z3.And(b >= 0, b < n), z3.And(cs)), patterns=[f(b)]))
        self._in('seq', name, sq)
        return sq.copy()

    def seq_of(self, name, make, min_len=0, max_len=5, kind='list'):
        """A list of arbitrary length; make(v, i) builds element i.

        make may only use v.elem_* (functions of the index)."""
        name = self._name(name)
        n = self.s.fresh(name + '_len', z3.IntSort())
        self.s.assume(n >= min_len)
        ev = ElemV(self, name)
        sq = seq.SSeq(sym.SInt(n), lambda i: make(ev.bind(i)), kind)
        self._in('seq', name, sq)
        return sq

    # logic
    def assume(self, c):
        e = sym.to_bool(c)
        self.s.assume(e)
        if z3.is_false(z3.simplify(e)):
            raise Kill()
        self.s.kill_if_infeasible()

    def ensure(self, label, c, detail=''):
        self.s.oblige(label, sym.to_bool(c))

    def fail(self, label, detail=''):
        self.s.oblige(label, z3.BoolVal(False))

    def implies(self, a, b):
        return sym.mk_bool(z3.Implies(sym.to_bool(a), sym.to_bool(b)))

    def all_of(self, *cs):
        return sym.mk_bool(z3.And([sym.to_bool(c) for c in cs]))

    def any_of(self, *cs):
        return sym.mk_bool(z3.Or([sym.to_bool(c) for c in cs]))

    def no(self, c):
        return sym.mk_bool(z3.Not(sym.to_bool(c)))

    def forall(self, sq, fn):
        return sym.mk_bool(seq.forall(seq.as_seq(sq), fn))

    def exists(self, sq, fn):
        return sym.mk_bool(seq.exists(seq.as_seq(sq), fn))

    def anyindex(self, name, n):
        """an arbitrary index in [0, n) (kills the path if there is none)"""
        e = self.s.fresh(self._name(name), z3.IntSort())
        self.s.assume(z3.And(e >= 0, e < sym.to_int(n)))
        self.s.kill_if_infeasible()
        return self._in('int', name, sym.SInt(e))

    def each(self, name, n):
        """indices to check: one arbitrary index when symbolic"""
        if isinstance(n, int) and n <= 8:
            return list(range(n))
        return [self.anyindex(name, n)]

    def raises(self, fn, *a, exc=Exception, **k):
        try:
            fn(*a, **k)
        except exc:
            return True
        return False

    # tensors
    def mask_at(self, m, i):
        from . import tensor
        m = tensor.lift(m) if not isinstance(m, tensor.STensor) else m
        r = m.vc_at(i)
        if isinstance(r, (bool, sym.SBool)):
            return r
        return sym.mk_bool(sym.to_real(r)[0] == 1)

    def mask_len(self, m):
        from . import tensor
        return m.vc_n if isinstance(m, tensor.STensor) else len(m)

    def whole_quotients(self):
        """have the solver told, in linear terms, where quotients of whole
        numbers lie (sym.int_quotient)"""
        self.s.ghost['whole_quotients'] = True

    def tensor(self, name, *shape):
        """An arbitrary tensor of floats; see nd.py."""
        from . import nd
        for n in shape:
            self.assume(n >= 0)
        return nd.fresh(self._name(name), shape)

    def pick(self, t, *by):
        """t with its axes cut down by masks, slices or None (all)"""
        for d, m in enumerate(by):
            if m is not None:
                from . import nd
                t = nd.getitem(t, (slice(None), ) * d + (m, ))
        return t

    def apply(self, fn, *a, **k):
        """fn, a torch function, on these tensors"""
        from . import rt
        return rt.call(fn, *a, **k)

    def same(self, a, b):
        """The same tensor: the claim of an ensure, nothing else (what it
        says about an arbitrary position must not be negated)."""
        from . import nd
        return nd.same(a, b)

    def mask_count(self, m):
        from . import tensor
        return m.vc_count() if isinstance(m, tensor.STensor) else int(
            m.sum().item())

    def mask(self, name, n, dtype='bool'):
        """An arbitrary 0/1 mask of length n."""
        from . import tensor
        name = self._name(name)
        f = self.s.freshfn(name, z3.IntSort(), z3.BoolSort())
        cnt = self.s.fresh(name + '_cnt', z3.IntSort())
        self.s.assume(z3.And(cnt >= 0, cnt <= sym.to_int(n)))
        b = z3.Int(name + '_b')
        # count 0 / full pin the contents (enough for the contracts here)
        self.s.assume(z3.ForAll([b], z3.Implies(
            z3.And(b >= 0, b < sym.to_int(n)),
            z3.And(z3.Implies(cnt == 0, z3.Not(f(b))),
                   z3.Implies(cnt == sym.to_int(n), f(b)))),
            patterns=[f(b)]))
        self._in('seq', name, seq.SSeq(n, lambda i: sym.SBool(
            f(sym.to_int(i)))))
        t = tensor.opaque_mask(n, lambda i: sym.SBool(f(sym.to_int(i))),
                               sym.SInt(cnt), 'bool')
        return t if dtype == 'bool' else tensor.cast(t, dtype)


class ElemV:
    """Element builder for seq_of: leaves are functions of the index."""

    def __init__(self, v, name, i=None, fns=None):
        self.v, self.name, self.i = v, name, i
        self.fns = fns if fns is not None else {}

    def bind(self, i):
        return ElemV(self.v, self.name, i, self.fns)

    def _f(self, leaf, sort):
        if leaf not in self.fns:
            # created once, outside of any binder
            self.fns[leaf] = z3.Function(f'{self.name}.{leaf}', z3.IntSort(),
                                         sort)
        return self.fns[leaf](sym.to_int(self.i))

    def int(self, leaf, lo=None, hi=None, **k):
        e = self._f(leaf, z3.IntSort())
        cs = [c for c in (e >= sym.to_int(lo) if lo is not None else None,
                          e <= sym.to_int(hi) if hi is not None else None)
              if c is not None]
        if cs:
            self.v.s.define(z3.And(cs))
        return sym.SInt(e)

    def float(self, leaf, lo=None, hi=None, **k):
        e = self._f(leaf, z3.RealSort())
        cs = [c for c in (e >= sym.to_real(lo)[0] if lo is not None else None,
                          e <= sym.to_real(hi)[0] if hi is not None else None)
              if c is not None]
        if cs:
            self.v.s.define(z3.And(cs))
        return sym.SFloat(e)

    def bool(self, leaf):
        return sym.SBool(self._f(leaf, z3.BoolSort()))

    def str(self, leaf):
        return sym.SStr(self._f(leaf, z3.StringSort()))


class ConcElem:
    """Concrete element builder; records leaves as a dict per element."""

    def __init__(self, v, rec):
        self.v, self.rec = v, rec

    def _leaf(self, leaf, gen):
        if leaf not in self.rec:
            self.rec[leaf] = gen()
        return self.rec[leaf]

    def int(self, leaf, lo=None, hi=None, chi=None, clo=None):
        return self._leaf(leaf, lambda: self.v._gen_int(lo, hi, clo, chi))

    def float(self, leaf, lo=None, hi=None, chi=None, clo=None):
        return self._leaf(leaf, lambda: self.v._gen_float(lo, hi, clo, chi))

    def bool(self, leaf):
        return self._leaf(leaf, lambda: self.v.rng.random() < .5)

    def str(self, leaf):
        return self._leaf(leaf, lambda: self.v._gen_str())


class ConcV:
    sym = False

    def __init__(self, fixed=None, rng=None, scale=1):
        self.fixed = fixed
        self.rng = rng or random.Random(0)
        self.record = {}
        self.used = {}
        self.scale = scale
        self.ensured = 0
        self.labels = set()

    def _name(self, name):
        k = self.used.get(name, 0)
        self.used[name] = k + 1
        return name if k == 0 else f'{name}.{k}'

    def _get(self, name, gen, raw=False):
        if not raw:
            name = self._name(name)
        if self.fixed is not None and name in self.fixed:
            val = self.fixed[name]
        else:
            val = gen()
        self.record[name] = val
        return val

    def _gen_int(self, lo, hi, clo=None, chi=None):
        r = self.rng
        if lo is None:
            lo = clo if clo is not None else (
                hi - 40 if hi is not None else -20)
        elif clo is not None:
            lo = max(lo, clo)
        top = chi if chi is not None else lo + self.scale * r.choice(
            [1, 4, 12, 40, 130])
        if hi is not None:
            top = min(top, hi)
        if top < lo:
            top = lo
        k = r.random()
        if k < 0.12:
            return lo
        if k < 0.2:
            return top
        return r.randint(lo, top)

    def _gen_float(self, lo, hi, clo=None, chi=None):
        r = self.rng
        lo_ = clo if clo is not None else (lo if lo is not None else -10.0)
        hi_ = chi if chi is not None else (hi if hi is not None else
                                           lo_ + 20.0)
        k = r.random()
        if k < 0.1:
            return float(lo_)
        if k < 0.2:
            return float(hi_)
        if k < 0.5:
            x = round(r.uniform(lo_, hi_), r.choice([0, 1, 2]))
            return float(min(max(x, lo_), hi_))
        return r.uniform(lo_, hi_)

    def _gen_str(self):
        r = self.rng
        return ''.join(r.choice('ab.mutable_x') for _ in range(
            r.choice([0, 1, 3, 6])))

    def int(self, name, lo=None, hi=None, chi=None, clo=None):
        v = self._get(name, lambda: self._gen_int(lo, hi, clo, chi))
        self._range(v, lo, hi)
        return v

    def _range(self, v, lo, hi):
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise SkipCase()

    def float(self, name, lo=None, hi=None, clo=None, chi=None):
        v = float(self._get(name, lambda: self._gen_float(lo, hi, clo, chi)))
        self._range(v, lo, hi)
        return v

    def bool(self, name):
        return self._get(name, lambda: self.rng.random() < 0.5)

    def str(self, name):
        return self._get(name, self._gen_str)

    def choose(self, name, options):
        options = list(options)
        k = self._get(name, lambda: self.rng.randrange(len(options)))
        return options[k]

    def flag(self, name):
        return self.choose(name, [False, True])

    def small(self, name, lo, hi):
        return self.choose(name, range(lo, hi + 1))

    def _len(self, min_len, max_len):
        return self.rng.randint(min_len, max(max_len, min_len))

    def ints(self, name, lo=None, hi=None, min_len=0, kind='list', chi=None,
             max_len=6):
        v = self._get(name, lambda: [
            self._gen_int(lo, hi, None, chi)
            for _ in range(self._len(min_len, max_len))])
        if len(v) < min_len:
            raise SkipCase()
        return list(v) if kind == 'list' else tuple(v)

    def floats(self, name, lo=None, hi=None, min_len=0, kind='list',
               chi=None, max_len=6):
        v = self._get(name, lambda: [
            self._gen_float(lo, hi, None, chi)
            for _ in range(self._len(min_len, max_len))])
        return list(v) if kind == 'list' else tuple(v)

    def seq_of(self, name, make, min_len=0, max_len=5, kind='list'):
        name = self._name(name)
        fixed = (self.fixed or {}).get(name)
        if isinstance(fixed, list):
            n = len(fixed)
        else:
            n = self._len(min_len, max_len)
            fixed = None
        out, recs = [], []
        for i in range(n):
            rec = {}
            if fixed is not None and isinstance(fixed[i], dict):
                rec.update(fixed[i])
            out.append(make(ConcElem(self, rec)))
            recs.append(rec)
        self.record[name] = recs
        return out if kind == 'list' else tuple(out)

    def assume(self, c):
        if not c:
            raise SkipCase()

    def ensure(self, label, c, detail=''):
        self.ensured += 1
        self.labels.add(label)
        if not c:
            raise EnsureFailed(label, detail)

    def fail(self, label, detail=''):
        raise EnsureFailed(label, detail)

    def implies(self, a, b):
        return (not a) or b

    def all_of(self, *cs):
        return all(cs)

    def any_of(self, *cs):
        return any(cs)

    def no(self, c):
        return not c

    def forall(self, sq, fn):
        return all(bool(fn(x)) for x in sq)

    def exists(self, sq, fn):
        return any(bool(fn(x)) for x in sq)

    def anyindex(self, name, n):
        if n <= 0:
            raise SkipCase()
        k = self._get(name, lambda: self.rng.randrange(n))
        if k >= n:
            raise SkipCase()
        return k

    def each(self, name, n):
        return list(range(n))

    def raises(self, fn, *a, exc=Exception, **k):
        try:
            fn(*a, **k)
        except (EnsureFailed, SkipCase):
            raise
        except exc:
            return True
        return False

    def mask_at(self, m, i):
        return bool(m[i] == 1)

    def mask_len(self, m):
        return int(m.shape[0])

    def whole_quotients(self):
        pass

    def tensor(self, name, *shape):
        import torch
        n = 1
        for x in shape:
            n *= x
        val = self._get(name, lambda: [self.rng.randint(-99, 99)
                                       for _ in range(min(n, 4096))])
        if not isinstance(val, list):
            val = []
        val = [int(x) for x in val[:n]]
        # (distinct values: a position cannot stand in for another)
        val += [(37 * i) % 997 + 100 for i in range(len(val), n)]
        return torch.tensor(val, dtype=torch.float32).reshape(shape) / 64

    def pick(self, t, *by):
        for d, m in enumerate(by):
            if m is not None:
                t = t[(slice(None), ) * d + (m, )]
        return t

    def apply(self, fn, *a, **k):
        return fn(*a, **k)

    def same(self, a, b):
        import torch
        if a is None or b is None:
            return a is None and b is None
        return a.shape == b.shape and torch.allclose(
            a.double(), b.double(), rtol=1e-4, atol=1e-4)

    def mask_count(self, m):
        return int((m == 1).sum().item())

    def mask(self, name, n, dtype='bool'):
        import torch
        val = self._get(name, lambda: [self.rng.random() < .6
                                       for _ in range(n)])
        t = torch.tensor([bool(x) for x in val][:n] + [True] * max(
            0, n - len(val)), dtype=torch.bool)
        return t if dtype == 'bool' else t.float()


del engine, Unsupported
