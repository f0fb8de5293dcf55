"""Loop cut points."""
import re

import z3

from . import engine, rt, sym
from .engine import Kill, Unsupported
from .sym import S, SBool, SFloat, SInt, mk_bool, mk_int, to_bool, to_int


class LoopSpec:
    """An invariant for the loop whose id matches `pattern`.

    inv(ctx) -> list of (name, condition); havoc(ctx) makes the loop-carried
    state arbitrary (it may use ctx.havoc_local / assign heap fields).
    """

    def __init__(self, pattern, inv, havoc=None, variant=None, name=None):
        self.pattern = re.compile(pattern)
        self.inv = inv
        self.havoc = havoc
        self.variant = variant
        self.name = name


class Ctx:
    def __init__(self, getters, setter, seq=None, i=None):
        self.getters, self.setter = getters, setter
        self.seq, self.i = seq, i
        self.ghost = {}

    @property
    def locals(self):
        return rt.read_locals(self.getters)

    def get(self, name):
        v = self.locals.get(name, rt._UNBOUND)
        if v is rt._UNBOUND:
            raise Unsupported(f'loop invariant: no local {name}')
        return v

    def set(self, name, v):
        if name not in self.getters:
            raise Unsupported(f'loop invariant: no local {name}')
        self.setter(name, v)


def find(s, lid):
    for sp in s.loopspecs:
        if sp.pattern.search(lid):
            return sp
    return None


def havoc_like(name, v):
    s = S()
    if isinstance(v, (bool, SBool)):
        return SBool(s.fresh('h_' + name, z3.BoolSort()))
    if isinstance(v, (int, SInt)):
        return SInt(s.fresh('h_' + name, z3.IntSort()))
    if isinstance(v, (float, SFloat)):
        return SFloat(s.fresh('h_' + name, z3.RealSort()))
    return None


def carried(getters, setter, skip=()):
    """havoc every local assigned in the loop"""
    for n, v in rt.read_locals(getters).items():
        if n in skip:
            continue
        if v is rt._UNBOUND:
            continue
        setter(n, rt.Poison(n))


def oblige_inv(s, spec, ctx, lid, when):
    for name, c in spec.inv(ctx):
        s.oblige(f'loop {spec.name or lid} invariant {name} [{when}]',
                 to_bool(c), 'invariant')


def assume_inv(s, spec, ctx):
    for name, c in spec.inv(ctx):
        s.assume(to_bool(c))


def sym_for(it, lid, getters, setter):
    s = S()
    if s.nest:
        raise Unsupported('symbolic loop inside a nested evaluation')
    base = it.copy()
    n = base.nterm()
    spec = find(s, lid)
    ctx = Ctx(getters, setter, base, 0)
    if spec is not None:
        oblige_inv(s, spec, ctx, lid, 'entry')
        skip = spec.havoc(ctx) if spec.havoc else ()
        carried(getters, setter, skip or ())
        if s.decide(2) == 0:
            i = SInt(s.fresh('it', z3.IntSort()))
            s.assume(z3.And(i.e >= 0, i.e < n))
            ctx.i = i
            assume_inv(s, spec, ctx)
            s.kill_if_infeasible()
            yield base.at(i)
            ctx.i = mk_int(i.e + 1)
            oblige_inv(s, spec, ctx, lid, 'preserved')
            raise Kill()
        ctx.i = base.n
        assume_inv(s, spec, ctx)
        return
    # no invariant: every iteration is independent of the others
    key = (lid, tuple(t[0] for t in s.trace[:s.pos]))
    if s.decide(2) == 0:
        rec = s.loop_records.setdefault(key, [])
        carried(getters, setter)
        i = SInt(s.fresh('it', z3.IntSort()))
        s.assume(z3.And(i.e >= 0, i.e < n))
        s.kill_if_infeasible()
        k = len(s.pcs)
        names0 = dict(s.names)
        log = []
        s.frames.append(log)
        try:
            yield base.at(i)
        finally:
            s.frames.remove(log)
        if log:
            raise Unsupported(
                f'loop {lid} changes state and has no invariant: '
                f'{[(type(o).__name__, w) for o, w in log][:4]}')
        rec.append((i.e, list(s.pcs[k:]), names0))
        raise Kill()
    rec = s.loop_records.get(key, [])
    b = z3.Int(f'all!{next(s.counter)}')
    alts = []
    for i, pcs, names0 in rec:
        c = z3.And(pcs) if pcs else z3.BoolVal(True)
        c = _skolem(c, i, b, names0)
        alts.append(c)
    s.assume(z3.ForAll([b], z3.Implies(
        z3.And(b >= 0, b < n), z3.Or(alts) if alts else z3.BoolVal(False))))
    s.kill_if_infeasible()
    carried(getters, setter)


def _consts(e, acc, seen):
    if e.get_id() in seen:
        return
    seen.add(e.get_id())
    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        acc.append(e)
    if z3.is_quantifier(e):
        _consts(e.body(), acc, seen)
        return
    for c in e.children():
        _consts(c, acc, seen)


def _skolem(c, i, b, names0):
    """rename symbols created inside the iteration into functions of b"""
    acc = []
    _consts(c, acc, set())
    subs = [(i, b)]
    for k in acc:
        nm = k.decl().name()
        base, _, num = nm.rpartition('!')
        if not base:
            base, idx = nm, 0
        else:
            try:
                idx = int(num)
            except ValueError:
                base, idx = nm, 0
        if base in names0 and idx < names0[base]:
            continue
        if k.get_id() == i.get_id():
            continue
        if base not in names0 and idx == 0 and '!' not in nm or \
                idx >= names0.get(base, 0):
            f = z3.Function('sk_' + nm, z3.IntSort(), k.sort())
            subs.append((k, f(b)))
    return z3.substitute(c, *subs)


class CutWhile:
    def __init__(self, s, spec, lid, getters, setter):
        self.s, self.spec, self.lid = s, spec, lid
        self.ctx = Ctx(getters, setter)
        self.state = 0

    def head(self):
        s = self.s
        if self.state == 0:
            oblige_inv(s, self.spec, self.ctx, self.lid, 'entry')
            skip = self.spec.havoc(self.ctx) if self.spec.havoc else ()
            carried(self.ctx.getters, self.ctx.setter, skip or ())
            assume_inv(s, self.spec, self.ctx)
            s.kill_if_infeasible()
            if self.spec.variant:
                self.v0 = self.spec.variant(self.ctx)
            self.state = 1
            return True
        oblige_inv(s, self.spec, self.ctx, self.lid, 'preserved')
        if self.spec.variant:
            v = self.spec.variant(self.ctx)
            s.oblige(f'loop {self.spec.name or self.lid} terminates',
                     z3.And(to_int(self.v0) >= 0,
                            to_int(v) < to_int(self.v0)), 'variant')
        raise Kill()


class CountedWhile:
    LIMIT = 40

    def __init__(self):
        self.n = 0

    def head(self):
        self.n += 1
        if self.n > self.LIMIT:
            raise Unsupported('while loop without an invariant')
        return True


def while_enter(lid, getters, setter):
    s = S()
    spec = find(s, lid)
    if spec is None:
        return CountedWhile()
    if s.nest:
        raise Unsupported('loop inside a nested evaluation')
    return CutWhile(s, spec, lid, getters, setter)


del mk_bool, sym, engine
