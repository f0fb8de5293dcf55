"""Path exploration, path conditions and obligations."""
import itertools
import os
import subprocess
import tempfile
import time

import z3

U53 = z3.Q(1, 2**53)


class Unsupported(BaseException):
    """The code left the subset the verifier understands."""


class Kill(BaseException):
    """The current path is finished (infeasible, or a loop-cut end)."""


class BudgetExceeded(BaseException):
    pass


CUR = None          # the active session (None: hooks are transparent)


def session():
    return CUR


class Raised:
    def __init__(self, exc):
        self.exc = exc


FALLBACKS = [
    ('cvc5', ['cvc5', '--lang=smt2', '--tlimit={ms}', '--nl-ext-tplanes']),
    ('z3-new', ['z3-new', '-T:{s}']),
    ('z3', ['z3', '-T:{s}']),
]


def _external(assertions, ms):
    """Portfolio of the other installed solvers, run side by side."""
    s = z3.Solver()
    s.add(assertions)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
        path = f.name
    procs = []
    try:
        for name, cmd in FALLBACKS:
            cmd = [c.format(ms=ms, s=max(1, ms // 1000)) for c in cmd] + [path]
            try:
                procs.append((name, subprocess.Popen(
                    cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                    text=True)))
            except OSError:
                continue
        end = time.time() + ms / 1000 + 3
        left = list(procs)
        while left and time.time() < end:
            for item in list(left):
                name, p = item
                if p.poll() is None:
                    continue
                left.remove(item)
                out = p.stdout.read().split()
                if out and out[0] in ('unsat', 'sat'):
                    return name, out[0]
            time.sleep(0.01)
    finally:
        for _, p in procs:
            if p.poll() is None:
                p.kill()
            p.wait()
            p.stdout.close()
        os.unlink(path)
    return None, 'unknown'


class Session:

    def __init__(self, feas_ms=3000, prove_ms=20000, max_paths=4000,
                 budget_s=600, verbose=False):
        self.feas_ms = feas_ms
        self.prove_ms = prove_ms
        self.max_paths = max_paths
        self.deadline = time.time() + budget_s
        self.verbose = verbose
        self.modular = {}        # function object -> summary
        self.loopspecs = []
        self.obls = {}           # label -> dict(status, paths, ...)
        self.covers = {}
        self.cover_tries = {}
        self.solver_time = 0.0
        self.backends = {}
        self.queries = 0
        self.loop_records = {}
        self.notes = set()
        self.functions = set()
        self.paths = 0
        self.killed = 0

    # ------------------------------------------------------ path running
    def explore(self, fn):
        """Run fn once per path.  fn gets no argument."""
        global CUR
        self.trace = []
        while True:
            if self.paths >= self.max_paths:
                raise BudgetExceeded('path limit')
            if time.time() > self.deadline:
                raise BudgetExceeded('time limit')
            self._reset_path()
            CUR = self
            try:
                fn()
            except Kill:
                self.killed += 1
            finally:
                CUR = None
            self.paths += 1
            while self.trace and not self.trace[-1][1]:
                self.trace.pop()
            if not self.trace:
                return
            ch, rest = self.trace[-1]
            self.trace[-1] = (rest[0], rest[1:])

    def _reset_path(self):
        self.pos = 0
        self.solver = z3.Solver()
        self.solver.set('timeout', self.feas_ms)
        self.pcs = []
        self.counter = itertools.count()
        self.names = {}
        self.nest = []           # nested evaluation frames
        self.nframes = 0
        self.cache = {}          # hash-consing of fresh results
        self.keep = []
        self.inputs = []         # (kind, name, value)
        self.rnds = []
        self.nodecide = 0
        self.frames = []         # active loop write logs
        self.suppress_calls = 0
        self.ghost = {}

    # ------------------------------------------------------ fresh symbols
    def binders(self):
        return [b for f in self.nest for b in f['binders']]

    def fresh(self, base, sort):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        name = base if n == 0 else f'{base}!{n}'
        bs = self.binders()
        if bs:
            f = z3.Function(name, *[b.sort() for b in bs], sort)
            return f(*bs)
        return z3.Const(name, sort)

    def freshfn(self, base, *sorts):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        name = base if n == 0 else f'{base}!{n}'
        bs = self.binders()
        if bs:
            f = z3.Function(name, *[b.sort() for b in bs], *sorts)
            return lambda *a: f(*bs, *a)
        return z3.Function(name, *sorts)

    def memo(self, key, make):
        """key: tuple of strings / z3 terms."""
        k = tuple(('z', x.get_id()) if isinstance(x, z3.AstRef) else x
                  for x in key)
        k = (k, len(self.nest) and self.nest[-1]['uid'])
        if k in self.cache:
            return self.cache[k]
        self.keep.append(key)
        self.cache[k] = r = make()
        return r

    # ------------------------------------------------------ constraints
    def assume(self, c):
        """Add c to the path condition (raw z3 boolean)."""
        if self.nest:
            self.nest[-1]['pcs'].append(c)
        self.pcs.append(c)
        self.solver.add(c)

    def define(self, c):
        """Definitional side constraint of fresh symbols."""
        if self.nest:
            self.nest[-1]['defs'].append(
                (list(self.nest[-1]['pcs']), c))
        self.pcs.append(c)
        self.solver.add(c)

    def kill_if_infeasible(self):
        if self._check([]) == z3.unsat:
            raise Kill()

    def _check(self, extra, ms=None):
        t = time.time()
        self.queries += 1
        if ms:
            self.solver.set('timeout', ms)
        try:
            r = self.solver.check(*extra)
        finally:
            if ms:
                self.solver.set('timeout', self.feas_ms)
            self.solver_time += time.time() - t
        return r

    def decide(self, n):
        """Non-deterministic choice in range(n)."""
        tr, pos = (self.nest[-1]['trace'], self.nest[-1]['pos']) \
            if self.nest else (self.trace, self.pos)
        if pos < len(tr):
            ch = tr[pos][0]
        else:
            ch = 0
            tr.append((0, list(range(1, n))))
        if self.nest:
            self.nest[-1]['pos'] += 1
        else:
            self.pos += 1
        return ch

    def fork(self, cond):
        """Branch on a z3 boolean; returns a Python bool."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        tr, pos = (self.nest[-1]['trace'], self.nest[-1]['pos']) \
            if self.nest else (self.trace, self.pos)
        if pos >= len(tr):
            if time.time() > self.deadline:
                raise BudgetExceeded('time limit')
            t = self._check([cond]) != z3.unsat
            f = (not t) or self._check([z3.Not(cond)]) != z3.unsat
            if t and f:
                tr.append((0, [1]))
            elif t:
                tr.append((0, []))
            else:
                tr.append((1, []))
        ch = tr[pos][0]
        if self.nest:
            self.nest[-1]['pos'] += 1
        else:
            self.pos += 1
        self.assume(cond if ch == 0 else z3.Not(cond))
        return ch == 0

    def pure(self, fn, binders=(), guard=None):
        """Evaluate fn on all its paths.

        Returns [(path condition, result or Raised)]; definitional side
        constraints are kept (quantified over the binders).
        """
        from . import sym
        out = []
        trace = []
        defs = []
        names0 = dict(self.names)
        while True:
            self.nframes += 1
            fr = dict(trace=trace, pos=0, pcs=[], defs=[],
                      binders=list(binders), uid=self.nframes)
            self.names = dict(names0)
            self.nest.append(fr)
            self.solver.push()
            npcs = len(self.pcs)
            if guard is not None:
                self.pcs.append(guard)
                self.solver.add(guard)
            killed = False
            try:
                try:
                    r = fn()
                except Kill:
                    killed = True
                except Exception as e:      # noqa: BLE001
                    r = Raised(e)
            finally:
                self.nest.pop()
                self.solver.pop()
                del self.pcs[npcs:]
            if not killed:
                pc = z3.And(fr['pcs']) if fr['pcs'] else z3.BoolVal(True)
                out.append((pc, r))
            defs += fr['defs']
            while trace and not trace[-1][1]:
                trace.pop()
            if not trace:
                break
            ch, rest = trace[-1]
            trace[-1] = (rest[0], rest[1:])
            if len(out) > 256:
                raise Unsupported('too many paths in a nested evaluation')
        seen = set()
        for pcs, c in defs:
            body = z3.Implies(z3.And(pcs), c) if pcs else c
            if guard is not None:
                body = z3.Implies(guard, body)
            if body.get_id() in seen:
                continue
            seen.add(body.get_id())
            self.keep.append(body)
            if binders:
                body = z3.ForAll(list(binders), body)
            self.define(body)
        del sym
        return out

    # ------------------------------------------------------ obligations
    def oblige(self, label, cond, kind='post'):
        """cond: raw z3 boolean that must follow from the path condition."""
        o = self.obls.setdefault(label, dict(
            label=label, status='proved', vcs=0, kind=kind, time=0.0,
            models=[], backends=set(), why=''))
        o['vcs'] += 1
        if self.nest:
            raise Unsupported('obligation inside a nested evaluation')
        t0 = time.time()
        goal = z3.simplify(z3.Not(cond))
        if z3.is_false(goal):
            o['backends'].add('simplifier')
            self.backends['simplifier'] = self.backends.get('simplifier',
                                                            0) + 1
            self._cover(label)
            return True
        via = False
        r = self._check([goal], min(3000, self.prove_ms))
        if r == z3.unknown:
            name, ext = _external(self.pcs + [goal], self.prove_ms)
            self.queries += 1
            if ext == 'unsat':
                r = z3.unsat
                via = True
                o['backends'].add(name)
                self.backends[name] = self.backends.get(name, 0) + 1
            else:
                # a model is needed for a refutation: fresh solver
                s = z3.Solver()
                s.set('timeout', self.prove_ms)
                s.add(self.pcs)
                s.add(goal)
                self.queries += 1
                r = s.check()
                if r == z3.sat:
                    mdl = s.model()
                elif ext == 'sat':
                    o['why'] = o['why'] or f'{name}: sat, no model kept'
        elif r == z3.sat:
            mdl = self.solver.model()
        dt = time.time() - t0
        o['time'] += dt
        self.solver_time += dt
        if r == z3.unsat:
            if not via:
                o['backends'].add('z3')
                self.backends['z3'] = self.backends.get('z3', 0) + 1
            self._cover(label)
            self.pcs.append(cond)
            self.solver.add(cond)
            return True
        if r == z3.sat:
            o['status'] = 'refuted'
            mdl = self._small_model(goal) or mdl
            if len(o['models']) < 4:
                o['models'].append(self.read_inputs(mdl))
                o['why'] = f'{z3.simplify(cond)}'[:2000]
            self._cover(label)
        else:
            if o['status'] == 'proved':
                o['status'] = 'unknown'
            o['why'] = o['why'] or f'solver gave up: {z3.simplify(cond)}'[:2000]
        self.pcs.append(cond)
        self.solver.add(cond)
        return False

    def _cover(self, label):
        """Non-vacuity: some path reaching `label` is satisfiable."""
        if self.covers.get(label) == 'sat':
            return
        n = self.cover_tries.get(label, 0)
        if n >= 3:
            return
        self.cover_tries[label] = n + 1
        r = self._check([], 1500)
        if r == z3.sat:
            self.covers[label] = 'sat'
        elif r == z3.unknown:
            self.covers.setdefault(label, 'unknown')

    def _small_model(self, goal):
        ints = []
        for kind, name, val in self.inputs:
            for t in input_terms(kind, val):
                ints.append(t)
        for bound in (6, 12, 40, 300, 5000):
            cs = [z3.And(t <= bound, t >= -bound) for t in ints]
            if self._check([goal] + cs, 3000) == z3.sat:
                return self.solver.model()
        return None

    def read_inputs(self, model):
        out = {}
        for kind, name, val in self.inputs:
            try:
                out[name] = read_value(kind, val, model)
            except Exception as e:      # noqa: BLE001
                out[name] = f'<unreadable {e}>'
        return out


def input_terms(kind, val):
    from . import seq, sym
    if isinstance(val, (sym.SInt, sym.SFloat)):
        return [val.e]
    if isinstance(val, seq.SSeq):
        t = [val.n.e] if isinstance(val.n, sym.SInt) else []
        return t
    if kind == 'term':
        return [val] if z3.is_arith(val) else []
    return []


def read_value(kind, val, m):
    from . import seq, sym
    if isinstance(val, (bool, int, float, str, type(None))):
        return val
    if isinstance(val, sym.SBool):
        return z3.is_true(m.eval(val.e, model_completion=True))
    if isinstance(val, sym.SInt):
        return m.eval(val.e, model_completion=True).as_long()
    if isinstance(val, sym.SFloat):
        x = m.eval(val.e, model_completion=True)
        if z3.is_algebraic_value(x):
            x = x.approx(20)
        f = x.as_fraction()
        return float(f)
    if isinstance(val, sym.SStr):
        return m.eval(val.e, model_completion=True).as_string()
    if isinstance(val, seq.SSeq):
        n = read_value('int', val.n, m)
        n = max(0, min(n, 64))
        return [read_value('elem', val.at(i), m) for i in range(n)]
    if isinstance(val, (list, tuple)):
        return [read_value(kind, v, m) for v in val]
    if isinstance(val, dict):
        return {k: read_value(kind, v, m) for k, v in val.items()}
    if hasattr(val, 'vc_read'):
        return val.vc_read(lambda v: read_value(kind, v, m), m)
    raise TypeError(type(val))
