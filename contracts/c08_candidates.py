"""C08: a list of candidates keeps every subnet with its own results."""
from collections import UserList

from mmrazor.structures import Candidates
from pyvc.harness import contract
from pyvc.loops import LoopSpec

CA = 'mmrazor/structures/subnet/candidate.py'
SUBNETS = [{0: 'a', 1: 'b'}, {'0': 8, '1': 0.5}, {'x': ['a', 'b'], 'y': 3},
           {'x': "it's", 'y': 'a"b'}]
KEYS = ('score', 'flops', 'params', 'latency')


class Model:
    """The specification: subnets with their results, in order."""

    def __init__(self):
        self.rows = []

    def same(self, v, c, label):
        v.ensure(label + ': as many', len(c) == len(self.rows))
        if self.rows:
            v.ensure(label + ': subnets', c.subnets == [
                r[0] for r in self.rows])
        for k in KEYS[1:]:
            got = c.resources(k)
            v.ensure(label + ': one result each',
                     len(got) == len(self.rows))
            for g, (_, res) in zip(got, self.rows):
                v.ensure(f'{label}: {k}', g == res[k])
        got = c.scores
        v.ensure(label + ': one score each', len(got) == len(self.rows))
        for g, (_, res) in zip(got, self.rows):
            v.ensure(label + ': score', v.all_of(
                g - res['score'] <= 0.0051, res['score'] - g <= 0.0051))


def entry(v, i, form):
    """(what is handed over, what it means)"""
    at = i % 4 if i else v.small('subnet', 0, 3)
    sub = dict(SUBNETS[at])
    if form == 'subnet':
        return sub, (sub, dict.fromkeys(KEYS, -1))
    res = {}
    given = KEYS if i == 9 else [
        KEYS, ('flops',), ('score', 'latency'), ()][at]
    for k in given:
        res[k] = v.float(f'{k}{i}', 0, 1000)
    return {str(sub): dict(res)}, (sub, {k: res.get(k, 0.) for k in KEYS})


@contract('C08', targets=[CA], samples=400, bound='at most 3 candidates')
def adding(v):
    """Any way to add, in order, without touching what is there."""
    c, m = Candidates(), Model()
    form = v.choose('form', ['subnet', 'results'])
    n = v.small('n', 1, 2)
    items, rows = zip(*[entry(v, i, form) for i in range(n)])
    how = v.choose('how', ['init', 'append', 'extend', 'insert'])
    pack = v.choose('as', ['list', 'UserList', 'Candidates']) \
        if how != 'insert' else 'single'
    one = n == 1 and how != 'insert' and v.flag('bare')
    arg = items[0] if one else {
        'list': lambda: list(items), 'UserList': lambda: UserList(items),
        'Candidates': lambda: Candidates(list(items)),
        'single': lambda: items}[pack]()
    first, frow = entry(v, 9, 'results')
    if how == 'init':
        c = Candidates(arg)
        m.rows = list(rows)
    elif how == 'insert':
        c = Candidates(first)
        m.rows = [frow]
        for i, r in zip(items, rows):
            at = v.small('at', 0, len(m.rows))
            c.insert(at, i)
            m.rows.insert(at, r)
    else:
        c = Candidates([first])
        getattr(c, how)(arg)
        m.rows = [frow] + list(rows)
    m.same(v, c, 'after')
    if v.flag('then set'):
        i, k = v.small('i', 0, len(m.rows) - 1), v.choose('key', KEYS[:2])
        x = v.float('x', 0, 1000)
        if k == 'score':
            c.set_score(i, x)
        else:
            c.set_resource(i, x, k)
        m.rows[i] = (m.rows[i][0], dict(m.rows[i][1], **{k: x}))
        m.same(v, c, 'later')
        return
    if how != 'init' and pack == 'Candidates' and not one:
        other = Model()
        other.rows = list(rows)
        other.same(v, arg, 'the added list')
        c.append(entry(v, 5, 'subnet')[0])
        other.same(v, arg, 'the added list later')
    by = v.choose('key', KEYS[:3:2])
    c.sort_by(by)
    got = [list(r.values())[0][by] for r in c]
    v.ensure('can be sorted by a result that was not given',
             all([a >= b for a, b in zip(got, got[1:])]))


def three(v):
    c, m = Candidates(), Model()
    n = v.small('n', 1, 3)
    for i in range(n):
        sub = {'x': i, 'y': 'c'}
        res = {k: v.float(f'{k}{i}', 0, 1000) for k in KEYS}
        c.append({str(sub): dict(res)})
        m.rows.append((sub, res))
    return c, m


@contract('C08', targets=[CA], samples=200, bound='at most 3 candidates')
def setting(v):
    """Only the addressed candidate, only the addressed result."""
    c, m = three(v)
    for step in range(2):
        i = v.small('i', 0, len(m.rows) - 1)
        k = v.choose('key', KEYS)
        x = v.float('x', 0, 1000)
        if k == 'score' and v.flag('by score'):
            c.set_score(i, x)
        else:
            c.set_resource(i, x, k)
        m.rows[i] = (m.rows[i][0], dict(m.rows[i][1], **{k: x}))
        m.same(v, c, 'set')
    v.ensure('known results only', v.raises(c.set_resource, 0, 1., 'other'))
    v.ensure('known results only', v.raises(c.resources, 'score'))
    m.same(v, c, 'refused')


@contract('C08', targets=[CA], samples=300, bound='at most 3 candidates')
def updating(v):
    """A block of results from a start position."""
    c, m = three(v)
    n = len(m.rows)
    k = v.small('k', 0, 3)
    start = v.small('start', 0, 3)
    new = [dict(flops=v.float('f', 0, 1000), params=v.float('p', 0, 1000))
           for _ in range(k)]
    if start == 0 and v.flag('by default'):
        refused = v.raises(c.update_resources, new)
    else:
        refused = v.raises(c.update_resources, new, start=start)
    v.ensure('refused when there are too few', refused == (start + k > n))
    if not refused:
        for j, r in enumerate(new):
            sub, res = m.rows[start + j]
            m.rows[start + j] = (sub, dict(res, **r))
    m.same(v, c, 'updated')


@contract('C08', targets=[CA], samples=300, bound='at most 3 candidates')
def sorting(v):
    """Every candidate keeps its results, the order is right and stable."""
    c, m = three(v)
    key = v.choose('key', KEYS)
    rev = v.choose('reverse', [True, False, None])
    if rev is None and key == 'score':
        c.sort_by()
    else:
        c.sort_by(key, True if rev is None else rev)
    subs = c.subnets
    v.ensure('a permutation', sorted(s['x'] for s in subs) == list(
        range(len(m.rows))))
    m.rows = [m.rows[s['x']] for s in subs]
    m.same(v, c, 'sorted')
    for (s, a), (t, b) in zip(m.rows, m.rows[1:]):
        lo, hi = (a, b) if rev is False else (b, a)
        v.ensure('in order', lo[key] <= hi[key])
        v.ensure('stable', v.any_of(v.no(a[key] == b[key]),
                                    s['x'] < t['x']))


@contract('C08', targets=[CA], samples=200, bound='at most 3 candidates')
def the_best(v):
    """Keeping the k best of a list, as the searches do."""
    c, m = three(v)
    k = v.small('k', 1, 3)
    c.sort_by(key_indicator='score', reverse=True)
    top = Candidates(c.data[:k])
    v.ensure('k of them', len(top) == min(k, len(m.rows)))
    kept = [s['x'] for s in top.subnets]
    for i, (_, res) in enumerate(m.rows):
        for j in kept:
            v.ensure('none left out is better', v.any_of(
                i in kept, res['score'] <= m.rows[j][1]['score']))
    t = Model()
    t.rows = [m.rows[j] for j in kept]
    t.same(v, top, 'top')
    top.append({'x': 9})
    v.ensure('apart from the list it came from', len(c) == len(m.rows))


@contract('C08', targets=[CA], samples=20)
def none(v):
    c = Candidates()
    v.ensure('no scores', v.all_of(c.scores == [], c.resources() == []))
    v.ensure('no subnets to read', v.raises(lambda: c.subnets))
    d = Candidates([])
    d.extend(Candidates())
    v.ensure('still none', len(d) == 0)
    c.append({'x': 1})
    v.ensure('lists are apart', len(d) == 0 and len(Candidates()) == 0)


# ------------------------------------------------ lists of any length

class Heap:
    """What the candidates of a list have: one column for each result."""
    now = None

    def __init__(self, v, name='c'):
        rows = v.seq_of(name, lambda e: [
            e.float(k, -1000, 1000) for k in KEYS])
        self.n = len(rows)
        self.cols = {'score': [r[0] for r in rows],
                     'flops': [r[1] for r in rows],
                     'params': [r[2] for r in rows],
                     'latency': [r[3] for r in rows]}
        self.old = {k: list(c) for k, c in self.cols.items()}
        Heap.now = self

    def rows(self):
        return [Row(self, i) for i in range(self.n)]


class Results(dict):
    """The results of candidate i."""

    def __init__(self, heap, i):
        super().__init__()
        self.heap, self.i = heap, i

    def __getitem__(self, k):
        return self.heap.cols[k][self.i]

    def get(self, k, default=None):
        return self.heap.cols[k][self.i] if k in KEYS else default

    def __setitem__(self, k, x):
        self.heap.cols[k][self.i] = x

    def setdefault(self, k, default=None):
        return self[k]

    def update(self, other):
        for k in other:
            self[k] = other[k]

    def keys(self):
        return KEYS

    def __contains__(self, k):
        return k in KEYS


class Row(dict):
    """Candidate i: {subnet: results}."""

    def __init__(self, heap, i):
        super().__init__()
        self.i, self.results = i, Results(heap, i)

    def items(self):
        return [(f"{{'x': {self.i}}}", self.results)]

    def values(self):
        return [self.results]

    def keys(self):
        return [f"{{'x': {self.i}}}"]


def many(v):
    h = Heap(v)
    c = Candidates()
    c.data = h.rows()
    return h, c


@contract('C08', targets=[CA], samples=200)
def setting_any(v):
    """Lists of any length: only the addressed result changes."""
    h, c = many(v)
    i = v.anyindex('i', h.n)
    k = v.choose('key', KEYS)
    x = v.float('x', -1000, 1000)
    if k == 'score' and v.flag('by score'):
        c.set_score(i, x)
    else:
        c.set_resource(i, x, k)
    v.ensure('as many', len(c.data) == h.n)
    got = {q: c.scores if q == 'score' else c.resources(q) for q in KEYS}
    j = v.anyindex('j', h.n)
    for q in KEYS:
        v.ensure('one each', len(got[q]) == h.n)
        new = c.data[j].results[q]
        v.ensure('only the addressed one', v.any_of(
            v.all_of(q == k, j == i, new == x),
            v.all_of(v.no(v.all_of(q == k, j == i)), new == h.old[q][j])))
        g = got[q][j]
        if q == 'score':
            v.ensure('read to two digits', v.all_of(
                g - new <= 0.0051, new - g <= 0.0051))
        else:
            v.ensure('read as it is', g == new)


def block_loop():
    def inv(ctx):
        from pyvc import seq, sym
        h = Heap.now
        out = []
        for k in KEYS:
            new, old = h.cols[k], h.old[k]
            if k not in h.given:
                out.append((f'{k} as before', seq.forall(
                    seq.range_(h.n), lambda j, a=new, b=old: a[j] == b[j])))
                continue
            at = h.given.index(k)

            def cell(j, a=new, b=old, at=at):
                if sym.both(h.start <= j, j < h.start + ctx.i):
                    return a[j] == h.block[j - h.start][at]
                return a[j] == b[j]
            out.append((f'{k} so far', seq.forall(seq.range_(h.n), cell)))
        return out

    def havoc(ctx):
        import z3
        from pyvc import seq, sym
        h, s = Heap.now, sym.S()
        for k in KEYS:
            f = s.freshfn('h_' + k, z3.IntSort(), z3.RealSort())
            h.cols[k] = seq.SSeq(h.n, lambda i, f=f: sym.SFloat(
                f(sym.to_int(i))))
        return []
    return [LoopSpec(r'Candidates\.update_resources', inv, havoc)]


@contract('C08', targets=[CA], samples=200, loops=block_loop)
def updating_any(v):
    """A block of any length in a list of any length."""
    h, c = many(v)
    h.given = v.choose('given', [('flops', 'params'), ('latency',),
                                 ('score',)])
    h.block = v.seq_of('new', lambda e: [
        e.float(k, -1000, 1000) for k in h.given])
    h.start = v.int('start', 0, 10**6, chi=6)
    new = [dict(zip(h.given, r)) for r in h.block]
    refused = v.raises(c.update_resources, new, start=h.start)
    m = len(h.block)
    v.ensure('refused when there are too few',
             refused == (h.start + m > h.n))
    v.ensure('as many', len(c.data) == h.n)
    j = v.anyindex('j', h.n)
    inside = v.all_of(h.start <= j, j < h.start + m)
    for k in KEYS:
        x = c.data[j].results[k]
        if refused or k not in h.given:
            v.ensure('untouched', x == h.old[k][j])
        elif inside:
            v.ensure('the result for it',
                     x == h.block[j - h.start][h.given.index(k)])
        else:
            v.ensure('others untouched', x == h.old[k][j])


@contract('C08', targets=[CA], samples=200,
          opts=dict(feas_ms=150))
def sorting_any(v):
    """Any number of candidates: a stable permutation in order."""
    h, c = many(v)
    i = v.anyindex('i', h.n)
    j = v.anyindex('j', h.n)
    v.assume(i < j)
    key, rev = v.choose('by', [
        ('score', None), ('score', False), ('flops', None),
        ('params', True), ('latency', False)])
    if rev is None and key == 'score':
        c.sort_by()
    else:
        c.sort_by(key, True if rev is None else rev)
    v.ensure('as many', len(c.data) == h.n)
    a, b = c.data[i], c.data[j]
    for k in KEYS:
        v.ensure('results stay with their candidate',
                 a.results[k] == h.old[k][a.i])
    # as many, each once: none can be lost
    v.ensure('one of them', v.all_of(0 <= a.i, a.i < h.n))
    v.ensure('each once', v.no(a.i == b.i))
    x, y = a.results[key], b.results[key]
    v.ensure('in order', x <= y if rev is False else x >= y)
    v.ensure('stable', v.any_of(v.no(x == y), a.i < b.i))


@contract('C08', targets=[CA], samples=200,
          opts=dict(feas_ms=150))
def the_best_any(v):
    """The k best of any number, as the searches keep them."""
    h, c = many(v)
    k = v.int('k', 1, 10**6, chi=6)
    c.sort_by(key_indicator='score', reverse=True)
    top = Candidates(c.data[:k])
    m = len(top.data)
    v.ensure('k of them', v.any_of(
        v.all_of(m == k, k <= h.n), v.all_of(m == h.n, h.n <= k)))
    t = v.anyindex('t', m)
    got = top.data[t]
    v.ensure('the first ones of the list', got.i == c.data[t].i)
    for q in KEYS:
        v.ensure('the results come along', got.results[q] == h.old[q][got.i])
    if m < h.n:
        o = v.int('o', m, h.n - 1)
        v.ensure('none left out is better',
                 c.data[o].results['score'] <= got.results['score'])


@contract('C08', targets=[CA], samples=200)
def joining_any(v):
    """One list of any length after another."""
    h, c = many(v)
    before = list(c.data)
    g = Heap(v, 'd')
    other = Candidates()
    other.data = g.rows()
    how = v.choose('how', ['append', 'extend', 'init'])
    pack = v.flag('as a list')
    arg = list(other.data) if pack else other
    if how == 'init':
        c = Candidates(arg)
        first = 0
    else:
        getattr(c, how)(arg)
        first = h.n
    v.ensure('all of them', len(c.data) == first + g.n)
    j = v.anyindex('j', len(c.data))
    r = c.data[j]
    if j < first:
        v.ensure('the first ones first', r.i == before[j].i)
        for k in KEYS:
            v.ensure('as they were', r.results[k] == h.old[k][j])
    else:
        v.ensure('then the others', r.i == j - first)
        for k in KEYS:
            v.ensure('with their results',
                     r.results[k] == g.old[k][j - first])
    v.ensure('the added list stays', len(other.data) == g.n)
