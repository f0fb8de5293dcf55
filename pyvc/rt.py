"""Runtime hooks the instrumented source calls."""
import builtins
from collections import OrderedDict
import functools
import math
import operator
import random
import types

from . import engine, nd, seq, sym, tensor
from .engine import Kill, Unsupported
from .seq import SSeq
from .sym import S, SBool, SFloat, SInt, SStr, Sym, mk_bool, mk_int, to_int

_slice = builtins.slice
_setattr = builtins.setattr
STensor = tensor.STensor


def has_sym(x, depth=2):
    if isinstance(x, Sym) or isinstance(x, STensor):
        return True
    if depth and isinstance(x, (list, tuple)):
        return any(has_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(has_sym(y, depth - 1) for y in x.values())
    return False


# ------------------------------------------------------------ calls

def call(f, /, *a, **k):
    s = engine.CUR
    if s is None:
        return f(*a, **k)
    fn = getattr(f, '__func__', f)
    if s.modular:
        m = s.modular.get(fn)
        if m is None and isinstance(f, type):
            m = s.modular.get(f)
        if m is not None:
            args = ((f.__self__, ) + a) if fn is not f else a
            r = m(f, args, k)
            if r is not NotImplemented:
                return r
    try:
        h = MODELS.get(f) or MODELS.get(fn)
    except TypeError:
        h = None
    if h is not None:
        r = h(f, a, k)
        if r is not NotImplemented:
            return r
        return f(*a, **k)
    self_ = getattr(f, '__self__', None)
    if self_ is not None and not isinstance(self_, types.ModuleType):
        if type(self_) in (list, dict, set) or (
                isinstance(self_, (list, dict)) and
                isinstance(f, (types.BuiltinMethodType,
                               types.MethodWrapperType))):
            r = container_method(self_, f, a, k)
            if r is not NotImplemented:
                return r
        elif isinstance(self_, str) and isinstance(
                f, types.BuiltinMethodType) and has_sym(a):
            r = str_method(self_, f.__name__, a, k)
            if r is not NotImplemented:
                return r
    elif isinstance(f, types.MethodDescriptorType) and a and \
            isinstance(a[0], Sym):
        return getattr(a[0], f.__name__)(*a[1:], **k)
    if s.functions is not None and isinstance(fn, types.FunctionType):
        mod = fn.__module__ or ''
        if mod.startswith('mmrazor'):
            s.functions.add(f'{mod}:{fn.__qualname__}')
    return f(*a, **k)


def str_method(self_, name, a, k):
    v = SStr(sym.to_str(self_))
    if name in ('startswith', 'endswith'):
        return getattr(v, name)(*a)
    if name == 'join' and isinstance(a[0], (list, tuple)):
        r = ''
        for i, x in enumerate(a[0]):
            r = (r + self_ if i else r) + x
        return r
    if name == 'format':
        return f'<fmt {self_}>'
    raise Unsupported(f'str.{name} with symbolic arguments')


MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort',
            'reverse', 'update', 'setdefault', 'popitem', 'add', 'discard',
            '__setitem__', '__delitem__'}


def container_method(obj, f, a, k):
    name = f.__name__
    s = engine.CUR
    if name in MUTATORS and s.frames:
        seq.log_write(s, obj, name)
    if isinstance(obj, list):
        if name == 'extend' and isinstance(a[0], SSeq):
            raise Unsupported('extend a concrete list with a symbolic one')
        if name == 'sort' and any(has_sym(x) for x in obj):
            key = k.get('key')
            res = sort_small(obj, key, k.get('reverse', False))
            obj[:] = res
            return None
        if name in ('index', 'remove', 'count') and (
                has_sym(a) or any(has_sym(x) for x in obj)):
            for i, x in enumerate(obj):
                if x is a[0] or bool(x == a[0]):
                    if name == 'index':
                        return i
                    if name == 'remove':
                        del obj[i]
                        return None
            if name == 'count':
                raise Unsupported('count')
            raise ValueError('not in list')
        if name in ('pop', 'insert') and a and isinstance(a[0], Sym):
            i = concretize_index(a[0], len(obj), name == 'insert')
            return f(i, *a[1:])
        return NotImplemented
    if isinstance(obj, dict):
        if name in ('get', 'pop', 'setdefault', '__getitem__',
                    '__contains__', '__setitem__'):
            key = a[0]
            if _keysym(key) or dict_has_symkey(obj):
                found, kk = dict_find(obj, key)
                if name == '__contains__':
                    return found
                if name == '__setitem__':
                    return dict_set(obj, key, a[1])
                if found:
                    v = dict_raw(obj, kk)
                    if name == 'pop':
                        dict_del(obj, kk)
                    return v
                if name == 'setdefault':
                    setitem(obj, key, a[1] if len(a) > 1 else None)
                    return a[1] if len(a) > 1 else None
                if len(a) > 1:
                    return a[1]
                if name == 'get':
                    return k.get('default')
                raise KeyError(key)
        if name in ('items', 'keys', 'values') and isinstance(
                obj, OrderedDict) and dict_has_symkey(obj):
            return list(getattr(dict, name)(obj))
        if name == 'update' and (dict_has_symkey(obj) or (
                a and isinstance(a[0], dict) and dict_has_symkey(a[0]))):
            for kk in list(a[0]):
                setitem(obj, kk, dict_raw(a[0], kk))
            return None
        return NotImplemented
    if isinstance(obj, set):
        if a and has_sym(a):
            if name == 'add':
                if not contains(obj, a[0]):
                    with hash_ok():
                        obj.add(a[0])
                return None
            raise Unsupported(f'set.{name}')
    return NotImplemented


class hash_ok:
    def __enter__(self):
        self.s = engine.CUR
        self.old = self.s.ghost.get('hash_ok')
        self.s.ghost['hash_ok'] = True

    def __exit__(self, *a):
        self.s.ghost['hash_ok'] = self.old


def _keysym(x):
    return isinstance(x, Sym) or (isinstance(x, tuple) and any(
        isinstance(y, Sym) for y in x))


def dict_has_symkey(d):
    return any(_keysym(x) for x in dict.keys(d))


def _identity_find(d, key):
    for kk in dict.keys(d):
        if kk is key:
            return True
    return False


def dict_find(d, key):
    """(found, stored key); forks on key equality."""
    for kk in list(dict.keys(d)):
        if kk is key:
            return True, kk
    for kk in list(dict.keys(d)):
        if type(kk) is not type(key) and not (
                _keysym(kk) or _keysym(key)):
            if kk == key:
                return True, kk
            continue
        if bool(kk == key):
            return True, kk
    return False, None


def dict_raw(d, kk):
    for x, v in dict.items(d):
        if x is kk:
            return v
    raise KeyError


def dict_base(d):
    return OrderedDict if isinstance(d, OrderedDict) else dict


def dict_refill(d, items):
    b = dict_base(d)
    b.clear(d)
    with hash_ok():
        for x, v in items:
            b.__setitem__(d, x, v)


def dict_del(d, kk):
    dict_refill(d, [(x, v) for x, v in dict.items(d) if x is not kk])


def dict_set(d, key, v):
    found, kk = dict_find(d, key)
    if found:
        dict_refill(d, [(x, v if x is kk else y)
                        for x, y in dict.items(d)])
    else:
        with hash_ok():
            dict_base(d).__setitem__(d, key, v)


def concretize_index(i, n, allow_n=False):
    s = S()
    hi = n + 1 if allow_n else n
    for c in range(-n, hi):
        if s.fork(to_int(i) == c):
            return c
    raise IndexError('list index out of range')


# ------------------------------------------------------------ builtins

def m_len(f, a, k):
    x = a[0]
    if isinstance(x, SSeq):
        return x.n
    if isinstance(x, (STensor, tensor.SView)):
        return tensor.shape_of(x)[0]
    if isinstance(x, nd.SND):
        return nd.shape(x)[0]
    if hasattr(x, 'vc_len'):
        return x.vc_len()
    if type(x).__len__ is not None and isinstance(
            getattr(type(x), '__len__', None), types.FunctionType):
        return type(x).__len__.__get__(x)()     # may return a symbolic int
    return NotImplemented


def m_int(f, a, k):
    if a and isinstance(a[0], (SInt, SFloat, SBool)):
        return sym.trunc(a[0])
    if a and isinstance(a[0], STensor):
        v = tensor._item(a[0])
        return sym.trunc(v) if isinstance(v, Sym) else int(v)
    if a and isinstance(a[0], SStr):
        raise Unsupported('int(str)')
    return NotImplemented


def m_float(f, a, k):
    if a and isinstance(a[0], (SInt, SFloat, SBool)):
        return sym.tofloat(a[0])
    if a and isinstance(a[0], STensor):
        v = tensor._item(a[0])
        return sym.tofloat(v) if isinstance(v, Sym) else float(v)
    return NotImplemented


def m_bool(f, a, k):
    if a and isinstance(a[0], SBool):
        return a[0]
    if a and isinstance(a[0], (SInt, SFloat)):
        return mk_bool(a[0].e != 0)
    return NotImplemented


def m_str(f, a, k):
    if a and isinstance(a[0], SStr):
        return a[0]
    return NotImplemented


def m_round(f, a, k):
    if isinstance(a[0], (SInt, SFloat, SBool)):
        return sym.round_(*a, **k)
    return NotImplemented


def m_abs(f, a, k):
    return NotImplemented


def m_isinstance(f, a, k):
    x, t = a
    if isinstance(x, Sym):
        ts = t if isinstance(t, tuple) else (t, )
        flat = []
        for u in ts:
            flat += list(u) if isinstance(u, tuple) else (
                list(u.__args__) if isinstance(u, types.UnionType) else [u])
        return any(c is u or (isinstance(u, type) and issubclass(c, u))
                   for c in x.vc_types + (type(x), ) for u in flat)
    if isinstance(x, tensor.SShape):
        import torch
        if t is torch.Size:
            return True
    return NotImplemented


def m_type(f, a, k):
    if len(a) == 1 and isinstance(a[0], Sym):
        return a[0].vc_types[0]
    return NotImplemented


def m_sum(f, a, k):
    if isinstance(a[0], SSeq):
        return seq.sum_(a[0], *a[1:])
    return NotImplemented


def m_extremum(pick):
    def h(f, a, k):
        key = k.get('key')
        if len(a) == 1:
            x = a[0]
            if isinstance(x, SSeq):
                if 'default' in k and not x:
                    return k['default']
                return seq.extremum(x, pick, key)
            if isinstance(x, (list, tuple)) and any(
                    isinstance(y, Sym) for y in x) and key is None:
                return sym.smax(x, pick)
            if isinstance(x, types.GeneratorType):
                x = list(x)
                if any(isinstance(y, Sym) for y in x) and key is None:
                    return sym.smax(x, pick)
                return f(x, **k)
            return NotImplemented
        if key is None and any(isinstance(y, Sym) for y in a):
            return sym.smax(a, pick)
        return NotImplemented
    return h


def m_any(f, a, k):
    x = a[0]
    if isinstance(x, SSeq):
        return seq.any_(x)
    return NotImplemented


def m_all(f, a, k):
    x = a[0]
    if isinstance(x, SSeq):
        return seq.all_(x)
    return NotImplemented


def sort_small(xs, key=None, reverse=False):
    """stable insertion sort with forking comparisons"""
    out = []
    for x in xs:
        kx = key(x) if key else x
        pos = len(out)
        while pos > 0:
            ky = out[pos - 1][0]
            c = (ky < kx) if reverse else (kx < ky)
            if bool(c):
                pos -= 1
            else:
                break
        out.insert(pos, (kx, x))
    return [x for _, x in out]


def m_sorted(f, a, k):
    x = a[0]
    if isinstance(x, SSeq):
        return seq.sorted_(x, **k)
    if isinstance(x, (dict, set)) or not isinstance(x, (list, tuple)):
        x = list(x)
    if any(has_sym(y) for y in x) or k.get('key'):
        return sort_small(x, **k)
    return f(x, **k)        # (the iterator given may be used up by now)


def m_list(f, a, k):
    if a and isinstance(a[0], SSeq):
        return a[0].copy('list')
    if a and hasattr(a[0], 'vc_seq'):
        return a[0].vc_seq().copy('list')
    return NotImplemented


def m_tuple(f, a, k):
    if a and isinstance(a[0], SSeq):
        return a[0].copy('tuple')
    return NotImplemented


def m_set(f, a, k):
    if a and isinstance(a[0], SSeq):
        raise Unsupported('set of a symbolic sequence')
    if a and isinstance(a[0], (list, tuple)) and any(
            isinstance(x, Sym) for x in a[0]):
        out = set()
        for x in a[0]:
            if not contains(out, x):
                with hash_ok():
                    out.add(x)
        return out
    return NotImplemented


def m_range(f, a, k):
    if any(isinstance(x, Sym) for x in a):
        return seq.range_(*a)
    return NotImplemented


def m_enumerate(f, a, k):
    if isinstance(a[0], SSeq):
        return seq.enumerate_(*a, **k)
    return NotImplemented


def m_zip(f, a, k):
    if any(isinstance(x, SSeq) for x in a):
        return seq.zip_(*a)
    return NotImplemented


def m_reversed(f, a, k):
    if isinstance(a[0], SSeq):
        return seq.reversed_(a[0])
    return NotImplemented


def m_map(f, a, k):
    if len(a) == 2 and isinstance(a[1], SSeq):
        fn = a[0]
        return seq.map_filter(a[1], lambda xs: [call(fn, x) for x in xs])
    return NotImplemented


def m_filter(f, a, k):
    if isinstance(a[1], SSeq):
        fn = a[0]
        return seq.map_filter(a[1], lambda xs: [
            x for x in xs if (call(fn, x) if fn else x)])
    return NotImplemented


def m_math(fn):
    def h(f, a, k):
        if isinstance(a[0], (SInt, SFloat, SBool)):
            return fn(a[0])
        return NotImplemented
    return h


def m_prod(f, a, k):
    x = a[0]
    if isinstance(x, SSeq):
        raise Unsupported('prod of a symbolic sequence')
    if isinstance(x, (list, tuple)) and any(isinstance(y, Sym) for y in x):
        r = 1
        for y in x:
            r = r * y
        return r
    if isinstance(x, Sym):
        return x
    return NotImplemented


def m_copy(f, a, k):
    x = a[0]
    if isinstance(x, dict) and dict_has_symkey(x):
        y = type(x).__new__(type(x))
        with hash_ok():
            for kk, v in dict.items(x):
                dict_base(x).__setitem__(y, kk, v)
        if getattr(x, '__dict__', None):
            y.__dict__.update(x.__dict__)
        return y
    return m_deepcopy(f, a, k)


def m_deepcopy(f, a, k):
    x = a[0]
    if isinstance(x, Sym):
        return x.copy() if isinstance(x, SSeq) else x
    return NotImplemented


def m_setattr(f, a, k):
    setattr(*a)
    return None


def m_hash(f, a, k):
    return NotImplemented


def m_create(h):
    def g(f, a, k):
        if has_sym(a) or has_sym(k):
            return h(*a, **k)
        return NotImplemented
    return g


def m_register_buffer(f, a, k):
    return NotImplemented


def m_random_choice(f, a, k):
    return S().ghost.get('rng', RNG).choice(f, a, k)


class RNG:
    """Nondeterministic randomness: every possible outcome is explored."""

    @staticmethod
    def choice(f, a, k):
        x = a[0]
        s = S()
        if isinstance(x, SSeq):
            if s.fork(x.nterm() == 0):
                raise IndexError('Cannot choose from an empty sequence')
            i = SInt(s.fresh('rand', seq.z3.IntSort()))
            s.assume(seq.z3.And(i.e >= 0, i.e < x.nterm()))
            return x.at(i)
        xs = list(x)
        if not xs:
            raise IndexError('Cannot choose from an empty sequence')
        return xs[s.decide(len(xs))]

    @staticmethod
    def random(f, a, k):
        s = S()
        r = s.fresh('rand', seq.z3.RealSort())
        s.assume(seq.z3.And(r >= 0, r < 1))
        return SFloat(r)

    @staticmethod
    def randint(f, a, k):
        s = S()
        i = s.fresh('rand', seq.z3.IntSort())
        s.assume(seq.z3.And(i >= to_int(a[0]), i <= to_int(a[1])))
        return SInt(i)


def m_cos(f, a, k):
    """all that is known of a cosine: it is within -1 and 1"""
    x = a[0]
    if not isinstance(x, (SInt, SFloat)):
        return NotImplemented
    s = S()

    def make():
        r = s.fresh('cos', seq.z3.RealSort())
        s.assume(seq.z3.And(r >= -1, r <= 1))
        return SFloat(r)
    return s.memo((f.__name__, sym.to_real(x)[0]), make)


def m_rand(name):
    def h(f, a, k):
        return getattr(S().ghost.get('rng', RNG), name)(f, a, k)
    return h


MODELS = {
    len: m_len, int: m_int, float: m_float, bool: m_bool, str: m_str,
    round: m_round, abs: m_abs, isinstance: m_isinstance, type: m_type,
    sum: m_sum, max: m_extremum('gt'), min: m_extremum('lt'),
    any: m_any, all: m_all, sorted: m_sorted, list: m_list, tuple: m_tuple,
    set: m_set, range: m_range, enumerate: m_enumerate, zip: m_zip,
    reversed: m_reversed, map: m_map, filter: m_filter,
    math.floor: m_math(sym.floor), math.ceil: m_math(sym.ceil),
    math.trunc: m_math(sym.trunc), math.prod: m_prod,
    builtins.setattr: m_setattr,
    random.choice: m_rand('choice'), random.random: m_rand('random'),
    random.randint: m_rand('randint'),
    math.cos: m_cos, math.sin: m_cos,
}


def _install_models():
    import copy

    import numpy as np
    import torch
    MODELS[copy.deepcopy] = m_deepcopy
    MODELS[copy.copy] = m_copy
    MODELS[np.prod] = m_prod
    MODELS[np.ceil] = m_math(sym.ceil)
    MODELS[np.floor] = m_math(sym.floor)

    def np_rand(f, a, k):
        if a or k:
            raise Unsupported('np.random with a shape')
        return S().ghost.get('rng', RNG).random(f, a, k)
    MODELS[np.random.rand] = np_rand
    MODELS[np.random.random] = np_rand

    def np_choice(f, a, k):
        if len(a) == 1 and not k:
            return S().ghost.get('rng', RNG).choice(f, a, k)
        raise Unsupported('np.random.choice')
    MODELS[np.random.choice] = np_choice
    for fn, h in tensor.CREATE.items():
        MODELS[fn] = m_create(h)
    nd.install(MODELS)
    return torch


_install_models()


# ------------------------------------------------------------ subscripts

def slice(a, b, c):
    return _slice(a, b, c)


def getitem(obj, idx):
    if engine.CUR is None:
        return obj[idx]
    if isinstance(obj, (STensor, tensor.SView)):
        return tensor.getitem(obj, idx)
    if isinstance(obj, nd.SND):
        return nd.getitem(obj, idx)
    if isinstance(idx, Sym):
        if isinstance(obj, (list, tuple)) and isinstance(idx, (SInt, SBool)):
            n = len(obj)
            s = S()
            if all(isinstance(x, (int, float, SInt, SFloat))
                   for x in obj) and n:
                ii = to_int(idx)
                if s.fork(seq.z3.And(ii >= 0, ii < n)):
                    return seq.const_at(list(obj), mk_int(ii))
                if s.fork(seq.z3.And(ii < 0, ii >= -n)):
                    return seq.const_at(list(obj), mk_int(ii + n))
                raise IndexError('list index out of range')
            return obj[concretize_index(idx, n)]
        if isinstance(obj, dict) and type(obj).__getitem__ in (
                dict.__getitem__, OrderedDict.__getitem__):
            found, kk = dict_find(obj, idx)
            if found:
                return dict_raw(obj, kk)
            raise KeyError(idx)
    elif isinstance(obj, dict) and type(obj).__getitem__ in (
            dict.__getitem__, OrderedDict.__getitem__) and (
                _keysym(idx) or dict_has_symkey(obj)):
        found, kk = dict_find(obj, idx)
        if found:
            return dict_raw(obj, kk)
        raise KeyError(idx)
    if isinstance(idx, _slice) and isinstance(obj, (list, tuple)) and any(
            isinstance(x, Sym) for x in (idx.start, idx.stop, idx.step)):
        return seq.slice_(seq.as_seq(obj), idx)
    return obj[idx]


def setitem(obj, idx, v):
    s = engine.CUR
    if s is None:
        obj[idx] = v
        return
    if isinstance(obj, STensor):
        return tensor.setitem(obj, idx, v)
    if s.frames and isinstance(obj, (list, dict)):
        seq.log_write(s, obj, 'setitem')
    if isinstance(obj, dict) and type(obj).__setitem__ in (
            dict.__setitem__, OrderedDict.__setitem__) and (
                _keysym(idx) or dict_has_symkey(obj)):
        return dict_set(obj, idx, v)
    if isinstance(obj, list) and isinstance(idx, Sym):
        idx = concretize_index(idx, len(obj))
    obj[idx] = v


def delitem(obj, idx):
    s = engine.CUR
    if s is not None:
        if s.frames:
            seq.log_write(s, obj, 'delitem')
        if isinstance(obj, SSeq):
            return seq.delitem(obj, idx)
        if isinstance(obj, dict) and (_keysym(idx) or dict_has_symkey(obj)):
            found, kk = dict_find(obj, idx)
            if not found:
                raise KeyError(idx)
            return dict_del(obj, kk)
    del obj[idx]


def setattr(obj, name, v):
    s = engine.CUR
    if s is not None and s.frames:
        seq.log_write(s, obj, name)
    _setattr(obj, name, v)


def delattr(obj, name):
    s = engine.CUR
    if s is not None and s.frames:
        seq.log_write(s, obj, name)
    builtins.delattr(obj, name)


def contains(c, x):
    if engine.CUR is None:
        return x in c
    if isinstance(c, SSeq):
        return seq.contains(c, x)
    if isinstance(c, (list, tuple)) and (isinstance(x, Sym) or any(
            isinstance(y, Sym) for y in c)):
        r = False
        for y in c:
            e = True if y is x else (x == y)
            r = e if r is False else (
                True if r is True or e is True else (
                    r if e is False else mk_bool(
                        seq.z3.Or(sym.to_bool(r), sym.to_bool(e)))))
        return r
    if isinstance(c, (dict, set, frozenset)) and type(c).__contains__ in (
            dict.__contains__, OrderedDict.__contains__, set.__contains__, frozenset.__contains__):
        if _keysym(x) or any(_keysym(y) for y in c):
            r = False
            for y in list(c):
                if y is x or bool(y == x):
                    return True
            return r
    elif isinstance(c, types.MethodType):
        pass
    if isinstance(c, str) and isinstance(x, SStr):
        return mk_bool(seq.z3.Contains(sym.to_str(c), x.e))
    cls = type(c)
    m = getattr(cls, '__contains__', None)
    if isinstance(m, types.FunctionType):
        return m(c, x)
    return x in c


def notcontains(c, x):
    if engine.CUR is None:
        return x not in c
    return sym.neg(contains(c, x))


_AUG = {'Add': operator.iadd, 'Sub': operator.isub, 'Mult': operator.imul,
        'Div': operator.itruediv, 'FloorDiv': operator.ifloordiv,
        'Mod': operator.imod, 'Pow': operator.ipow, 'BitOr': operator.ior,
        'BitAnd': operator.iand, 'BitXor': operator.ixor,
        'LShift': operator.ilshift, 'RShift': operator.irshift,
        'MatMult': operator.imatmul}


def aug(op, x, v):
    s = engine.CUR
    if s is not None:
        if s.frames and isinstance(x, (list, dict, set)):
            seq.log_write(s, x, 'aug')
        if isinstance(x, list) and isinstance(v, SSeq) and op == 'Add':
            return seq.concat(x, v)
    return _AUG[op](x, v)


def unpack(v, n):
    if engine.CUR is not None and isinstance(v, SSeq):
        s = S()
        if not s.fork(v.nterm() == n):
            raise ValueError('not enough / too many values to unpack')
        return [v.at(i) for i in range(n)]
    return v


# ------------------------------------------------------------ comprehensions

def comp(kind, it, body):
    s = engine.CUR
    if s is None:
        return body(it)
    if hasattr(it, 'vc_seq'):
        it = it.vc_seq()
    if isinstance(it, STensor):
        raise Unsupported('iterating a symbolic tensor')
    if not isinstance(it, SSeq):
        if kind in ('set', 'dict') and s.ghost.get('symkeys', True):
            return comp_small(kind, it, body)
        return body(it)
    if kind in ('list', 'gen'):
        return seq.map_filter(it, body)
    raise Unsupported(f'{kind} comprehension over a symbolic sequence')


def comp_small(kind, it, body):
    """dict/set displays whose keys may be symbolic"""
    s = engine.CUR
    out = {} if kind == 'dict' else set()
    for x in it:
        with hash_ok():
            r = body([x])
        if kind == 'dict':
            for kk in list(dict.keys(r)):
                setitem(out, kk, dict_raw(r, kk))
        else:
            for kk in r:
                if not contains(out, kk):
                    with hash_ok():
                        out.add(kk)
    del s
    return out


# ------------------------------------------------------------ loops

class Poison(Sym):
    """A loop-carried variable nobody described: any use is unsupported."""
    __slots__ = ('name', )

    def __init__(self, name):
        object.__setattr__(self, 'name', name)

    def __getattribute__(self, n):
        if n in ('__class__', ):
            return Poison
        if n == 'vc_types':
            raise Unsupported('loop-carried variable without an invariant')
        raise Unsupported(
            'loop-carried variable without an invariant: ' +
            object.__getattribute__(self, 'name'))

    def __bool__(self):
        raise Unsupported('loop-carried variable without an invariant')

    def __eq__(self, o):
        raise Unsupported('loop-carried variable without an invariant')

    __lt__ = __le__ = __gt__ = __ge__ = __ne__ = __eq__
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __eq__
    __getitem__ = __contains__ = __truediv__ = __floordiv__ = __eq__
    __hash__ = None

    def __iter__(self):
        raise Unsupported('loop-carried variable without an invariant')

    __len__ = __call__ = __iter__

    def __format__(self, s):
        return '<poison>'

    __repr__ = __str__ = lambda self: '<poison>'


_UNBOUND = object()


def read_locals(getters):
    out = {}
    for n, g in getters.items():
        try:
            out[n] = g()
        except (NameError, UnboundLocalError):
            out[n] = _UNBOUND
    return out


def loop(it, lid, getters, setter):
    s = engine.CUR
    if s is None:
        return it
    if hasattr(it, 'vc_seq'):
        it = it.vc_seq()
    if isinstance(it, STensor):
        raise Unsupported('iterating a symbolic tensor')
    if isinstance(it, OrderedDict) and dict_has_symkey(it):
        return list(dict.keys(it))
    if not isinstance(it, SSeq):
        return it
    c = sym.const_of(it.nterm())
    if c is not None and c <= 12:
        return [it.at(i) for i in range(c)]
    from . import loops
    return loops.sym_for(it, lid, getters, setter)


class NativeWhile:
    @staticmethod
    def head():
        return True


def while_enter(lid, getters, setter):
    s = engine.CUR
    if s is None:
        return NativeWhile
    from . import loops
    return loops.while_enter(lid, getters, setter)
