#!/opt/venv/bin/python
"""mutate.py PROP [-j N] [-n MAX] [file[:func,...] ...]: how many small changes
of the files a property's contracts name does the check (plain runs first,
then the full check with --full) notice?  Lists the ones it does not."""
import argparse
import ast
import concurrent.futures as cf
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VC_REPO', '/repo')
PY = '/opt/venv/bin/python'
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.FloorDiv,
       ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.Mult}


def sites(tree, funcs):
    """[(description, apply(tree copy node list index))]"""
    out = []
    nodes = list(ast.walk(tree))
    inside = {}

    def mark(node, fn):
        for c in ast.iter_child_nodes(node):
            f = fn
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                f = (fn + '.' if fn else '') + c.name
            inside[id(c)] = f
            mark(c, f)
    mark(tree, '')
    skip = set()
    for n in nodes:
        if isinstance(n, (ast.Raise, ast.Assert)) or (
                isinstance(n, ast.Expr) and (
                    isinstance(n.value, ast.Constant) or
                    'logger' in ast.dump(n.value) or
                    'print_log' in ast.dump(n.value) or
                    'warn' in ast.dump(n.value))):
            for m in ast.walk(n):
                if not isinstance(n, ast.Assert) or m is not n:
                    skip.add(id(m))
        if isinstance(n, (ast.FunctionDef, )):
            for d in n.decorator_list + [n.returns]:
                if d is not None:
                    for m in ast.walk(d):
                        skip.add(id(m))
            for a in ast.walk(n.args):
                if isinstance(a, ast.arg) and a.annotation is not None:
                    for m in ast.walk(a.annotation):
                        skip.add(id(m))
    for i, n in enumerate(nodes):
        if id(n) in skip or not inside.get(id(n)):
            continue
        fn = inside[id(n)]
        if funcs and not any(f in fn.split('.') for f in funcs):
            continue

        def add(what, f, i=i, n=n, fn=fn):
            out.append((f'{fn}:{getattr(n, "lineno", 0)} {what}', i, f))
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            t = CMP[type(n.ops[0])]
            add(f'{type(n.ops[0]).__name__}->{t.__name__}',
                lambda m, t=t: m.ops.__setitem__(0, t()))
            if isinstance(n.ops[0], (ast.Lt, ast.Gt)):
                t2 = ast.GtE if isinstance(n.ops[0], ast.Lt) else ast.LtE
                add('negated', lambda m, t=t2: m.ops.__setitem__(0, t()))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (
                isinstance(n.left, (ast.JoinedStr, ast.Constant)) and
                isinstance(getattr(n.left, 'value', ''), str)):
            t = BIN[type(n.op)]
            add(f'{type(n.op).__name__}->{t.__name__}',
                lambda m, t=t: setattr(m, 'op', t()))
        elif isinstance(n, ast.BoolOp):
            add('and<->or', lambda m: setattr(
                m, 'op', ast.Or() if isinstance(m.op, ast.And)
                else ast.And()))
            add('drop last operand', lambda m: m.values.pop()
                if len(m.values) > 2 else m.values.__setitem__(
                    -1, copy.deepcopy(m.values[0])))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add('not dropped', lambda m: (
                setattr(m, 'op', ast.Not()), setattr(
                    m, 'operand', ast.UnaryOp(ast.Not(), m.operand))))
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            add(f'{n.value}->{n.value + 1}',
                lambda m: setattr(m, 'value', m.value + 1))
        elif isinstance(n, ast.Constant) and type(n.value) is float:
            add(f'{n.value}->*2+1', lambda m: setattr(
                m, 'value', m.value * 2 + 1))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            add(f'not {n.value}',
                lambda m: setattr(m, 'value', not m.value))
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            add('if True', lambda m: setattr(
                m, 'test', ast.BoolOp(ast.Or(), [m.test, ast.Constant(
                    True)])) if not isinstance(m, ast.While) else None)
            add('if False', lambda m: setattr(
                m, 'test', ast.BoolOp(ast.And(), [m.test, ast.Constant(
                    False)])))
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                add('slice from start', lambda m: setattr(m, 'lower', None))
            if n.upper is not None:
                add('slice to end', lambda m: setattr(m, 'upper', None))
        elif isinstance(n, (ast.Break, ast.Continue)) or (
                isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)) \
                or isinstance(n, ast.AugAssign) or (
                    isinstance(n, ast.Assign) and isinstance(
                        n.targets[0], (ast.Attribute, ast.Subscript))):
            if 'super' in ast.dump(n) and '__init__' in ast.dump(n):
                continue
            add('deleted: ' + ast.unparse(n)[:60], None)
            if isinstance(n, ast.AugAssign):
                add('= instead of +=', 'assign')
        elif isinstance(n, ast.Call) and len(n.args) > 1 and not n.keywords:
            add('first two arguments swapped: ' + ast.unparse(n)[:60],
                lambda m: m.args.__setitem__(
                    slice(0, 2), [m.args[1], m.args[0]]))
        elif isinstance(n, ast.Call) and isinstance(
                n.func, ast.Attribute) and ast.unparse(n.func) in (
                    'copy.deepcopy', 'copy.copy'):
            add('no copy', 'nocopy')
    return nodes, out


def mutant(src, i, f):
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    n = nodes[i]
    if callable(f):
        f(n)
        return ast.unparse(ast.fix_missing_locations(tree))
    for p in nodes:
        for name, val in ast.iter_fields(p):
            if isinstance(val, list) and any(x is n for x in val):
                k = [j for j, x in enumerate(val) if x is n][0]
                if f is None:
                    val[k] = ast.Pass()
                elif f == 'assign':
                    val[k] = ast.Assign([n.target], n.value)
                elif f == 'nocopy':
                    val[k] = n.args[0]
            elif val is n and f == 'nocopy':
                setattr(p, name, n.args[0])
    return ast.unparse(ast.fix_missing_locations(tree))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('files', nargs='*')
    ap.add_argument('-j', type=int, default=4)
    ap.add_argument('-n', type=int, default=80)
    ap.add_argument('--full', action='store_true')
    ap.add_argument('--seed', type=int, default=1)
    a = ap.parse_args()
    if not a.files:
        r = subprocess.run([PY, '-c', f'''
import sys; sys.path.insert(0, {HERE!r})
from pyvc import runner
runner.setup(False)
from pyvc import harness
import importlib, glob, os
for f in sorted(glob.glob({HERE!r} + '/contracts/{a.prop.lower()}_*.py')):
    importlib.import_module('contracts.' + os.path.basename(f)[:-3])
ALL = harness.REGISTRY[{a.prop!r}].values()
print('FILES', *sorted({{t for c in ALL for t in c.targets}}))
'''], capture_output=True, text=True)
        line = [x for x in r.stdout.splitlines() if x.startswith('FILES')]
        a.files = line[0].split()[1:] if line else sys.exit(r.stderr[-800:])
    todo = []
    for spec in a.files:
        f, _, fs = spec.partition(':')
        src = open(f'{REPO}/{f}').read()
        nodes, ss = sites(ast.parse(src), [x for x in fs.split(',') if x])
        for what, i, fn in ss:
            try:
                new = mutant(src, i, fn)
            except Exception as e:
                print('skip', what, e)
                continue
            if new != ast.unparse(ast.parse(src)):
                todo.append((f, what, new))
    random.Random(a.seed).shuffle(todo)
    print(len(todo), 'mutants of', a.files)
    todo = todo[:a.n]
    roots = []
    for k in range(a.j):
        w = f'/tmp/mut.{a.prop}.{os.getpid()}.{k}'
        shutil.copytree(REPO, w, symlinks=True,
                        ignore=shutil.ignore_patterns('.git', 'tests'))
        roots.append(w)
    free = list(roots)
    left = []

    def one(job):
        f, what, new = job
        w = free.pop()
        old = open(f'{w}/{f}').read()
        try:
            open(f'{w}/{f}', 'w').write(new)
            out = f'{w}.json'
            env = dict(os.environ, VC_REPO=w)
            if a.full:
                r = subprocess.run([PY, HERE + '/check.py', a.prop, 'quick'],
                                   env=env, capture_output=True, text=True)
                return r.returncode == 1
            if os.path.exists(out):
                os.remove(out)
            try:
                subprocess.run([PY, HERE + '/pyvc/runner.py', 'conc', a.prop,
                                out, 'quick', '1'], env=env, timeout=300,
                               capture_output=True)
                rs = json.load(open(out))
            except Exception:
                return 'error'
            return any(x['fails'] or x.get('error') for x in rs)
        finally:
            open(f'{w}/{f}', 'w').write(old)
            free.append(w)
    t0 = time.time()
    with cf.ThreadPoolExecutor(a.j) as ex:
        for job, killed in zip(todo, ex.map(one, todo)):
            if not killed:
                left.append(job)
                print('SURVIVED', job[0].split('/')[-1], job[1], flush=True)
    print(f'{a.prop}: {len(todo) - len(left)} of {len(todo)} noticed, '
          f'{time.time() - t0:.0f} s')
    for w in roots:
        shutil.rmtree(w)


main()
