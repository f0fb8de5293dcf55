"""Worker processes.

  runner.py sym  ID OUT      prove the contracts of one property
  runner.py conc ID OUT      run the contracts on the plain real code
  runner.py replay FILE      re-run one recorded input on the plain real code
"""
import importlib
import json
import linecache
import multiprocessing as mp
import os
import random
import sys
import time
import traceback
import warnings
import zlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
REPO = os.environ.get('VC_REPO', '/repo')


def setup(instrument):
    sys.dont_write_bytecode = True
    warnings.filterwarnings('ignore')
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    sys.path.append(VT)
    import logging
    logging.disable(logging.CRITICAL)
    import torch
    torch.set_num_threads(1)
    import z3  # noqa: F401
    sys.setrecursionlimit(20000)
    if instrument:
        from pyvc import instr
        instr.install()
        import pyvc.rt  # noqa: F401


def load(prop):
    mods = [f for f in sorted(os.listdir(os.path.join(HERE, 'contracts')))
            if f.startswith(prop.lower() + '_') and f.endswith('.py')]
    for m in mods:
        importlib.import_module('contracts.' + m[:-3])
    from pyvc.harness import REGISTRY
    return REGISTRY.get(prop, {})


def misfit(e):
    """The contract reads a private detail the code no longer has, or the
    code asks a ghost for something it does not know."""
    from pyvc.harness import GHOSTS, OutOfReach
    if isinstance(e, OutOfReach) or isinstance(
            e, (TypeError, AttributeError)) and any(
                f"'{g}'" in str(e) for g in GHOSTS):
        return True
    tb = traceback.extract_tb(e.__traceback__)
    return bool(tb) and '/contracts/' in tb[-1].filename and (
        isinstance(e, ImportError) or (
            isinstance(e, AttributeError) and
            str(getattr(e, 'name', '') or '').startswith('_')))


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool, type(None))):
        return x
    return repr(x)


# ------------------------------------------------------------------ symbolic

def prove(c, tier):
    from pyvc import engine
    from pyvc.engine import BudgetExceeded, Kill, Session, Unsupported
    from pyvc.harness import SymV
    quick = tier != 'thorough'
    s = Session(feas_ms=c.opts.get('feas_ms', 1500),
                prove_ms=c.opts.get('prove_ms', 20000) * (1 if quick else 3),
                max_paths=c.opts.get('max_paths', 3000),
                budget_s=c.budget or (240 if quick else 1500))
    t0 = time.time()
    out = dict(name=c.name, targets=list(c.targets), kind='proof',
               bound=c.bound)
    problems = []
    try:
        s.modular = {getattr(f, '__func__', f): m
                     for f, m in c.modular().items()}
        s.loopspecs = c.loops()

        def path():
            import torch
            with torch.random.fork_rng(devices=[]):
                random.seed(0)
                v = SymV(s)
                s.ghost.update(c.opts.get('ghost', {}))
                try:
                    c.fn(v)
                except (Kill, BudgetExceeded):
                    raise
                except Unsupported as e:
                    # keep exploring the other paths
                    if s._check([]) != engine.z3.unsat:
                        tb = traceback.extract_tb(e.__traceback__)
                        where = [f'{os.path.basename(f.filename)}:{f.lineno}'
                                 for f in tb if '/pyvc/' not in f.filename]
                        msg = f'unsupported: {e} at {" ".join(where[-3:])}'
                        if msg not in problems and len(problems) < 20:
                            problems.append(msg)
                except Exception as e:      # noqa: BLE001
                    if misfit(e):
                        problems.append(f'contract does not fit: {e}')
                        return
                    tb = traceback.extract_tb(e.__traceback__)
                    where = [f'{os.path.basename(f.filename)}:{f.lineno}'
                             for f in tb if '/pyvc/' not in f.filename]
                    inner = tb[-1].filename if tb else ''
                    modelled = linecache.getline(
                        inner, tb[-1].lineno).strip().startswith((
                            'raise ', 'return f(*a, **k)',
                            'return obj[idx]')) if tb else False
                    if 'symbolic' in str(e) or (
                            '/pyvc/' in inner and not modelled):
                        problems.append(f'engine: {type(e).__name__}: {e} '
                                        f'{" ".join(where[-3:])}')
                        return
                    lab = 'no-exception'
                    ok = s.oblige(lab, engine.z3.BoolVal(False))
                    o = s.obls[lab]
                    if not ok:
                        o['why'] = (f'{type(e).__name__}: {e} at '
                                    f'{" ".join(where[-4:])}')
        s.explore(path)
    except BudgetExceeded as e:
        problems.append(f'budget: {e}')
    except RecursionError:
        problems.append('engine: recursion')
    except engine.z3.Z3Exception as e:
        problems.append(f'z3: {e}')
    except Unsupported as e:
        problems.append(f'unsupported: {e}')
    except Exception as e:      # noqa: BLE001
        problems.append('engine: ' + traceback.format_exc()[-1500:])
        del e
    obls = []
    for o in s.obls.values():
        o = dict(o)
        o['backends'] = sorted(o['backends'])
        o['cover'] = s.covers.get(o['label'], 'unreached')
        o['models'] = jsonable(o['models'])
        obls.append(o)
    out.update(obls=obls, paths=s.paths, killed=s.killed, queries=s.queries,
               solver_time=s.solver_time, problems=problems,
               functions=sorted(s.functions), wall=time.time() - t0,
               backends=s.backends, notes=sorted(s.notes))
    return out


def _prove_entry(c, tier, q):
    try:
        q.put(prove(c, tier))
    except BaseException:       # noqa: BLE001
        q.put(dict(name=c.name, targets=list(c.targets), kind='proof',
                   bound=c.bound, obls=[], paths=0, killed=0, queries=0, solver_time=0,
                   problems=['engine: ' + traceback.format_exc()[-1500:]],
                   functions=[], wall=0, backends={}, notes=[]))


def run_pool(jobs, nproc, deadline):
    """jobs: [(name, target, args, limit)] -> {name: result or None}"""
    ctx = mp.get_context('fork')
    pending = list(jobs)
    running = []
    res = {}
    while pending or running:
        while pending and len(running) < nproc:
            name, target, args, limit = pending.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=target, args=args + (q, ))
            p.start()
            running.append((name, p, q, time.time() + limit))
        for item in list(running):
            name, p, q, end = item
            if not q.empty():
                res[name] = q.get()
                p.join(5)
                if p.is_alive():
                    p.kill()
                running.remove(item)
            elif not p.is_alive():
                if q.empty():
                    res.setdefault(name, None)
                    running.remove(item)
            elif time.time() > end or time.time() > deadline:
                p.kill()
                p.join()
                res[name] = None
                running.remove(item)
        if time.time() > deadline:
            for name, *_ in pending:
                res[name] = None
            pending = []
        time.sleep(0.02)
    return res


def cmd_sym(prop, outp, tier, only=None):
    setup(True)
    cs = load(prop)
    jobs = []
    for c in cs.values():
        if c.kind != 'proof' or (only and c.name not in only):
            continue
        lim = (c.budget or (240 if tier != 'thorough' else 1500)) + 40
        jobs.append((c.name, _prove_entry, (c, tier), lim))
    jobs.sort(key=lambda j: not cs[j[0]].slow)
    deadline = time.time() + (560 if tier != 'thorough' else 3000)
    res = run_pool(jobs, int(os.environ.get('VC_JOBS', '7')), deadline)
    out = []
    for name, r in res.items():
        if r is None:
            r = dict(name=name, targets=list(cs[name].targets), kind='proof',
                     bound=cs[name].bound, obls=[], paths=0, killed=0, queries=0, solver_time=0,
                     problems=['budget: worker stopped'], functions=[],
                     wall=0, backends={}, notes=[])
        out.append(r)
    json.dump(out, open(outp, 'w'))


# ------------------------------------------------------------------ concrete

def run_case(c, fixed=None, seed=0, scale=1):
    """-> ('ok'|'skip'|'fail', label, detail, inputs, ensured)"""
    import numpy as np
    import torch

    from pyvc.harness import ConcV, EnsureFailed, SkipCase
    rng = random.Random(seed)
    v = ConcV(fixed, rng, scale)
    random.seed(seed)
    np.random.seed(seed % (2**32))
    torch.manual_seed(seed)
    try:
        c.fn(v)
    except SkipCase:
        return 'skip', '', '', v.record, 0, v.labels
    except EnsureFailed as e:
        return 'fail', e.label, e.detail, v.record, v.ensured, v.labels
    except Exception as e:      # noqa: BLE001
        if misfit(e):
            return 'skip', '', '', v.record, 0, v.labels
        tb = traceback.extract_tb(e.__traceback__)
        where = [f'{os.path.relpath(f.filename, "/")}:{f.lineno}'
                 for f in tb]
        return ('fail', 'no-exception',
                f'{type(e).__name__}: {e} at {" ".join(where[-4:])}',
                v.record, v.ensured, v.labels)
    return 'ok', '', '', v.record, v.ensured, v.labels


def conc_contract(c, seed, n, limit):
    t0 = time.time()
    fails, oks, skips, ens = [], 0, 0, 0
    labels, shapes, samples = set(), set(), []
    base = zlib.crc32(f'{c.prop}.{c.name}.{seed}'.encode())
    tries = 0
    while oks < n and tries < n * 25 and time.time() - t0 < limit:
        st, lab, det, rec, en, labs = run_case(c, None, base + tries)
        tries += 1
        if st == 'skip':
            skips += 1
            continue
        oks += 1
        ens += en
        labels |= labs
        key = json.dumps(jsonable(rec), sort_keys=True)
        if en:
            shapes.add(zlib.crc32(key.encode()))
        if len(samples) < 2:
            samples.append(jsonable(rec))
        if st == 'fail':
            if lab not in [f['label'] for f in fails]:
                fails.append(dict(label=lab, detail=det[:600],
                                  inputs=jsonable(rec),
                                  case_seed=base + tries - 1))
            if len(fails) >= 3:
                break
    return dict(name=c.name, runs=oks, skipped=skips, ensures=ens,
                fails=fails, labels=sorted(labels), distinct=len(shapes),
                samples=samples, wall=time.time() - t0, kind=c.kind)


def _conc_entry(c, seed, n, limit, q):
    try:
        import torch
        torch.set_num_threads(1)
        q.put(conc_contract(c, seed, n, limit))
    except BaseException:       # noqa: BLE001
        q.put(dict(name=c.name, runs=0, skipped=0, ensures=0, fails=[],
                   labels=[], distinct=0, samples=[], wall=0, kind=c.kind,
                   error=traceback.format_exc()[-1500:]))


def cmd_conc(prop, outp, tier, seed, only=None):
    setup(False)
    cs = load(prop)
    mult = 1 if tier != 'thorough' else 20
    jobs = []
    for c in cs.values():
        if only and c.name not in only:
            continue
        lim = 120 if tier != 'thorough' else 900
        jobs.append((c.name, _conc_entry,
                     (c, seed, c.samples * mult, lim), lim + 60))
    jobs.sort(key=lambda j: not cs[j[0]].slow)
    deadline = time.time() + (500 if tier != 'thorough' else 3000)
    res = run_pool(jobs, int(os.environ.get('VC_JOBS_CONC', '4')), deadline)
    out = []
    for name, r in res.items():
        out.append(r or dict(name=name, runs=0, skipped=0, ensures=0,
                             fails=[], labels=[], distinct=0, samples=[],
                             wall=0, kind=cs[name].kind, error='stopped'))
    json.dump(out, open(outp, 'w'))


def cmd_replays(prop, inp, outp):
    """Replay counter-models; if one does not reproduce, search around it."""
    setup(False)
    cs = load(prop)
    todo = json.load(open(inp))
    for t in todo:
        c = cs[t['contract']]
        t['reproduced'] = None
        for m in t['models']:
            st, lab, det, rec, *_ = run_case(c, dict(m), 1)
            if st == 'fail':
                t['reproduced'] = dict(label=lab, detail=det[:600],
                                       inputs=jsonable(rec), case_seed=1)
                break
        if t['reproduced'] is None:
            t0 = time.time()
            for k in range(3000):
                if time.time() - t0 > 40:
                    break
                scale = random.Random(k).choice([1, 1, 1, 3, 30])
                fixed = None
                if t['models'] and k % 2:
                    m = dict(t['models'][k % len(t['models'])])
                    drop = random.Random(k)
                    fixed = {a: b for a, b in m.items()
                             if drop.random() < .6}
                st, lab, det, rec, *_ = run_case(c, fixed, 77000 + k, scale)
                if st == 'fail':
                    t['reproduced'] = dict(label=lab, detail=det[:600],
                                           inputs=jsonable(rec),
                                           case_seed=77000 + k)
                    break
    json.dump(todo, open(outp, 'w'))


def cmd_replay(path):
    setup(False)
    d = json.load(open(path))
    cs = load(d['property'])
    c = cs[d['contract']]
    st, lab, det, rec, *_ = run_case(c, d.get('inputs'),
                                     d.get('case_seed', 1))
    print(f'{d["property"]}.{c.name}: {st} {lab} {det}')
    print(json.dumps(jsonable(rec))[:2000])
    return 1 if st == 'fail' else 0


if __name__ == '__main__':
    cmd = sys.argv[1]
    if cmd == 'sym':
        cmd_sym(sys.argv[2], sys.argv[3], sys.argv[4],
                sys.argv[5].split(',') if len(sys.argv) > 5 else None)
    elif cmd == 'conc':
        cmd_conc(sys.argv[2], sys.argv[3], sys.argv[4], int(sys.argv[5]),
                 sys.argv[6].split(',') if len(sys.argv) > 6 else None)
    elif cmd == 'replays':
        cmd_replays(sys.argv[2], sys.argv[3], sys.argv[4])
    elif cmd == 'replay':
        sys.exit(cmd_replay(sys.argv[2]))
