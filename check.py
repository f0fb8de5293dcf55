#!/opt/venv/bin/python
"""check.py ID: decide one property on /repo's current tree.

Exit 0: held.  Exit 1: VIOLATION line printed.
"""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
RUN = os.path.join(HERE, 'pyvc', 'runner.py')
ASSUMED = [
    'CPython, torch, mmengine, mmcv, numpy behave as documented; calls into '
    'them are executed natively or replaced by the models in pyvc/rt.py and '
    'pyvc/tensor.py (trusted)',
    'the AST instrumentation (pyvc/instr.py) preserves meaning: it only '
    'replaces operations by hooks that fall through natively (cross-checked '
    'by running the repository tests on the instrumented code and every '
    'contract on the plain code)',
    'integers are mathematical (as in Python); floats are reals with an '
    'explicit 2^-53 relative rounding step, exact on dyadic values; '
    'overflow, underflow, inf and nan are not modelled',
    'single-threaded execution; no memory exhaustion',
]


def known_findings(prop):
    """[(contract, label, text)] recorded, unrepaired findings."""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith('finding:'):
                continue
            kv = dict(x.split('=', 1) for x in line.split(' -- ')[0].split()
                      if '=' in x)
            if kv.get('property') == prop:
                out.append((kv.get('contract'),
                            kv.get('label', '').replace('_', ' '),
                            line.split(' -- ', 1)[-1]))
    return out


def level_of(prop):
    try:
        man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
        return {c['property']: c['level'] for c in man['checks']}[prop]
    except (OSError, ValueError, KeyError):
        return 'proof'


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    work = os.path.join(HERE, 'work', f'{prop}.{os.getpid()}')
    os.makedirs(work, exist_ok=True)
    rep_dir = os.path.join(HERE, 'replays')
    os.makedirs(rep_dir, exist_ok=True)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               OMP_NUM_THREADS='1', MPLBACKEND='Agg', HF_HUB_OFFLINE='1')
    env.pop('PYTHONPATH', None)
    limit = 800 if tier == 'quick' else 3400

    def start(*a):
        log = open(os.path.join(work, a[0] + '.log'), 'w')
        return subprocess.Popen([PY, RUN] + list(a), cwd=work, env=env,
                                stdout=log, stderr=log)
    symo, conco = (os.path.join(work, x) for x in ('sym.json', 'conc.json'))
    ps = start('sym', prop, symo, tier)
    pc = start('conc', prop, conco, tier, str(seed))
    notes = []
    for p, what in ((ps, 'sym'), (pc, 'conc')):
        try:
            p.wait(max(5, limit - (time.time() - t0) - 120))
        except subprocess.TimeoutExpired:
            p.kill()
            notes.append(f'{what} stage stopped at its time limit')

    def read(p, what):
        try:
            return json.load(open(p))
        except (OSError, ValueError):
            tail = ''
            try:
                tail = open(os.path.join(work, what + '.log')).read()[-800:]
            except OSError:
                pass
            notes.append(f'{what} stage gave no result: {tail}')
            return []
    symr, concr = read(symo, 'sym'), read(conco, 'conc')
    conc = {r['name']: r for r in concr}
    # an obligation is also known not to be vacuous when a run of the same
    # contract on the real code reached it
    for r in symr:
        lab = set((conc.get(r['name']) or {}).get('labels') or ())
        for o in r['obls']:
            if o['cover'] in ('unknown', 'unreached') and (
                    o['label'] in lab or o['kind'] != 'post' or
                    # (an unreachable exception is the aim)
                    o['label'] == 'no-exception'):
                o['cover'] = 'sat'

    violations = []      # (contract, label, dict)
    seen = set()
    # 1. concrete failures: a failing input on the plain real code
    for r in concr:
        if r.get('error'):
            notes.append(f'concrete run of {r["name"]}: {r["error"]}')
        for f in r['fails']:
            seen.add((r['name'], f['label']))
            violations.append((r['name'], f['label'], dict(
                f, found_by='run of the contract on the real code')))
    # 2. refuted obligations: replay the counter-models
    todo = []
    for r in symr:
        for o in r['obls']:
            if o['status'] == 'refuted' and not any(
                    c == r['name'] for c, _ in seen):
                todo.append(dict(contract=r['name'], label=o['label'],
                                 models=o['models'], why=o['why']))
    inv_broken = {r['name'] for r in symr for o in r['obls']
                  if o['kind'] == 'invariant' and o['status'] != 'proved'}
    if todo:
        ri, ro = (os.path.join(work, x) for x in ('ri.json', 'ro.json'))
        json.dump(todo, open(ri, 'w'))
        p = start('replays', prop, ri, ro)
        try:
            p.wait(max(60, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
        try:
            todo = json.load(open(ro))
        except (OSError, ValueError):
            notes.append('replay stage gave no result')
        for t in todo:
            rp = t.get('reproduced')
            if rp:
                violations.append((t['contract'], t['label'], dict(
                    rp, found_by='counter-model of the failed obligation',
                    obligation=t['label'], why=t['why'])))
            elif t['contract'] in inv_broken:
                # the loop no longer fits its invariant and no input fails:
                # the proof does not apply to this code, nothing is alleged
                notes.append(f'{t["contract"]}: {t["label"]} not decided, '
                             'a loop no longer fits its invariant')
            else:
                violations.append((t['contract'], t['label'], dict(
                    label=t['label'], inputs=None, no_input=True,
                    models=t['models'], why=t['why'],
                    found_by='failed proof obligation')))

    kf = known_findings(prop)
    new, known = [], []
    for c, lab, d in violations:
        hit = [k for k in kf if k[0] == c and (not k[1] or k[1] == lab)]
        (known if hit else new).append((c, lab, d, hit))
    for c, lab, d, hit in known:
        print(f'KNOWN-FINDING: property={prop} {hit[0][2]}')

    # evidence
    full = [r for r in symr if not r.get('bound')]
    part = [r for r in symr if r.get('bound')]

    def good(r, o):
        return (o['status'] == 'proved' and o['cover'] == 'sat'
                and not r['problems'])
    nobl = sum(len(r['obls']) for r in full)
    proved = sum(good(r, o) for r in full for o in r['obls'])
    bobl = sum(len(r['obls']) for r in part)
    bproved = sum(good(r, o) for r in part for o in r['obls'])
    vcs = sum(o['vcs'] for r in symr for o in r['obls'])
    undecided = []
    for r in symr:
        for x in r['problems']:
            undecided.append(f'{r["name"]}: {x}'[:400])
        for o in r['obls']:
            if o['status'] == 'unknown':
                undecided.append(f'{r["name"]}/{o["label"]}: {o["why"]}'[:300])
            elif o['cover'] != 'sat':
                undecided.append(f'{r["name"]}/{o["label"]}: reachability '
                                 f'{o["cover"]}')
        if not r['obls']:
            undecided.append(f'{r["name"]}: no obligations generated')
    backends = {}
    for r in symr:
        for k, n in r['backends'].items():
            backends[k] = backends.get(k, 0) + n
    ev = dict(
        property=prop, tier=tier, seed=seed, level=level_of(prop),
        coverage=dict(
            obligations=nobl, discharged=proved,
            explanation='contracts whose inputs are bounded in number (see '
                        'bounded_symbolic_contracts) are decided by the same '
                        'verification conditions over arbitrary values, for '
                        'every path within the stated bound; they are '
                        'labelled bounded and not counted under obligations',
            verification_conditions=vcs,
            checker_cmd=f'{PY} check.py {prop} (z3 5.3 in process; cvc5, '
                        'z3-new, z3 as portfolio)',
            trusted_base=ASSUMED[:2] + [
                'z3 / cvc5', 'pyvc (verification condition generator)'],
            contracts_proved=[r['name'] for r in full if r['obls'] and
                              all(good(r, o) for o in r['obls'])],
            bounded_obligations=bobl, bounded_discharged=bproved,
            bounded_symbolic_contracts=[
                dict(name=r['name'], bound=r['bound'], discharged=all(
                    good(r, o) for o in r['obls']), paths=r['paths'])
                for r in part],
            contracts_undecided=undecided,
            functions_executed=sorted({f for r in symr
                                       for f in r['functions']}),
            discharged_by=backends,
            solver_seconds=round(sum(r['solver_time'] for r in symr), 2),
            paths=sum(r['paths'] for r in symr),
            bounded_contracts=[dict(name=r['name'], runs=r['runs'],
                                    ensures=r['ensures'])
                               for r in concr if r['kind'] == 'bounded'],
            evaluations=sum(r['runs'] for r in concr),
            distinct_nontrivial=sum(r['distinct'] for r in concr),
            rule='contracts run on the plain code with boundary-biased '
                 'random inputs; a run counts when its inputs differ from '
                 'the others and it reached at least one assertion '
                 '(cross-check of the engine, and the labelled bounded '
                 'stand-in for bounded contracts)',
            samples=[dict(contract=r['name'], inputs=s)
                     for r in concr for s in r['samples'][:1]][:6],
            per_contract=[dict(
                name=r['name'], targets=r['targets'], paths=r['paths'],
                wall=round(r['wall'], 2), problems=r['problems'][:3],
                obligations={o['label']: o['status'] for o in r['obls']})
                for r in symr],
        ),
        assumptions=ASSUMED + notes,
        wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    evp = os.path.join(HERE, 'evidence', f'{prop}.json')
    json.dump(ev, open(evp, 'w'), indent=1)

    rc = 0
    done = set()
    for n, (c, lab, d, _) in enumerate(new):
        if c in done:
            continue
        done.add(c)
        rp = os.path.join(rep_dir, f'{prop}.{c}.json')
        json.dump(dict(d, property=prop, contract=c, obligation=lab),
                  open(rp, 'w'), indent=1)
        tail = ' no-failing-input-found' if d.get('no_input') else ''
        print(f'{prop}: contract {c}, obligation "{lab}" fails: '
              f'{(d.get("detail") or d.get("why") or "")[:300]}')
        print(f'VIOLATION property={prop} replay={rp}{tail}')
        rc = 1
    print(f'{prop} [{tier}]: {proved}/{nobl} obligations discharged '
          f'({vcs} VCs), {ev["coverage"]["evaluations"]} concrete runs, '
          f'{len(undecided)} undecided, {len(new)} violations, '
          f'{ev["wall_s"]} s')
    for u in undecided[:20]:
        print('  undecided:', u[:300])
    for u in notes:
        print('  note:', u[:300])
    import shutil
    shutil.rmtree(work, ignore_errors=True)
    return rc


if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as e:      # noqa: BLE001
        # the checker itself failed: nothing was decided, nothing is alleged
        import traceback
        traceback.print_exc()
        print(f'checker error: {e}')
        sys.exit(2)
