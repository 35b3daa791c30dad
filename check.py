#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY: decides one property of /repo's current tree.

1. extracts every function of /repo's Linux sources (clang AST) and discharges
   the obligations of the functions the property depends on (vc/, specs/);
2. runs the property's bounded stand-in / replay search on the compiled code;
3. prints VIOLATION / KNOWN-FINDING lines and rewrites evidence/<id>.json."""
import os, sys, time, json, subprocess, importlib, shutil, re
VERIF = os.path.dirname(os.path.abspath(__file__))
for d in ('vc', 'specs', 'harness', '.'):
    sys.path.insert(0, os.path.join(VERIF, d))
sys.setrecursionlimit(20000)
T0 = time.time()


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    import props
    P = props.PROPS[prop]
    from runner import run_tasks
    from program import Program, ExtractError
    jobs = os.cpu_count() or 4
    limit = 480 if tier == 'quick' else 2400
    hbudget = P.get('hbudget', 12) * (1 if tier == 'quick' else 8)

    # harness build runs beside the proof
    hproc = None
    if P.get('harness'):
        env = dict(os.environ, HARNESS_BUDGET=str(hbudget), VERIF_SEED=str(seed))
        hproc = subprocess.Popen([sys.executable, os.path.join(VERIF, 'harness', 'run.py'), prop, P['harness']], env=env,
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    results, tasks, err, post = [], [], '', []
    try:
        mods = [importlib.import_module(m) for m in P['specs']]
        extra = [x for m in mods for x in getattr(m, 'EXTRA', ())]
        prog = Program(extra=extra)
        tasks = props.tasks(prop)
        results, ts = [], tasks
        while ts:   # then whatever these functions call and another property's contract describes
            rs = run_tasks(prog, ts, jobs=max(2, jobs - (2 if hproc else 0)), deadline=limit)
            results += rs
            have = {t.fn for t in tasks}
            used = sorted({c for r in rs for c in r.get('contracts', []) if c not in have and P.get('closure', True)})
            ts = [t for c in used for t in props.tasks_of(c)]
            tasks = tasks + ts
        post = [u for m in mods if prop in getattr(m, 'POST', {}) for u in m.POST[prop](prog, tasks, results)]
    except ExtractError as x:
        err = str(x)
    failed, unsup, nob, ndis, by, loops = [], [], 0, 0, {}, 0
    inl, con, mod, q, solver, paths, bodies = set(), set(), set(), 0, 0.0, 0, 0
    fns = []
    for r in results:
        for o in r['obls']:
            nob += 1
            if o['status'] == 'proved':
                ndis += 1
                by[o['by']] = by.get(o['by'], 0) + 1
            elif o['status'] != 'skipped':
                failed.append((r['fn'], o))
        if r['status'] == 'vacuous':
            failed.append((r['fn'], {'label': 'contract is satisfiable and the body reachable: ' + r['err'], 'line': 0, 'file': '', 'status': 'refuted', 'by': ''}))
        if r['status'] == 'unsupported':
            unsup.append((r['fn'], r['err']))
        loops += len(r.get('loops', []))
        inl |= set(r.get('inlined', []))
        con |= set(r.get('contracts', []))
        mod |= set(r.get('models', []))
        q += r.get('queries', 0)
        solver += r.get('solver_s', 0) or 0
        paths += r.get('paths', 0) or 0
        bodies += r.get('bodies', 0)
        fns.append({'function': r['fn'], 'bodies': r.get('bodies', 0), 'status': r['status'], 'obligations': len(r['obls']),
                    'discharged': sum(o['status'] == 'proved' for o in r['obls']), 'seconds': r.get('t')})
    unsup += post
    # harness result
    hres = {'status': 'none'}
    if hproc:
        try:
            out, _ = hproc.communicate(timeout=max(60, hbudget * 4 + 240))
            hres = json.loads(out.decode(errors='replace').strip().splitlines()[-1])
        except Exception as x:
            hproc.kill()
            hres = {'status': 'error', 'out': 'harness: %s' % str(x)[:300]}

    known = load_known()
    viol, kn = [], []
    rdir = os.path.join(VERIF, 'replay')
    os.makedirs(rdir, exist_ok=True)

    def replay(tag, text):
        p = os.path.join(rdir, '%s-%s.txt' % (prop, tag))
        with open(p, 'w') as f:
            f.write(text)
        return p

    unknown_fail = []
    for fn, o in failed:
        k = [x for x in known if x['kind'] == 'obligation' and x['property'] == prop and x['function'] == fn and x['label'] == o['label']]
        if k:
            kn.append(k[0])
        else:
            unknown_fail.append((fn, o))
    oblt = ''
    for fn, o in unknown_fail:
        oblt += 'failed obligation: %s\n  function %s, %s:%s, solver verdict: %s %s\n  goal: %s\n' % (
            o['label'], fn, o.get('file'), o['line'], o['status'], o.get('by'), o.get('goal'))
        if o.get('model'):
            oblt += '  counterexample to the obligation:\n' + '\n'.join('    ' + l for l in o['model'].splitlines()[:60]) + '\n'
    for fn, why in unsup:
        oblt += 'not within the verifier\'s reach on this tree (bounded stand-in used): %s: %s\n' % (fn, why)
    if err:
        oblt += 'extraction failed: %s\n' % err
    if hres['status'] == 'fail':
        k = [x for x in known if x['kind'] == 'input' and x['property'] == prop and x['what'] in hres['out']]
        if k:
            kn.append(k[0])
        else:
            p = replay('input', 'Property %s is broken by this input on the real code:\n%s\n\nre-run: HARNESS_BUDGET=%s VERIF_SEED=%d %s harness/run.py %s %s\n\n%s' % (
                prop, hres['out'], hbudget, seed, 'python3', prop, P['harness'], oblt))
            viol.append('VIOLATION property=%s replay=%s' % (prop, p))
    if unknown_fail and not viol:
        p = replay('obligation', 'Property %s: the verifier does not accept the contracts on this tree.\n%s' % (prop, oblt))
        viol.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, p))
    for r in results:
        print('  %-52s %-12s %d/%d %ss %s' % (r['fn'], r['status'], sum(o['status'] == 'proved' for o in r['obls']), len(r['obls']), r.get('t'), r['err'][:150]))
    for fn, o in unknown_fail:
        print('  FAILED %s (%s:%s): %s [%s]' % (fn, o.get('file'), o['line'], o['label'], o['status']))
    if P.get('harness'):
        print('  bounded part %s: %s, %s cases (%s distinct)' % (P['harness'], hres['status'], hres.get('evals'), hres.get('distinct')), hres.get('out', '')[:600] if hres['status'] != 'ok' else '')
    for k in kn:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
    for v in viol:
        print(v)
    level = P.get('level', 'proof')
    trusted = sorted('library model: ' + m for m in mod)
    trusted += sorted('contract assumed at call sites here, proved under %s: %s' % (props.proved_where(c), c) if props.proved_where(c) else
                      'call recorded, its effect is left to the properties of the callee: ' + c if c in P.get('recorded', ()) else
                      'assumed contract (not proved): ' + c for c in con if c not in {t.fn for t in tasks})
    cov = {'obligations': nob, 'discharged': ndis, 'checker_cmd': 'VERIF_TIER=%s VERIF_SEED=%d %s check.py %s' % (tier, seed, 'python3-vt', prop),
           'trusted_base': trusted + props.COMMON_TRUST + P.get('trust', []),
           'functions_under_contract': fns, 'bodies_verified': bodies, 'inlined_callees': sorted(inl), 'discharged_by': by,
           'solver_queries': q, 'solver_seconds': round(solver, 2), 'paths': paths, 'loops_with_inferred_invariants': loops,
           'undecided_by_proof': [{'function': f, 'why': w} for f, w in unsup],
           'bounded_part': {'label': 'bounded, not counted as proved', 'program': P.get('harness'), 'bound': P.get('bound', ''),
                            'status': hres['status'], 'evaluations': hres.get('evals', 0), 'distinct_nontrivial': hres.get('distinct', 0),
                            'samples': hres.get('samples', [])},
           'evaluations': hres.get('evals', 0), 'distinct_nontrivial': hres.get('distinct', 0),
           'rule': P.get('bound', ''), 'samples': hres.get('samples', [])[:6]}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': props.ASSUME + P.get('assume', []),
          'wall_s': round(time.time() - T0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d/%d obligations discharged over %d functions, %.1fs' % (prop, ndis, nob, len(fns), time.time() - T0))
    sys.exit(1 if viol else 0)


def load_known():
    p = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']


if __name__ == '__main__':
    main()
