import json, sys
sys.path[:0] = ['/verif', '/verif/vc', '/verif/specs']
import props
NA = {
    'N01': 'Liveness ("eventually reported") depends on kernel scheduling, on the inotify queue and on thread fairness; partial-correctness contracts on the functions cannot express or discharge it.',
    'N02': 'Termination of the destructor across two threads blocked in select/usleep/join is a liveness property of a concurrent program; sequential function contracts cannot decide it (that the wait holds no lock the thread needs, and that the thread was told to stop, is claimed under C17).',
    'N03': 'The Win32, FSEvents and kqueue sources do not compile here (no headers, no SDK), so no verifier can generate obligations from them.',
}
ALL = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'bash tool/build.sh', 'checks': [], 'not_applicable': []}
for p in ALL:
    if p in props.PROPS:
        d = props.PROPS[p]
        m['checks'].append({'property': p, 'quick_cmd': 'VERIF_TIER=quick /opt/veriftools/pyvenv/bin/python3 check.py ' + p,
                            'thorough_cmd': 'VERIF_TIER=thorough /opt/veriftools/pyvenv/bin/python3 check.py ' + p,
                            'technique': 'contract-based deductive verification of the extracted C++ functions (SMT: z3, cvc5)',
                            'level': d.get('level', 'proof'),
                            'level_note': d.get('note', 'Every obligation of the functions under contract is discharged for all inputs' + ('; the program %s is an additional bounded check and replay search.' % d.get('harness') if d.get('harness') else '.'))})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'Not claimed yet: the contracts for the functions this property depends on are still being written.')})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
