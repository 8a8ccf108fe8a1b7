import json, sys
sys.path.insert(0, '/verif')
import jobs
NA = []
checks = []
for l in open('/verif/properties.jsonl'):
    p = json.loads(l)['id']
    checks.append({'property': p, 'quick_cmd': 'python3 run.py %s' % p, 'thorough_cmd': 'python3 run.py %s --tier thorough' % p,
      'technique': 'solver-based checking: symbolic execution of the LLVM IR compiled from /repo/src, doubles as exact reals; branch feasibility and assertions decided by z3 (linear arithmetic over monomials, then nlsat), counterexamples replayed on the natively compiled code',
      'level': 'model_checking', 'level_note': 'every path and every real input within: ' + jobs.BOUNDS[p] + '. Outside: floating-point rounding; larger shapes.'})
json.dump({'version': 1, 'setup_cmd': 'make -C engine -j4', 'checks': checks, 'not_applicable': NA}, open('/verif/MANIFEST.json', 'w'), indent=1)
