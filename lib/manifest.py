"""Writes MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ('Every execution explored is decided exactly by TLC against the TLA+ specification; the models behind it are checked exhaustively within their constants. '
        'Programs and interleavings are sampled (seeded, preemption at single memory accesses under a deterministic runtime), not enumerated. '
        'Trusted: the runtime in vrt/, the driver, gcc, Boost.Context.')
checks = [dict(property=p['id'], quick_cmd='python3 lib/check.py %s' % p['id'], thorough_cmd='python3 lib/check.py %s --tier thorough' % p['id'],
               technique='TLA+ specification, TLC: trace validation of controlled executions, exhaustive model checking, spec-generated tests',
               level='model_checking', level_note=NOTE) for p in props.P]
assert [c['property'] for c in checks] == sorted(check.PLAN, key=[p['id'] for p in props.P].index)
m = dict(version=1, setup_cmd='python3 lib/build.py', checks=checks, not_applicable=[],
         notes='No hooks in /repo: the library is compiled unchanged, with -fsanitize=thread, against a runtime of our own. Start with DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
