#!/usr/bin/env python3
"""MANIFEST.json from props.py and properties.jsonl"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
na = []
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        note = ('Bounded: the solver decided every assertion for all inputs within: ' + '; '.join('%s: %s' % (r['h'], r['b']) for r in p['quick'])
                + '. Outside: ' + (p.get('outside') or 'nothing else') + '. Trusts rustc, the engine\'s LLVM IR semantics (validated by native replay on every run) and z3.')
        if p.get('assume'):
            note += ' Assumes: ' + '; '.join(p['assume']) + '.'
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py %s quick' % i,
            'thorough_cmd': 'python3 check.py %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'symbolic execution of the compiled LLVM IR of the real functions, every assertion decided by z3 within stated bounds, counterexamples replayed natively',
            'level': 'model_checking',
            'level_note': note,
        })
    else:
        na.append({'property': i, 'reason': props.NA.get(i, 'check not built yet')})
m = {
    'version': 1,
    'setup_cmd': 'bash engine/build.sh',
    'hooks': {'guard': 'cfg(vp_hooks)', 'enable': 'RUSTFLAGS="--cfg vp_hooks" (set by check.py when it compiles the harness crate with its path dependencies on /repo)',
              'source_commits': props.HOOK_COMMITS},
    'checks': checks,
    'not_applicable': na,
    'notes': 'See DESIGN.md. One engine (engine/), one harness crate (harness/), one driver (check.py).',
}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
