#!/usr/bin/env python3
"""writes MANIFEST.json from tools/config.py and tools/mkprops.py's property list"""
import json, os, subprocess, sys
sys.dont_write_bytecode = True
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'tools'))
from config import CHECKS, NOT_APPLICABLE
props = [json.loads(l)['id'] for l in open(os.path.join(R, 'properties.jsonl'))]
out = dict(version=1, setup_cmd='clang++ --version && python3 --version', hooks=dict(guard='none', enable='no hooks are used: the harnesses link the unmodified library', source_commits=[]), checks=[], not_applicable=[])
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        san = '+'.join({'asan': 'AddressSanitizer/UBSan', 'tsan': 'ThreadSanitizer', 'plain': 'uninstrumented'}[b['san']] for b in c['builds'])
        out['checks'].append(dict(property=p, quick_cmd='./check %s' % p, thorough_cmd='./check %s --tier thorough' % p,
                                  technique='runtime monitoring under %s: %s' % (san, c.get('oracle', 'reference oracle over seeded random workloads')),
                                  level='exploration', level_note=c.get('note', 'Seeded random exploration; holds on the executions observed.')))
    else:
        out['not_applicable'].append(dict(property=p, reason=NOT_APPLICABLE.get(p, 'machinery not built yet')))
json.dump(out, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
