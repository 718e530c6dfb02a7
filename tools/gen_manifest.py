#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/conf.py (claimed) and properties.jsonl (the rest: not_applicable)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
from conf import CONF
try: from conf import NOT_APPLICABLE
except ImportError: NOT_APPLICABLE = {}
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks = []; na = []
for p in props:
    i = p['id']
    if i in CONF:
        c = CONF[i]
        san = 'AddressSanitizer/UBSan' + (' and ThreadSanitizer' if c.get('mt') else '')
        if c.get('variants') == ['tsan']: san = 'ThreadSanitizer'
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} quick', thorough_cmd=f'python3 check.py {i} thorough',
            technique='runtime monitoring: ' + c['technique'] + '; ' + san + ' on the same runs', level='exploration', level_note=c['note']))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'no check has been built for it yet')))
m = dict(version=1, setup_cmd='python3 tools/selftest.py', checks=checks, not_applicable=na,
    notes='No hooks in /repo: the checks compile the sources and headers of /repo with their own instrumentation flags and link-time wrappers (sched_yield, nanosleep, clock_nanosleep, pthread_mutex_lock, system_clock::now). A thorough check runs about 8 minutes on 8 cores.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
print(len(checks), 'claimed,', len(na), 'not')
