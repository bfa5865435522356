import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from plan import PLAN
LEVEL = 'Deterministic replayable exploration: %s No absence proof; schedules are sequentially consistent interleavings, bounded to 8 threads.'
T = {
 'mutex': 'stateful property-based testing: random concurrent programs, schedules and faults against a reference model',
}
from notes import NOTES
NA = []
checks = []
for p in sorted(PLAN):
    tech, note = NOTES[p]
    checks.append(dict(property=p, quick_cmd='python3 check.py %s quick' % p, thorough_cmd='python3 check.py %s thorough' % p,
                       technique=tech, level='exploration', level_note=note))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
from notes import NOT_APPLICABLE
for q in props:
    if q['id'] not in PLAN:
        NA.append(dict(property=q['id'], reason=NOT_APPLICABLE.get(q['id'], 'check not built yet')))
json.dump(dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=NA,
               notes='No hooks in /repo: the library is header-only and is instrumented by the compiler (-fsanitize=thread callbacks into our runtime) and by interposed pthread, semaphore and clock calls.'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
