#!/usr/bin/env python3
"""writes MANIFEST.json from the list of checks"""
import sys, os, json
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + '/lib')
import checks
SCHED = 'TLA+ specification spec/Schedule.tla; programs recorded from the real code in a simulated multi-process world are executed and judged by TLC'
TECH = {'C11': 'TLA+ specification spec/Requests.tla: histories of completion calls of the real code are accepted or rejected by TLC, call sequences generated from it; values judged with spec/Schedule.tla',
        'C14': 'TLA+ specification spec/Handles.tla: histories generated by TLC are replayed into the real request table and interface',
        'C15': 'TLA+ specification spec/Resources.tla: TLC-generated histories of creation and release are replayed into the real code, whose resources are compared after every step',
        'C18': 'TLA+ specification spec/Barrier.tla model-checked for all interleavings; executions of the real barrier code, also around counter overflow, are checked against it by TLC'}
NOTE = {}
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
cs = []; na = []
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        cs.append({'property': i, 'quick_cmd': f'python3 bin/check.py {i} quick', 'thorough_cmd': f'python3 bin/check.py {i} thorough', 'technique': TECH.get(i, SCHED), 'level': 'model_checking',
                   'level_note': NOTE.get(i, 'Every scenario is a run of the code of /repo in the simulated world; its recording is executed by TLC under the specification, which covers all schedules of that program set (race-free programs are schedule-independent). Scenarios (shapes, counts, roots, datatypes, tuning) are sampled with VERIF_SEED within the bounds given in DESIGN.md, not exhausted.')})
    else: na.append({'property': i, 'reason': 'check under construction'})
m = {'version': 1, 'setup_cmd': 'bash bin/setup.sh', 'hooks': {'guard': 'EXT_MPI_VERIFY_BARRIER_START', 'enable': '-include /verif/sim/bstart.h, which defines the guard as a variable of the simulator (sim/build.sh does it in every build); without the guard the barrier counters start with 1 as ever', 'source_commits': ['390f8ccc948367dc6a78fdd69c4f6092d50a140e']}, 'checks': cs, 'not_applicable': na}
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1); open(R + '/MANIFEST.json', 'a').write('\n')
