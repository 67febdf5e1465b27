"""Writes /verif/MANIFEST.json from properties.jsonl and the scenario modules present (run by hand)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NOTE = 'Seeded random search over schedules, faults and inputs; a pass means no violation in the runs done, not a proof.'
NA = dict(
    N01='A parse is one call on one string: no scheduling, clock, I/O, randomness or crash can influence it, so there is nothing for a simulator to decide (history-dependence of the shared parser objects is P12).',
    N02='Pure arithmetic over fixed tables; no schedule, time, I/O or fault can change the answer (how the tables are loaded is P11).',
    N03='Pure string functions; no nondeterminism or fault reaches them. Their effect inside exports is exercised by P08/P13/P16.',
    N04='The verdict of a check depends only on the text; simulated schedules and faults cannot change it (that it is the same under every schedule is P01/P02).',
    N05='Needs external schema files and validators that are neither in the repository nor in the sandbox, and depends on nothing a simulator controls.',
    N06='Table lookups without state, time, I/O or concurrency (loading the tables is P11).')
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(f"{V}/sim/props/{i.lower()}.py"):
        checks.append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough", evidence_file=f"evidence/{i}.json",
                           technique='deterministic simulation with fault injection (seeded schedules, disk faults and crashes; real code against a reference execution or model)',
                           level='exploration', level_note=NOTE))
    else: na.append(dict(property=i, reason=NA.get(i, 'not built')))
M = dict(version=1, setup_cmd='./check setup', checks=checks, not_applicable=na)
json.dump(M, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), [x['property'] for x in na])
