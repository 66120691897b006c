#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after an edit)."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, note, observe=None, state=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], state=state or [],
                                observe_at=observe or [], hook_needed=None)), note))


exec(open('properties.py').read())
assert len({p['id'] for p, _ in P}) == len(P)
for p, _ in P:
    assert len(p['title']) <= 80, p['title']
with open('properties.jsonl', 'w') as f:
    for p, _ in P:
        f.write(json.dumps(p) + '\n')
man = dict(
    version=1,
    setup_cmd='bash build.sh rel && bash build.sh asan',
    hooks=dict(guard='ZMDP_SIM', enable='build.sh compiles a copy of /repo/src with -DZMDP_SIM=1 and links it with the simulator in sim/', source_commits=['afae2f0']),
    checks=[dict(property=p['id'], quick_cmd=f"python3 run.py {p['id']} quick", thorough_cmd=f"python3 run.py {p['id']} thorough",
                 evidence_file=f"evidence/{p['id']}.json", technique='deterministic simulation with fault injection, seeded random search: ' + note[0],
                 level='exploration', level_note=note[1]) for p, note in P if note],
    not_applicable=NA,
    notes='Every check is run.py: build the simulator from /repo, search seeds for a fixed time on all cores, confirm, minimise, report.')
json.dump(man, open('MANIFEST.json', 'w'), indent=1)
