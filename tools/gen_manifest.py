#!/usr/bin/env python3
"""Writes MANIFEST.json. A property is claimed when the simulator has a scenario for it."""
import json, subprocess, sys
CLAIMED = sys.argv[1:] or open('/verif/tools/claimed.txt').read().split()
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
NA = {
 'N01': 'pure function of two strings (version order, specifier match): no schedule, time, I/O or other party to simulate; exercised only indirectly, through whole resolutions (C30)',
 'N02': 'pure text parsing/printing: nothing nondeterministic for a simulator to control',
 'N03': 'pure evaluation of an expression over a map: nothing for a simulator to control (C30 covers its use inside resolutions)',
 'N04': 'pure string normalisation: nothing for a simulator to control',
 'N05': 'pure parsing of file names: nothing for a simulator to control',
 'N06': 'pure expansion of a platform tag into a list: nothing for a simulator to control (C23 covers its use when choosing artifacts)',
 'N07': 'pure text parsing: nothing for a simulator to control',
 'N08': 'pure parsing of an HTML/JSON document: nothing for a simulator to control (C32/C13 cover how the document is obtained)',
 'N09': 'pure generation of file contents and environment variables: nothing for a simulator to control (C21/C22 cover that what is generated is written completely)',
}
def note(p):
    return ('Seeded exploration: every explored execution satisfied the property; unexplored schedules, faults and workloads are not covered. '
            'Runs the real code of /repo (built with the posy_sim feature) against a simulated kernel, clock, network and remote servers; trusts that simulation, '
            'and the reference model in dst/src/scen.')
checks = []
for p in props:
    if p['id'] in CLAIMED:
        checks.append({
            'property': p['id'],
            'quick_cmd': f"./check.sh {p['id']} quick",
            'thorough_cmd': f"./check.sh {p['id']} thorough",
            'evidence_file': f"evidence/{p['id']}.json",
            'technique': 'deterministic simulation with fault injection: seeded random search over schedules, faults and workloads, checked against a reference model',
            'level': 'exploration',
            'level_note': note(p),
        })
na = [{'property': p['id'], 'reason': NA.get(p['id'], 'machinery not built yet')} for p in props if p['id'] not in CLAIMED]
commits = subprocess.run(['git','-C','/repo','log','--format=%H %s'],capture_output=True,text=True).stdout.splitlines()
hooks = [l.split()[0] for l in commits if l.split(' ',1)[1].startswith('sim hook')]
m = {
 'version': 1,
 'setup_cmd': './setup.sh',
 'hooks': {'guard': 'cargo feature posy_sim (declared by /verif/sut/Cargo.toml; cfg(feature = "posy_sim") is never set in a normal build)',
           'enable': '/verif/sut/Cargo.toml compiles /repo/src/main.rs as a library with the feature on; /verif/build.sh builds it',
           'source_commits': hooks},
 'checks': checks,
 'not_applicable': na,
 'notes': 'replay a violation with ./replay.sh replays/FILE.json',
}
json.dump(m, open('/verif/MANIFEST.json','w'), indent=1)
open('/verif/MANIFEST.json','a').write('\n')
