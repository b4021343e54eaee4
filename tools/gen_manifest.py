#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that the simulator registers."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
out = subprocess.run([root + '/sim/target/bin/all', 'list'], capture_output=True, text=True, check=True).stdout
built = {}
for l in out.splitlines():
    i, about, assumes = l.split('\t')
    built[i] = (about, assumes)
NA = {
  'P24': 'The index and offset types are pure integer encodings without state, concurrency, time or I/O; a simulated schedule or fault has nothing to act on. Their use inside every structure is exercised by the other checks.',
}
hooks = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout.splitlines()
src = [l.split()[0] for l in hooks if 'simulation hook' in l]
m = dict(version=1, setup_cmd='bash build.sh',
  hooks=dict(guard='cfg(portgraph_sim)', enable='RUSTFLAGS="--cfg portgraph_sim" (set by build.sh)', source_commits=src),
  checks=[], not_applicable=[],
  notes='Every check is `sim check <id>`: a search over seeded simulated runs in 8 worker processes; see DESIGN.md. `bash replay.sh <file>` reproduces a violation.')
for p in props:
    i = p['id']
    if i in built:
        about, assumes = built[i]
        m['checks'].append(dict(property=i, quick_cmd=f'bash check.sh {i} quick', thorough_cmd=f'bash check.sh {i} thorough',
          evidence_file=f'evidence/{i}.json',
          technique='deterministic simulation with fault injection: seeded search over simulated histories, schedules and faults against a reference model',
          level='exploration',
          level_note=f'Sampled, not exhaustive: no violation in the seeded runs of the tier. Each run: {about}. Assumes: {assumes}.'))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'Not claimed yet: its check is not built.')))
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks;', [x['property'] for x in m['not_applicable']])
