#!/usr/bin/env python3
"""SPACES.md from the evidence of the last run of every check."""
import glob, json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
out = ['# Explored spaces', '', 'Quick tier; generated by tools/spaces.py from the evidence files.', '']
for f in sorted(glob.glob(root + '/evidence/C*.json')):
    e = json.load(open(f))
    c = e['coverage']
    out += [f"## {os.path.basename(f)[:3]}", '', f"{c['states']} states, {c['transitions']} transitions, {c['traces_validated_against_impl']} executions of the implementation", '']
    out += [f"* **{s['space']}** ({s['states']}): {s['bound']}" for s in c['spaces']]
    if e.get('assumptions'):
        out += ['', 'Assumptions: ' + '; '.join(e['assumptions']) + '.']
    out.append('')
open(root + '/SPACES.md', 'w').write('\n'.join(out))
