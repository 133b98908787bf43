#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties in properties.jsonl."""
import json, os, sys
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
done=[a for a in sys.argv[1:]] or [p['id'] for p in props]
T={
 'lib':'explicit-state model checking: bounded exhaustive enumeration against a reference model, every model behaviour replayed on the library',
 'cli':'explicit-state model checking: bounded exhaustive enumeration of inputs and option histories, every one executed on the real pica binary and compared with a reference model',
 'C31':'exhaustive fault enumeration: every system call of every run deviates once, on the real binary under a fault injecting shim',
}
tech={
 'C01':'automaton conformance (W-method): all states x all byte pairs x distinguishing suffixes on the real parser',
 'C03':'stateless exploration of all environment deviations (short reads, interruptions, errors) of the real reader',
 'C04':'exhaustive exploration of operation histories on the real record type against a reference model',
 'C09':'exhaustive exploration of parse histories on the real parsers, fresh threads as reference',
 'C27':'fault enumeration inside a bounded exhaustive exploration of output histories on the real binary',
 'C29':'exhaustive exploration of command histories and file truncations on the real binary',
 'C31':'exhaustive fault enumeration: every system call of every run deviates once, on the real binary under a fault injecting shim',
}
checks=[]
for p in props:
    i=p['id']
    if i not in done: continue
    kind='lib' if int(i[1:])<=14 else 'cli'
    checks.append(dict(property=i,quick_cmd=f'bash bin/check.sh {i}',thorough_cmd=f'VERIF_TIER=thorough bash bin/check.sh {i}',
      technique=tech.get(i,T[kind]),level='model_checking',
      level_note='Holds for everything inside the stated bounds ('+' '.join(p['quantifier']['text'].split())[:400]+'); trusts the reference model in harness/src and the compiler.'))
na=[dict(property=p['id'],reason='check under construction') for p in props if p['id'] not in done]
json.dump(dict(version=1,setup_cmd='bash bin/setup.sh',checks=checks,not_applicable=na,
  notes='No hooks are needed: the checks use the public API of the library and the pica binary. Repairs are "fix:" commits, listed in known_findings.txt.'),
  open(root+'/MANIFEST.json','w'),indent=1)
print(len(checks),len(na))
