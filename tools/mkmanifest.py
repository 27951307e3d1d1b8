#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
here=os.path.dirname(os.path.abspath(__file__))
props=[json.loads(l) for l in open(here+'/../properties.jsonl')]
notes=json.load(open(here+'/checks.json'))
na=notes.get('not_applicable',{})
checks=[]
for p in props:
    i=p['id']
    if i not in notes['checks']: 
        na.setdefault(i,'machinery for this property is not built yet'); continue
    c=notes['checks'][i]
    checks.append(dict(property=i,quick_cmd=f'./run.sh {i}',thorough_cmd=f'VERIF_TIER=thorough ./run.sh {i}',
        technique=c['technique'],level='exploration',level_note=c['note'],evidence_file=f'evidence/{i}.json'))
m=dict(version=1,setup_cmd='./run.sh build',
  hooks=dict(guard='cfg(paladin_verif)',enable='RUSTFLAGS="--cfg paladin_verif" (harness/env.sh); the harness crate has a path dependency on /repo/paladin-core',source_commits=notes['hook_commits']),
  checks=checks,not_applicable=[dict(property=k,reason=v) for k,v in na.items()],
  notes='See DESIGN.md. ./replay.sh FILE re-executes a replay file.')
json.dump(m,open(here+'/../MANIFEST.json','w'),indent=1)
