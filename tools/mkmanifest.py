#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and the implemented checks (kv list)."""
import json, subprocess
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
have=subprocess.run(['/verif/target/debug/kv','list'],capture_output=True,text=True).stdout.split()
T={
 'inputs':'property-based testing: structured input generation against a reference model, round trips and differentials',
 'sim':'stateful property-based testing: generated operation histories and generated schedules (harness-owned scheduler and clock) against a reference model',
 'net':'property-based testing: generated traffic, faults and raw-socket peers over loopback against history invariants',
 'mt':'property-based testing: generated multi-threaded programs on real pools with in-handler invariant monitors, plus generated schedules',
}
kind={}
for i in 'D01 D02 D03 S01 S04 S05 B01 B02 B03 B04 F01 F02 F03 F04 D04 D07 G01 G02'.split(): kind[i]='inputs'
for i in 'C02 C04 C05 C06 C07 C08 C09 C10 C11 C12 C14 C16 D05 D06 S02 S03 E01'.split(): kind[i]='sim'
for i in 'C01 C03 C13'.split(): kind[i]='mt'
for i in 'N01 N02 N03 N04 N05 N06 N07'.split(): kind[i]='net'
hooks=json.load(open('/verif/tools/hooks.json'))
m={'version':1,'setup_cmd':'./run.sh --build','hooks':hooks,'checks':[],'not_applicable':[]}
if not hooks: del m['hooks']
for p in props:
    i=p['id']
    if i in have:
        m['checks'].append({'property':i,'quick_cmd':f'./run.sh {i} quick','thorough_cmd':f'./run.sh {i} thorough',
          'technique':T[kind[i]],'level':'exploration',
          'level_note':'random search over the generated domain described in DESIGN.md; failures are shrunk and replayable; absence of a violation is evidence over the explored cases only'})
    else:
        m['not_applicable'].append({'property':i,'reason':'check not built (see DESIGN.md)'})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(len(m['checks']),'checks',len(m['not_applicable']),'not applicable')
