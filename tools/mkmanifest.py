#!/usr/bin/env python3
# Writes MANIFEST.json: which properties are claimed, by which commands.
import json,os,subprocess
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'))
props=[json.loads(l) for l in open('properties.jsonl')]
claimed=open('tools/claimed').read().split()
na={
 'D01':'parsing a definition is a pure function of its bytes: no schedule, clock, fault or interleaving in it (the simulated flows of all checks exercise valid definitions, but that is no decision of this property)',
 'D02':'name conversion is a pure function: no schedule, clock, fault or interleaving in it',
}
level={}
checks=[]
for p in props:
    i=p['id']
    if i not in claimed: continue
    checks.append({
     'property':i,
     'quick_cmd':'./check %s quick'%i,
     'thorough_cmd':'./check %s thorough'%i,
     'evidence_file':'evidence/%s.json'%i,
     'technique':'deterministic simulation with fault injection: the real engine on a seeded scheduler and clock, histories judged by an executable reference model',
     'level':'exploration',
     'level_note':'Seeded search over generated flows, activity outcomes, faults and schedules (statement-level preemption, simulated time); sampling, no proof. Trusts the reference model, the simulated Go runtime, and the flow core library.',
    })
m={'version':1,'setup_cmd':'./check setup',
 'checks':checks,
 'not_applicable':[{'property':p['id'],'reason':na.get(p['id'],'no check has been built for it yet')} for p in props if p['id'] not in claimed],
 'notes':'No hooks in /repo: the seams are put in at build time with go build -overlay (runtime scheduler and clock, statement yields).'}
json.dump(m,open('MANIFEST.json','w'),indent=1)
