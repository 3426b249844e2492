#!/usr/bin/env python3
"""MANIFEST.json from checks.json and properties.jsonl"""
import json,os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ck=json.load(open(H+'/checks.json'))
props=[json.loads(l) for l in open(H+'/properties.jsonl')]
BASE="Every obligation generated from /repo's current source for these functions must be discharged by z3/cvc5, function by function against contracts, for all inputs and all iterations. Trusted: the generator gocv, go/ssa, the solvers, assumed standard-library contracts, and the assumptions listed in the evidence. "
m=dict(version=1,
 setup_cmd="cd /verif/gocv && GOFLAGS= GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local go build -mod=vendor -o /dev/null . && cd /verif/replay && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local go build -o /dev/null .",
 hooks=dict(guard="verif",enable="no hooks are compiled into /repo: contracts live in /verif/contracts (comment-only files behind the build tag verif) and are matched to /repo's functions by name",source_commits=[]),
 checks=[],not_applicable=[],
 notes="All checks: python3 check.py <id>. Contracts in /verif/contracts, verifier in /verif/gocv, failing-input search in /verif/replay, known and fixed defects in known-findings.txt.")
for p in props:
    i=p['id']
    c=ck.get(i)
    if c is None: raise SystemExit('no entry for '+i)
    if c.get('na'):
        m['not_applicable'].append(dict(property=i,reason=c['na'])); continue
    m['checks'].append(dict(property=i,quick_cmd="python3 check.py %s quick"%i,thorough_cmd="python3 check.py %s thorough"%i,
      technique=c.get('technique',"contract-based deductive verification of the Go source (own condition generator over go/ssa, z3/cvc5)"),
      level=c.get('level','proof'),level_note=BASE+c.get('note','')))
json.dump(m,open(H+'/MANIFEST.json','w'),indent=1)
