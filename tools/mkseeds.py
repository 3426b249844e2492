#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from the list below, after confirming each change in a scratch copy of /repo:
it compiles, the stable tests pass, and the demonstration fails with it and passes without it."""
import json, os, subprocess, sys, shutil, tempfile
SEEDS = []
def seed(id, prop, file, subs, needs, breaks, demo, imports=("fmt", "os")):
    SEEDS.append(dict(id=id, prop=prop, file=file, subs=subs, needs=needs, breaks=breaks, demo=demo, imports=imports))
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds.py")).read())
DEMO = '''#!/bin/bash
# runs main.go.txt (a small program against the package in the current directory); exit 0 iff the property held
set -u
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
cp "$D/main.go.txt" "$T/main.go"
printf 'module demo\\n\\ngo 1.16\\n\\nrequire github.com/aiq/tok v0.0.0\\n\\nreplace github.com/aiq/tok => %s\\n' "$R" > "$T/go.mod"
cd "$T" && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local timeout 120 go run .
'''
base = json.load(open('/opt/vp/BASELINE.json'))
def tests(dir):
    r = subprocess.run(['go','test','-v','-timeout','60s','./...'],cwd=dir,capture_output=True,text=True)
    return r.returncode, r.stdout
want = sys.argv[1:]
for s in SEEDS:
    if want and s['id'] not in want: continue
    T = tempfile.mkdtemp(prefix='seed-')
    try:
        subprocess.run(['git','clone','-q','/repo',T+'/r'],check=True)
        f = T+'/r/'+s['file']
        src = open(f).read()
        orig = subprocess.run(['git','-C','/repo','show','0adaed3:'+s['file']],capture_output=True,text=True).stdout
        for a,b in s['subs']:
            if src.count(a)!=1: print(s['id'],'PATTERN COUNT',src.count(a),repr(a)); break
            src = src.replace(a,b)
        else:
            d = '/verif/seeded/'+s['id']
            os.makedirs(d,exist_ok=True)
            imps = ''.join('\t"%s"\n'%i for i in s['imports'])
            gram = '\t"github.com/aiq/tok/grammar"\n' if 'grammar.' in s['demo'] else ''
            body = 'package main\n\nimport (\n%s\n%s\t"github.com/aiq/tok"\n)\n\nfunc fail(a ...interface{}) { fmt.Println(a...); os.Exit(1) }\n\n%s' % (imps,gram,s['demo'].strip()+'\n')
            if 'func main' not in body: body = body.replace(s['demo'].strip(),'func main() {\n'+s['demo'].strip()+'\n}')
            open(d+'/main.go.txt','w').write(body)
            subprocess.run(['gofmt','-w',d+'/main.go.txt'])
            open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
            json.dump(dict(property=s['prop'],needs=s['needs'],what_it_breaks=s['breaks']),open(d+'/meta.json','w'),indent=1)
            a = subprocess.run(['bash',d+'/demo.sh'],cwd=T+'/r',capture_output=True,text=True)
            open(f,'w').write(src)
            b = subprocess.run(['bash',d+'/demo.sh'],cwd=T+'/r',capture_output=True,text=True)
            bld = subprocess.run(['go','build','./...'],cwd=T+'/r',capture_output=True,text=True)
            rc,out = tests(T+'/r')
            diff = subprocess.run(['git','diff'],cwd=T+'/r',capture_output=True,text=True).stdout
            removed = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
            inorig = [l for l in removed if l in orig.splitlines()]
            failed = [l for l in out.splitlines() if l.startswith('--- FAIL') or l.startswith('FAIL')]
            ok = a.returncode==0 and b.returncode!=0 and bld.returncode==0 and not failed
            print(s['id'],s['prop'],'OK' if ok else 'BAD', 'orig-demo',a.returncode,'seeded-demo',b.returncode,'build',bld.returncode,'fails',failed[:3],'orig lines',len(inorig),'/',len(removed), (a.stdout+a.stderr)[:300] if a.returncode else '', (b.stdout+b.stderr).strip()[:160])
            if ok: open(d+'/patch.diff','w').write(diff)
            else: shutil.rmtree(d)
    finally:
        shutil.rmtree(T,ignore_errors=True)
