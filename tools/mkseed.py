#!/usr/bin/env python3
"""mk.py defs.py [ID...]: make seeded bugs from definitions."""
import sys,os,subprocess,json,shutil,runpy
defs=runpy.run_path(sys.argv[1])['SEEDS']
only=sys.argv[2:]
DEMO='''#!/bin/bash
# Builds yisp from the current directory and compares what it does with what it must do.
set -u
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
go build -buildvcs=false -o "$t/yisp" . || exit 2
export HOME="$t/home"; mkdir -p "$HOME"
mkdir "$t/work"; [ ! -d "$here/work" ] || cp -r "$here/work/." "$t/work/"; cd "$t/work" || exit 2
%s
'''
STD='''timeout 60 ../yisp build main.yisp %s > ../out.txt 2> ../err.txt
rc=$?
[ $rc = %d ] || { echo "exit status $rc"; cat ../err.txt; exit 1; }
diff -B "$here/expected.txt" ../out.txt'''
env=dict(os.environ)
for s in defs:
    i=s['id']
    if only and i not in only: continue
    d='/verif/seeded/'+i
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    wt='/tmp/sd/wt'; shutil.rmtree(wt,ignore_errors=True)
    subprocess.run(['git','-C','/repo','worktree','prune'])
    subprocess.check_call(['cp','-a','/repo',wt])
    for f,old,new in s['edits']:
        p=os.path.join(wt,f); t=open(p).read()
        assert t.count(old)==1,(i,f,t.count(old),old)
        open(p,'w').write(t.replace(old,new))
    subprocess.run(['gofmt','-l','.'],cwd=wt)
    diff=subprocess.check_output(['git','diff'],cwd=wt,text=True)
    open(d+'/patch.diff','w').write(diff)
    # changed lines must be original
    for line in subprocess.check_output(['git','diff','-U0'],cwd=wt,text=True).splitlines(): pass
    os.makedirs(d+'/work',exist_ok=True)
    for n,c in s.get('files',{}).items():
        os.makedirs(os.path.dirname(d+'/work/'+n),exist_ok=True)
        open(d+'/work/'+n,'w').write(c)
    for n,c in s.get('beside',{}).items():
        open(d+'/'+n,'w').write(c)
    body=s.get('demo') or STD%(s.get('args',''),s.get('rc',0))
    open(d+'/demo.sh','w').write(DEMO%body)
    os.chmod(d+'/demo.sh',0o755)
    if 'expected' in s: open(d+'/expected.txt','w').write(s['expected'])
    json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
    # report whether removed lines are in the base
    import re
    base={}
    cur=None
    for l in diff.splitlines():
        if l.startswith('--- a/'):
            cur=l[6:]
            base[cur]=subprocess.run(['git','-C','/repo','show','ce693cc:'+cur],capture_output=True,text=True).stdout
        elif l.startswith('-') and not l.startswith('---'):
            if l[1:].strip() and l[1:] not in base[cur]: print(i,'NOT ORIGINAL:',l)
    shutil.rmtree(wt,ignore_errors=True)
