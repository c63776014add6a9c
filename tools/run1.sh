#!/bin/bash
# dev: run1.sh PROP [args]: build and run one worker per core for a short while
P=$1; shift
cd /verif && python3 tools/vbuild.py $P >/tmp/w/build.log 2>&1 || { cat /tmp/w/build.log; exit 3; }
W=/tmp/w/$P; mkdir -p $W; cd $W
for i in 0 1 2 3 4 5 6 7; do /verif/build/bin/$P --worker $i --nworkers 8 --out $W/o$i.json "$@" >$W/log$i 2>&1 & done
wait
python3 - $W <<'P'
import json,sys,glob,collections
lab=collections.Counter();n=nt=inc=fl=0;wall=0;keys=set();fails=[]
for f in sorted(glob.glob(sys.argv[1]+"/o?.json")):
    d=json.load(open(f));n+=d['cases'];nt+=d['nontrivial'];inc+=d['inconclusive'];fl+=d['flaky'];wall=max(wall,d['wall']);keys|=set(d['keys'])
    for k,v in d['labels'].items():lab[k]+=v
    if 'fail' in d: fails.append((d['fail'],f))
print(n,"cases",nt,"nontrivial",len(keys),"distinct",inc,"inconclusive",fl,"flaky wall",wall)
print(dict(lab))
seen=set()
for x,f in sorted(fails,key=lambda t:t[0]['draws']):
    k=x['kind']
    if k in seen: print("  same kind",k,x['draws'],f);continue
    seen.add(k)
    print("FAIL",x['kind'],x['draws'],x['replay']);
    import subprocess
    t=''.join(l for l in open(x['replay']) if l.startswith('#'))
    print(subprocess.run(["python3","/verif/tools/sym.py"],input=t[:2500],capture_output=True,text=True).stdout)
P
