#!/bin/bash
# dev.sh group scenario runs [faulty]  - quick look at a scenario in both builds
cd /verif; g=$1; s=$2; n=${3:-4000}
python3 build.py $g > /tmp/dev.$g.log 2>&1 || { grep -m12 error /tmp/dev.$g.log | cut -c1-240; exit 1; }
for m in debug release; do
  for k in 0 1 2 3; do build/$m/sim_$g batch --scenarios $s --seed ${SEED:-1} --start $k --stride 4 --runs $n --wall 60 --maxviol ${MV:-30} --known "$KNOWN" ${4:+--faulty $4} --out /tmp/dev.$g.$s.$m.$k || echo "rc $?" & done
done; wait
python3 - $g $s <<'P'
import json,sys,glob
g,s=sys.argv[1:]
for m in ("debug","release"):
    tot={};fa={};pr={};kn={};vi={}
    for f in sorted(glob.glob('/tmp/dev.%s.%s.%s.?'%(g,s,m))):
        d=json.load(open(f))
        for k in('runs','nontrivial','distinct_nontrivial','distinct_sched','steps','sim_seconds','wall','nviol'): tot[k]=tot.get(k,0)+d[k]
        for x,y in((fa,'faults'),(pr,'probes'),(kn,'known')):
            for k,v in d[y].items(): x[k]=x.get(k,0)+v
        for v in d['violations']: vi.setdefault(v['cls'],[]).append(v)
    print(m,{k:round(v,1) for k,v in tot.items()},'\n  faults',fa,'\n  probes',pr,kn or '')
    for c,v in sorted(vi.items()):
        v.sort(key=lambda x:x['steps'])
        print('  !!',c,len(v),'seed',v[0]['seed'],'faulty',v[0]['faulty'],'steps',v[0]['steps'],v[0]['msg'][:300])
P
