# cnt.sh builddir group scenario runs
for m in debug release; do for s in $(echo $3 | tr , ' '); do $1/$m/sim_$2 batch --scenarios $s --seed ${SEED:-1} --runs $4 --wall 100 --maxviol 300 --out /tmp/x.json >/dev/null 2>/tmp/x.err || echo rc $?; python3 - $m $s <<'P'
import json,sys,collections
d=json.load(open('/tmp/x.json')); c=collections.Counter(v['cls'] for v in d['violations'])
print(sys.argv[1:],d['runs'],d['nontrivial'],dict(d['faults']),dict(d['probes']),'wall',round(d['wall'],1)); print('   ',dict(c))
seen=set()
for v in sorted(d['violations'],key=lambda v:v['steps']):
    if v['cls'] in seen: continue
    seen.add(v['cls']); print('   !!',v['cls'],v['seed'],v['faulty'],v['steps'],v['msg'][:200])
P
done; done
