#!/bin/bash
# runall.sh PROP SECONDS [base] : 8 workers and summary
H=$(cd "$(dirname "$0")" && pwd); P=$1 T=$2 B=${3:-1}
shift 3
for w in 0 1 2 3 4 5 6 7; do $H/build/rel/zsim run $P --base $B --worker $w --nworkers 8 --seconds $T --out /tmp/o_$P.$w.json --hashes /tmp/h_$P.$w "$@" & done; wait
python3 - $P <<'P'
import json,sys,collections
P=sys.argv[1]
R=collections.Counter(); K=collections.Counter(); ex={}; t=collections.Counter(); F=collections.Counter()
for w in range(8):
    j=json.load(open(f'/tmp/o_{P}.{w}.json'))
    for k,v in j['reach'].items(): R[k]+=v
    for k,v in j['keys'].items(): K[k]+=v
    for k,v in j['fired'].items(): F[k]+=v
    for k in ('scenarios','nontrivial','procs','events','unstable','simSeconds'): t[k]+=j[k]
    for v in j['violations']: ex.setdefault(v['key'],[]).append(v)
print(dict(t)); print({k:v for k,v in F.items() if v}); print(sorted(R.items()))
for k,n in K.most_common():
    print('==',n,k)
    for v in ex[k][:4]: print('    seed',v['scenario']['seed'],v['stable'],v['msg'][:260].replace('\n',' '),v['scenario']['model']['family'],' '.join(a+'='+b for a,b in v['scenario']['options']), [(f['at'],f['file'],f['nth'],f['act']) for f in v['scenario']['plan']['faults']])
P
