#!/bin/sh
# usage: peek.sh PROP COUNT [args] : quick summary of runs (development aid)
P=$1; N=$2; shift 2
E=$(python3 /verif/bin/build.py) || exit 2
for w in 0 1 2 3 4 5 6 7; do $E run --prop $P --count $N --from $w --step 8 --maxviol 10000 "$@" & done | python3 -c "
import sys,json,collections
c=collections.Counter(); ex={}; n=0; pts=0; wall=0; mx=0; com=0; F=collections.Counter(); P=collections.Counter(); tr=0; rec=0
for l in sys.stdin:
    d=json.loads(l); n+=1; pts+=d['points']; wall+=d['wall']; mx=max(mx,d['wall']); com+=d['commits']; tr+=d['trunc']; rec+=d['recoveries']
    F.update(d['faults']); P.update(d['probes'])
    if d['status']!=1:
        k=d['class']+': '+''.join('#' if ch.isdigit() else ch for ch in d['text'].split(' [at point')[0][:60]); c[k]+=1
        if k not in ex or d['points']<ex[k]['points']: ex[k]=d
print(n,'runs',pts//max(n,1),'pts avg',round(wall/max(n,1),4),'s avg, max',mx,'commits',com,'trunc',tr,'recov',rec)
print(dict(F)); print(dict(P))
for k,v in c.most_common(25): print(v,ex[k]['seed'],ex[k]['points'],ex[k]['class'],ex[k]['text'][:420])
print('total bad',sum(c.values()))
"
