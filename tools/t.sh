#!/bin/bash
# t.sh CHECK [secs] [class]: run one worker with -keep and summarise the violations by kind
cd ${VERIF_BUILD:-/verif/.build}
c=$1
. /verif/tools/cenv.sh; cenv $c ${3:-0}
timeout $((${2:-5}+60)) ./worker -check $c -secs ${2:-5} -class ${3:-0} -start ${4:-0} -keep >/tmp/o.$c.$$ 2>/tmp/e.$c.$$; echo "$c exit $?"
head -c 800 /tmp/e.$c.$$
python3 - $c.$$ <<'P'
import sys,json,re,collections
c=collections.Counter();ex={}
for l in open('/tmp/o.'+sys.argv[1]):
  if l[:2]=='V ':
    _,seed,rule,msg=l.rstrip().split(' ',3)
    k=rule+' '+re.sub(r'\b[frthi]\d+[\w/#]*|\d+','#',msg)[:110]
    c[k]+=1; ex.setdefault(k,(seed,msg[:220]))
  elif l[:2]=='E ':
    d=json.loads(l[2:]); d['Hashes']=len(d['Hashes'] or []);d['Shapes']=len(d['Shapes'] or []);print({k:d[k] for k in('Runs','NonTriv','WallMS')}, d['Feat'] if __import__('os').environ.get('FEAT') else 'feat')
  elif l[:2]!='S ': print(l[:300].strip())
for k,n in c.most_common(25): print(n,k,'\n      ',ex[k])
P
