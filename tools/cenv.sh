# cenv CHECK CLASS: export the process-level environment of a class
cenv() {
  export GOMAXPROCS=1 FLOGO_LOG_LEVEL=ERROR FLOGO_HOST_NAME=simhost
  for v in $(${VERIF_BUILD:-/verif/.build}/worker -info 2>/dev/null | python3 -c "
import sys,json
for l in sys.stdin:
    if l[:2]!='I ': continue
    for i in json.loads(l[2:]):
        if i['ID']=='$1' and i.get('Env') and $2<len(i['Env']): print(' '.join(i['Env'][$2] or []))
"); do export "$v"; done
}
