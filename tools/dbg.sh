cd ${VERIF_BUILD:-/verif/.build}
. /verif/tools/cenv.sh; cenv $1 ${3:-0}
./worker -check $1 -gen -start $2 -class ${3:-0} | sed 's/^G //' > /tmp/sc.json
python3 -m json.tool --indent 1 /tmp/sc.json >/dev/null
python3 - <<'P'
import json
s=json.load(open('/tmp/sc.json'))
print({k:v for k,v in s.items() if k not in('flows',)})
for f in s['flows']:
    print('FLOW',f['name'],'outs',f.get('outs'))
    for n in ('body','eh'):
        g=f.get(n)
        if not g: continue
        print(' ',n)
        for t in g['tasks']: print('    ',json.dumps(t))
        for l in g.get('links') or []: print('    ',l['from'],'->',l['to'],l['type'],l.get('expr',''),l.get('sels',''))
P
timeout 60 env SIM_STACK=$SIM_STACK GOMAXPROCS=1 FLOGO_LOG_LEVEL=ERROR ./worker -exec /tmp/sc.json > /tmp/r.json 2>/tmp/r.err; echo exit $?
python3 - <<'P'
import json
for l in open('/tmp/r.json'):
    if l[:2]!='R ': print(l[:500]); continue
    r=json.loads(l[2:])
    for t in r.get('trace') or []: print(t)
    for v in r['viols'] or []: print(v)
P
head -c ${ERRN:-1500} /tmp/r.err
