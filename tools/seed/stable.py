import json,re,sys
b=json.load(open('/opt/vp/BASELINE.json'))
s=json.dumps(b)
out=sys.stdin.read()
ok=set(re.findall(r'--- PASS: (\S+)',out)); bad=set(re.findall(r'--- FAIL: (\S+)',out))
print('tests: %d pass, fail: %s (stable if listed: %s)'%(len(ok),sorted(bad),[t for t in bad if '"'+t+'"' in s or '.'+t+'"' in s or '::'+t+'"' in s or '/'+t+'"' in s]))
