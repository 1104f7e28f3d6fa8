#!/bin/bash
# ydiff.sh CHECK SEED START [class]: where does a run within a campaign diverge from the same run in a process of its own (development aid)
cd /verif; D=$(mktemp -d)
cp -a sim $D/sim; mkdir $D/tools; cp tools/build.sh $D/tools
python3 - $D <<'P'
import sys
p=sys.argv[1]+'/sim/overlay/zsim.go.txt'; s=open(p).read()
s=s.replace('''	if uint32(simSplit(&simS0[0])%1000000) >= ppm {
		return
	}
''','''	if SimDbgOn {
		var b [6]uintptr
		n := callers(2, b[:])
		println("y", simSt.Yields, gp.simID, ppm)
		for i := 0; i < n; i++ {
			if f := findfunc(b[i]); f.valid() {
				println("    ", funcname(f), b[i])
			}
		}
	}
	if uint32(simSplit(&simS0[0])%1000000) >= ppm {
		return
	}
''')
s=s.replace('''	simSt.Hash = (simSt.Hash ^ uint64(gp.simID)) * 1099511628211
''','''	if SimDbgOn {
		println("P", simSt.Picks, gp.simID, n, simNow, simSt.Yields,simSpin)
	}
	simSt.Hash = (simSt.Hash ^ uint64(gp.simID)) * 1099511628211
''')
s+='\nvar SimDbgOn bool\n'
open(p,'w').write(s)
p=sys.argv[1]+'/sim/h/run.go'; s=open(p).read()
s=s.replace("	runtime.SimBegin(cfg)\n","	runtime.SimDbgOn = os.Getenv(\"DBGY\") != \"\" && os.Getenv(\"DBGY\") == fmt.Sprint(x.Sc.Seed)\n	runtime.SimBegin(cfg)\n")
open(p,'w').write(s)
P
bash $D/tools/build.sh || exit 1
cd $D/.build; export GOMAXPROCS=1 FLOGO_LOG_LEVEL=ERROR FLOGO_HOST_NAME=simhost TZ=UTC
DBGY=$2 ./worker -check $1 -class ${4:-0} -start $3 -max $(($2-$3+1)) -secs 0 2>/tmp/y1 >/dev/null
./worker -check $1 -class ${4:-0} -start $2 -gen | cut -c3- > /tmp/d.json; DBGY=$2 ./worker -exec /tmp/d.json 2>/tmp/y2 >/dev/null
wc -l /tmp/y1 /tmp/y2; diff /tmp/y1 /tmp/y2 | head -60
rm -rf "$D"
