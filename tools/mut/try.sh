#!/bin/bash
# try.sh REPOCOPY PKG TESTREGEX [SCALE]: run a check against a modified copy of /repo
R=$1 P=$2 T=$3 S=${4:-1}
. /opt/vp/env.sh; export GOFLAGS=-mod=mod GOWORK=off
W=$(mktemp -d /tmp/mtry.XXXX); chmod 755 $W; cp -a /verif/harness $W/harness; sed -i "s#/repo#$R#g" $W/harness/go.mod
mkdir -p $W/bin $W/out $W/scratch $W/cwd
for t in buildifier buildozer unused_deps; do (cd $R && go build -o $W/bin/$t ./$t); done
(cd $W/harness && go test -c -vet=off -o $W/t.test ./$P) || exit 3
cd $W/cwd
for k in 0 1 2 3 4 5 6 7; do mkdir -p $W/out$k $W/scratch$k
VERIF_OUT=$W/out$k VERIF_SCRATCH=$W/scratch$k VERIF_BIN=$W/bin VERIF_TIER=quick VERIF_SHARDS=8 VERIF_SHARD=$k VERIF_SEED=1 VERIF_SEED_EFF=$((1010+k)) GOMAXPROCS=1 VERIF_SCALE=$S TMPDIR=$W/scratch$k \
 $W/t.test -test.run "$T" -test.failfast -test.v -rapid.seed=$((1010+k)) -rapid.shrinktime=2s -test.timeout 0 > $W/log$k 2>&1 & done; wait
python3 - $W <<'P'
import json,glob,sys
best=None
for p in glob.glob(sys.argv[1]+'/out*/*.json'):
    st=json.load(open(p))
    if st['failed'] and (best is None or len(st.get('fail_input',''))<len(best.get('fail_input',''))): best=st
if best: print(best['test'],best.get('fail_detail','')[:3500]); print('--- input'); print(best.get('fail_input','')[:3000])
else:
    died=[p for p in glob.glob(sys.argv[1]+'/log*') if '--- FAIL' in open(p).read() or 'panic' in open(p).read()]
    print('no failure reported', died)
    for p in died[:1]:
        print(open(p).read()[-2500:]); k=p[-1]; print(open(glob.glob(sys.argv[1]+'/last')[0]).read() if 0 else '')
        try: print(open(sys.argv[1]+'/last').read())
        except OSError: pass
P
rm -rf "$W"
