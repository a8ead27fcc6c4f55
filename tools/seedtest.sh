#!/bin/bash
# seedtest.sh ID [notest|nocheck ...]  try seeded/ID in a scratch copy (/tmp/sd): demo clean, demo patched, stable tests, check
ID=$1; shift; OPT=" $* "
S=/verif/seeded/$ID; R=/tmp/sd/repo
export HOME=/root PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true
unset RUST_BACKTRACE
if [ ! -d $R ]; then mkdir -p /tmp/sd/vp; cp -a /repo $R; cp /opt/vp/* /tmp/sd/vp/; sed -i 's#/repo#/tmp/sd/repo#g; s#/opt/vp#/tmp/sd/vp#g' /tmp/sd/vp/*.sh; fi
git -C $R checkout -q -- . ; git -C $R fetch -q /repo HEAD && git -C $R checkout -q --detach FETCH_HEAD
D=$(mktemp -d /tmp/sd/demo.XXXX); cp $S/* $D/; rm -f $D/*.diff $D/meta.json
demo() { (cd $R && timeout 300 bash $D/demo.sh >/tmp/sd/demo.$ID.$1.log 2>&1); echo "demo $1: exit $?"; }
case "$OPT" in *nodemo*) ;; *) demo clean;; esac
git -C $R apply --check $S/patch.diff || { echo "patch does not apply"; exit 1; }
git -C $R apply $S/patch.diff
case "$OPT" in *nodemo*) ;; *) demo patched;; esac
case "$OPT" in *notest*) ;; *)
  bash /tmp/sd/vp/test.sh /tmp/sd/out.$ID.json >/tmp/sd/test.$ID.log 2>&1
  python3 - $ID <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); b=b.get('passed') or b.get('tests') or b.get('stable')
o=set(json.load(open(f'/tmp/sd/out.{sys.argv[1]}.json'))['passed'])
m=[t for t in b if t not in o]; print('stable tests failing:',len(m),m[:5])
P
;; esac
case "$OPT" in *nocheck*) ;; *)
  rm -rf /tmp/sd/v; mkdir -p /tmp/sd/v; cp -r /verif/harness /verif/run.sh /verif/known_findings.txt /tmp/sd/v/
  sed -i 's#/repo/#/tmp/sd/repo/#g' /tmp/sd/v/harness/Cargo.toml
  mkdir -p /tmp/sd/vtarget; ln -sfn /tmp/sd/vtarget /tmp/sd/v/target
  for P in ${PROPS:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}; do
    echo "== check $P"; VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 bash /tmp/sd/v/run.sh $P 2>&1 | tail -4 | cut -c1-400
  done;; esac
git -C $R checkout -q -- .
/bin/rm -rf $D
