#!/bin/bash
# seedtest.sh ID...: in a scratch copy of /repo, checks that a planted bug applies, builds,
# passes the stable tests, and that its demo tells the patched tree from the unpatched one.
. /opt/vp/env.sh
W=/tmp/seedwt/repo
[ -d $W ] || { mkdir -p /tmp/seedwt; cp -a /repo /tmp/seedwt/; }
for id in "$@"; do
  d=/verif/seeded/$id; r="$id:"
  git -C $W checkout -q -- . ; git -C $W reset -q --hard "$(git -C /repo rev-parse HEAD)" 2>/dev/null || { git -C $W fetch -q /repo; git -C $W reset -q --hard FETCH_HEAD; }
  t=$(mktemp -d /tmp/sd.XXXXXX); cp $d/* $t/; rm -f $t/patch.diff $t/meta.json
  if [ -z "$FAST" ]; then
  ( cd $W && timeout 300 bash $t/demo.sh >$t/clean.log 2>&1 ); r="$r clean=$?"
  fi
  git -C $W apply $d/patch.diff || { echo "$r apply FAILED"; continue; }
  ( cd $W && timeout 300 bash $t/demo.sh >$t/bug.log 2>&1 ); r="$r bug=$?"
  s=$(mktemp -d /tmp/rs.XXXXXX)
  redis-server --port 0 --unixsocket $s/r.sock --save "" --appendonly no --dir $s --daemonize no >/dev/null 2>&1 & rp=$!
  sleep 0.3
  ( cd $W && LIBMCAPTCHA_TEST_REDIS_URL="redis+unix://$s/r.sock" timeout 600 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 >$t/test.log 2>&1 )
  kill $rp; wait $rp 2>/dev/null
  bad=$(python3 - $t/test.log <<'P'
import json,re,sys
st=json.load(open('/opt/vp/BASELINE.json'))['stable']
ok=set(re.findall(r'^test (.*?)(?: - should panic)? \.\.\. ok',open(sys.argv[1]).read(),re.M))
ok={re.sub(r' \(line \d+\)','',o) for o in ok}
miss=[s for s in st if s.startswith('libmcaptcha:') and s.split('src/lib.rs::')[1] not in ok]
print(len(miss),*miss[:4])
P
)
  r="$r missing-tests=$bad"
  git -C $W checkout -q -- .
  echo "$r"; [ -n "$V" ] && { tail -3 $t/clean.log; tail -5 $t/bug.log; }
  rm -rf "$t" "$s"
done
