#!/bin/bash
# verify.sh [id...]: does each planted bug apply, build, keep the stable tests passing, and does
# its demonstration tell the two trees apart?  Works in a scratch copy of /repo.
W=/tmp/seedver; mkdir -p $W
export RUSTUP_TOOLCHAIN=1.84.1 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_PROFILE_TEST_DEBUG=line-tables-only
[ -d $W/repo ] || cp -a /repo $W/repo
cd $W/repo || exit 1
git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
ids=("$@"); [ $# = 0 ] && ids=($(ls /verif/seeded))
for i in "${ids[@]}"; do
  s=/verif/seeded/$i; r="$i:"
  git checkout -q -- . 
  bash $s/demo.sh >$W/$i.clean.log 2>&1 && r="$r demo-clean=ok" || r="$r demo-clean=BAD"
  git apply $s/patch.diff || { echo "$i does not apply"; continue; }
  cargo build --workspace --locked --offline >$W/$i.build.log 2>&1 && r="$r build=ok" || r="$r build=BAD"
  cargo nextest run --workspace --locked --offline --no-fail-fast --test-threads 8 --user-config-file none --tool-config-file vp:/opt/vp/nextest.toml --profile vp >$W/$i.test.log 2>&1
  r="$r tests=$(grep -E 'Summary' $W/$i.test.log | sed 's/.*\] *//')"
  bash $s/demo.sh >$W/$i.bug.log 2>&1 && r="$r demo-bug=PASSES(BAD)" || { grep -q "could not compile" $W/$i.bug.log && r="$r demo-bug=COMPILE" || r="$r demo-bug=fails(ok)"; }
  git checkout -q -- .
  echo "$r"
done
