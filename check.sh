#!/bin/bash
# usage: check.sh <property>   (VERIF_SEED, VERIF_TIER from the environment)
here=$(cd "$(dirname "$0")" && pwd)
"$here/build.sh" || exit 3
export DSIM_ROOT="$here"
exec "$here/target/debug/dsim" check "$1"
