#!/bin/bash
# bash replay.sh <replay file>: rebuilds and re-executes one recorded execution.
V="$(cd "$(dirname "$0")" && pwd)"
export MC_VERIF="$V"
bash "$V/build.sh" || exit 2
exec "$V/target/release/mc" --replay "$1"
