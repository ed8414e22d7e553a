#!/usr/bin/env bash
# check.sh <property> [args]: builds the harness against /repo's working tree and runs one property.
# exit 0 held, 1 violation, anything else: the check could not decide
set -u
cd "$(dirname "$0")" || exit 2
here=$PWD
. ./env.sh
id=$1
shift
case $id in
  C15|C21|C22|C23|C24|C25|C26|C39|C40|C41|C42) bin=vtl pkg=vt-lsp ;;
  *) bin=vt pkg=vt-core ;;
esac
scratch=$(mktemp -d /tmp/vt-check.XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
# an empty schema catalog and nothing else: no check reaches a network
export TOMBI_CACHE_HOME=$scratch/cache
mkdir -p "$scratch/cache/https/www.schemastore.org/api/json" "$scratch/home"
echo '{"schemas":[]}' > "$scratch/cache/https/www.schemastore.org/api/json/catalog.json"
export VT_SCRATCH=$scratch HOME_REAL=$HOME VERIF_DIR=$here
if ! (cd harness && cargo build --offline -q -p "$pkg" 2> "$scratch/build.log"); then
  cat "$scratch/build.log" >&2
  echo "$id: the harness does not build against /repo" >&2
  exit 2
fi
if [ "$id" = C27 ]; then
  if ! CARGO_TARGET_DIR=$here/target-cli cargo build --offline -q --manifest-path /repo/Cargo.toml -p tombi-cli 2> "$scratch/build.log"; then
    cat "$scratch/build.log" >&2
    echo "$id: tombi-cli does not build" >&2
    exit 2
  fi
  export VT_CLI=$here/target-cli/debug/tombi
fi
"$here/target/debug/$bin" "$id" "$@"
rc=$?
exit $rc
