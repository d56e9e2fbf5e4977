#!/bin/bash
# Builds the harness against /repo's working tree and runs the check of one
# property: check.sh <property id>
set -u
id=$1
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here VERIF_PROP=$id VERIF_ROLE=driver
: "${VERIF_SEED:=1}" "${VERIF_TIER:=quick}"
export VERIF_SEED VERIF_TIER
export GOFLAGS=-mod=mod GOWORK=off GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local CGO_ENABLED=1
if [ -n "${VERIF_REPLAY:-}" ]; then VERIF_REPLAY=$(realpath "$VERIF_REPLAY"); export VERIF_REPLAY; fi
scratch=$(mktemp -d /tmp/verif-XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
race=
case $id in C16) race=-race ;; esac
cp -r "$here/harness" "$scratch/src" || exit 2
# most checks take RSA keys from a pool instead of generating one per node
keys=
case $id in C11|C12) ;; *)
  if sh "$here/tools/keypool.sh" "$scratch" && [ -z "${VERIF_NOKEYPOOL:-}" ]; then keys="-overlay $scratch/overlay.json"; fi ;;
esac
( cd "$scratch/src" && sed -i "s#=> /repo#=> ${VERIF_REPO:-/repo}#" go.mod &&
  { { [ -n "$keys" ] && go test -c -vet=off $race $keys -tags verif,verifkeys -o "$scratch/harness.test" . ; } ||
  go test -c -vet=off $race -tags verif -o "$scratch/harness.test" . ; } ) >"$scratch/build.log" 2>&1
if [ ! -x "$scratch/harness.test" ]; then
  cat "$scratch/build.log" >&2
  echo "ERROR: the harness does not build" >&2
  exit 2
fi
cd "$scratch" || exit 2
"$scratch/harness.test" -test.run='^$'
code=$?
exit $code
