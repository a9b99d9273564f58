#!/bin/bash
# check.sh <property id> [quick|thorough] [replay FILE]
#
# Builds the harness against /repo's current working tree and decides one
# property. Exit 0: held on everything explored; exit 1 with a VIOLATION line:
# broken; anything else: the check could not decide.
set -u
ID="$1"
TIER="${2:-${VERIF_TIER:-quick}}"
SEED="${VERIF_SEED:-1}"
HERE="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
export PATH="$PATH:/usr/local/go/bin"
export HOME="${HOME:-/root}"

SCRATCH="$(mktemp -d /tmp/vh.XXXXXXXX)" || exit 2
trap 'rm -rf -- "$SCRATCH"' EXIT
export TMPDIR="$SCRATCH/tmp"
mkdir -p "$TMPDIR" "$SCRATCH/gotmp"
export GOTMPDIR="$SCRATCH/gotmp"

cp "$HERE/harness/go.mod" "$HERE/harness/go.sum" "$SCRATCH/" || exit 2

RACE=""
case " $(cat "$HERE/harness/race.list" 2>/dev/null | tr '\n' ' ') " in *" $ID "*) RACE="-race" ;; esac

tag="$(echo "$ID" | tr 'A-Z' 'a-z')"
if ! (cd "$HERE/harness" && go build -modfile="$SCRATCH/go.mod" $RACE -tags "$tag" -o "$SCRATCH/harness" .) >"$SCRATCH/build.log" 2>&1; then
  cat "$SCRATCH/build.log" >&2
  echo "check error: the harness does not build against /repo" >&2
  exit 2
fi

# the end-to-end checks drive the program itself
case " $(cat "$HERE/harness/e2e.list" 2>/dev/null | tr '\n' ' ') " in *" $ID "*)
  cp /repo/go.mod "$SCRATCH/repo.mod" && cp /repo/go.sum "$SCRATCH/repo.sum" || exit 2
  if ! (cd /repo && go build -modfile="$SCRATCH/repo.mod" -o "$SCRATCH/gocryptsftp" .) >"$SCRATCH/build.log" 2>&1; then
    cat "$SCRATCH/build.log" >&2
    echo "check error: /repo does not build" >&2
    exit 2
  fi
  export VH_BIN="$SCRATCH/gocryptsftp" ;;
esac

if [ "${3:-}" = replay ]; then
  "$SCRATCH/harness" replay "$4"
  exit $?
fi
"$SCRATCH/harness" run -prop "$ID" -tier "$TIER" -seed "$SEED" \
  -evidence "$HERE/evidence/$ID.json" -replays "$HERE/replays" -known "$HERE/known-findings.txt"
