#!/bin/bash
# bash check.sh <property-id> [quick|thorough] [--replay FILE]   (run in /verif)
. /opt/vp/env.sh
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
SCRATCH=$(mktemp -d /tmp/mc.XXXXXX)
trap 'rm -rf "$SCRATCH"' EXIT
mkdir -p "$SCRATCH/home/.pfa"
export HOME="$SCRATCH/home" MC_SCRATCH="$SCRATCH" MC_HERE="$HERE"
# never read (possibly stale) byte code of /repo: compile it from source on every run
export PYTHONPYCACHEPREFIX="$SCRATCH/pyc"
export PYTHONPATH="${MC_REPO:-/repo}:$HERE"
cd "$SCRATCH"
/opt/venv/bin/python -W ignore -m mc.run "$@" < /dev/null
exit $?
