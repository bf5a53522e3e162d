#!/bin/bash
# bash replay.sh FILE: run a recorded counterexample against the real code in /repo.
cd "$(dirname "$0")"
[ -x bin/engine ] || bash build.sh || exit 2
exec bin/engine replay "$1"
