#!/bin/bash
# bash check.sh PROPERTY quick|thorough
cd "$(dirname "$0")"
if [ ! -x bin/engine ] || [ -n "$(find engine -newer bin/engine -name '*.go' | head -1)" ]; then
  bash build.sh || exit 2
fi
exec bin/engine check -prop "$1" -tier "${2:-quick}"
