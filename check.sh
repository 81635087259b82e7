#!/bin/bash
# check.sh PROPERTY: verifies the contracts of a property against the current source of /repo
cd "$(dirname "$0")" || exit 1
export DV_ROOT="$PWD"
if [ ! -x .build/dv ] || [ -n "$(find dv -name '*.go' -newer .build/dv -print -quit)" ]; then
	bash ./build.sh || exit 1
fi
exec ./.build/dv check "$1"
