#!/bin/bash
# run.sh <property> [--thorough]: decides one property from /repo's sources.
cd "$(dirname "$0")"
. checker/env.sh
if [ ! -x bin/kfcheck ] || [ -n "$(find checker -name '*.go' -newer bin/kfcheck -print -quit)" ]; then
	./setup.sh || exit 2
fi
exec bin/kfcheck "$@"
