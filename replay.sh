#!/bin/bash
# usage: replay.sh FILE   re-runs a counterexample file on the compiled code
here="$(cd "$(dirname "$0")" && pwd)"
source /opt/vp/env.sh
mkdir -p "$here/bin"
(cd "$here/symgo" && go build -o "$here/bin/symgo" .) || exit 2
exec "$here/bin/symgo" replay -verif "$here" -repo /repo "$1"
