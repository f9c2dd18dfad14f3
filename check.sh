#!/bin/bash
# usage: check.sh PROPERTY   decides one property on the tree in /repo
here="$(cd "$(dirname "$0")" && pwd)"
source /opt/vp/env.sh
mkdir -p "$here/bin"
(cd "$here/symgo" && go build -o "$here/bin/symgo" .) || exit 2
exec "$here/bin/symgo" check -verif "$here" -repo /repo -prop "$1"
