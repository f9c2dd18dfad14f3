#!/bin/bash
# builds the symbolic executor and warms the build cache
here="$(cd "$(dirname "$0")" && pwd)"
source /opt/vp/env.sh
mkdir -p "$here/bin"
(cd "$here/symgo" && go build -o "$here/bin/symgo" .) && (cd "$here/harness" && go build ./h/... ./sym/...)
