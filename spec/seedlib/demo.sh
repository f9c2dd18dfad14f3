#!/bin/bash
# Builds the demonstration beside this script into the module in the current
# directory (through an overlay) and runs it in a scratch directory.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d) || exit 3
trap 'rm -rf "${S:?}"' EXIT
python3 - "$D" "$PWD" "$S/overlay.json" <<'P' || exit 3
import glob, json, os, sys
d, repo, out = sys.argv[1:]
rep = {}
for f in sorted(glob.glob(d + '/demo/*.go')):
    rep[os.path.join(repo, 'zzdemo', os.path.basename(f))] = f
for f in sorted(glob.glob(d + '/inpkg/*/*_test.go')):
    rep[os.path.join(repo, os.path.basename(os.path.dirname(f)), os.path.basename(f))] = f
json.dump({'Replace': rep}, open(out, 'w'))
P
mkdir "$S/work"
export REPO=$PWD
if [ -d "$D/demo" ]; then
	go build -overlay "$S/overlay.json" -o "$S/demo" ./zzdemo || exit 3
	(cd "$S/work" && timeout 250 "$S/demo") || exit 1
fi
for p in "$D"/inpkg/*/; do
	[ -d "$p" ] || continue
	p=$(basename "$p")
	go test -vet=off -c -overlay "$S/overlay.json" -o "$S/test" "./$p" || exit 3
	(cd "$S/work" && timeout 280 "$S/test" -test.run '^TestZZ') || exit 1
done
exit 0
