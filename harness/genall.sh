#!/bin/bash
# regenerates h/all.go: every exported function of package h without
# parameters is a harness
cd "$(dirname "$0")/h"
{
echo "package h"
echo
echo "// All lists every harness for the native runner."
echo "var All = map[string]func(){"
grep -hoE '^func [A-Z][A-Za-z0-9]*\(\) *\{' *.go | sed -E 's/^func ([A-Za-z0-9]*)\(.*/\1/' | sort | sed 's/.*/\t"&": &,/'
echo "}"
} > all.go
gofmt -w all.go
