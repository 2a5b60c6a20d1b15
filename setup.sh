#!/bin/bash
# Warms the Go build cache and typechecks the specification; every check rebuilds what it needs.
cd "$(dirname "$0")" || exit 1
d=$(mktemp -d /tmp/verif-setup-XXXXXX)
(cd harness && . ./env.sh && go build -o "$d/vh" .) || { rm -rf "$d"; exit 1; }
for f in spec/*.qnt; do quint typecheck "$f" >/dev/null || { echo "$f does not typecheck"; rm -rf "$d"; exit 1; }; done
rm -rf "$d"
