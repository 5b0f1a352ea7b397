#!/bin/bash
# Compiles demo.rs against the sources of /repo's working tree.
. /opt/vp/env.sh 2>/dev/null
dir=$(mktemp -d)
trap 'rm -rf "$dir"' EXIT
cp "$(dirname "$0")/demo.rs" "$dir/demo.rs"
rustc --edition 2021 -A warnings -o "$dir/demo" "$dir/demo.rs" || exit 2
exec_out=$("$dir/demo" 2>&1)
rc=$?
echo "$exec_out" | tail -5
exit $rc
