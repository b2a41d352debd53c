#!/bin/bash
# check.sh ID [vengine options]: decides one property against /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
id=$1; shift
"$here/build.sh" || { echo "engine build failed" >&2; exit 2; }
exec "$here/.build/vengine" -verif "$here" -property "$id" "$@"
