#!/bin/bash
# Builds checker and instrumented application once, so that the checks find a warm build cache.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /var/tmp/verif.XXXXXX) || exit 1
trap 'rm -rf "$w"' EXIT
bash "$here/tools/build.sh" "$w" mc app race
