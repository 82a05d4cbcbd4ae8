#!/bin/bash
# check.sh ID: builds from /repo's working tree, decides property ID. Exit 0 held, 1 violation.
id=$1
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR="$here" VERIF_REPO="${VERIF_REPO:-/repo}" TZ=UTC LC_ALL=C.UTF-8
work=$(mktemp -d /var/tmp/verif.XXXXXX) || exit 2
base=/dev/shm; [ -w $base ] || base=/var/tmp
data=$(mktemp -d $base/verif.XXXXXX) || exit 2
chmod 755 "$work" "$data"
trap 'rm -rf "$work" "$data"' EXIT
trap 'exit 2' INT TERM HUP
targets="mc"
case $id in C01|C02|C03|C04|C06|C09) ;; C21) targets="mc app race" ;; C25) targets="mc app real" ;; C26) targets="mc maps" ;; *) targets="mc app" ;; esac
if ! bash "$here/tools/build.sh" "$work" $targets > "$work/build.log" 2>&1; then
  cat "$work/build.log" >&2; echo "build failed" >&2; exit 2
fi
VERIF_APP="$work/app" VERIF_APPRACE="$work/apprace" VERIF_APPREAL="$work/appreal" VERIF_APPMAPS="$work/appmaps" VERIF_SCRATCH="$data" "$work/mc" "$id"
rc=$?
exit $rc
