#!/bin/bash
# build.sh OUT [mc] [app] [race]: builds the model checker and the instrumented application
# from /repo's working tree into OUT. Nothing in /repo is written.
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
repo=${VERIF_REPO:-/repo}
out=$1; shift
export PATH="/usr/local/bin:/usr/local/go/bin:$PATH" HOME="${HOME:-/root}"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build} GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod
mkdir -p "$out"
python3 "$here/tools/mkoverlay.py" "$(go env GOROOT)" "$GOMODCACHE" "$repo" "$out/gen"
for t in "$@"; do
  case $t in
  app)  (cd "$repo/1pass-app" && go build -overlay "$out/gen/overlay_app.json" -modfile "$out/gen/app.mod" -o "$out/app" .) ;;
  real) (cd "$repo/1pass-app" && go build -overlay "$out/gen/overlay.json" -modfile "$out/gen/real.mod" -o "$out/appreal" .) ;;
  maps) (cd "$repo/1pass-app" && go build -overlay "$out/gen/overlay_maps.json" -modfile "$out/gen/app.mod" -o "$out/appmaps" .) ;;
  race) (cd "$repo/1pass-app" && CGO_ENABLED=1 go build -race -overlay "$out/gen/overlay_app.json" -modfile "$out/gen/app.mod" -o "$out/apprace" .) ;;
  mc)   rm -rf "$out/mcsrc"; cp -r "$here/mc" "$out/mcsrc"
        sed -i "s#=> /repo/#=> $repo/#" "$out/mcsrc/go.mod"
        (cd "$out/mcsrc" && go build -overlay "$out/gen/overlay.json" -o "$out/mc" .) ;;
  esac
done
