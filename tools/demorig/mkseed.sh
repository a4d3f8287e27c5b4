#!/bin/bash
# mkseed.sh ID: (re)packs the demo rig into /verif/seeded/ID (which holds demo.rs, patch.diff, meta.json).
set -eu
here="$(cd "$(dirname "$0")" && pwd)"; d="$here/../../seeded/$1"; mkdir -p "$d"
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
mkdir -p "$w/demo/src" "$w/mango"; cp "$here"/demo/Cargo.* "$w/demo/"; cp "$here/demo/src/lib.rs" "$w/demo/src/"; cp "$here/mango/Cargo.toml" "$w/mango/"; cp -r "$here/../../stubs" "$w/stubs"
tar --sort=name --mtime=@0 --owner=0 --group=0 -C "$w" -c demo mango stubs | gzip -n > "$d/rig.tgz"
cp "$here/demo.sh.in" "$d/demo.sh"; chmod +x "$d/demo.sh"
