#!/bin/bash
# usage: newseed.sh ID PROPERTY "needs" "what it breaks" <main.rs ; the patch is the current diff of /tmp/seedrepo
set -e
root="$(cd "$(dirname "$0")/.." && pwd)"
d="$root/seeded/$1"; mkdir -p "$d/demo/src"
cat > "$d/demo/src/main.rs"
cp "$root"/tools/demo/src/*.rs "$d/demo/src/" ; cp "$root"/tools/demo/Cargo.{toml,lock} "$d/demo/"; cp "$root/tools/demo/demo.sh" "$d/demo.sh"; chmod +x "$d/demo.sh"
git -C /tmp/seedrepo diff > "$d/patch.diff"
python3 - "$@" "$d" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[5]+"/meta.json","w"),indent=1)
P
