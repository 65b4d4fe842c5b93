#!/bin/bash
# mkbug.sh <id> <property> "<needs>" "<what it breaks>"  with the edited scratch copy in /tmp/mb and demo main.rs on stdin
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /tmp/mb diff > $d/patch.diff
cat > $d/demo.rs
python3 - "$@" > $d/meta.json <<'P'
import sys, json
_, i, p, n, w = sys.argv
json.dump({"property": p, "needs": n, "what_it_breaks": w}, sys.stdout, indent=1)
P
cat > $d/demo.sh <<D
#!/bin/bash
# builds a small program against the crate in the current directory and runs it
here=\$(cd "\$(dirname "\$0")" && pwd); repo=\$PWD
d=/tmp/z80demo-$1
rm -rf /tmp/z80demo-$1
mkdir -p \$d/src && cp "\$here/demo.rs" \$d/src/main.rs
cat > \$d/Cargo.toml <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
z80emu = { path = "\$repo", default-features = false ${DEMO_FEAT:+, features = [$DEMO_FEAT]} }
${DEMO_DEPS}
[workspace]
T
(cd \$d && CARGO_NET_OFFLINE=true cargo run -q --offline)
rc=\$?
rm -rf /tmp/z80demo-$1
exit \$rc
D
git -C /tmp/mb checkout -q -- .
