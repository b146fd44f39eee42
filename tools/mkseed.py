#!/usr/bin/env python3
"""development helper: mkseed.py ID PROPERTY SPEC  (SPEC: python file defining EDITS=[(file,old,new)], DEMO=rust main.rs, NEEDS, BREAKS, optional FEATURES, PY)"""
import json, os, shutil, subprocess, sys
sid, prop, spec = sys.argv[1:4]
g = {}
exec(open(spec).read(), g)
d = '/verif/seeded/' + sid
os.makedirs(d, exist_ok=True)
w = '/tmp/mkseed'
shutil.rmtree(w, ignore_errors=True)
subprocess.check_call(['git', 'clone', '-q', '/repo', w])
for f, o, n in g['EDITS']:
    p = os.path.join(w, f)
    s = open(p).read()
    assert o in s, 'not found: ' + o
    open(p, 'w').write(s.replace(o, n, g.get('COUNT', 1)))
open(d + '/patch.diff', 'w').write(subprocess.run(['git', 'diff'], cwd=w, stdout=subprocess.PIPE, universal_newlines=True).stdout)
shutil.rmtree(w)
py = 'PY' in g
HEAD = '''#!/bin/bash
# run with cwd = the repository; everything written stays in a scratch directory removed at the end
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never PYTHON_SYS_EXECUTABLE=/usr/bin/python3
export PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH"
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
'''
if py:
    sh = HEAD + '''cargo build -q -p granne-py --offline --target-dir "$W/target" || exit 2
mkdir "$W/mod" "$W/scratch"
cp "$W"/target/debug/lib*.so "$W/mod/granne.so"
cd "$W/scratch" && PYTHONPATH="$W/mod" timeout 120 /usr/bin/python3 "$HERE/demo.py"
'''
    open(d + '/demo.py', 'w').write(g['PY'])
else:
    sh = HEAD + '''mkdir "$W/src" "$W/scratch"
cp "$HERE/demo.rs" "$W/src/main.rs"
cp "$REPO/Cargo.lock" "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
granne = { path = "$REPO", features = [%s] }
[dependencies.parking_lot]
version = "0.10"
[dependencies.rayon]
version = "1"
[profile.dev]
opt-level = 1
debug = false
%s
[workspace]
EOF
cd "$W/scratch" && cargo build -q --offline --manifest-path "$W/Cargo.toml" --target-dir "$W/target" 2>"$W/log" || { cat "$W/log"; exit 2; }
%s timeout 120 "$W/target/debug/demo"
''' % (g.get('FEATURES', '"rw_granne"'), 'debug-assertions = false\noverflow-checks = true', g.get('RUNENV', ''))
    open(d + '/demo.rs', 'w').write(g['DEMO'])
open(d + '/demo.sh', 'w').write(sh)
json.dump({'property': prop, 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
