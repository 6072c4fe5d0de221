"""Writes /verif/seeded/<id>/ from a description: replacements in files of /repo, a demo program, metadata."""
import os, subprocess, json, sys, textwrap
REPO = os.environ.get("SEED_REPO", "/repo")
OUT = "/verif/seeded"
DEMO = '''#!/bin/bash
# Exits 0 when the property holds, nonzero otherwise. Run with cwd at the repository, after its build.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
mkdir -p "$W/p/src"; cp "$D/demo.rs" "$W/p/src/main.rs"
cat > "$W/p/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
%s
[profile.dev]
debug = false
incremental = false
EOF
export RUSTUP_TOOLCHAIN=nightly-2026-02-15 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$W/t" DEMO_SCRATCH="$W/s"
mkdir -p "$W/s"
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$W/p/Cargo.lock" || cp /opt/vp/oaks/Cargo.lock "$W/p/Cargo.lock"
cd "$W/p" && cargo build -q --offline 2>"$W/log" || { tail -30 "$W/log"; exit 3; }
timeout 60 "$W/t/debug/demo"
'''

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def seed(id, prop, edits, demo, deps, needs, breaks):
    d = os.path.join(OUT, id)
    os.makedirs(d, exist_ok=True)
    assert sh("git -C %s status --porcelain --untracked-files=no" % REPO).stdout.strip() == "", "repo dirty"
    try:
        for f, old, new in edits:
            p = os.path.join(REPO, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = sh("git -C %s diff" % REPO).stdout
    finally:
        sh("git -C %s checkout -- ." % REPO)
    open(d + "/patch.diff", "w").write(diff)
    depl = []
    for x in deps:
        if " = " in x: depl.append(x)
        else: depl.append('%s = { path = "$R/%s" }' % (os.path.basename(x), x))
    open(d + "/demo.sh", "w").write(DEMO % "\n".join(depl))
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.rs", "w").write(textwrap.dedent(demo).lstrip("\n"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print("wrote", id)
