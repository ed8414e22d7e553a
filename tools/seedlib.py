"""Seed definitions -> /verif/seeded/<id>/{patch.diff,demo.sh,meta.json}. Run: python3 tools/gen_seeds.py [id...]"""
import difflib, json, os, subprocess, sys, shutil, tempfile
ROOT = "/verif/seeded"
ENV = '''#!/usr/bin/env bash
# exit 0: the behaviour is right; nonzero: it is broken. Run with the repository as the working directory.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never CARGO_TARGET_DIR=$repo/target
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/cache/https/www.schemastore.org/api/json" "$tmp/work"
echo '{"schemas":[]}' > "$tmp/cache/https/www.schemastore.org/api/json/catalog.json"
export TOMBI_CACHE_HOME=$tmp/cache
'''
CLI = ENV + '''cargo build --offline -q -p tombi-cli || exit 3
tombi=$repo/target/debug/tombi
cd "$tmp/work" || exit 3
'''
def crate(deps, main):
    """a small program built against the repository's crates; main() panics when the behaviour is broken"""
    d = "\n".join(x.replace("@", "$repo/crates/") for x in deps)
    return ENV + f'''mkdir -p "$tmp/demo/src"
cat > "$tmp/demo/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
{d}
TOML
cat > "$tmp/demo/src/main.rs" <<'RUST'
{main.strip()}
RUST
cp "$repo/Cargo.lock" "$tmp/demo/Cargo.lock"
cargo build --offline -q --manifest-path "$tmp/demo/Cargo.toml" || exit 3
cd "$tmp/work" || exit 3
"$repo/target/debug/demo" || exit 1
'''
SEEDS = {}
def seed(id, property, needs, breaks, edits, demo, files=None):
    SEEDS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, files=files or {})
def build(id):
    s = SEEDS[id]
    d = f"{ROOT}/{id}"
    os.makedirs(d, exist_ok=True)
    wt = tempfile.mkdtemp(prefix="seedwt")
    try:
        a, b = wt + "/a", wt + "/b"
        for f in dict.fromkeys(e[0] for e in s["edits"]):
            text = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], check=True, capture_output=True, text=True).stdout
            for r in (a, b):
                os.makedirs(os.path.dirname(f"{r}/{f}"), exist_ok=True)
                open(f"{r}/{f}", "w").write(text)
        for f, old, new in s["edits"]:
            t = open(f"{b}/{f}").read()
            base = subprocess.run(["git", "-C", "/repo", "show", "6f9be14:" + f], check=True, capture_output=True, text=True).stdout
            gone = [l for l in difflib.ndiff(old.splitlines(), new.splitlines()) if l.startswith("- ")]
            for l in gone:
                assert not l[2:].strip() or l[2:].strip() in base, f"{id}: {f}: not original: {l}"
            assert t.count(old) == 1, f"{id}: {f}: {t.count(old)} occurrences of {old!r}"
            open(f"{b}/{f}", "w").write(t.replace(old, new))
        p = subprocess.run(["diff", "-ruN", "a", "b"], cwd=wt, capture_output=True, text=True).stdout
        out = []
        for l in p.splitlines(True):
            if l.startswith("diff -ruN"): continue
            if l.startswith(("--- ", "+++ ")): l = l.split("\t")[0] + "\n"
            out.append(l)
        open(d + "/patch.diff", "w").write("".join(out))
    finally:
        shutil.rmtree(wt)
    open(d + "/demo.sh", "w").write(s["demo"])
    os.chmod(d + "/demo.sh", 0o755)
    for n, t in s["files"].items():
        open(f"{d}/{n}", "w").write(t)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
