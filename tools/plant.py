"""plant.py [ID ...]: writes, checks and keeps planted bugs under /verif/seeded (see bugs.py).
plant.py --try ID ...: runs the check of each bug's property against /repo with the bug applied."""
import sys, os, subprocess, shutil, json, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs import B
SEED = "/verif/seeded"
BASE = "804162b"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="", RUST_TEST_THREADS="4")
PATHS = {"hacspec": ("hacspec", "hacspec"), "hacspec-examples": ("hacspec-examples", "spec-examples"), "secret_integers": ("secret_integers", "secret-integers"), "abstract_integers": ("abstract_integers", "abstract-integers"), "hacspec-dev": ("hacspec-dev", "hacspec-dev")}
OTHER = {"serde": 'serde = { version = "1.0", features = ["derive"] }', "serde_json": 'serde_json = "1.0"', "rand": 'rand = "0.7"', "num": 'num = "0.2"'}

def demo_sh(b):
    deps = ""
    for d in b["deps"]:
        deps += f'{PATHS[d][0]} = {{ path = "$repo/{PATHS[d][1]}" }}\n' if d in PATHS else OTHER[d] + "\n"
    return f"""#!/bin/bash
# cwd: the repository. Exit 0 if the property holds in this demonstration.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME="${{HOME:-/root}}" PATH="/usr/local/bin:/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS="-Awarnings"
work=$(mktemp -d "${{TMPDIR:-/tmp}}/demo.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/src" && cp "$here/demo.rs" "$work/src/main.rs" || exit 2
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
{deps}[workspace]
[profile.dev]
debug = 0
opt-level = {b.get('opt', 1)}
debug-assertions = {b.get('checks', 'true')}
overflow-checks = {b.get('checks', 'true')}
EOF
export CARGO_TARGET_DIR="$work/target"
cargo build --offline -q --manifest-path "$work/Cargo.toml" || exit 2
exec 3< /dev/null
"$work/target/debug/demo" <&3
"""

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def make(b, w):
    """apply in scratch copy w and write the folder"""
    sh("git checkout -q -- .", cwd=w)
    p = f"{w}/{b['file']}"
    s = open(p).read()
    for old, new in b["edits"]:
        if s.count(old) != 1:
            return f"{s.count(old)} matches of {old[:60]!r}"
        s = s.replace(old, new)
    open(p, "w").write(s)
    diff = subprocess.run("git diff", shell=True, cwd=w, stdout=subprocess.PIPE, text=True).stdout
    base = subprocess.run(f"git show {BASE}:{b['file']}", shell=True, cwd=w, stdout=subprocess.PIPE, text=True).stdout.splitlines()
    minus = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
    if not minus or any(l not in base for l in minus):
        return "changes lines that are not of the original: " + repr([l for l in minus if l not in base])
    d = f"{SEED}/{b['id']}"
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.rs", "w").write(b["demo"] + "\n")
    open(f"{d}/demo.sh", "w").write(demo_sh(b))
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
    stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable") or json.load(open("/opt/vp/BASELINE.json"))["passed"])
    r = sh("cargo test --workspace --no-fail-fast --offline > target/t.log 2>&1; python3 /opt/vp/results.py target/t.json cargo:target/t.log", cwd=w, env=ENV)
    try:
        ok = set(json.load(open(f"{w}/target/t.json"))["passed"])
    except Exception as e:
        return "no results " + str(e) + r.stdout
    if stable - ok:
        return "tests fail: " + ", ".join(sorted(stable - ok)[:5]) + sh("grep -aE -A5 '^error' target/t.log | head -30", cwd=w).stdout
    r = sh(f"bash {d}/demo.sh", cwd=w)
    if r.returncode != 101:
        return f"demo exits {r.returncode} with the patch: {r.stdout[-800:]}"
    note = [l for l in r.stdout.splitlines() if l.strip()][:2]
    sh("git checkout -q -- .", cwd=w)
    r = sh(f"bash {d}/demo.sh", cwd=w)
    if r.returncode != 0:
        return f"demo exits {r.returncode} without the patch: {r.stdout[-800:]}"
    return "ok"

def lane(args):
    k, bs = args
    w = f"/tmp/plant{k}"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    sh("git checkout -q -- .", cwd=w)
    for b in bs:
        r = make(b, w)
        if r != "ok":
            shutil.rmtree(f"{SEED}/{b['id']}", ignore_errors=True)
        print(b["id"], r, flush=True)
    shutil.rmtree(w, ignore_errors=True)

def attempt(b, checks):
    d = f"{SEED}/{b['id']}"
    out = []
    subprocess.run(["git", "-C", "/repo", "apply", f"{d}/patch.diff"], check=True)
    try:
        for c in checks or [b["prop"]]:
            r = sh(f"/verif/run.sh {c}")
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            out.append(f"{c}: exit {r.returncode} {v[0] if v else r.stdout[-300:]}")
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    return "; ".join(out)

a = sys.argv[1:]
if a and a[0] == "--try":
    checks = None
    if len(a) > 2 and a[1] == "--checks":
        checks = a[2].split(",")
        a = a[2:]
    for b in B:
        if (not a[1:] or b["id"] in a[1:]) and os.path.isdir(f"{SEED}/{b['id']}"):
            print(b["id"], attempt(b, checks), flush=True)
else:
    bs = [b for b in B if not a or b["id"] in a]
    n = min(4, len(bs))
    with ThreadPoolExecutor(n) as ex:
        list(ex.map(lane, [(k, bs[k::n]) for k in range(n)]))
