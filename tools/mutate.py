"""mutate.py LANES PER_FILE [FILE-SUBSTRING ...]: single-token mutants of /repo in scratch copies under /tmp/mut*.
Those that compile and pass the test suite are given to the checks of the file; those that no check reports are
listed in /tmp/mut.log as MISSED, to be read by hand (equivalent, or a gap of the checks). A development aid; no check uses it."""
import sys, os, re, subprocess, shutil, json, random
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
MAP = {
 "secret-integers/src/lib.rs": "C01 C02 C03 C05 C06 C07",
 "abstract-integers/src/abstract_int.rs": "C12 C13", "abstract-integers/src/nat_mod.rs": "C13",
 "hacspec/src/machine_integers.rs": "C06 C02 C01 C03 C07", "hacspec/src/traits.rs": "C05 C07 C08 C02 C03 C06 C09", "hacspec/src/math_util.rs": "C07 C06",
 "hacspec/src/transmute.rs": "C05", "hacspec/src/array.rs": "C09 C05 C10 C11", "hacspec/src/seq.rs": "C08 C10 C05 C11", "hacspec/src/vec_integers.rs": "C11",
 "hacspec/src/poly.rs": "C14 C15", "hacspec/src/util.rs": "C10 C05 C08 C09 C11",
 "spec-examples/src/sha2/sha2.rs": "C16", "spec-examples/src/hmac/hmac.rs": "C17", "spec-examples/src/hkdf/hkdf.rs": "C18", "spec-examples/src/fips202/fips202.rs": "C19",
 "spec-examples/src/blake2/blake2b.rs": "C20", "spec-examples/src/aes_gcm/aes.rs": "C21", "spec-examples/src/aes_gcm/aesgcm.rs": "C22 C28", "spec-examples/src/aes_gcm/gf128.rs": "C22",
 "spec-examples/src/chacha20_poly1305/chacha20.rs": "C23", "spec-examples/src/chacha20_poly1305/poly1305.rs": "C24", "spec-examples/src/chacha20_poly1305/chacha20poly1305.rs": "C25 C28",
 "spec-examples/src/curve25519/curve25519.rs": "C26", "spec-examples/src/p256/p256.rs": "C27", "hacspec-dev/src/test_vectors.rs": "C30",
}
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_PROFILE_DEV_DEBUG="0", RUSTC_WRAPPER="", RUST_TEST_THREADS="2", CARGO_INCREMENTAL="1", RUSTFLAGS="-Awarnings", CARGO_BUILD_JOBS="2")
OPS = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" % ", " / "), (r" << ", " >> "), (r" >> ", " << "), (r" & ", " | "), (r" \| ", " & "), (r" \^ ", " | "),
 (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
 (r"wrapping_add", "wrapping_sub"), (r"wrapping_sub", "wrapping_add"), (r"_be_", "_le_"), (r"_le_", "_be_"), (r"min\(", "max("), (r"\bless_than\b", "less_than_or_equal"), (r"greater_than\b", "greater_than_or_qual"),
 (r"rotate_left", "rotate_right"), (r"rotate_right", "rotate_left"), (r" \+= ", " -= "), (r" -= ", " += "), (r" \^= ", " |= "), (r" \|= ", " ^= "), (r"if ", "if !("), (r"\bself\b", "rhs"), (r"\brhs\b", "self"), (r"ONE", "ZERO"), (r"ZERO", "ONE"), (r"\.iter\(\)", ".iter().rev()"), (r"unsigned", "signed"),
 (r"_num_", ""), (r"_del_", "")]
def sites(path, text):
    out = []
    off = 0
    intest = False
    for line in text.splitlines(keepends=True):
        s = line.strip()
        if not (s.startswith("//") or s.startswith("#") or s.startswith("use ") or "unimplemented" in s or "panic!" in s or s.startswith("pub fn") or s.startswith("fn ") or s.startswith("impl") or "///" in s):
            for a, b in OPS:
                if a == "_num_":
                    for m in re.finditer(r"(?<![\w.$])(\d+)(?![\w.])", line):
                        n = int(m[1])
                        for k in ({n + 1, n - 1} - {-1}):
                            out.append((off + m.start(), off + m.end(), str(k)))
                elif a == "_del_":
                    if s.endswith(";") and not s.startswith("let ") and not s.startswith("return") and "=" in s or s.startswith("debug_assert") or s.startswith("assert"):
                        out.append((off, off + len(line), "\n"))
                elif a == "if ":
                    m = re.match(r"^(\s*(?:} else )?if )([^{]*?)( \{\s*)$", line)
                    if m and "let " not in m[2]:
                        out.append((off, off + len(line), f"{m[1]}!({m[2]}){m[3]}"))
                else:
                    for m in re.finditer(a, line):
                        out.append((off + m.start(), off + m.end(), b))
        off += len(line)
    return out
def sh(cmd, **k):
    try:
        p = subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True, **{x: k[x] for x in k if x != "timeout"})
        o, _ = p.communicate(timeout=k.get("timeout"))
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return 124, ""
def lane(args):
    k, jobs = args
    w, h = f"/tmp/mut{k}/repo", f"/tmp/mut{k}/mc"
    shutil.rmtree(f"/tmp/mut{k}", ignore_errors=True)
    os.makedirs(f"/tmp/mut{k}/v/evidence"); os.makedirs(f"/tmp/mut{k}/v/replays")
    sh(f"git clone -q /repo {w}; cp /repo/Cargo.lock {w}/ 2>/dev/null; mkdir {h}; cp -r /verif/mc/src /verif/mc/Cargo.toml /verif/mc/Cargo.lock {h}/; sed -i 's|/repo|{w}|' {h}/Cargo.toml; sed -i 's|panic = \"unwind\"|panic = \"unwind\"|' {h}/Cargo.toml")
    aff = f"taskset -c {2*k},{2*k+1} "
    log = open("/tmp/mut.log", "a", buffering=1)
    for (f, (a, b, new)) in jobs:
        sh("git checkout -q -- .", cwd=w)
        p = f"{w}/{f}"
        t = open(p).read()
        ln = t.count("\n", 0, a) + 1
        old = t.splitlines()[ln - 1].strip()
        t2 = t[:a] + new + t[b:]
        open(p, "w").write(t2)
        name = f"{f}:{ln} `{old}` => `{t2.splitlines()[ln - 1].strip()}`"
        crate = f.split("/")[0]
        r, o = sh(aff + "cargo test --workspace --offline -q", cwd=w, env=ENV, timeout=100)
        if r:
            log.write(("BUILD " if "could not compile" in o else "TESTS ") + name + "\n")
            continue
        verdict = "MISSED"
        for c in MAP[f].split():
            r, o = sh(aff + f"cargo build --offline -q --manifest-path {h}/Cargo.toml --bin {c.lower()}", env=dict(ENV, CARGO_INCREMENTAL="0", CARGO_TARGET_DIR=f"/tmp/mut{k}/t"))
            if r:
                verdict = f"NOBUILD {c}"
                break
            r, o = sh(aff + f"/tmp/mut{k}/t/debug/{c.lower()}", env=dict(ENV, VERIF_DIR=f"/tmp/mut{k}/v", VERIF_TIER="quick"), cwd=f"/tmp/mut{k}/v", timeout=900)
            if r == 1:
                verdict = f"CAUGHT {c}"
                break
            if r:
                verdict = f"ERROR {c} {r}"
                break
        log.write(verdict + " " + name + "\n")
    shutil.rmtree(f"/tmp/mut{k}", ignore_errors=True)
lanes, per = int(sys.argv[1]), int(sys.argv[2])
random.seed(int(os.environ.get("MUT_SEED", "1")))
jobs = []
for f in MAP:
    if len(sys.argv) > 3 and not any(x in f for x in sys.argv[3:]):
        continue
    s = sites(f, open(f"/tmp/clean/{f}").read())
    random.shuffle(s)
    jobs += [(f, x) for x in s[:per]]
random.shuffle(jobs)
print(len(jobs), "mutants", flush=True)
with ThreadPoolExecutor(lanes) as ex:
    list(ex.map(lane, [(k, jobs[k::lanes]) for k in range(lanes)]))
