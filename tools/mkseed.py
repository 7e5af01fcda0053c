#!/usr/bin/env python3
"""mkseed.py FILE.py... : each file defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new[, count])], KIND (oxide|instr), DEMO (rust main.rs)
Writes /verif/seeded/ID and confirms it in a scratch copy of /repo (/tmp/seedrepo)."""
import sys, os, subprocess, json, runpy, shutil
V = "/verif"
R = "/tmp/seedrepo"
NB = "nightly-2025-05-06"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN=NB, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="")


def run(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


DEMO_SH = {"oxide": '''#!/bin/bash
# exit 0: the property holds on the tree in the current directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 9
trap 'rm -rf "$d"' EXIT
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2025-05-06 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTFLAGS='--cfg vx_verif' CARGO_TARGET_DIR=$d/target
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
istanbul-oxide = { path = "$repo/packages/istanbul-oxide" }
indexmap = "2"
serde_json = "1"
T
cd "$d" && cargo build --offline -q 2>"$d/err" || { tail -30 "$d/err"; exit 8; }
"$d/target/debug/demo"
'''}
DEMO_SH["instr"] = DEMO_SH["oxide"].replace('indexmap = "2"', '''swc-coverage-instrument = { path = "$repo/packages/swc-coverage-instrument" }
swc_core = { version = "=31.1.0", features = ["common","ecma_ast","ecma_parser","ecma_codegen","ecma_visit","ecma_utils","ecma_transforms","__ecma","ecma_parser_typescript","ecma_transforms_typescript"] }
indexmap = "2"''')


def main(f):
    s = runpy.run_path(f)
    d = os.path.join(V, "seeded", s["ID"])
    if not os.path.isdir(R):
        print(run("cp -a /repo %s" % R).stdout)
    run("git -C %s fetch -q /repo && git -C %s reset -q --hard FETCH_HEAD" % (R, R))
    for e in s["EDITS"]:
        p = os.path.join(R, e[0])
        t = open(p).read()
        n = e[3] if len(e) > 3 else 1
        assert t.count(e[1]) >= 1, (s["ID"], "old text missing", e[1])
        if n == 1:
            assert t.count(e[1]) == 1, (s["ID"], "old text not unique", e[1])
            t = t.replace(e[1], e[2])
        else:  # n = ("nth", k)
            parts = t.split(e[1])
            k = n[1]
            t = e[1].join(parts[:k + 1]) + e[2] + e[1].join(parts[k + 1:])
        open(p, "w").write(t)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(run("git -C %s diff" % R).stdout)
    json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.sh", "w").write(s.get("DEMO_SH") or DEMO_SH[s["KIND"]])
    os.chmod(d + "/demo.sh", 0o755)
    if s.get("DEMO"):
        open(d + "/main.rs", "w").write(s["DEMO"])
    for n, t in s.get("FILES", {}).items():
        open(d + "/" + n, "w").write(t)
    demo = lambda repo: run("bash %s/demo.sh" % d, cwd=repo, env=dict(os.environ))
    a = demo("/repo")
    b = demo(R)
    t = run("cargo test --workspace --offline 2>&1 | grep -E '^test |test result|error|warning: unused' ", cwd=R, env=ENV)
    bad = [l for l in t.stdout.splitlines() if "FAILED" in l or l.startswith("error")]
    ok = a.returncode == 0 and b.returncode not in (0, 8, 9) and not bad and "test result" in t.stdout
    print(s["ID"], "CONFIRMED" if ok else "REJECTED", "clean", a.returncode, "patched", b.returncode, "tests", bad[:3])
    if not ok:
        print(a.stdout[-800:], b.stdout[-800:])
    run("git -C %s reset -q --hard FETCH_HEAD" % R)


for f in sys.argv[1:]:
    main(f)
