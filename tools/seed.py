#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a definition file and confirms it in a scratch copy of /repo:
   seed.py FILE.py [id...]
A definition file defines SEEDS = {id: dict(property, needs, what, edits=[(file, old, new)],
demo=rust integration test source | None, extra={file: text}, sh=demo.sh text | None)}.
Not used by any check."""
import json, os, re, runpy, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SH = r'''#!/bin/bash
# Exit 0: the behaviour is right; otherwise it is not.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH=/usr/local/bin:/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER=
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
cp -a "$repo/src" "$repo/Cargo.toml" "$repo/Cargo.lock" "$repo/README.md" "$t/"
mkdir "$t/tests"
cp "$here/demo.rs" "$t/tests/demo.rs"
cd "$t" || exit 1
# dependencies built for the repository are used again
export CARGO_TARGET_DIR="$repo/target"
timeout 250 cargo test --offline --test demo -- --test-threads 1
'''


def sh(cmd, cwd, timeout=900, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True,
                          timeout=timeout, errors="replace", **kw)


def make(sid, d):
    out = os.path.join(VERIF, "seeded", sid)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    t = tempfile.mkdtemp(prefix="seed-")
    try:
        w = os.path.join(t, "repo")
        sh(f"git worktree prune; git clone -q {REPO} {w}", t)
        for f, old, new in d["edits"]:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                raise SystemExit(f"{sid}: {s.count(old)} matches in {f}: {old!r}")
            open(p, "w").write(s.replace(old, new))
        r = sh("git diff", w)
        open(os.path.join(out, "patch.diff"), "w").write(r.stdout)
    finally:
        shutil.rmtree(t, ignore_errors=True)
    if d.get("demo"):
        open(os.path.join(out, "demo.rs"), "w").write(d["demo"])
    for n, text in d.get("extra", {}).items():
        os.makedirs(os.path.dirname(os.path.join(out, n)), exist_ok=True)
        open(os.path.join(out, n), "wb").write(text if isinstance(text, bytes) else text.encode())
    open(os.path.join(out, "demo.sh"), "w").write(d.get("sh") or SH)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["what"]},
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    return out


def confirm(sid, copy):
    """In a scratch copy of /repo (target included): builds, tests pass, demo 0 / nonzero."""
    out = os.path.join(VERIF, "seeded", sid)
    env = "export HOME=/root PATH=/usr/local/bin:/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true " \
          "RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_INCREMENTAL=1 " \
          "CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER=; "
    fp = "rm -rf target/debug/.fingerprint/cloud-storage-signature-*; "
    res = {}
    for state in ("clean", "patched"):
        sh("git checkout -q -- .", copy)
        if state == "patched":
            r = sh(f"git apply {out}/patch.diff", copy)
            if r.returncode:
                return f"patch does not apply: {r.stderr}"
            r = sh(env + fp + "cargo test --workspace --no-fail-fast --offline -- --test-threads 8", copy)
            ok = len(re.findall(r"test result: ok", r.stdout))
            failed = re.findall(r"^test (\S+) .*FAILED", r.stdout, re.M)
            if "error: could not compile" in r.stderr or failed:
                return f"tests: {failed} {r.stderr[-1500:]}"
        r = sh(env + f"bash {out}/demo.sh", copy, 400)
        res[state] = r.returncode
        res[state + "_out"] = (r.stdout + r.stderr)[-1200:]
    sh("git checkout -q -- .", copy)
    if res["clean"] != 0:
        return "demo fails on the clean tree:\n" + res["clean_out"]
    if res["patched"] == 0:
        return "demo passes on the patched tree:\n" + res["patched_out"]
    if "error: could not compile" in res["patched_out"] or "error[E" in res["patched_out"]:
        return "demo does not compile:\n" + res["patched_out"]
    return "ok"


def main():
    defs = runpy.run_path(sys.argv[1])["SEEDS"]
    ids = sys.argv[2:] or list(defs)
    t = tempfile.mkdtemp(prefix="seedcopy-")
    copy = os.path.join(t, "repo")
    subprocess.run(["cp", "-a", REPO, copy], check=True)
    try:
        for i in ids:
            make(i, defs[i])
            print(i, confirm(i, copy), flush=True)
    finally:
        shutil.rmtree(t, ignore_errors=True)


if __name__ == "__main__":
    main()
