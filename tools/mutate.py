#!/usr/bin/env python3
"""Systematic small changes of /repo's code, in scratch copies: those that build and pass the existing
tests are shown to the checks until one objects. mutate.py OUT [-j N] [-s K/M] [file...]
Writes a line per surviving change: caught by which check, or MISSED. Not used by any check."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, queue
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
ENV = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
URL = "C01 C20 C02 C03 C04 C05 C06 C17 C18 C19".split()
FORM = "C08 C10 C07 C09 C06 C17 C18 C19".split()
TOKEN = "C15 C11 C13 C14 C12 C17 C18".split()
KEY = "C16 C09 C01 C17 C18 C14 C15 C12 C20".split()
BOTH = "C10 C05 C06 C01 C08 C20 C17 C09 C02 C03 C04 C07".split()


def order(f):
    return (TOKEN if "bound_token" in f else FORM if "html_form" in f or "policy" in f else
            KEY if "signing_key" in f else URL if "signed_url" in f or "canonical" in f or "verb" in f else BOTH)


def mutants(f):
    t = open(os.path.join(REPO, f)).read()
    head = re.split(r"#\[cfg\(test\)\]\s*mod tests", t)[0]
    lines = t.split("\n")
    out = []

    def add(i, new, what):
        if new != lines[i]:
            out.append((f, i, new, what))
    cut = head.count("\n")
    for i, l in enumerate(lines[:cut]):
        s = l.strip()
        if not s or s.startswith(("//", "#", "use ", "mod ", "pub mod", "pub use", "}")):
            continue
        for m in re.finditer(r'(?<!b)"((?:[^"\\]|\\.)*)"', l):
            if ".expect(" in l[:m.start()][-9:]:
                continue
            b = m.group(1)
            for n in {b + "x", b[:-1] if b and not b.endswith(("}", "\\n")) else b, b.swapcase() if "{" not in b and not re.match("metadata|application|host$", b, re.I) else b}:
                add(i, l[:m.start()] + '"' + n + '"' + l[m.end():], f"{b!r} -> {n!r}")
        for m in re.finditer(r"(?<![\w.\"'{:])(\d[\d_]*)(?![\w\"'])", l):
            if l[:m.start()].count('"') % 2:
                continue
            v = int(m.group(1).replace("_", ""))
            for n in (v + 1, v - 1):
                if n >= 0:
                    add(i, l[:m.start()] + str(n) + l[m.end():], f"{v} -> {n}")
        for a, bs in [(" < ", [" <= ", " > "]), (" <= ", [" < "]), (" > ", [" >= ", " < "]), (" >= ", [" > "]),
                      (" == ", [" != "]), (" != ", [" == "]), (" && ", [" || "]), (" || ", [" && "]), (" + ", [" - "]),
                      (" - ", [" + "]), ("true", ["false"]), ("false", ["true"]), ("(!", ["("]), (" !", [" "]), ("..=", [".."]),
                      ("Some(", ["None.or(" ]), (" * ", [" / "]), (" / ", [" * "]), ("GET", ["POST"]),
                      (".all(", [".any("]), (".any(", [".all("]), ("Error>", [])]:
            for k in [m.start() for m in re.finditer(re.escape(a), l)]:
                for b in bs:
                    add(i, l[:k] + b + l[k + len(a):], f"{a.strip()} -> {b.strip()}")
        for m in re.finditer(r"\.(to_ascii_lowercase|trim|trim_matches|rev|sort|sort_unstable|sort_by|dedup|to_ascii_uppercase|"
                             r"chain|or_insert_with|unwrap_or_default|filter|skip|take)\(", l):
            d, k = 0, m.end() - 1
            while k < len(l):
                d += l[k] == "("
                d -= l[k] == ")"
                k += 1
                if d == 0:
                    break
            if d == 0:
                add(i, l[:m.start()] + l[k:], "without " + m.group(1))
        if s.endswith(";") and not s.startswith(("let ", "return", "type ", "const ", "static ", "break", "continue", "pub ")) \
                and s.count("(") == s.count(")") and s.count("{") == s.count("}"):
            add(i, "", "deleted")
        m = re.match(r"^(\s*)((?:\} else )?if )((?!let )[^{]*)\{$", l)
        if m:
            add(i, f"{m[1]}{m[2]}false && ({m[3].strip()}) {{", "if false")
            add(i, f"{m[1]}{m[2]}true || ({m[3].strip()}) {{", "if true")
        m = re.match(r"^(\s*)\.\w+\(.*\)(\??)$", l)
        if m:
            add(i, m[1] + m[2], "link deleted")
        for m in re.finditer(r"[a-z_]+: None\b", l):
            pass
    return out


def run(cmd, cwd, timeout):
    try:
        return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout, errors="replace").returncode
    except subprocess.TimeoutExpired:
        return 124


def worker(n, todo, emit):
    t = tempfile.mkdtemp(prefix=f"mutate{n}-")
    try:
        repo, ver = t + "/repo", t + "/verif"
        shutil.copytree(REPO, repo, symlinks=True)
        shutil.copytree(VERIF, ver, symlinks=True)
        p = ver + "/harness/Cargo.toml"
        s = open(p).read().replace('"/repo"', f'"{repo}"')
        open(p, "w").write(s)
        while True:
            try:
                f, i, new, what = todo.get_nowait()
            except queue.Empty:
                return
            path = os.path.join(repo, f)
            old = open(path).read()
            ls = old.split("\n")
            was = ls[i]
            ls[i] = new
            open(path, "w").write("\n".join(ls))
            try:
                if run(["cargo", "build", "--offline"], repo, 300):
                    emit("nobuild")
                    continue
                if run(["cargo", "test", "--workspace", "--offline", "--no-fail-fast", "--", "--test-threads", "8"], repo, 200):
                    emit("tested")
                    continue
                res = []
                for q in order(f):
                    e = dict(ENV, CSS_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick")
                    r = subprocess.run(["timeout", "900", "python3", ver + "/run/check.py", q], capture_output=True, text=True,
                                       env=e, cwd=ver, errors="replace")
                    if r.returncode == 1:
                        res = [q]
                        break
                    if r.returncode:
                        res.append(f"{q}:rc{r.returncode} {(r.stderr + r.stdout)[-300:]!r}")
                emit("caught" if len(res) == 1 and len(res[0]) == 3 else "MISSED",
                     f"{f}:{i + 1} [{what}] {was.strip()}  =>  {new.strip()}  :: {' '.join(res)}")
            finally:
                open(path, "w").write(old)
    finally:
        shutil.rmtree(t, ignore_errors=True)


def main():
    a = sys.argv[1:]
    out = a.pop(0)
    jobs, part = 3, (0, 1)
    while a and a[0].startswith("-"):
        o, v = a[0], a[1]
        a = a[2:]
        if o == "-j":
            jobs = int(v)
        if o == "-s":
            part = tuple(int(x) for x in v.split("/"))
    files = a or [f for f in subprocess.run("git ls-files src", shell=True, cwd=REPO, capture_output=True,
                                            text=True).stdout.split() if f.endswith(".rs")]
    # file.rs:LINE begins there
    ms = []
    for f in files:
        f, _, first = f.partition(":")
        for m in mutants(f):
            if m not in ms and m[1] + 1 >= int(first or 0) and m[2] not in [x[2] for x in ms if x[:2] == m[:2]]:
                ms.append(m)
    ms = ms[part[0]::part[1]]
    print(len(ms), "changes", flush=True)
    todo = queue.Queue()
    for m in ms:
        todo.put(m)
    lock = threading.Lock()
    n = {}

    def emit(kind, text=""):
        with lock:
            n[kind] = n.get(kind, 0) + 1
            with open(out, "a") as f:
                if text:
                    f.write(f"{kind} {text}\n")
                f.write("") if sum(n.values()) % 20 else f.write(f"# {json.dumps(n)}\n")
    ts = [threading.Thread(target=worker, args=(k, todo, emit)) for k in range(jobs)]
    for x in ts:
        x.start()
    for x in ts:
        x.join()
    with open(out, "a") as f:
        f.write(f"# end {json.dumps(n)}\n")


main()
