"""Plumbing shared by all checks: building the driver from /repo, running it, turning what it
recorded into records for the TLA+ specifications, and running TLC. Nothing here decides whether a
property holds; that is done in spec/*.tla."""
import base64, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CSS_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TLA = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4


class ToolError(Exception):
    """The check itself could not be carried out: exit 2, never a violation."""


def env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
             CARGO_TARGET_DIR=os.path.join(BUILD, "target"))
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + e.get("PATH", "")
    e.setdefault("HOME", "/root")
    return e


def build():
    """Builds the driver against REPO's working tree, and the crypto override for TLC."""
    os.makedirs(BUILD, exist_ok=True)
    cls = os.path.join(BUILD, "java", "CryptoOverrides.class")
    src = os.path.join(SPEC, "java", "CryptoOverrides.java")
    if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
        os.makedirs(os.path.dirname(cls), exist_ok=True)
        r = subprocess.run(["javac", "-cp", TLA, "-d", os.path.dirname(cls), src],
                           capture_output=True, text=True)
        if r.returncode:
            raise ToolError("javac: " + r.stderr[-2000:])
    # cargo sees changes by mtime only: forget what was built from the crate under test.
    fp = os.path.join(BUILD, "target", "debug", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith(("cloud-storage-signature-", "css-driver-")):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    r = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=HARNESS, env=env(),
                       capture_output=True, text=True)
    if r.returncode:
        raise ToolError("cargo build of the driver failed:\n" + r.stderr[-4000:])
    return os.path.join(BUILD, "target", "debug", "driver")


class Work:
    """A scratch directory, removed at the end."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="css-verif-")

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# ---------------------------------------------------------------- driver

def drive(driver, sessions, work, procs=None, timeout=3600):
    """Runs the sessions (dicts with unique sid); returns {sid: events}."""
    procs = procs or CORES
    shards = [sessions[i::procs] for i in range(procs)]
    shards = [s for s in shards if s]

    def one(k):
        d = tempfile.mkdtemp(prefix="drv", dir=work.dir)
        inp, out, scratch = (os.path.join(d, n) for n in ("in", "out", "scratch"))
        os.mkdir(scratch)
        todo = list(shards[k])
        got = {}
        crashes = 0
        while todo:
            with open(inp, "w") as f:
                for s in todo:
                    f.write(json.dumps(s) + "\n")
            code, err = watch([driver, inp, out, scratch], out, timeout)
            begun = None
            if os.path.exists(out):
                for line in open(out):
                    try:
                        o = json.loads(line)
                    except ValueError:
                        break
                    if "begin" in o:
                        begun = o["begin"]
                    else:
                        got[o["sid"]] = o["events"]
                        begun = None
            if code == 0:
                break
            if begun is None:
                raise ToolError(f"driver ended with {code}: {err[-2000:]}")
            # The process died inside one session (abort, stack overflow, endless loop): that is
            # an observation about the code under test.
            crashes += 1
            got[begun] = [{"e": "crash", "code": str(code), "msg": err[-500:]}]
            ids = [s["sid"] for s in todo]
            todo = todo[ids.index(begun) + 1:]
            if crashes > 2:
                # Enough has been seen.
                for s in todo:
                    got[s["sid"]] = [{"e": "skipped"}]
                break
        shutil.rmtree(d, ignore_errors=True)
        return got

    res = {}
    with ThreadPoolExecutor(len(shards) or 1) as ex:
        for g in ex.map(one, range(len(shards))):
            res.update(g)
    missing = [s["sid"] for s in sessions if s["sid"] not in res]
    if missing:
        raise ToolError(f"driver lost sessions {missing[:3]}")
    return res


def watch(cmd, out, timeout, stall=45):
    """Runs the driver; ends it when it makes no progress. Returns (code, what it printed)."""
    with tempfile.TemporaryFile("a+", errors="replace") as errf:
        p = subprocess.Popen(cmd, stdout=errf, stderr=errf)
        t0 = moved = time.time()
        size = -1
        while True:
            try:
                code = p.wait(timeout=.02 if time.time() - t0 < 1 else .2)
                break
            except subprocess.TimeoutExpired:
                now = time.time()
                cur = os.path.getsize(out) if os.path.exists(out) else -1
                if cur != size:
                    size, moved = cur, now
                if now - moved > stall or now - t0 > timeout:
                    p.kill()
                    p.wait()
                    if now - moved <= stall:
                        raise ToolError(f"the driver took more than {timeout} s")
                    code = "stuck"
                    break
        errf.seek(0)
        return code, errf.read()


# ---------------------------------------------------------------- TLC

def tlc(module, cfg=None, environ=None, args=(), workers=None, heap="6g", timeout=840, work=None):
    """Runs TLC; returns (returncode, output, stats)."""
    e = dict(os.environ)
    e.update(environ or {})
    meta = tempfile.mkdtemp(prefix="tlc", dir=work.dir if work else None)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss256m", f"-Xmx{heap}",
           f"-Dkeys={os.path.join(HARNESS, 'keys')}",
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:CryptoOverrides",
           "-cp", f"{TLA}:{CM}:{os.path.join(BUILD, 'java')}", "tlc2.TLC",
           "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers or CORES),
           "-config", cfg or f"{module}.cfg", *args, f"{module}.tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC on {module} exceeded {timeout} s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout
    st = {"generated": 0, "distinct": 0, "depth": 0}
    m = re.findall(r"([\d,]+) states generated,? \(?.*?([\d,]+) distinct states found", out)
    if m:
        st["generated"], st["distinct"] = (int(x.replace(",", "")) for x in m[-1])
    m = re.search(r"depth of the complete state graph search is (\d+)", out)
    if m:
        st["depth"] = int(m.group(1))
    return r.returncode, out + r.stderr, st


# ---------------------------------------------------------------- projection

def by(s):
    """Text as octets."""
    return list(s.encode("utf-8", "surrogatepass")) if isinstance(s, str) else list(s)


def instant(t):
    # TLC's integers have 32 bits: days far outside any range are all alike.
    sec, n = t
    return {"d": max(-10**9, min(10**9, sec // 86400)), "s": sec % 86400, "n": n}


def opt_instant(t):
    return {"some": False} if t is None else {"some": True, "t": instant(t)}


def opt_text(s):
    return {"some": False} if s is None else {"some": True, "v": by(s)}


def pairs(ps):
    if isinstance(ps, dict):
        ps = [[f"{ps['k']}{i}", ps["v"]] for i in range(ps["repeat"])]
    return [[by(k), by(v)] for k, v in ps]


def no_dup(ps):
    d = {}
    for k, v in ps:
        if k in d:
            raise ValueError("duplicate member " + k)
        d[k] = v
    return d


def strict_json(text):
    def bad(x):
        raise ValueError(x)
    return json.loads(text, object_pairs_hook=no_dup, parse_constant=bad)


def decode_policy(text):
    """The policy entry of a form, decoded: base64, UTF-8, JSON, conditions."""
    p = {"some": True, "json": False, "top": [], "conds": [], "expiration": []}
    try:
        raw = base64.b64decode(text.encode(), validate=True)
        if base64.b64encode(raw).decode() != text:
            return p
        o = strict_json(raw.decode("utf-8"))
        if not isinstance(o, dict):
            return p
    except ValueError:
        return p
    p["json"] = True
    p["top"] = sorted(o)
    if isinstance(o.get("expiration"), str):
        p["expiration"] = by(o["expiration"])
    cs = o.get("conditions")
    for c in cs if isinstance(cs, list) else [None]:
        if isinstance(c, dict) and len(c) == 1 and all(isinstance(v, str) for v in c.values()):
            # {"field": "value"} is the short form of ["eq", "$field", "value"].
            (f, v), = c.items()
            p["conds"].append({"t": "eq", "f": by("$" + f), "v": by(v)})
        elif (isinstance(c, list) and len(c) == 3 and c[0] == "eq"
              and isinstance(c[1], str) and isinstance(c[2], str)):
            p["conds"].append({"t": "eq", "f": by(c[1]), "v": by(c[2])})
        elif (isinstance(c, list) and len(c) == 3 and c[0] == "content-length-range"
              and all(type(x) is int for x in c[1:])):
            p["conds"].append({"t": "range", "lo": by(str(c[1])), "hi": by(str(c[2]))})
        else:
            p["conds"].append({"t": "bad"})
    return p


def res_url(res):
    return {"kind": res["kind"], "url": by(res.get("url", ""))}


def res_form(res):
    fields = res.get("fields", [])
    pol = [v for n, v in fields if n == "policy"]
    return {"kind": res["kind"], "fields": pairs(fields),
            "policy": decode_policy(pol[0]) if pol else {"some": False}}


def key_info(key, info):
    """info: what the generator knows about the key: account, pub, can."""
    return {"t": {"json": "sa", "path": "sa"}.get(key["t"], key["t"]),
            "account": by(info["account"]), "pub": info["pub"], "can": info["can"]}


def project(op, res, now, info):
    """One call as a record of modules SignedUrl / Form."""
    if op["op"] == "url":
        return {"op": "url", "now": instant(now), "at": opt_instant(op["at"]),
                "expires": instant(op["expires"]), "method": by(op["method"]),
                "bucket": by(op["bucket"]), "object": by(op["object"]),
                "region": opt_text(op["region"]), "headers": pairs(op["headers"]),
                "query": pairs(op["query"]), "blob": op["blob"],
                "key": key_info(op["key"], info), "res": res_url(res)}
    sets = []
    for s in op["set"]:
        if s[0] == "meta":
            sets.append({"f": "meta", "n": by(s[1]), "v": by(s[2])})
        elif s[0] == "signing":
            o = s[1]
            sets.append({"f": "signing", "o": {
                "at": opt_instant(o["at"]), "expires": instant(o["expires"]),
                "region": opt_text(o["region"]), "blob": o["blob"],
                "key": key_info(o["key"], o.get("info", info))}})
        else:
            sets.append({"f": s[0], "v": by(str(s[1]))})
    return {"op": "form", "now": instant(now), "sets": sets, "res": res_form(res)}


def write_ndjson(path, recs):
    with open(path, "w") as f:
        for r in recs:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")


def judge(prop, recs, work, module="Judge", chunk=4000, timeout=840):
    """Runs the judge specification over the records; returns (rejected indices, stats)."""
    rejected, gen, dist = [], 0, 0
    for base in range(0, len(recs), chunk):
        part = recs[base:base + chunk]
        path = work.path("trace.ndjson")
        write_ndjson(path, part)
        rc, out, st = tlc(module, environ={"TRACE": path, "PROP": prop}, work=work, timeout=timeout)
        if rc != 0 or "Model checking completed. No error" not in out:
            raise ToolError(f"TLC ({module}, {prop}) ended with {rc}:\n" + out[-3000:])
        if st["distinct"] != 2 * len(part):
            raise ToolError(f"TLC judged {st['distinct']} states for {len(part)} records")
        gen += st["generated"]
        dist += st["distinct"]
        rejected += [base + int(x) - 1 for x in re.findall(r'<<"REJECTED", (\d+)>>', out)]
    return sorted(set(rejected)), {"generated": gen, "distinct": dist}
