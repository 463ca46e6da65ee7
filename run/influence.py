"""C19: calls do not influence each other. The same calls, in different orders, at different times, in
different processes and at the same time, with what their results have in common judged by
spec/Sessions.tla."""
import copy, hashlib, json, time
import families as F
import lib
from gen import NOW, PEM, RSA

BUGS = ["one buffer", "first key", "clock read once", "remembered by object", "failure sticks",
        "counts calls", "query as given", "headers as given"]


def kept_keys(g):
    """Keys that the calls of a session have in common: some differ in the account or the key only."""
    r = g.r
    a, b = g.account(), g.account()
    x, y = r.sample(RSA[:2], 2) if len(RSA) > 1 else (RSA[0], RSA[0])
    specs = [(a, x), (a, y), (b, x)]
    if r.random() < .3:
        specs.append((b, r.choice(RSA)))
    return [{"name": f"k{i}", "key": {"t": "sa", "email": e, "pem": PEM[n]},
             "info": {"account": e, "pub": n, "can": True}} for i, (e, n) in enumerate(specs)]


def key_of(op):
    """The place of the key of a call, in the call."""
    if op["op"] == "url":
        return op
    for s in op["set"]:
        if s[0] == "signing":
            return s[1]
    return None


def mixed_up(r, ps, same):
    """The pairs in another order, those of one name (as same tells) in the order they were in."""
    groups = {}
    for p in ps:
        groups.setdefault(same(p[0]), []).append(p)
    order = [same(p[0]) for p in ps]
    r.shuffle(order)
    return [groups[n].pop(0) for n in order]


def respelt(r, hs):
    return [[r.choice([n, n.upper(), n.lower(), n.swapcase()]), v] for n, v in hs]


def lower(n):
    return "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in n)


def reordered(r, op):
    o = copy.deepcopy(op)
    if o["op"] == "url":
        o["query"] = mixed_up(r, o["query"], lambda n: n)
        o["headers"] = respelt(r, mixed_up(r, o["headers"], lower))
    return o


def variants(g, op, keys):
    """Calls that differ from the given one in one thing."""
    r = g.r
    out = []

    def v(**kw):
        o = copy.deepcopy(op)
        o.update(kw)
        out.append(o)

    if op["op"] == "url":
        v(bucket=g.carried())
        v(object=g.carried())
        v(object=op["object"] + "/")
        v(region=r.choice(["x" + (op["region"] or ""), g.region()]))
        v(method=r.choice(["DELETE", "GET", "HEAD", "POST", "PUT"]))
        v(expires=[op["expires"][0] + 1, op["expires"][1]])
        v(query=op["query"] + [["a", g.text()]])
        v(headers=op["headers"] + [["x-a", "1"]])
        if op["query"]:
            n = r.choice(op["query"])[0]
            v(query=op["query"] + [[n, "2"], [n, "1"]])
            v(query=[[a, b + "z"] for a, b in op["query"]])
        if len(op["headers"]) > 0:
            n = r.choice(op["headers"])[0]
            v(headers=op["headers"] + [[n.upper(), "2"], [n.lower(), "1"]])
            v(headers=[[a, b + "z"] for a, b in op["headers"]])
        if op["at"] is not None:
            v(at=[op["at"][0] + 1, op["at"][1]], expires=[op["expires"][0] + 1, op["expires"][1]])
    else:
        v(set=op["set"] + [["key", g.text()]])
        v(set=op["set"] + [["meta", g.plain(), g.text()]])
        v(set=op["set"] + [["acl", g.text()]])
        s = key_of(op)
        if s:
            for change in ({"region": g.region()}, {"expires": [s["expires"][0] + 1, 0]}):
                o = copy.deepcopy(op)
                key_of(o).update(change)
                out.append(o)
    s = key_of(op)
    if s and keys:
        o = copy.deepcopy(op)
        key_of(o)["key"] = {"t": s["key"]["t"], "k": r.choice(keys)["name"]}
        out.append(o)
    return r.sample(out, min(len(out), 4))


def failing(g, op):
    o = copy.deepcopy(op)
    r = g.r
    if o["op"] == "url":
        f, v = r.choice(F_INVALID)
        o[f] = copy.deepcopy(v)
    elif key_of(o):
        k = r.randrange(2)
        if k:
            o["set"] = [s for s in o["set"] if s[0] != "bucket"]
        else:
            key_of(o).update(at=list(NOW), expires=list(NOW))
    return o


F_INVALID = [("method", "get"), ("method", "PATCH"), ("object", "a/../b"), ("bucket", ".."),
             ("headers", [["a b", "x"]]), ("headers", [["a", "\n"]]), ("expires", [NOW[0] - 10**9, 0])]


def many(g):
    """Lists long enough for an unstable order to show."""
    r = g.r
    c = g.url()
    k = r.choice([3, 5, 8])
    n = r.choice([22, 30, 60])
    c["op"]["query"] = [[f"p{r.randrange(k)}", str(i)] for i in range(n)]
    c["op"]["headers"] = [[f"x-h{r.randrange(k)}", str(i)] for i in range(r.choice([0, n]))]
    return c["op"]


def session(g, i, keys, t, fixed):
    """Some calls, and the orders in which they are made. With fixed, the clock stands still."""
    r = g.r
    calls = []
    base = []
    for _ in range(r.choice([2, 3, 4])):
        k = r.random()
        op = g.any_url()["op"] if k < .55 else many(g) if k < .65 else g.any_form(r.random() < .9)["op"]
        if r.random() < .4 and op["op"] == "url":
            # (what the signing time falls back to)
            op["at"] = None
            op["expires"] = [NOW[0] + r.choice([3, 3600, 86400]), 0]
            op["now"] = list(NOW)
        s = key_of(op)
        if s:
            s["key"] = {"t": t, "k": r.choice(keys)["name"]}
            s["blob"] = t == "bound"
            s.pop("info", None)
        if fixed:
            op["now"] = list(NOW)
            if s and s["at"] is None:
                s["expires"] = [NOW[0] + 3600, 0]
        base.append(op)
    for op in base:
        calls += [op, reordered(r, op)]
        calls += variants(g, op, keys)
        if r.random() < .7:
            calls.append(failing(g, op))
        if r.random() < .2 and op["op"] == "url" and t == "kept":
            calls.append(dict(copy.deepcopy(op), blob=True))
        if not fixed and r.random() < .7:
            o = copy.deepcopy(op)
            s = key_of(o)
            if s:
                s["at"] = None
                s["expires"] = [NOW[0] + 3600, 0]
            o["now"] = [NOW[0] + r.choice([0, 1, 60]), r.choice([0, 1, 999999999])]
            calls += [o, dict(copy.deepcopy(o), now=list(NOW))]
    seq = [j for j in range(len(calls)) for _ in range(r.choice([1, 1, 2]))]
    r.shuffle(seq)
    return {"calls": calls, "seq": seq, "keys": keys, "i": i}


def ops_of(s, seq):
    return [dict(s["calls"][j], id=n) for n, j in enumerate(seq)]


def hash_of(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True).encode()).hexdigest()[:16]


def record(s, runs):
    """runs: [(which call, result)]"""
    by_name = {k["name"]: k for k in s["keys"]}
    calls = []
    for op in s["calls"]:
        o = copy.deepcopy(op)
        k = key_of(o)
        kid = "none"
        info = {"account": "", "pub": "", "can": True}
        if k:
            e = by_name[k["key"]["k"]]
            kid = e["kid"] if "kid" in e else hash_of(e["key"])
            info = e.get("info", info)
            k["info"] = info
        c = lib.project(o, {"kind": "none"}, op["now"], info)
        del c["res"]
        c["kid"] = kid
        calls.append(c)
    rets = []
    for j, res in runs:
        rets.append({"call": j + 1, "kind": res["kind"], "url": lib.by(res.get("url", "")),
                     "fields": lib.pairs(res.get("fields", []))})
    return {"op": "session", "calls": calls, "rets": rets}


def runs_of(events, seq):
    return [(seq[e["id"]], {k: v for k, v in e["res"].items() if k != "shown"}) for e in events if e["e"] == "ret"]


def distinct(rec):
    """The same, without what says the same twice."""
    seen, out = set(), []
    for x in rec["rets"]:
        k = json.dumps(x)
        if k not in seen:
            seen.add(k)
            out.append(x)
    return dict(rec, rets=out)


def base_session(s, kind, sid, seq, auto=None):
    kept = [{"name": k["name"], "key": k["key"]} for k in s["keys"] if "key" in k]
    x = {"s": kind, "sid": sid, "now": list(NOW), "kept": kept, "keys": [], "ops": ops_of(s, seq)}
    if auto:
        x["auto"] = auto
        x["keys"] = [{n: v for n, v in k.items() if n in ("name", "clone", "share", "host")}
                     for k in s["keys"] if "key" not in k]
    if kind == "conc":
        x["threads"] = s["threads"]
    return x


def go(ctx, name, ss, kinds):
    """Each session: forwards in one process, backwards in another, with all others in between;
    and, as kinds tells, at the same time."""
    if ctx.found:
        return []
    t = time.time()
    results = {s["i"]: [] for s in ss}
    n = {}
    for kind in kinds:
        back = kind == "back"
        part, seqs = [], {}
        for s in ss:
            seq = s["seq"][::-1] if back else list(s["seq"])
            if kind == "conc":
                seq = seq * s.get("times", 2)
            sid = f"{kind}{s['i']}"
            seqs[sid] = (s, seq)
            part.append(base_session(s, "conc" if kind == "conc" else "calls", sid, seq, s.get("auto")))
        if back:
            part.reverse()
        got = lib.drive(ctx.driver, part, ctx.work)
        for sid, (s, seq) in seqs.items():
            ev = got[sid]
            rs = runs_of(ev, seq)
            results[s["i"]] += rs
            if ev[:1] != [{"e": "skipped"}] and len(rs) < len(seq):
                # It did not get to the end: a result like no other.
                missing = sorted(set(range(len(s["calls"]))) - {j for j, _ in rs})
                results[s["i"]] += [(j, {"kind": "crash"}) for j in missing]
            n[kind] = n.get(kind, 0) + len(rs)
    recs = [distinct(record(s, results[s["i"]])) for s in ss]
    t1 = time.time()
    rejected, st = lib.judge(ctx.prop, recs, ctx.work, chunk=400)
    kinds_of = {}
    for s in ss:
        for _, r in results[s["i"]]:
            kinds_of[r["kind"]] = kinds_of.get(r["kind"], 0) + 1
    ctx.coverage["conformance"][name] = {
        "sessions": len(ss), "calls made": n, "results": kinds_of, "rejected": len(rejected),
        "drive_s": round(t1 - t, 1), "judge_s": round(time.time() - t1, 1)}
    ctx.coverage["states"] += st["distinct"]
    ctx.coverage["transitions"] += st["generated"]
    ctx.coverage["traces_validated_against_impl"] += len(ss) * len(kinds)
    out = []
    for k in rejected:
        per = {}
        for x in recs[k]["rets"]:
            per.setdefault(x["call"], []).append([x["kind"], bytes(x["url"]).decode("utf-8", "replace")[:600]])
        odd = {c: v for c, v in per.items() if len(v) > 1}
        out.append({"kind": "influence", "family": name, "case": {"session": ss[k], "kinds": kinds},
                    "show": {"family": name, "differ": dict(list(odd.items())[:2]) or "calls that are the same"}})
    return ctx.seen(out)


def again(ctx, r):
    return go(ctx, "replay", [r["case"]["session"]], r["case"]["kinds"])


def bound_keys(g):
    ks = [{"name": "b"}, {"name": "b2", "clone": "b"}, {"name": "c"}, {"name": "d", "share": "c"}]
    return [dict(k, kid="bound") for k in ks[:g.r.choice([1, 2, 3, 4])]]


def bound_session(g, i, fixed):
    keys = bound_keys(g)
    s = session(g, i, keys, "bound", fixed)
    for op in s["calls"]:
        # (a clock that goes on at most: what it says decides about fresh tokens)
        if not fixed:
            op["now"] = list(NOW)
    s["auto"], (_, info) = F.bound(g)
    s["auto"]["expires_in"] = g.r.choice([0, 3600, 31])
    for k in keys:
        k["info"] = info
    return s


def check(ctx):
    g = ctx.gen
    n = 4 if ctx.deep else 3
    ctx.model("MCSessions", {"N": n, "Bug": '""'}, ["Kept"], timeout=2400)
    for bug in BUGS:
        ctx.mutant("MCSessions", {"N": 3, "Bug": f'"{bug}"'}, "Kept")
    bad = go(ctx, "orders", [session(g, i, kept_keys(g), "kept", False) for i in range(ctx.n(220, 3000))],
             ["calls", "back"])
    ss = [session(g, i, kept_keys(g), "kept", True) for i in range(ctx.n(120, 2000))]
    for s in ss:
        s["threads"] = g.r.choice([2, 4, 8, 16])
        s["times"] = g.r.choice([1, 2, 4])
    bad += go(ctx, "threads", ss, ["calls", "conc"])
    bad += go(ctx, "bound, orders", [bound_session(g, i, False) for i in range(ctx.n(50, 900))],
              ["calls", "back"])
    ss = [bound_session(g, i, True) for i in range(ctx.n(40, 900))]
    for s in ss:
        s["threads"] = g.r.choice([1, 2, 4, 8])
        s["times"] = 1
    bad += go(ctx, "bound, threads", ss, ["calls", "conc"])
    return bad
