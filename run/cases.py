"""Running cases (single calls) against the driver and turning them into records."""
import base64, json
import lib
from gen import NOW, PEM, QRESERVED


def op_of(call):
    """A call that a TLA+ model explored, as an operation for the driver."""
    t = lambda b: bytes(b).decode("utf-8")
    inst = lambda i: [i["d"] * 86400 + i["s"], i["n"]]
    opt_i = lambda o: inst(o["t"]) if o["some"] else None
    opt_v = lambda o: t(o["v"]) if o["some"] else None

    def key(k):
        info = {"account": t(k["account"]), "pub": k["pub"], "can": k["can"]}
        if k["t"] == "sa":
            return {"t": "sa", "email": info["account"], "pem": PEM[k["pub"]]}, info, None
        if k["t"] == "hmac":
            return {"t": "hmac", "id": "GOOG1E", "secret": "hmac-secret-value"}, info, None
        return {"t": "bound", "k": "b"}, info, {"email": info["account"], "token": "tok-1",
                                              "expires_in": 3600, "pem": PEM[k["pub"]]}

    now = inst(call["now"])
    if "sets" in call:
        sets, bound = [], None
        for s in call["sets"]:
            if s["f"] == "meta":
                sets.append(["meta", t(s["n"]), t(s["v"])])
            elif s["f"] == "signing":
                o = s["o"]
                k, info, b = key(o["key"])
                bound = bound or b
                sets.append(["signing", {"key": k, "info": info, "at": opt_i(o["at"]),
                                         "expires": inst(o["expires"]),
                                         "region": opt_v(o["region"]), "blob": o["blob"]}])
            else:
                sets.append([s["f"], t(s["v"])])
        return {"op": {"op": "form", "set": sets, "now": now}, "now": now, "info": None,
                "bound": bound}
    k, info, bound = key(call["key"])
    return {"op": {"op": "url", "key": k, "bucket": t(call["bucket"]), "object": t(call["object"]),
                   "region": opt_v(call["region"]), "expires": inst(call["expires"]),
                   "at": opt_i(call["at"]), "method": t(call["method"]), "blob": call["blob"],
                   "headers": [[t(a), t(b)] for a, b in call["headers"]],
                   "query": [[t(a), t(b)] for a, b in call["query"]], "now": now},
            "now": now, "info": info, "bound": bound}


def out_of_scope(case):
    """What the properties leave open (see DESIGN.md)."""
    op = case["op"]
    if op["op"] != "url" or isinstance(op["headers"], dict) or isinstance(op["query"], dict):
        return False
    return (any(h[0].lower() in ("host", "x-goog-content-sha256") for h in op["headers"])
            or any(q[0].lower() in QRESERVED for q in op["query"]))


def sessions(cases, per=16):
    """Groups cases into driver sessions; the id of an operation is the index of its case."""
    groups = {}
    for i, c in enumerate(cases):
        groups.setdefault(json.dumps(c.get("bound"), sort_keys=True), []).append(i)
    out = []
    for b, idx in groups.items():
        bound = json.loads(b)
        for k in range(0, len(idx), per):
            ops = []
            for i in idx[k:k + per]:
                op = dict(cases[i]["op"])
                op["id"] = i
                ops.append(op)
            s = {"s": "calls", "sid": f"s{idx[k]}", "now": NOW, "keys": [], "ops": ops}
            if bound:
                s["keys"] = [{"name": "b"}]
                s["auto"] = bound
            out.append(s)
    return out


ENDPOINT = {"email": "/email", "token": "/token", "sign": ":signBlob"}


def endpoint(target):
    for n, e in ENDPOINT.items():
        if target.endswith(e):
            return n
    return "other"


def run(driver, cases, work, per=16):
    """Makes the calls; returns [(result, requests)] in the order of the cases (None for calls that
    were not made because others had ended the process too often)."""
    res = lib.drive(driver, sessions(cases, per), work)
    out = [None] * len(cases)
    again = []
    for s in sessions(cases, per):
        if res[s["sid"]][:1] == [{"e": "skipped"}]:
            continue
        reqs = []
        for e in res[s["sid"]]:
            if e["e"] == "ret":
                out[e["id"]] = (dict(e["res"], reads=e["reads"], printed=e["printed"]), reqs)
                reqs = []
            elif e["e"] == "req":
                reqs.append(e)
            elif e["e"] == "crash" and len(s["ops"]) == 1:
                out[s["ops"][0]["id"]] = ({"kind": "crash", "msg": f"{e['code']} {e['msg']}"}, reqs)
        again += [o["id"] for o in s["ops"] if out[o["id"]] is None]
    if again:
        # Their session died: each on its own shows which one it was.
        if per == 1:
            raise lib.ToolError(f"no result for cases {again[:3]}")
        for i, r in zip(again, run(driver, [cases[i] for i in again], work, 1)):
            out[i] = r
    return out


def record(case, result):
    res, reqs = result
    r = lib.project(case["op"], res, case["now"], case["info"])
    r["tamper"] = bool(case.get("tamper"))
    r["requests"] = [{"scheme": q["scheme"], "host": q["host"], "ep": endpoint(q["target"])}
                     for q in reqs]
    step = case["op"].get("step")
    if step:
        # Any one of the readings of the clock is the time of the call.
        at = lambda i: [case["now"][0] + (case["now"][1] + i * step) // 10**9,
                        (case["now"][1] + i * step) % 10**9]
        r["nows"] = [lib.instant(at(i)) for i in range(max(1, min(res.get("reads", 1), 12)))]
    return r
