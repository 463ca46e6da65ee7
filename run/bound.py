"""Sessions with bound-token keys: generating them, and turning what was recorded into sessions of
module TraceToken."""
import base64, json, re, urllib.parse
import lib
from gen import NOW

EMAIL = "acct-%RID%@proj.iam.gserviceaccount.com"


# -------------------------------------------------------------- answers

def ok_token(life, **kw):
    o = {"access_token": "ya29.tok-%RID%-secret", "expires_in": life, "token_type": "Bearer"}
    o.update(kw)
    return o


def good(life=3600):
    return {"email": {"status": 200, "body": EMAIL},
            "token": {"status": 200, "body": json.dumps(ok_token(life))},
            "sign": {"status": 200, "body": json.dumps({"keyId": "k-%RID%", "signedBlob": "%SIG%"})}}


def anew(r, life):
    """A good answer of unusual shape."""
    a = good(life)
    k = r.random()
    if k < .5:
        return a
    a["email"]["body"] = r.choice([EMAIL, EMAIL, "Acct+%RID%@X.Example", "%RID%", "a b %RID%@x",
                                   "\u00fc%RID%@x", EMAIL + " ", " " + EMAIL, "\"%RID%\"",
                                   "{\"email\":%RID%}", "a:b;%RID%,=&@x", "default%RID%"])
    t = ok_token(life)
    items = list(t.items())
    r.shuffle(items)
    items = dict(items)
    for _ in range(r.choice([0, 0, 1, 2])):
        items[r.choice(["scope", "id_token", "expires", "Access_Token", "TOKEN_TYPE", "x"])] = \
            r.choice(["x", 1, None, [1, 2], {"access_token": "inner-%RID%"}, True, 1.5])
    a["token"]["body"] = r.choice([json.dumps(items), json.dumps(items, indent=2),
                                   " \n" + json.dumps(items) + "\n",
                                   json.dumps(items).replace("ya29", "\\u0079a29")])
    s = {"keyId": "k-%RID%", "signedBlob": "%SIG%"}
    if r.random() < .5:
        s = dict(reversed(list(s.items())), **{r.choice(["x", "signed_blob", "name"]): "zz"})
    a["sign"]["body"] = json.dumps(s)
    for ep in a:
        a[ep]["status"] = r.choice([200, 200, 200, 201, 202, 203, 206, 299])
        a[ep]["headers"] = r.choice([[], [["Content-Type", "application/json"]],
                                     [["Metadata-Flavor", "Google"], ["Server", "Metadata"]],
                                     [["Cache-Control", "no-store"]]])
    return a


BAD_STATUS = [300, 302, 304, 307, 400, 401, 403, 404, 409, 418, 429, 500, 502, 503, 504, 599]


def bad_tokens(life=3600):
    t = ok_token(life)
    out = []
    for k in t:
        out.append({n: v for n, v in t.items() if n != k})
        for v in (None, 1, -1, "", [], {}, True, [t[k]], {"v": t[k]}, str(t[k]) + " ", 2.5, -3600):
            if k == "expires_in" and v == 1 or (k == "access_token" and isinstance(v, str)):
                continue
            out.append(dict(t, **{k: v}))
    for v in ("bearer", "BEARER", "Bearer\n", " Bearer", "Basic", "MAC", "Bearer,Bearer", "bEarer",
              "Bearer\u0000", "B", "Bearers"):
        out.append(dict(t, token_type=v))
    for v in ("3600", "0", "", -0.5, 3600.5, 1e-3):
        out.append(dict(t, expires_in=v))
    return [json.dumps(o) for o in out]


def bad_bodies(life=3600):
    j = json.dumps(ok_token(life))
    return [j[:-1], j[:20], j + "}", j + j, "", "null", "[]", "{}", "\"x\"", "1", j.replace('"', "'"),
            "<html>%RID%</html>", j.replace(":", "=", 1), "x" + j, "access_token=ya29.tok-%RID%",
            json.dumps([ok_token(life)]), json.dumps({"error": "invalid", "token": ok_token(life)}),
            j[:-1] + ",}", "// c\n" + j] + broken_json(ok_token(life), ["access_token", "x", "token_type"])


# octets that are no UTF-8
BROKEN = ["\uf7ff", "\uf780", "\uf7c3", "\uf7e3\uf781", "\uf7c0\uf7af", "\uf7ed\uf7a0\uf780", "\uf7f4\uf790\uf780\uf780",
          "\uf7fe", "\uf7e9"]


def broken(text):
    """A text with octets in it that make it none."""
    return [x for i, b in enumerate(BROKEN) for x in ((b + text, text + b, text[:6] + b + text[6:])[i % 3], )] + \
        [BROKEN[0] + text, text + BROKEN[0], text[:3] + BROKEN[2] + text[3:]]


def broken_json(o, names):
    """A JSON text with such octets inside strings, and outside."""
    out = []
    for i, n in enumerate(names):
        for j, b in enumerate(BROKEN):
            if j % len(names) == i or j == 0:
                out.append(json.dumps(dict(o, **{n: f"{o.get(n, 'v')}" + b}), ensure_ascii=False))
    j = json.dumps(o)
    return out + [json.dumps(dict(o, **{"x" + BROKEN[0]: 1}), ensure_ascii=False), j + BROKEN[0], BROKEN[1] + j]


def bad_signs():
    s = {"keyId": "k", "signedBlob": "%SIG%"}
    out = [{"keyId": "k"}, {"keyId": "k", "signed_blob": "%SIG%"}, {"signedBlob": None, "keyId": "k"},
           dict(s, signedBlob=1), dict(s, signedBlob=["%SIG%"]), dict(s, signedBlob="!%SIG%"),
           dict(s, signedBlob="%SIG%*"), dict(s, signedBlob="{}"), dict(s, signedBlob="a.b."),
           {"error": {"code": 403, "message": "denied", "status": "PERMISSION_DENIED"}}, {},
           dict(s, signedBlob={"v": "%SIG%"}), dict(s, signedBlob="\u00e9\u00e9\u00e9\u00e9")]
    j = json.dumps(s)
    return [json.dumps(o) for o in out] + [j[:-1], j[:12], j + "x", "", "null", "[]", "%SIG%",
                                            json.dumps([s]), "<html/>"] + broken_json(s, ["keyId", "x", "signedBlob"])


def odd_signs():
    """Answers that may be used or not."""
    s = {"keyId": "k", "signedBlob": "%SIG%"}
    return [json.dumps(o) for o in
            [{"signedBlob": "%SIG%"}, dict(s, signedBlob=""), dict(s, keyId=None), dict(s, keyId=1),
             dict(s, signedBlob="YQ"), dict(s, signedBlob="YR=="), dict(s, signedBlob="_-_-"),
             dict(s, signedBlob=" %SIG%"), dict(s, signedBlob="%SIG%\n")]]


def failure(r, ep, life=3600):
    """An answer that must not be used."""
    a = good(life)[ep]
    k = r.random()
    if k < .12:
        return {"mode": "drop"}
    if k < .2:
        return {"mode": "garbage"}
    if k < .35:
        return dict(a, mode="truncate")
    if ep == "email" and k > .85:
        return dict(a, body=r.choice(broken(EMAIL)))
    if k < .7 or ep == "email":
        return dict(a, status=r.choice(BAD_STATUS))
    if ep == "token":
        return dict(a, body=r.choice(bad_tokens(life) + bad_bodies(life)))
    return dict(a, body=r.choice(bad_signs()))


def answers(r, ok, life):
    """What each endpoint answers in one step."""
    a = anew(r, life)
    return a if ok else {ep: failure(r, ep, life) for ep in a}


# ---------------------------------------------------------------- calls

INVALID = [("method", "get"), ("method", "PATCH"), ("blob", False), ("object", "a/../b"),
           ("headers", [["a b", "x"]]), ("headers", [["a", "\n"]]),
           ("expires", [NOW[0] + 10**7, 0]), ("expires", [NOW[0] - 1, 0]), ("bucket", ".")]


REGIONS = ["", "", "", "~~~", "???", ">>>", "\u00ff\u00ff", "a/b", "\u3042", " ", "\x7f~?>", "%2F", "\"",
           "\U0001f600\u00e9", "\n", "}"]


def call_op(g, name, key, bad=False, plain=False):
    """A signing call whose region tells it from all others."""
    r = g.r
    # (what follows the name puts every octet value at every position of a base64 group)
    region = f"zz{name}zz" + r.choice(REGIONS)
    if r.random() < .65 or plain:
        op = g.url(bucket=g.plain(), object=g.plain(), region=region)["op"] if plain else \
            g.url(bucket=g.plain(), object=g.carried()[:12], region=region, query=g.query(1),
                  headers=g.headers(1), method=r.choice(["GET", "PUT", "DELETE"]))["op"]
        if r.random() < .2 and not plain:
            # the current time instead of a given one
            op["at"] = None
        op.update(key={"t": "bound", "k": key}, blob=True)
        if bad:
            k, v = r.choice(INVALID)
            op[k] = v
            op["at"] = list(NOW)
        return op
    sets = [["key", g.plain()], ["bucket", g.plain()]]
    if r.random() < .5:
        sets += [g.setter(r.choice(["acl", "meta", "Content-Length", "Content-Type"]))]
    o = {"key": {"t": "bound", "k": key}, "at": list(NOW) if bad or r.random() < .8 else None,
         "expires": [NOW[0] + 10**6, 0], "region": region, "blob": True}
    if bad:
        k = r.randrange(4)
        if k == 0:
            o["blob"] = False
        elif k == 1:
            o["expires"] = list(NOW)
        elif k == 2:
            sets = [s for s in sets if s[0] != "bucket"]
        else:
            sets.append(["meta", "", "x"])
    sets.append(["signing", o])
    r.shuffle(sets)
    return {"op": "form", "set": sets}


KEYSETS = [
    [{"name": "a"}, {"name": "b"}],
    [{"name": "a"}, {"name": "a2", "clone": "a"}, {"name": "b"}],
    [{"name": "a"}, {"name": "b", "share": "a"}],
    [{"name": "a"}, {"name": "b", "share": "a"}, {"name": "b2", "clone": "b"}],
    [{"name": "a", "host": "default"}, {"name": "b"}],
    [{"name": "a", "host": "metadata.internal.example"}, {"name": "b", "host": "default"}],
    [{"name": "a", "host": "md.example:8080"}, {"name": "a2", "clone": "a"}, {"name": "b"}],
]


def source_of(keys):
    src = {}
    for k in keys:
        src[k["name"]] = src[k["clone"]] if "clone" in k else k["name"]
    return src


def from_schedule(g, sid, env, bad_calls=()):
    """A behaviour of BoundToken, with all that the model leaves open chosen at random."""
    r = g.r
    keys = [dict(k) for k in r.choice(KEYSETS)]
    src = source_of(keys)
    of = {s: [k for k in src if src[k] == s] for s in set(src.values())}
    steps = []
    for x in env:
        if x["do"] == "start":
            key = r.choice(of[x["src"]])
            steps.append({"do": "start", "call": f"c{x['call']}", "key": key,
                          "op": call_op(g, f"c{x['call']}", key, x["call"] in bad_calls)})
        elif x["do"] == "tick":
            steps.append({"do": "tick", "sec": x["sec"], "ns": 0})
        elif x["do"] == "cancel":
            steps.append({"do": "cancel", "call": f"c{x['call']}"})
        elif x["do"] == "head":
            steps.append({"do": "head", "n": x["n"], "r": anew(r, r.choice([31, 60, 3600]))})
        else:
            steps.append({"do": "resp", "n": x["n"], "r": answers(r, x["ok"], x["life"])})
    # What comes after: everybody is served, and the key still works.
    steps.append({"do": "drain", "r": anew(r, 3600)})
    key = r.choice(list(src))
    steps.append({"do": "start", "call": "last", "key": key, "op": call_op(g, "last", key)})
    steps.append({"do": "drain", "r": anew(r, 3600)})
    return {"s": "token", "sid": sid, "now": begin(r),
            "keys": keys, "steps": steps}


def begin(r, ns=(0, 0, 1, 500000000, 999999999)):
    """When a session begins: mostly NOW, sometimes around the ends of 32 bits and of the calendar. (Before 1970
    and after 9999 no TLS connection can be made: rustls panics, or the certificates are not valid.)"""
    return [r.choice([0, 5, 2**31 - 10, 2**32 - 10, 253402290000]) if r.random() < .06 else NOW[0], r.choice(ns)]


LIVES = [0, 1, 29, 30, 31, 32, 59, 60, 61, 90, 91, 299, 300, 3600]


def tick(r, life):
    sec, ns = r.choice([(life - 30, 0), (life - 31, 999999999), (life - 30, 1), (life - 31, 0),
                        (life - 29, 0), (1, 0), (0, 1), (30, 0), (29, 999999999), (life, 0),
                        (life + 1, 0), (life - 60, 0), (r.randint(0, 90), r.randrange(10**9))])
    return {"do": "tick", "sec": max(0, sec), "ns": ns}


def random_session(g, sid, calls=None):
    r = g.r
    keys = [dict(k) for k in r.choice(KEYSETS)]
    names = [k["name"] for k in keys]
    if r.random() < .5:
        names = names[:1]
    total = calls or r.choice([2, 3, 4, 5, 6])
    steps, started, live = [], 0, []
    life = r.choice(LIVES)
    fail = r.choice([0, .1, .3, .6])
    cut = r.choice([0, 0, .15, .3])
    while started < total or (live and r.random() < .8):
        k = r.random()
        if started < total and (not live or k < .3):
            key = r.choice(names)
            c = f"c{started}"
            steps.append({"do": "start", "call": c, "key": key, "nowait": r.random() < .4,
                          "op": call_op(g, c, key, r.random() < .1)})
            started += 1
            live.append(c)
        elif k < .3 + cut:
            c = r.choice(live)
            if r.random() < .4:
                steps.append({"do": "turns", "n": r.choice([1, 2, 3, 5, 8, 13, 30, 80])})
                steps.append({"do": "cancel", "call": c, "quiet": False})
            else:
                steps.append({"do": "cancel", "call": c})
            live.remove(c)
        elif k < .5 + cut / 2 and r.random() < .5:
            steps.append(tick(r, life))
        elif k < .62:
            steps.append({"do": "head", "n": r.randint(0, 2), "r": anew(r, life)})
        else:
            ok = r.random() >= fail
            if r.random() < .3:
                life = r.choice(LIVES)
            steps.append({"do": "resp", "n": r.randint(0, 2), "r": answers(r, ok, life),
                          "nowait": r.random() < .15})
    steps.append({"do": "drain", "r": anew(r, r.choice(LIVES + [3600] * 4))})
    if r.random() < .5:
        steps.append(tick(r, life))
    key = r.choice(names)
    steps.append({"do": "start", "call": "last", "key": key, "op": call_op(g, "last", key)})
    steps.append({"do": "drain", "r": anew(r, 3600)})
    return {"s": "token", "sid": sid, "now": begin(r),
            "keys": keys, "steps": steps}


def parallel_session(g, sid):
    """Calls on several threads at once, and servers that answer each request after a while."""
    r = g.r
    keys = [dict(k) for k in r.choice(KEYSETS)]
    names = [k["name"] for k in keys]
    if r.random() < .6:
        names = [n for n in names if n[0] == "a"]
    life = r.choice([3600, 3600, 3600, 31, 30, 0])
    fail = r.choice([0, 0, .2, .5]) if life > 30 else 0
    plan = {ep: [failure(r, ep, life) if r.random() < fail and ep != "sign" else anew(r, life)[ep]
                 for _ in range(r.choice([1, 3, 5]))] for ep in ("email", "token", "sign")}
    n = r.choice([2, 3]) if life <= 30 else r.choice([2, 3, 4]) if fail else r.choice([2, 3, 4, 6])
    ops = [dict(call_op(g, f"c{i}", r.choice(names), r.random() < .1), id=i) for i in range(n)]
    return {"s": "conc", "sid": sid, "now": list(NOW), "keys": keys, "ops": ops, "kept": [],
            "auto": {"plan": plan, "delay": r.choice([0, 200, 1000, 3000])},
            "threads": r.choice([2, 3, 4, 8])}


def in_order(session, events):
    """What was recorded of a parallel session as one that TraceToken knows: all calls begin before
    anything else, and end last, since only the servers see an order of events."""
    key = lambda op: op["key"]["k"] if op["op"] == "url" else \
        next(s[1]["key"]["k"] for s in op["set"] if s[0] == "signing")
    steps = [{"do": "start", "call": f"c{o['id']}", "key": key(o), "op": o} for o in session["ops"]]
    out = [e for e in events if e["e"] == "source"]
    out += [{"e": "start", "call": s["call"], "key": s["key"]} for s in steps]
    out += [e for e in events if e["e"] not in ("source", "ret")]
    out += [dict(e, call=f"c{e['id']}") for e in events if e["e"] == "ret"]
    done = {e["id"] for e in events if e["e"] == "ret"}
    if not any(e["e"] == "crash" for e in events):
        out.append({"e": "end", "left": [o["id"] for o in session["ops"] if o["id"] not in done]})
    return dict(session, steps=steps), out


def boundary_sessions(g, prefix):
    """A cached token at every interesting distance from its expiry."""
    out = []
    r = g.r
    for life in (0, 1, 29, 30, 31, 32, 60, 61, 120, 3600):
        for d in (-2 * 10**9, -10**9, -10**9 + 1, -1, 0, 1, 10**9 - 1, 10**9, 30 * 10**9):
            at = (life - 30) * 10**9 + d
            if at < 0:
                continue
            steps = [{"do": "start", "call": "c0", "key": "a", "op": call_op(g, "c0", "a", plain=True)},
                     {"do": "drain", "r": good(life)},
                     {"do": "tick", "sec": at // 10**9, "ns": at % 10**9},
                     {"do": "start", "call": "c1", "key": "a2", "op": call_op(g, "c1", "a2", plain=True)},
                     {"do": "drain", "r": good(3600)}]
            out.append({"s": "token", "sid": f"{prefix}{len(out)}",
                        "now": begin(r, [0, 1, 999999999]),
                        "keys": [{"name": "a"}, {"name": "a2", "clone": "a"}], "steps": steps})
    for life in (2**31, 2**32, 10**10, 2**53 + 1, 2**62, 2**63 - 1, 2**63, 2**64 - 1,
                 9223372036854775807 - NOW[0], 9223372036854775806 - NOW[0]):
        for sec in (0, 10**6):
            steps = [{"do": "start", "call": "c0", "key": "a", "op": call_op(g, "c0", "a", plain=True)},
                     {"do": "drain", "r": good(life)},
                     {"do": "tick", "sec": sec, "ns": 0},
                     {"do": "start", "call": "c1", "key": "a", "op": call_op(g, "c1", "a", plain=True)},
                     {"do": "drain", "r": good(3600)}]
            out.append({"s": "token", "sid": f"{prefix}{len(out)}", "now": list(NOW),
                        "keys": [{"name": "a"}], "steps": steps})
    return out


def repeat_sessions(g, prefix, n):
    """The very same call again and again, by the same account: every one is signed anew."""
    out = []
    r = g.r
    for i in range(n):
        op = call_op(g, "", "a", plain=i % 3 == 0)
        # (no name in the message: it is the same whichever call it is)
        o = op if op["op"] == "url" else [s[1] for s in op["set"] if s[0] == "signing"][0]
        o["region"] = r.choice([None, "same", "auto"])
        if "at" in o and o["at"] is None:
            o["at"] = list(NOW)
        ans = good(r.choice([31, 60, 3600]))
        ans["email"]["body"] = "acct@proj.example"
        if r.random() < .3:
            ans["token"]["body"] = ans["token"]["body"].replace("%RID%", "same")
        keys = r.choice([[{"name": "a"}], [{"name": "a"}, {"name": "b", "clone": "a"}],
                         [{"name": "a"}, {"name": "b", "share": "a"}], [{"name": "a"}, {"name": "b"}]])
        steps = []
        for j in range(r.choice([2, 2, 3, 4])):
            key = r.choice(keys)["name"]
            op2 = json.loads(json.dumps(op).replace('"k": "a"', f'"k": "{key}"'))
            steps.append({"do": "start", "call": f"c{j}", "key": key, "op": op2})
            if r.random() < .3:
                steps.append({"do": "drain", "r": dict(ans, sign=failure(r, "sign"))})
            else:
                steps.append({"do": "drain", "r": ans})
            if r.random() < .3:
                steps.append(tick(r, 31))
        out.append({"s": "token", "sid": f"{prefix}{i}", "now": list(NOW), "keys": keys,
                    "steps": steps})
    return out


def base_path(ep):
    return ("/v1/projects/-/serviceAccounts/acct-0@proj.iam.gserviceaccount.com:signBlob" if ep == "sign"
            else "/computeMetadata/v1/instance/service-accounts/default/" + ep)


def answer_sessions(g, prefix):
    """One bad answer after the other, each followed by a call that has to succeed."""
    out = []

    def add(eps, odd=False):
        steps = [{"do": "start", "call": "c0", "key": "a", "op": call_op(g, "c0", "a", plain=True)},
                 {"do": "drain", "r": eps}]
        steps += [{"do": "start", "call": "c1", "key": "a", "op": call_op(g, "c1", "a", plain=True)},
                  {"do": "drain", "r": good(3600)}]
        out.append({"s": "token", "sid": f"{prefix}{len(out)}", "now": list(NOW),
                    "keys": [{"name": "a"}], "steps": steps})

    base = good(3600)
    for ep in base:
        for m in ({"mode": "drop"}, {"mode": "garbage"}, dict(base[ep], mode="truncate")):
            add(dict(base, **{ep: m}))
        for st in BAD_STATUS + [200, 201, 202, 203, 206, 226, 299]:
            add(dict(base, **{ep: dict(base[ep], status=st)}))
        for st in (301, 302, 303, 307, 308):
            for to in (base_path(ep), base_path(ep) + "?x=%RID%", "http://metadata.google.internal" + base_path(ep),
                       "https://storage.googleapis.com" + base_path(ep)):
                add(dict(base, **{ep: dict(base[ep], status=st, headers=[["Location", to]])}))
    for b in bad_tokens() + bad_bodies():
        add(dict(base, token={"status": 200, "body": b}))
    for b in bad_signs() + odd_signs():
        add(dict(base, sign={"status": 200, "body": b}))
    for life in (3600.0, 0, 18446744073709551616, 10**40):
        add(dict(base, token={"status": 200, "body": json.dumps(ok_token(life))}))
    add(dict(base, email={"status": 200, "body": ""}))
    for b in broken(EMAIL):
        add(dict(base, email={"status": 200, "body": b}))
    return out


def warm_sessions(g, prefix, n):
    """A refresh that fails while there is a credential of before: at every distance from its end."""
    out = []
    r = g.r
    fails = [(ep, a) for ep in ("email", "token")
             for a in [{"mode": "drop"}, {"mode": "garbage"}, dict(good()[ep], mode="truncate")]
             + [dict(good()[ep], status=st) for st in BAD_STATUS]]
    fails += [("token", {"status": 200, "body": b}) for b in bad_tokens(60) + bad_bodies(60)]
    places = [(30, 0), (30, 1), (31, 0), (45, 0), (59, 999999999), (60, 0), (60, 1), (61, 0), (3600, 0)]
    both = [(f, p) for f in fails for p in places]
    for (ep, a), (sec, ns) in both if len(both) <= n else r.sample(both, n):
        keys = r.choice([[{"name": "a"}, {"name": "b", "clone": "a"}], [{"name": "a"}, {"name": "b", "clone": "a"}],
                         [{"name": "a"}, {"name": "b"}]])
        key = lambda: r.choice(keys)["name"] if r.random() < .4 else "a"
        op = lambda c, k: {"do": "start", "call": c, "key": k, "op": call_op(g, c, k, plain=True)}
        bad = dict(good(60), **{ep: a})
        steps = [op("c0", "a"), {"do": "drain", "r": good(60)}, {"do": "tick", "sec": sec, "ns": ns},
                 op("c1", "a")]
        if r.random() < .3:
            steps.append(op("c2", key()))
        if r.random() < .5:
            steps += [{"do": "drain", "r": bad}]
        else:
            # once only: a client that asks again gets what it needs
            steps += [{"do": "resp", "n": 0, "r": bad}] * r.choice([1, 2, 2])
            steps += [{"do": "drain", "r": r.choice([good(60), bad])}]
        steps += [op("c3", key()), {"do": "drain", "r": r.choice([good(3600), good(3600), bad])},
                  op("c4", "a"), {"do": "drain", "r": good(3600)}]
        out.append({"s": "token", "sid": f"{prefix}{len(out)}", "now": list(NOW), "keys": keys,
                    "steps": steps})
    return out


def crowd_sessions(g, prefix, n):
    """Many calls that wait for one refresh, or for one each, while some of them fail or are dropped."""
    out = []
    r = g.r
    for i in range(n):
        keys = [dict(k) for k in r.choice(KEYSETS)]
        if i % 5 == 4:
            # many sources, each with a credential of its own
            keys = [{"name": f"w{j}"} for j in range(r.choice([5, 9, 14]))]
        names = [k["name"] for k in keys]
        one = r.random() < .6 and len(names) < 4
        life = r.choice([31, 60, 3600, 3600])
        steps, live = [], []

        def join(many):
            for _ in range(many):
                c = f"c{join.n}"
                join.n += 1
                key = names[0] if one else names[join.n % len(names)]
                steps.append({"do": "start", "call": c, "key": key, "nowait": True,
                              "op": call_op(g, c, key, r.random() < .05, plain=True)})
                live.append(c)
        join.n = 0
        for _ in range(r.choice([1, 1, 2])):
            join(r.choice([8, 12, 17, 20]))
            hasty = r.randrange(2)
            for _ in range(r.randint(0, 7)):
                k = r.random()
                if k < .35:
                    steps.append({"do": "resp", "n": 0, "r": answers(r, False, life)})
                elif k < .55:
                    steps.append({"do": "resp", "n": 0, "r": anew(r, life)})
                elif k < .7:
                    for c in r.sample(live, min(len(live), r.choice([1, 1, 3, 6]))):
                        steps.append({"do": "cancel", "call": c})
                        live.remove(c)
                elif k < .8 and hasty and live:
                    hasty = 0
                    steps.append({"do": "turns", "n": r.choice([1, 2, 5, 13, 40])})
                    steps.append({"do": "cancel", "call": live.pop(0), "quiet": False})
                elif k < .9:
                    steps.append({"do": "head", "n": 0, "r": anew(r, life)})
                else:
                    join(2)
            steps.append({"do": "drain", "max": 200, "r": anew(r, life)})
            steps.append(tick(r, life))
            live.clear()
        key = r.choice(names)
        steps.append({"do": "start", "call": "last", "key": key, "op": call_op(g, "last", key)})
        steps.append({"do": "drain", "r": anew(r, 3600)})
        out.append({"s": "token", "sid": f"{prefix}{i}", "now": list(NOW), "keys": keys, "steps": steps})
    return out


def long_sessions(g, prefix, n):
    """One key for a long time: many calls after one another, with many refreshes, some of which fail."""
    out = []
    r = g.r
    for i in range(n):
        keys = [dict(k) for k in r.choice(KEYSETS)]
        names = [k["name"] for k in keys]
        if r.random() < .5:
            names = names[:1]
        fail = r.choice([0, 0, .1, .5])
        life = r.choice([60, 120, 3600])
        steps = []
        for j in range(r.choice([20, 35, 50])):
            key = r.choice(names)
            steps.append({"do": "start", "call": f"c{j}", "key": key, "op": call_op(g, f"c{j}", key, plain=True)})
            if r.random() < fail:
                steps += [{"do": "resp", "n": 0, "r": answers(r, False, life)}]
            steps.append({"do": "drain", "r": anew(r, life)})
            if r.random() < .4:
                steps.append(r.choice([{"do": "tick", "sec": life - 30, "ns": 0}, tick(r, life)]))
        out.append({"s": "token", "sid": f"{prefix}{i}", "now": list(NOW), "keys": keys, "steps": steps})
    return out


# ----------------------------------------------------------- projection

def member(n, v):
    m = {"n": lib.by(n), "t": "other", "v": [], "k": 0}
    if isinstance(v, str):
        m.update(t="string", v=lib.by(v))
    elif isinstance(v, bool):
        m["t"] = "bool"
    elif isinstance(v, int):
        m["t"] = ("negative" if v < 0 else "int" if v <= 10**9
                  else "big" if v < 2**63 - 3 * 10**9 else "huge")
        m["k"] = v if 0 <= v <= 10**9 else 0
    elif isinstance(v, float):
        m["t"] = "wholefloat" if v == int(v) and v >= 0 else "float"
    return m


def octets(text):
    """The octets of a body: a character from U+F700 to U+F7FF stands for one."""
    out = []
    for c in text:
        out += [ord(c) - 0xf700] if "\uf700" <= c <= "\uf7ff" else lib.by(c)
    return out


def is_text(text):
    try:
        bytes(octets(text)).decode("utf-8")
    except UnicodeDecodeError:
        return False
    return True


def json_facts(text):
    """[json, root, members] of a text."""
    try:
        if not is_text(text):
            raise ValueError
        o = lib.strict_json(text)
    except (ValueError, RecursionError):
        return {"json": False, "root": "none", "members": []}
    if isinstance(o, dict):
        return {"json": True, "root": "object", "members": [member(k, v) for k, v in o.items()]}
    return {"json": True, "root": "array" if isinstance(o, list) else "other", "members": []}


TAG = re.compile(r"/zz(\w+?)zz")


def tag_in(payload):
    """The call whose region the message names."""
    try:
        raw = base64.b64decode(payload, validate=True)
    except ValueError:
        return ""
    texts = [raw]
    try:
        texts.append(base64.b64decode(raw, validate=True))
    except ValueError:
        pass
    for t in texts:
        m = TAG.search(t.decode("latin1"))
        if m:
            return m.group(1)
    return ""


def sender(payload, running):
    """The call that a message is from: the one it names, or the only one there is."""
    t = tag_in(payload)
    return next(iter(running)) if t == "" and len(running) == 1 else t


def rel(t, now):
    return {"s": t[0] - now[0], "n": t[1]}


def project(session, events):
    """Recorded events as a session of TraceToken."""
    if session["s"] == "conc":
        session, events = in_order(session, events)
    start = session["now"]
    src = source_of(session["keys"])
    sources, out, ops, now = {}, [], {}, start
    for st in session["steps"]:
        if st["do"] == "start":
            ops[st["call"]] = st["op"]
    info = {"account": "", "pub": "", "can": True}
    running = set()
    for e in events:
        k = e["e"]
        if k == "start":
            running.add(e["call"])
        elif k in ("ret", "cancel"):
            running.discard(e["call"])
        if k == "source":
            sources[e["key"]] = lib.by(e["host"])
        elif k == "start":
            op = json.loads(json.dumps(ops[e["call"]]))
            c = lib.project(op, {"kind": "none"}, now, info)
            out.append({"e": "start", "call": e["call"], "src": src[e["key"]], "c": c})
        elif k == "req":
            hs = lambda n: [lib.by(v) for h, v in e["headers"] if h == n]
            path, to = e["target"], e["via"]
            if e["scheme"] == "http":
                if path.startswith("http://"):
                    to, _, path = path[7:].partition("/")
                    path = "/" + path
                    if e["via"] != "proxy":
                        to = "?"
                else:
                    # straight to a listener: its address is what the Host header should say
                    to = host_of(events, e["via"]) if e["via"] != "proxy" else "?"
            f = json_facts(e["body"])
            pay = [bytes(m["v"]).decode() for m in f["members"]
                   if m["t"] == "string" and bytes(m["n"]) == b"payload"]
            out.append({"e": "req", "rid": e["rid"], "scheme": e["scheme"], "to": lib.by(to),
                        "method": lib.by(e["method"]), "path": lib.by(path),
                        "flavor": hs("metadata-flavor"), "auth": hs("authorization"),
                        "extra": e["body"] != "", "members": f["members"],
                        "call": sender(pay[0], running) if pay else ""})
        elif k == "tlsfail":
            out.append({"e": "tlsfail", "to": lib.by(e["target"])})
        elif k == "resp":
            r = e["r"]
            full = r.get("mode", "full") == "full"
            body = r.get("body", "") if full else ""
            f = json_facts(body)
            out.append({"e": "resp", "rid": e["rid"], "sent": full, "status": r.get("status", 200),
                        "body": octets(body), "text": is_text(body), "json": f["json"], "root": f["root"],
                        "members": f["members"]})
        elif k == "gone":
            out.append({"e": "gone", "rid": e["rid"]})
        elif k == "ret":
            res = e["res"]
            p = lib.res_url(res) if ops[e["call"]]["op"] == "url" else lib.res_form(res)
            out.append({"e": "ret", "call": e["call"], "res": p})
        elif k == "cancel":
            out.append({"e": "cancel", "call": e["call"], "quiet": e["quiet"]})
        elif k == "quiet":
            out.append({"e": "quiet"})
        elif k == "tick":
            now = e["now"]
            out.append({"e": "tick", "now": rel(now, start)})
        elif k == "end":
            out.append({"e": "end", "left": bool(e["left"])})
        elif k == "crash":
            out.append({"e": "end", "left": True})
    return {"now": rel(start, start), "sources": sources, "events": out}


def host_of(events, key):
    for e in events:
        if e["e"] == "source" and e["key"] == key:
            return e["host"]
    return "?"


FAULT = re.compile(r'<<"(FAULT|FORGIVEN)", (\d+), (\d+), \{([^}]*)\}>>')


def judge(ctx, sessions, recorded):
    """Shows the sessions to the specification; returns [(index, position, tags, rejected)], also of
    what breaks another property (rejected: False)."""
    recs = [project(s, recorded[s["sid"]]) for s in sessions]
    out, gen, dist = [], 0, 0
    chunk = 1500
    for base in range(0, len(recs), chunk):
        part = recs[base:base + chunk]
        path = ctx.work.path("trace.ndjson")
        lib.write_ndjson(path, part)
        rc, o, st = lib.tlc("TraceToken", environ={"TRACE": path, "PROP": ctx.prop}, work=ctx.work)
        if rc != 0 or "Model checking completed. No error" not in o:
            raise lib.ToolError(f"TLC (TraceToken) ended with {rc}:\n" + o[-3000:])
        faults, other = {}, []
        for how, i, p, tags in FAULT.findall(o):
            f = int(i), int(p), sorted(re.findall(r"C\d\d", tags))
            if how == "FAULT":
                faults[f[0]] = f[1:]
            else:
                other.append(f)
        want = sum(faults[i + 1][0] + 1 if i + 1 in faults else len(r["events"]) + 1
                   for i, r in enumerate(part))
        if st["distinct"] != want:
            raise lib.ToolError(f"TLC went through {st['distinct']} states of sessions, not {want}")
        rej = {int(x) for x in re.findall(r'<<"REJECTED", (\d+)>>', o)}
        out += [(base + i - 1, p, tags, i in rej) for i, (p, tags) in sorted(faults.items())]
        out += [(base + i - 1, p, tags, False) for i, p, tags in other]
        gen += st["generated"]
        dist += st["distinct"]
    return out, {"generated": gen, "distinct": dist}
