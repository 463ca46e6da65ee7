#!/usr/bin/env python3
"""Records the calls and sessions that run/selftest.py corrupts: run/fixtures/recorded.json.
Run once on a tree where all properties hold; no check runs this."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "run"))
import bound as B, cases as K, families as F, lib, props
from gen import Gen

work = lib.Work()
driver = lib.build()
g = Gen(1, "quick", "fixtures")
cs = [g.url(bucket="b1", object="a/b c+d", region="us", headers=[["X-B", " 2 "], ["x-a", "1"], ["X-b", "3"]],
            query=[["q", "1"], ["p", "a b"], ["q", "1"]], method="PUT"),
      g.url(at=None, object="o", keyinfo=g.sa("sa2@example.com", "rsa3")), F.bound_url(g, True),
      g.url(method="PATCH"), g.url(expires=[1, 0]), g.url(headers=[["a b", "1"]])]
cs += [g.form([["key", "k\u3042"], ["bucket", "b"], ["Content-Length", "12"], ["success_action_status", "201"],
               ["meta", "B", "1"], ["meta", "a", "2"], ["acl", "x\"y"], ["Content-Type", "a"], ["Content-Type", "b/c"],
               g.signing(region="r")]),
       g.form([["key", "k"], ["acl", "a"], ["meta", "x", "y"]]), F.bound_form(g),
       g.form([["key", "k"], g.signing()]), g.form([["acl", "x"]]),
       g.form([["key", "k"], ["bucket", "b"], g.signing(expires=[1, 0])])]
res = K.run(driver, cs, work)
op = lambda c, key, **kw: {"do": "start", "call": c, "key": key, "op": B.call_op(g, c, key, plain=True, **kw)}
resp = lambda a=None: {"do": "resp", "n": 0, "r": a or B.good(60)}
bad = lambda ep: dict(B.good(60), **{ep: {"status": 500, "body": "no"}})
s = {"s": "token", "sid": "x", "now": [1700000000, 0], "keys": [{"name": "a"}, {"name": "b"}], "steps": [
     op("c0", "a"), op("c1", "a"), resp(bad("token")), resp(bad("token")), {"do": "drain", "r": B.good(60)},
     {"do": "tick", "sec": 29, "ns": 999999999}, op("c2", "a"), {"do": "drain", "r": B.good(60)},
     {"do": "tick", "sec": 0, "ns": 1}, op("c3", "a"), {"do": "drain", "r": B.good(60)},
     op("c4", "b"), {"do": "drain", "r": B.good(60)}, op("c5", "b"), resp(bad("sign"))]}
ev = lib.drive(driver, [s], work)["x"]
doc = {"calls": [{"case": c, "result": list(r)} for c, r in zip(cs, res)], "session": s, "events": ev}
d = os.path.join(lib.VERIF, "run", "fixtures")
os.makedirs(d, exist_ok=True)
with open(os.path.join(d, "recorded.json"), "w") as f:
    json.dump(doc, f, indent=0)
    f.write("\n")
for c in doc["calls"]:
    print(c["case"]["op"]["op"], c["result"][0]["kind"])
for i, e in enumerate(ev):
    print(i, {k: v for k, v in e.items() if k not in ("headers",)} if e["e"] != "ret" else (e["call"], e["res"]["kind"]))
work.close()
