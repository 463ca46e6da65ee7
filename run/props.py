"""One function per property: which models are checked, which scenarios the real library goes
through, and which rules of the specification judge what was recorded."""
import hashlib, json, os, time
import cases as K
import families as F
import influence
import keyfile
import leaks
import lib
import tokens as T
import total
from gen import Gen, NOW, PEM

ASSUMPTIONS = [
    "SHA-256 and RSASSA-PKCS1-v1_5 of the JDK; TLC 1.8",
    "the published description of the V4 signing process is what Cloud Storage does",
    "the real code is observed on the scenarios counted here, not on all inputs",
]


class Context:
    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.deep = tier == "thorough"
        self.gen = Gen(seed, tier, prop)
        self.coverage = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                         "models": {}, "conformance": {}}
        self.samples, self.assumptions = [], []
        self.driver = None
        self.found = False
        self.t0 = time.time()

    def left(self, total):
        return total - (time.time() - self.t0)

    def n(self, quick, thorough):
        return thorough if self.deep else quick

    def summary(self):
        return {k: v for k, v in self.coverage.items() if k != "samples"}

    # ------------------------------------------------------------ models
    def mutant(self, module, consts, invariant, subst=(), timeout=300):
        """A model with a mistake in it: the invariant has to notice, or the check is vacuous."""
        cfg = self.work.path(f"{module}mutant.cfg")
        with open(cfg, "w") as f:
            f.write(f"SPECIFICATION Spec\nINVARIANTS {invariant}\nCHECK_DEADLOCK FALSE\n")
            for k, v in consts.items():
                f.write(f"CONSTANT {k} = {v}\n")
            for k, v in subst:
                f.write(f"CONSTANT {k} <- {v}\n")
        t = time.time()
        rc, out, st = lib.tlc(module, cfg=cfg, work=self.work, timeout=timeout)
        if f"Invariant {invariant} is violated" not in out:
            raise lib.ToolError(f"{module} does not object to {consts}:\n" + tail(out))
        self.coverage["models"][f"{module} {consts['Bug']}: objected"] = {
            "distinct_states": st["distinct"], "transitions": st["generated"], "depth": st["depth"],
            "wall_s": round(time.time() - t, 1)}

    def model(self, module, consts, invariants, subst=(), calls=False, spec="SPECIFICATION Spec",
              extra="", args=(), name=None, timeout=600, environ=None, raw=False):
        """Model-checks; returns the calls it explored. A model that fails is a broken check."""
        cfg = self.work.path(f"{module}{len(self.coverage['models'])}.cfg")
        with open(cfg, "w") as f:
            f.write(spec + "\n")
            if invariants:
                f.write("INVARIANTS " + " ".join(invariants) + "\n")
            for k, v in consts.items():
                f.write(f"CONSTANT {k} = {v}\n")
            for k, v in subst:
                f.write(f"CONSTANT {k} <- {v}\n")
            f.write("CHECK_DEADLOCK FALSE\n" + extra)
        env = dict(environ or {})
        path = self.work.path("calls.json")
        if calls:
            env["CALLS"] = path
        t = time.time()
        rc, out, st = lib.tlc(module, cfg=cfg, environ=env, work=self.work, args=args,
                              timeout=timeout)
        if rc != 0 or "No error" not in out:
            raise lib.ToolError(f"model {module} {consts} ended with {rc}:\n" + tail(out))
        name = name or module + "".join(f" {k}={v}" for k, v in consts.items())
        self.coverage["models"][name] = {"distinct_states": st["distinct"],
                                         "transitions": st["generated"], "depth": st["depth"],
                                         "wall_s": round(time.time() - t, 1)}
        self.coverage["states"] += st["distinct"]
        self.coverage["transitions"] += st["generated"]
        if not calls:
            return []
        got = [json.loads(l) for l in open(path)]
        os.remove(path)
        if raw:
            return got
        got = [K.op_of(c) for c in got]
        return [c for c in got if not K.out_of_scope(c)]

    def url_model(self, family, deep=None):
        deep = self.deep if deep is None else deep
        return self.model("MCUrl", {"Family": f'"{family}"', "Deep": "TRUE" if deep else "FALSE"},
                          ["RulesHold", "HonestServed", "ChangedRefused", "DamageSeen"],
                          [("SigValid", "ModelSigValid")], calls=True)

    def form_model(self, family, k=4):
        return self.model("MCForm", {"Family": f'"{family}"', "K": k},
                          ["RulesHold", "HonestServed", "ChangedRefused", "DamageSeen"],
                          [("SigValid", "ModelSigValid")], calls=True)

    def calendar(self):
        self.model("MCCalendar", {"Stride": 1 if self.deep else 16},
                   ["FirstOK", "Agrees", "LinkOK", "LastOK", "InverseOK", "Texts"],
                   spec="INIT Init\nNEXT Next")

    # ------------------------------------------------------- conformance
    def calls(self, name, cs, record=None):
        """Makes the calls with the real library and judges them; returns the rejected ones."""
        if not cs or self.found:
            # (one family with a violation is enough)
            return []
        seen, uniq = set(), []
        for c in cs:
            k = json.dumps(c, sort_keys=True)
            if k not in seen:
                seen.add(k)
                uniq.append(c)
        t = time.time()
        results = K.run(self.driver, uniq, self.work)
        made = [i for i, r in enumerate(results) if r is not None]
        uniq, results = [uniq[i] for i in made], [results[i] for i in made]
        recs = [(record or K.record)(c, r) for c, r in zip(uniq, results)]
        t1 = time.time()
        rejected, st = lib.judge(self.prop, recs, self.work)
        kinds = {}
        for r, _ in results:
            kinds[r["kind"]] = kinds.get(r["kind"], 0) + 1
        self.coverage["conformance"][name] = {
            "calls": len(uniq), "results": kinds, "rejected": len(rejected),
            "drive_s": round(t1 - t, 1), "judge_s": round(time.time() - t1, 1)}
        self.coverage["states"] += st["distinct"]
        self.coverage["transitions"] += st["generated"]
        self.coverage["traces_validated_against_impl"] += len(uniq)
        if uniq and len(self.samples) < 3:
            i = self.gen.r.randrange(len(uniq))
            self.samples.append({"family": name, "call": short(uniq[i]["op"]),
                                 "result": short(results[i][0])})
        return self.seen([{"kind": "case", "family": name, "case": uniq[i], "result": results[i][0],
                           "show": {"family": name, "call": short(uniq[i]["op"]),
                                    "result": short(results[i][0])}} for i in rejected])

    def seen(self, bad):
        self.found = self.found or bool(split_known(self.prop, bad)[1])
        return bad


def tail(out):
    lines = [l for l in out.splitlines() if not l.startswith(("Parsing", "Semantic", "Linting"))]
    return "\n".join(lines[-60:])


def short(x, n=400):
    s = json.dumps(x, ensure_ascii=True)
    for name, p in PEM.items():
        s = s.replace(json.dumps(p), f'"<{name}.pem>"')
    return s if len(s) <= n else s[:n] + "..."


def write_replay(ctx, bad):
    d = os.path.join(lib.BUILD, "replay")
    os.makedirs(d, exist_ok=True)
    body = json.dumps({"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed,
                       "rejected": bad[:5]}, indent=1)
    h = hashlib.sha256(body.encode()).hexdigest()[:10]
    path = os.path.join(d, f"{ctx.prop}-{h}.json")
    with open(path, "w") as f:
        f.write(body + "\n")
    return path


def replay(ctx, doc):
    bad = []
    for r in doc["rejected"]:
        if r["kind"] == "case":
            bad += ctx.calls("replay", [r["case"]], RECORDERS.get(ctx.prop))
        else:
            bad += REPLAY[r["kind"]](ctx, r)
    for b in bad:
        print(json.dumps(b["show"]))
    return bad


def findings():
    """Lines 'finding: property=<id> case=<sha256 prefix> <what fails>'."""
    out = []
    p = os.path.join(lib.VERIF, "KNOWN_FINDINGS")
    for line in open(p) if os.path.exists(p) else []:
        if line.startswith("finding: "):
            parts = line.strip().split(" ", 3)
            out.append((parts[1].split("=")[1], parts[2].split("=")[1], parts[3]))
    return out


def split_known(prop, bad):
    known, new = [], []
    fs = {h: what for p, h, what in findings() if p == prop}
    for b in bad:
        h = hashlib.sha256(json.dumps(b.get("case", b.get("session")), sort_keys=True)
                           .encode()).hexdigest()[:16]
        if h in fs:
            known.append(fs[h])
        else:
            new.append(b)
    return sorted(set(known)), new


def sample(ctx, cs, quick, thorough=None):
    n = ctx.n(quick, thorough or len(cs))
    return cs if len(cs) <= n else ctx.gen.r.sample(cs, n)


# ------------------------------------------------------------------ URLs

def c01(ctx):
    g = ctx.gen
    bad = ctx.calls("model: names", ctx.url_model("names"))
    bad += ctx.calls("keys", F.keys(g, ctx.n(16, 200)))
    bad += ctx.calls("texts", sample(ctx, F.texts_everywhere(g), 1500))
    bad += ctx.calls("headers", sample(ctx, F.header_cases(g), 500))
    bad += ctx.calls("queries", sample(ctx, F.queries(g), 700))
    bad += ctx.calls("random", F.mixed(g, ctx.n(1500, 40000)))
    bad += ctx.calls("moving clock", sample(ctx, F.moving_clock(g, "url"), 150))
    bad += ctx.calls("large", sample(ctx, F.large(g), 160))
    return bad


def c02(ctx):
    g = ctx.gen
    bad = ctx.calls("model: names", ctx.url_model("names"))
    bad += ctx.calls("names", F.names(g))
    bad += ctx.calls("random", F.mixed(g, ctx.n(1500, 60000)))
    bad += ctx.calls("large", F.large(g))
    return bad


def c03(ctx):
    g = ctx.gen
    bad = ctx.calls("model: query", ctx.url_model("query"))
    bad += ctx.calls("queries", F.queries(g))
    bad += ctx.calls("random", F.mixed(g, ctx.n(1500, 60000)))
    bad += ctx.calls("large", F.large(g))
    return bad


def c04(ctx):
    g = ctx.gen
    cs = ctx.url_model("headers")
    for c in sample(ctx, cs, 100, 1500):
        c["tamper"] = True
    bad = ctx.calls("model: headers", cs)
    bad += ctx.calls("headers", F.header_cases(g))

    def hs(n, tamper):
        out = []
        for _ in range(n):
            c = g.url(headers=g.headers(6), method=g.r.choice(F.METHODS))
            c["tamper"] = tamper
            out.append(c)
        return out
    bad += ctx.calls("tampering", hs(ctx.n(100, 2000), True))
    bad += ctx.calls("random", hs(ctx.n(1000, 30000), False))
    bad += ctx.calls("bound", [F.bound_url(g) for _ in range(ctx.n(12, 100))])
    bad += ctx.calls("large", F.large(g))
    return bad


def c05(ctx):
    g = ctx.gen
    ctx.calendar()
    cs = ctx.url_model("times")
    bad = ctx.calls("model: times", cs if ctx.deep else sample(ctx, cs, 3000))
    bad += ctx.calls("times", F.times(g))
    bad += ctx.calls("days", F.calendar_days(g, ctx.n(300, 20000)))
    bad += ctx.calls("random", F.mixed(g, ctx.n(500, 20000)))
    bad += ctx.calls("moving clock", sample(ctx, F.moving_clock(g, "url"), 600))
    return bad


def c06(ctx):
    g = ctx.gen
    bad = ctx.calls("model: region", ctx.url_model("region"))
    bad += ctx.calls("model: orders", sample(ctx, ctx.form_model("order"), 400, 4000))
    bad += ctx.calls("scopes", F.scopes(g, ctx.n(200, 5000)))
    bad += ctx.calls("random URLs", F.mixed(g, ctx.n(700, 20000)))
    bad += ctx.calls("random forms", [g.any_form(True) for _ in range(ctx.n(700, 20000))])
    bad += ctx.calls("moving clock, url", sample(ctx, F.moving_clock(g, "url"), 300))
    bad += ctx.calls("moving clock, form", sample(ctx, F.moving_clock(g, "form"), 300))
    bad += ctx.calls("large", sample(ctx, F.large(g), 60) + sample(ctx, F.large_forms(g), 40))
    return bad


def c20(ctx):
    g = ctx.gen
    bad = ctx.calls("model: refuse", ctx.url_model("refuse"))
    bad += ctx.calls("invalid", [c for c in F.invalid(g) if c["op"]["op"] == "url"])
    bad += ctx.calls("times", F.times(g))
    bad += ctx.calls("texts", sample(ctx, F.texts_everywhere(g), 1000))
    bad += ctx.calls("headers", F.header_cases(g))
    bad += ctx.calls("random", F.mixed(g, ctx.n(1000, 40000)))
    bad += ctx.calls("bound", [F.bound_url(g) for _ in range(ctx.n(12, 100))])
    bad += ctx.calls("moving clock", sample(ctx, F.moving_clock(g, "url"), 300))
    bad += ctx.calls("large", F.large(g))
    return bad


# ----------------------------------------------------------------- forms

def c07(ctx):
    g = ctx.gen
    bad = ctx.calls("model: order", ctx.form_model("order", 5 if ctx.deep else 4))
    bad += ctx.calls("model: fields", ctx.form_model("fields"))
    bad += ctx.calls("texts", sample(ctx, F.form_texts(g, False), 2500))
    bad += ctx.calls("texts, signed", sample(ctx, F.form_texts(g, True), 500))
    bad += ctx.calls("numbers", F.form_numbers(g, False))
    bad += ctx.calls("orders", F.form_orders(g, ctx.n(1000, 40000)))
    bad += ctx.calls("large", F.large_forms(g, False) + sample(ctx, F.large_forms(g), 40))
    return bad


def c08(ctx):
    g = ctx.gen
    bad = ctx.calls("model: texts", ctx.form_model("texts"))
    bad += ctx.calls("model: fields", ctx.form_model("fields", 5 if ctx.deep else 4))
    bad += ctx.calls("texts", sample(ctx, F.form_texts(g, True), 3000))
    bad += ctx.calls("numbers", F.form_numbers(g, True))
    bad += ctx.calls("orders", F.form_orders(g, ctx.n(700, 40000)))
    bad += ctx.calls("bound", [F.bound_form(g) for _ in range(ctx.n(12, 100))])
    bad += ctx.calls("moving clock", sample(ctx, F.moving_clock(g, "form"), 150))
    bad += ctx.calls("large", F.large_forms(g))
    return bad


def c09(ctx):
    g = ctx.gen
    bad = ctx.calls("model: order", ctx.form_model("order", 5 if ctx.deep else 4))
    bad += ctx.calls("model: refuse", sample(ctx, ctx.form_model("refuse"), 2000))
    bad += ctx.calls("texts", sample(ctx, F.form_texts(g, True), 800))
    bad += ctx.calls("orders", F.form_orders(g, ctx.n(700, 40000)))
    ks = []
    for name in F.RSA:
        for i in range(ctx.n(8, 60)):
            c = g.any_form(True)
            for s in c["op"]["set"]:
                if s[0] == "signing":
                    s[1]["key"], s[1]["info"] = g.sa(None, name)
            ks.append(c)
    bad += ctx.calls("keys", ks + [F.bound_form(g) for _ in range(ctx.n(12, 100))])
    bad += ctx.calls("refused keys", [c for c in F.invalid(g) + F.unsupported(g)
                                      if c["op"]["op"] == "form"])
    bad += ctx.calls("moving clock", sample(ctx, F.moving_clock(g, "form"), 150))
    bad += ctx.calls("large", sample(ctx, F.large_forms(g), 100))
    return bad


def c10(ctx):
    g = ctx.gen
    ctx.calendar()
    cs = ctx.form_model("refuse", 5 if ctx.deep else 4)
    bad = ctx.calls("model: refuse", sample(ctx, cs, 4000, 60000))
    bad += ctx.calls("times", F.form_times(g))
    bad += ctx.calls("orders", F.form_orders(g, ctx.n(700, 30000)))
    bad += ctx.calls("texts", sample(ctx, F.form_texts(g, True), 600))
    bad += ctx.calls("numbers", F.form_numbers(g, True))
    bad += ctx.calls("refused keys", [c for c in F.invalid(g) + F.unsupported(g)
                                      if c["op"]["op"] == "form"])
    bad += ctx.calls("bound", [F.bound_form(g) for _ in range(ctx.n(12, 100))])
    bad += ctx.calls("moving clock", sample(ctx, F.moving_clock(g, "form"), 600))
    bad += ctx.calls("large", sample(ctx, F.large_forms(g), 40))
    return bad


RECORDERS = {"C17": total.record, "C18": leaks.record}
REPLAY = {"session": T.again, "total": total.again, "keyfile": keyfile.again,
          "leak": leaks.again, "influence": influence.again}
PROPS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07,
         "C08": c08, "C09": c09, "C10": c10, "C16": keyfile.check, "C17": total.check, "C18": leaks.check,
         "C19": influence.check, "C20": c20,
         "C11": T.check, "C12": T.check, "C13": T.check, "C14": T.check, "C15": T.check}
