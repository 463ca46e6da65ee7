"""C11-C15: bound-token keys. The model BoundToken is checked against the observer TokenSource, its
behaviours are replayed in the real code under a scripted server, and what was recorded there, and in
random and systematic sessions, is shown to the same observer (TraceToken)."""
import json, os, re, time
import bound as B
import lib

BASE = {"Sources": '{"a"}', "CallIds": "{1, 2}", "MaxReqs": 7, "Ticks": "{29, 30, 31}", "MaxTicks": 2,
        "SplitAnswers": "FALSE", "Eager": "TRUE", "Record": "FALSE", "MaxEnv": 0, "Cancels": "TRUE",
        "BadCalls": "{}", "Bug": '""', "Target": '"any"'}
SAFE = ["TypeOK", "Explained", "OneRefresh", "LockHeld", "CacheSeen", "NoLeft", "Stuck"]
SCHED = re.compile(r'<<"SCHED", "(.*)">>')

# deliberate mistakes in the model, which the observer has to object to for the property's sake
MUTANTS = {
    "C11": ["margin0", "margin29", "notstrict", "nevertire", "margin60", "nocache"],
    "C12": ["nolock", "nocache", "margin60", "sharedcache"],
    "C13": ["usebad", "leaklock", "poison"],
    "C14": ["acct2", "usebad", "earlycache"],
    "C15": ["usebad", "earlycache"],
}
STUCK = {"leaklock", "poison"}


def cfg(ctx, name, consts, invariants, answers, spec="SafeSpec", extra=""):
    path = ctx.work.path(f"bt-{name}.cfg")
    with open(path, "w") as f:
        f.write(f"SPECIFICATION {spec}\nINVARIANTS {' '.join(invariants)}\n"
                f"CONSTANT Answers <- {answers}\nCHECK_DEADLOCK FALSE\n{extra}\n")
        for k, v in dict(BASE, **consts).items():
            f.write(f"CONSTANT {k} = {v}\n")
    return path


def model(ctx, name, consts, invariants=SAFE, answers="FewAnswers", spec="SafeSpec", extra="",
          timeout=600):
    t = time.time()
    rc, out, st = lib.tlc("MCBoundToken", cfg=cfg(ctx, name, consts, invariants, answers, spec, extra),
                          work=ctx.work, timeout=timeout, heap="12g")
    if rc != 0 or "No error" not in out:
        raise lib.ToolError(f"model BoundToken {name} ended with {rc}:\n" + out[-4000:])
    count(ctx, "BoundToken: " + name, st, t)


def count(ctx, name, st, t):
    ctx.coverage["models"][name] = {"distinct_states": st["distinct"], "transitions": st["generated"],
                                    "depth": st["depth"], "wall_s": round(time.time() - t, 1)}
    ctx.coverage["states"] += st["distinct"]
    ctx.coverage["transitions"] += st["generated"]


def mutants(ctx):
    """A specification that cannot object is no specification: exit 2 when one goes unnoticed."""
    for bug in MUTANTS[ctx.prop]:
        t = time.time()
        consts = {"Bug": f'"{bug}"', "Target": f'"{ctx.prop}"'}
        if bug == "sharedcache":
            consts.update(Sources='{"a", "b"}', MaxTicks=0, Cancels="FALSE")
        inv = "Stuck" if bug in STUCK else "Unharmed"
        rc, out, st = lib.tlc("MCBoundToken", cfg=cfg(ctx, bug, consts, [inv], "MCAnswers"),
                              work=ctx.work, timeout=300)
        if f"Invariant {inv} is violated" not in out:
            raise lib.ToolError(f"the observer does not object to {bug}:\n" + out[-3000:])
        count(ctx, f"mistake {bug}: objected", st, t)


def models(ctx):
    p = ctx.prop
    if p == "C11":
        model(ctx, "2 calls", {"Cancels": "FALSE"}, answers="MCAnswers")
        if ctx.deep:
            model(ctx, "3 calls", {"CallIds": "{1, 2, 3}", "Ticks": "{30, 31}", "MaxReqs": 9,
                                   "Cancels": "FALSE"}, answers="MCAnswers")
            model(ctx, "2 calls, 3 ticks", {"MaxTicks": 3}, answers="MCAnswers")
    elif p == "C12":
        model(ctx, "2 calls, 2 sources", {"Sources": '{"a", "b"}', "Ticks": "{31}", "MaxTicks": 1})
        model(ctx, "3 calls", {"CallIds": "{1, 2, 3}", "Ticks": "{31}", "MaxTicks": 1, "MaxReqs": 8})
        if ctx.deep:
            model(ctx, "2 calls, 2 sources, any order", {"Sources": '{"a", "b"}', "Eager": "FALSE",
                                                         "Ticks": "{31}", "MaxTicks": 1}, timeout=1800)
            model(ctx, "3 calls, 2 sources", {"Sources": '{"a", "b"}', "CallIds": "{1, 2, 3}",
                                              "Ticks": "{31}", "MaxTicks": 1, "MaxReqs": 8}, timeout=1800)
            model(ctx, "4 calls", {"CallIds": "{1, 2, 3, 4}", "Ticks": "{31}", "MaxTicks": 1,
                                   "MaxReqs": 8, "Cancels": "FALSE"}, timeout=1800)
    elif p == "C13":
        model(ctx, "calls end", {"MaxReqs": 10, "Ticks": "{31}", "MaxTicks": 1}, ["TypeOK"],
              spec="Spec", extra="PROPERTY Ends")
        model(ctx, "any order", {"Eager": "FALSE", "Ticks": "{31}", "MaxTicks": 1})
        if ctx.deep:
            model(ctx, "calls end, 3", {"CallIds": "{1, 2, 3}", "MaxReqs": 14, "Ticks": "{31}",
                                        "MaxTicks": 0}, ["TypeOK"],
                  spec="Spec", extra="PROPERTY Ends", timeout=2400)
            model(ctx, "3 calls, any order", {"CallIds": "{1, 2, 3}", "Eager": "FALSE", "Ticks": "{31}",
                                              "MaxTicks": 1, "MaxReqs": 8}, timeout=2400)
    elif p == "C14":
        model(ctx, "2 calls, 1 invalid", {"BadCalls": "{1}", "Ticks": "{31}"})
        model(ctx, "2 calls", {"Ticks": "{30, 31}"})
        if ctx.deep:
            model(ctx, "3 calls, 1 invalid", {"CallIds": "{1, 2, 3}", "BadCalls": "{2}",
                                              "Ticks": "{31}", "MaxReqs": 9}, timeout=1800)
    else:
        model(ctx, "2 calls, 2 sources", {"Sources": '{"a", "b"}', "Ticks": "{31}", "MaxTicks": 1,
                                          "Cancels": "FALSE"})
        model(ctx, "2 calls", {"Ticks": "{31}"}, answers="MCAnswers")
        if ctx.deep:
            model(ctx, "3 calls", {"CallIds": "{1, 2, 3}", "Ticks": "{31}", "MaxReqs": 9,
                                   "MaxTicks": 1}, timeout=1800)


def schedules(ctx, name, consts, answers="FewAnswers", simulate=0, seed=0):
    """Behaviours of the model, as what its environment does in them."""
    consts = dict({"Record": "TRUE", "MaxReqs": 40}, **consts)
    t = time.time()
    args = ["-simulate", f"num={simulate}", "-depth", "400", "-seed", str(seed)] if simulate else []
    rc, out, st = lib.tlc("MCBoundToken", cfg=cfg(ctx, name.replace(" ", ""), consts,
                                                  ["Explained", "Emit"], answers),
                          work=ctx.work, args=args, workers=1 if simulate else None, timeout=600)
    if rc != 0:
        raise lib.ToolError(f"schedules {name} ended with {rc}:\n" + out[-3000:])
    got = sorted({x.replace('\\"', '"') for x in SCHED.findall(out)})
    if not got:
        raise lib.ToolError(f"schedules {name}: none")
    count(ctx, "schedules: " + name, st, t)
    ctx.coverage["models"]["schedules: " + name]["schedules"] = len(got)
    return [json.loads(x) for x in got]


def bad_of(consts):
    return {int(x) for x in re.findall(r"\d+", consts.get("BadCalls", ""))}


def run(ctx, name, sessions):
    """Runs the sessions in the real code and shows them to the observer."""
    from props import short
    t = time.time()
    rec = lib.drive(ctx.driver, sessions, ctx.work)
    sessions = [s for s in sessions if rec[s["sid"]][:1] != [{"e": "skipped"}]]
    t1 = time.time()
    faults, st = B.judge(ctx, sessions, rec)
    n = {}
    for s in sessions:
        for e in rec[s["sid"]]:
            k = e["e"] if e["e"] != "ret" else "ret-" + e["res"]["kind"]
            n[k] = n.get(k, 0) + 1
    ctx.coverage["conformance"][name] = {
        "sessions": len(sessions), "events": n, "rejected": sum(1 for f in faults if f[3]),
        "faults": sorted({" ".join(f[2]) + f"@{f[1]}" for f in faults if not f[3]})[:8], "drive_s": round(t1 - t, 1), "judge_s": round(time.time() - t1, 1)}
    ctx.coverage["states"] += st["distinct"]
    ctx.coverage["transitions"] += st["generated"]
    ctx.coverage["traces_validated_against_impl"] += len(sessions)
    if sessions and len(ctx.samples) < 3:
        s = sessions[ctx.gen.r.randrange(len(sessions))]
        ctx.samples.append({"family": name, "session": short(s.get("steps", s.get("ops"))),
                            "recorded": short([e["e"] for e in rec[s["sid"]]])})
    out = []
    for i, pos, tags, rejected in faults:
        if not rejected:
            continue
        s = sessions[i]
        evs = rec[s["sid"]]
        if s["s"] == "conc":
            evs = B.in_order(s, evs)[1]
        evs = [e for e in evs if e["e"] != "source"]
        out.append({"kind": "session", "family": name, "session": s, "breaks": tags,
                    "event": pos, "recorded": evs[:pos],
                    "show": {"family": name, "breaks": tags, "event": pos,
                             "what": short(evs[pos - 1] if pos <= len(evs) else evs[-1:])}})
    return out


def again(ctx, r):
    return run(ctx, "replay", [r["session"]])


EXHAUSTIVE = {
    "C11": [("2 calls, clock", {"MaxEnv": 8, "Ticks": "{29, 30, 31}", "MaxTicks": 2,
                                "CallIds": "{1, 2}", "Cancels": "FALSE"}, "GoodAnswers"),
            ],
    "C12": [("3 calls", {"MaxEnv": 6, "Ticks": "{}", "CallIds": "{1, 2, 3}", "MaxTicks": 0,
                         "Cancels": "FALSE"}, "SimpleAnswers"),
            ("2 sources", {"MaxEnv": 6, "Ticks": "{}", "Sources": '{"a", "b"}', "MaxTicks": 0,
                           "Cancels": "FALSE"}, "SimpleAnswers")],
    "C13": [("2 calls, dropped", {"MaxEnv": 5, "Ticks": "{}", "MaxTicks": 0}, "SimpleAnswers"),
            ("2 calls, split", {"MaxEnv": 5, "Ticks": "{}", "MaxTicks": 0, "SplitAnswers": "TRUE"},
             "SimpleAnswers")],
    "C14": [("2 calls", {"MaxEnv": 7, "Ticks": "{31}", "MaxTicks": 1, "Cancels": "FALSE",
                         "BadCalls": "{1}"}, "GoodAnswers")],
    "C15": [("2 calls, failures", {"MaxEnv": 6, "Ticks": "{}", "MaxTicks": 0, "Cancels": "FALSE"},
             "FewAnswers")],
}

SIMULATED = {
    "C11": {"MaxEnv": 16, "CallIds": "{1, 2, 3, 4}", "Ticks": "{29, 30, 31}", "MaxTicks": 4},
    "C12": {"MaxEnv": 16, "CallIds": "{1, 2, 3, 4, 5}", "Ticks": "{31}", "MaxTicks": 1,
            "Sources": '{"a", "b"}'},
    "C13": {"MaxEnv": 14, "CallIds": "{1, 2, 3, 4}", "Ticks": "{31}", "MaxTicks": 1,
            "SplitAnswers": "TRUE"},
    "C14": {"MaxEnv": 16, "CallIds": "{1, 2, 3, 4}", "Ticks": "{31}", "MaxTicks": 3,
            "BadCalls": "{2}"},
    "C15": {"MaxEnv": 14, "CallIds": "{1, 2, 3}", "Ticks": "{31}", "MaxTicks": 1,
            "Sources": '{"a", "b"}', "SplitAnswers": "TRUE"},
}


def check(ctx):
    g, p = ctx.gen, ctx.prop
    models(ctx)
    mutants(ctx)
    for family in families(ctx, g, p):
        bad = run(ctx, *family)
        if bad:
            return bad
    return []


def families(ctx, g, p):
    for name, consts, ans in EXHAUSTIVE[p]:
        consts = dict(consts, MaxEnv=consts["MaxEnv"] + (1 if ctx.deep else 0))
        envs = schedules(ctx, name, consts, ans)
        cap = ctx.n(250, 6000)
        if len(envs) > cap:
            envs = g.r.sample(envs, cap)
        yield ("model: " + name,
               [B.from_schedule(g, f"m{name}{i}", e, bad_of(consts)) for i, e in enumerate(envs)])
    consts = SIMULATED[p]
    envs = schedules(ctx, "simulated", consts, "MCAnswers", simulate=ctx.n(250, 5000),
                     seed=g.r.randrange(10**9))
    yield ("model: simulated",
           [B.from_schedule(g, f"s{i}", e, bad_of(consts)) for i, e in enumerate(envs)])
    if p == "C11":
        yield "distances", B.boundary_sessions(g, "b")
    if p in ("C11", "C13", "C15"):
        yield "failed refreshes", B.warm_sessions(g, "f", ctx.n(250, 3000))
    if p in ("C13", "C14", "C15"):
        yield "answers", B.answer_sessions(g, "a")
    if p != "C11":
        yield "repeats", B.repeat_sessions(g, "q", ctx.n(60, 2000))
    if p in ("C11", "C12", "C13"):
        yield "parallel", [B.parallel_session(g, f"p{i}") for i in range(ctx.n(100, 4000))]
    if p in ("C12", "C13", "C14"):
        yield "crowds", B.crowd_sessions(g, "w", ctx.n(60, 1500))
    if p in ("C11", "C12", "C13"):
        yield "long", B.long_sessions(g, "l", ctx.n(24, 500))
    yield "random", [B.random_session(g, f"r{i}") for i in range(ctx.n(400, 8000))]
