#!/usr/bin/env python3
"""Decides one property: check.py C01 [--tier quick|thorough] [--replay FILE]

exit 0: held on everything explored; 1: violated (a VIOLATION line, a replay file);
2: the check itself could not be carried out."""
import argparse, json, os, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib, props, selftest


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    work = lib.Work()
    try:
        ctx = props.Context(a.prop, a.tier, seed, work)
        ctx.driver = lib.build()
        if a.replay:
            bad = props.replay(ctx, json.load(open(a.replay)))
        else:
            selftest.check(ctx)
            bad = props.PROPS[a.prop](ctx)
        if a.replay:
            print("replay:", "violated" if bad else "holds")
            return 1 if bad else 0
        known, new = props.split_known(a.prop, bad)
        ctx.coverage["samples"] = ctx.samples[:3]
        write_evidence(ctx, a, seed, t0, len(new))
        for k in known:
            print(f"KNOWN-FINDING: property={a.prop} {k}")
        if new:
            path = props.write_replay(ctx, new)
            print(f"{len(new)} rejected; first: {json.dumps(new[0].get('show', ''))[:1500]}")
            print(f"VIOLATION property={a.prop} replay={path}")
            return 1
        print(f"{a.prop}: held ({a.tier}, seed {seed}): {json.dumps(ctx.summary())}"
              f" in {time.time() - t0:.1f} s")
        return 0
    except lib.ToolError as e:
        print(f"{a.prop}: check failed: {e}", file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        work.close()


def write_evidence(ctx, a, seed, t0, violations):
    os.makedirs(os.path.join(lib.VERIF, "evidence"), exist_ok=True)
    ev = {"property": a.prop, "tier": "thorough" if a.tier == "thorough" else "quick", "seed": seed,
          "level": "model_checking", "coverage": ctx.coverage,
          "assumptions": props.ASSUMPTIONS + ctx.assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": violations}
    with open(os.path.join(lib.VERIF, "evidence", f"{a.prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    sys.exit(main())
