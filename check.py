#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]

exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed."""
import argparse, json, os, random, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import lib, plans
from lib import ToolError

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--no-model", action="store_true")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    plan = plans.PLANS[a.pid]
    scope = plan["scope"]
    if a.tier == "quick" and "quick_variants" in plan:
        keep = plan["quick_variants"]
        plan = dict(plan, variants=keep, batches=[b for b in plan["batches"] if b["variants"][0] in keep])
    with lib.Scratch() as scratch:
        if a.replay:
            return do_replay(a, scope, scratch)
        deadline = t0 + (540 if a.tier == "quick" else 780)
        ctx = plans.Ctx(a.pid, a.tier, a.seed, scratch)
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(4) as ex:
            # the models are checked while the harness is built
            fb = ex.submit(lib.build, plan["variants"])
            models = [f.result() for f in [ex.submit(m, ctx) for m in plan["models"]
                                           if not a.no_model or getattr(m, "graph", False)]]
            bins = fb.result()
        violations, events, nscen, by_event = [], 0, 0, {}
        st = {"states": sum(m["states"] for m in models), "transitions": sum(m["transitions"] for m in models)}
        tst = {"states": 0, "transitions": 0}
        batches, sample = [], None
        for b in plan["batches"]:
            if time.time() > deadline:
                break
            scens = b["gen"](ctx)
            for v in b.get("variants", plan["variants"]):
                if bins[v] is None:
                    batches.append({"batch": b["name"], "nodes": v, "skipped": "does not build"})
                    continue
                r = lib.replay(bins[v], v, scens, scope, scratch, deadline=deadline,
                               max_weight=b.get("weight", 6000))
                violations += r.violations
                events += r.events
                nscen += r.scenarios
                for k, c in r.by_event.items():
                    by_event[k] = by_event.get(k, 0) + c
                for k in tst:
                    tst[k] += r.stats[k]
                batches.append({"batch": b["name"], "nodes": v, "scenarios": r.scenarios, "events": r.events})
                sample = sample or r.sample
            if violations:
                break
        rep = None
        if violations:
            rep = write_replay(a.pid, violations)
        ev = {
            "property": a.pid, "tier": a.tier, "seed": a.seed, "level": "model_checking",
            "coverage": {
                "states": st["states"] + tst["states"],
                "transitions": st["transitions"] + tst["transitions"],
                "traces_validated_against_impl": nscen,
                "samples": [{"recorded_events": sample or []}] + ctx.samples[:3],
                "models": models, "walks": ctx.cover, "batches": batches, "trace_events": events,
                "events_by_kind": by_event, "scope_tags": scope,
                "explanation": plan["note"],
            },
            "assumptions": plans.ASSUMPTIONS,
            "wall_s": round(time.time() - t0, 1), "violations": len(violations),
        }
        os.makedirs(lib.EVID, exist_ok=True)
        with open(os.path.join(lib.EVID, a.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d scenarios, %d events, %d model states, %.1f s" %
              (a.pid, a.tier, nscen, events, st["states"], time.time() - t0))
        if violations:
            for s, tags, ln, v in violations[:5]:
                print("  scenario %s (%s nodes): %s at %s" % (s.id, v, ",".join(tags), ln[:300]))
            print("VIOLATION property=%s replay=%s" % (a.pid, rep))
            return 1
        if nscen == 0:
            raise ToolError("nothing was executed")
        return 0

def write_replay(pid, violations):
    d = os.path.join(lib.EVID, "replay")
    os.makedirs(d, exist_ok=True)
    violations = sorted(violations, key=lambda x: len(x[0].lines))
    s, tags, ln, v = violations[0]
    p = os.path.join(d, pid + ".json")
    with open(p, "w") as f:
        json.dump({"property": pid, "nodes": v, "tags": tags, "event": ln, "scenario": s.id,
                   "script": s.lines,
                   "how": "python3 check.py %s --replay %s" % (pid, os.path.relpath(p, lib.ROOT)),
                   "also": [[x[0].id, x[1], x[3]] for x in violations[1:20]]}, f, indent=1)
    return p

def do_replay(a, scope, scratch):
    with open(a.replay) as f:
        r = json.load(f)
    bins = lib.build([r["nodes"]])
    plans.prepare_fixtures(scratch)
    s = lib.Scenario(r["scenario"], r["script"])
    res = lib.replay(bins[r["nodes"]], r["nodes"], [s], scope, scratch, pool=1)
    for s, tags, ln, v in res.violations:
        print("scenario %s: %s at %s" % (s.id, ",".join(tags), ln[:2000]))
    if res.violations:
        print("VIOLATION property=%s replay=%s" % (a.pid, a.replay))
        return 1
    return 0

if __name__ == "__main__":
    try:
        rc = main()
    except ToolError as e:
        print("check failed: %s" % e, file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
