#!/usr/bin/env python3-vt
"""Decides one property: generates and discharges the obligations of every function under contract that the property
depends on, from the current source of /repo.   check.py <property> [--only FUNC] [-v]"""
import hashlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import zfix


def env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off")
    return e


def front(tmp):
    b = os.path.join(VERIF, "bin", "ssajson")
    if not os.path.exists(b):
        os.makedirs(os.path.dirname(b), exist_ok=True)
        subprocess.run(["go", "build", "-o", b, "."], cwd=os.path.join(VERIF, "frontend"), env=env(), check=True)
    out = os.path.join(tmp, "ssa.json")
    e = env()
    e["GOFLAGS"] = "-mod=readonly"
    r = subprocess.run([b, "-dir", os.path.join(REPO, "1pass-app"), "-o", out, "github.com/mashmb/1pass/..."], env=e, capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        print("front end failed (the tree does not build?):\n" + r.stdout + r.stderr)
        sys.exit(2)
    return out


def load(tmp, prop):
    import prog, terms, exec as E, spec, models, graph
    p = prog.Program(front(tmp))
    spec.install_models()
    m = models.Models()
    ex = E.Exec(p, None, m, None)
    g = graph.Graph(p)
    g.build(ex)
    sp = spec.Specs(p)
    for f in sorted(os.listdir(os.path.join(VERIF, "contracts"))):
        if f.endswith(".spec"):
            sp.load(os.path.join(VERIF, "contracts", f))
    sp.resolve(g)
    sp.prop = prop
    ex.contracts = sp
    m.specs = sp
    m.used = set()
    return p, ex, g, sp


def run_one(args):
    target, again = args if isinstance(args, tuple) else (args, False)
    import spec, terms as T, models
    ex, sp = G["ex"], G["sp"]
    c = sp.contracts[target]
    t0 = time.time()
    for k in T.STATS:
        T.STATS[k] = 0
    ex.paths = 0
    if again:
        # second attempt of a function some of whose obligations were not decided in time
        T.SCALE, T.SEED = 3, 17
        ex.maxfail = 2
    try:
        rep = spec.verify(ex, c.fn, c)
    except Exception as e:
        # a construct the executor has no rule for: the obligations of this function cannot be generated
        import traceback
        return {"target": target, "fn": c.fn.name, "pos": c.fn.pos, "obls": [{"kind": "unsupported", "what": "the function is within the verifier's reach: %r" % e, "pos": c.fn.pos,
                "res": "unknown", "goal": traceback.format_exc()[-1500:], "path": []}], "called": [], "paths": 0, "time": time.time() - t0, "solver": T.STATS["time"],
                "queries": T.STATS["queries"], "trusted": sorted(ex.models.used), "assumed": sorted(ex.assumed), "loops": 0, "cvc5": T.STATS["cvc5"], "z3": T.STATS["z3"]}
    return {"target": target, "fn": c.fn.name, "pos": c.fn.pos, "obls": rep.obls, "called": [sp.for_fn(n).target for n in rep.called], "paths": rep.paths,
            "time": time.time() - t0, "solver": T.STATS["time"], "queries": T.STATS["queries"], "trusted": sorted(ex.models.used),
            "assumed": sorted(ex.assumed), "loops": getattr(ex, "loops_done", 0), "cvc5": T.STATS["cvc5"], "z3": T.STATS["z3"]}


G = {}
CAP = 330        # seconds for one attempt at one function
DEADLINE = time.time() + 800


def child(conn, task):
    import terms
    terms.FORKED[0] = True
    try:
        conn.send(run_one(task))
    except BaseException as e:
        try:
            conn.send(gone(task, repr(e)))
        except BaseException:
            pass
    conn.close()
    os._exit(0)


def gone(task, why):
    t = task[0] if isinstance(task, tuple) else task
    c = G["sp"].contracts[t]
    return {"target": t, "fn": c.fn.name, "pos": c.fn.pos, "obls": [{"kind": "unsupported", "what": "the obligations of this function were decided: " + why, "pos": c.fn.pos,
            "res": "unknown", "goal": why, "path": []}], "called": [], "paths": 0, "time": 0.0, "solver": 0.0, "queries": 0, "trusted": [], "assumed": [], "loops": 0, "cvc5": 0, "z3": 0}


def run_tasks(todo, done, procs, cap):
    """one process per function (forked from this single-threaded one); a process that dies or gets stuck costs only itself"""
    from multiprocessing.connection import wait
    ctx = mp.get_context("fork")
    queue, live, tries = list(todo), {}, {}
    while queue or live:
        while queue and len(live) < procs:
            t = queue.pop(0)
            r, w = ctx.Pipe(False)
            pr = ctx.Process(target=child, args=(w, t))
            sys.stdout.flush()
            pr.start()
            w.close()
            live[r] = (t, pr, time.time())
        for r in wait(list(live), 0.5):
            t, pr, t0 = live.pop(r)
            try:
                res = r.recv()
            except (EOFError, OSError):
                tries[t] = tries.get(t, 0) + 1
                res = None if tries[t] < 2 else gone(t, "the verifier process died")
            r.close()
            pr.join()
            if res is None:
                queue.append(t)
            else:
                queue += done(res)
        for r, (t, pr, t0) in list(live.items()):
            if time.time() - t0 > cap or time.time() > DEADLINE:
                pr.kill()
                pr.join()
                r.close()
                del live[r]
                queue += done(gone(t, "no answer after %d s" % (time.time() - t0)))


DELEGATED = []
EARLY = []


def roots(sp, prop):
    res = roots0(sp, prop)
    for t in res:
        home = [f[9:] for f in sp.contracts[t].flags if f.startswith("provedin:")]
        if home and prop not in home:
            DELEGATED.append("the contract of %s is discharged by check %s, not again here" % (t, home[0]))
    return [t for t in res if not any(f.startswith("provedin:") and f[9:] != prop for f in sp.contracts[t].flags)]


def roots0(sp, prop):
    return [t for t, c in sp.contracts.items() if prop in c.props and c.fn is not None and not c.inline and not getattr(c, "same", None)]


def decide(prop, tmp, only=None, verbose=False, procs=8):
    p, ex, g, sp = load(tmp, prop)
    G.update(ex=ex, sp=sp, p=p, g=g)
    todo = roots(sp, prop) if not only else list(only)
    seen, reps = set(todo) | set(roots0(sp, prop)), []
    fails = []
    for t in sp.missing:
        c = sp.contracts[t.split(" ")[0]]
        if prop in c.props and "helper" not in c.flags:
            fails.append({"target": t, "kind": "contract", "what": "the function this contract is for exists", "pos": "", "res": "unknown"})
    inits = []
    import spec, terms as T
    def done(r):
        reps.append(r)
        if verbose:
            show(r)
        new = []
        if not only:
            for t in r["called"]:
                if t not in seen:
                    seen.add(t)
                    home = [f[9:] for f in sp.contracts[t].flags if f.startswith("provedin:")]
                    if home and prop not in home:
                        DELEGATED.append("the contract of %s is discharged by check %s, not again here" % (t, home[0]))
                    else:
                        new.append(t)
        return new

    run_tasks(todo, done, procs, CAP)
    if not only:
        again = [r for r in reps if any(o["res"] != "proved" for o in r["obls"])]
        if again and not EARLY:
            # a failing input of the real code decides it; without one the obligations are tried again
            import replay
            found, log = replay.replay(prop, int(os.environ.get("VERIF_SEED", "1") or 1), 20)
            if found:
                EARLY.append((found, log))
        if len(again) <= 6 and not EARLY:
            for r in again:
                reps.remove(r)
            run_tasks([(r["target"], True) for r in again], done, procs, CAP)
    # the global invariants hold when the program starts (nothing is forked from here on)
    T.FORKED[0] = True
    if sp.invs:
        reps.append(init_invs(ex, g, sp, prop))
        if verbose:
            show(reps[-1])
    reps.sort(key=lambda r: r["target"])
    for r in reps:
        for o in r["obls"]:
            if o["res"] != "proved":
                fails.append(dict(o, target=r["target"], fn=r["fn"]))
    return reps, fails, sp, g


def init_invs(ex, g, sp, prop):
    import spec, terms as T
    import time
    t0 = time.time()
    ex.obls = []
    save = ex.top0, ex.prefix, ex.basecache
    n = 0
    for nm, cl in sp.invs.items():
        if not cl.active(prop):
            continue
        for st in g.states:
            s = st.fork()
            try:
                f = spec.Ev(ex, s, None, {}).boolean(cl.ast)
                ex.pos = "1pass-app/main.go"
                ex.prove(s, f, "inv", "%s holds when the program starts: %s" % (nm, cl.src))
            except Exception as e:
                ex.record(None, "unsupported", "%s at start: %r" % (nm, e), "unknown", 0)
    return {"target": "main (initial state)", "fn": "main", "pos": "", "obls": ex.obls, "called": [], "paths": len(g.states), "time": time.time() - t0, "solver": 0.0,
            "queries": len(ex.obls), "trusted": [], "assumed": [], "loops": 0, "cvc5": 0, "z3": 0}


def show(r):
    bad = [o for o in r["obls"] if o["res"] != "proved"]
    print("%-45s %4d obligations %4d paths %6.1fs  %s" % (r["target"], len(r["obls"]), r["paths"], r["time"], "ok" if not bad else "%d FAILED" % len(bad)), flush=True)
    for o in bad[:12]:
        print("    [%s] %s: %s  (%s)" % (o["res"], o["kind"], o["what"][:400], o["pos"]))
        if os.environ.get("SHOWGOAL") and "goal" in o:
            print("        goal:", o["goal"][:3000].replace("\n", " "))
            for h in o["path"]:
                print("        hyp:", h.replace("\n", " "))


BASE = ["z3 (in-process %s and command line) and cvc5 answer unsat only for unsatisfiable queries",
        "go/ssa (golang.org/x/tools) represents /repo's source faithfully; the front end /verif/frontend dumps all of it",
        "the symbolic executor /verif/engine implements go/ssa (checked against the real program by the replay harness in the thorough tier)"]
ASSUME = ["int, int64, uint64 and float64 are treated as mathematical numbers (no wrap-around, no rounding), except where a conversion or a parse function makes the range explicit",
          "one goroutine: 'go f()' is executed as a call at that place",
          "append to a slice that is a whole window copies; the program never relies on spare capacity being shared"]


def evidence(prop, tier, seed, reps, fails, wall, extra):
    import z3
    obls = [o for r in reps for o in r["obls"]]
    ok = [o for o in obls if o["res"] == "proved"]
    kinds = {}
    for o in obls:
        k = kinds.setdefault(o["kind"], [0, 0])
        k[0] += 1
        k[1] += o["res"] == "proved"
    trusted = sorted({t for r in reps for t in r["trusted"]})
    assumed = sorted({t for r in reps for t in r["assumed"]})
    cov = {"obligations": len(obls), "discharged": len(ok), "checker_cmd": "python3-vt engine/check.py %s" % prop,
           "trusted_base": [BASE[0] % z3.get_version_string()] + BASE[1:] + ["model of " + t for t in trusted],
           "functions_under_contract": [{"contract": r["target"], "function": r["fn"], "at": r["pos"], "obligations": len(r["obls"]), "paths": r["paths"],
                                          "seconds": round(r["time"], 2)} for r in reps],
           "obligations_by_kind": {k: {"generated": v[0], "discharged": v[1]} for k, v in sorted(kinds.items())},
           "back_ends": {"z3": sum(r["z3"] for r in reps), "cvc5": sum(r["cvc5"] for r in reps)},
           "solver_seconds": round(sum(r["solver"] for r in reps), 2), "solver_queries": sum(r["queries"] for r in reps)}
    cov.update(extra)
    level = "proof"
    if "bounded" in extra:
        level = "other"
        cov["explanation"] = "proved: the obligations above, for all inputs. Bounded, not proved: " + "; ".join("%s (%s)" % x for x in sorted(extra["bounded"].items()))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": ASSUME + DELEGATED + ["assumed at " + a for a in assumed], "wall_s": round(wall, 2), "violations": 1 if fails else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)


def report(prop, fails, tier, seed):
    """the VIOLATION line, with the replay of the failed obligations"""
    import replay
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, prop + ".txt")
    found, log = EARLY[0] if EARLY else replay.replay(prop, seed, 60 if tier == "quick" else 200)
    with open(path, "w") as f:
        f.write("property %s: %d obligations generated from /repo's current source were not discharged\n\n" % (prop, len(fails)))
        if found:
            f.write("FAILING INPUT (real code, built from /repo's current tree):\n%s\n\nreproduce: VERIF_SEED=%d python3-vt /verif/engine/replay.py %s 60\n\n" % (found, seed, prop))
        for o in fails[:30]:
            f.write("obligation %s of %s (%s): %s\n  verifier: %s\n" % (o["kind"], o.get("fn", o["target"]), o["pos"], o["what"], o["res"]))
            if "goal" in o:
                f.write("  goal: %s\n" % o["goal"])
                for h in o.get("path", []):
                    f.write("    given: %s\n" % h)
        if not found:
            f.write("\nno failing input found by the replay harness:\n" + log)
    for o in fails[:8]:
        print("failed obligation: %s of %s (%s): %s [%s]" % (o["kind"], o.get("fn", o["target"]), o["pos"], o["what"][:300], o["res"]))
    if found:
        print("failing input: " + found[:2000])
    print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if found else " no-failing-input-found"), flush=True)


def known(prop, fails):
    """findings listed in known_findings.txt: 'known: property=<id> <obligation text>' """
    out, kf = [], []
    p = os.path.join(VERIF, "known_findings.txt")
    for l in open(p).read().split("\n") if os.path.exists(p) else []:
        if l.startswith("known: property=%s " % prop):
            kf.append(l.split(" ", 2)[2].strip())
    rest = []
    for o in fails:
        hit = [k for k in kf if k == "%s of %s: %s" % (o["kind"], o["target"], o["what"])]
        if hit:
            out.append(hit[0])
        else:
            rest.append(o)
    return sorted(set(out)), rest


if __name__ == "__main__":
    import argparse
    import tempfile
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--only", action="append")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--loops", action="store_true")
    a = ap.parse_args()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import exec as E
    if tier == "thorough":
        E.Exec.LIMITS = ((1500, 2), (20000, 3), (20000, 4))
    if a.loops:
        import loops
        loops.DEBUG = True
    t0 = time.time()
    with tempfile.TemporaryDirectory(prefix="verif") as tmp:
        reps, fails, sp, g = decide(a.prop, tmp, a.only, a.v)
    print("%s: %d functions under contract, %d obligations, %d discharged, %d failed" % (
        a.prop, len(reps), sum(len(r["obls"]) for r in reps), sum(len([o for o in r["obls"] if o["res"] == "proved"]) for r in reps), len(fails)))
    if a.only:
        sys.exit(0)
    kn, fails = known(a.prop, fails)
    for k in kn:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k))
    extra = {}
    if not reps or not any(r["obls"] for r in reps):
        fails.append({"target": a.prop, "kind": "contract", "what": "at least one function is under contract", "pos": "", "res": "unknown"})
    found = None
    bnd = {c.target: c.bounded for c in sp.contracts.values() if c.bounded and a.prop in c.props}
    if not fails and (tier == "thorough" or bnd):
        import re, replay
        budget = 120 if tier == "thorough" else 25
        found, log = replay.replay(a.prop, seed, budget)
        n = re.search(r"ROUNDS (\d+)", log)
        if not found and not n:
            fails.append({"target": a.prop, "kind": "bounded", "what": "the bounded check ran: " + log[-1500:], "pos": "", "res": "unknown"})
        extra["replay_harness"] = "no disagreement" if not found else "disagreement: " + found[:500]
        if bnd:
            extra["bounded"] = {t: "%s; %s random cases in %d s with seed %d" % (w, n.group(1) if n else "no", budget, seed) for t, w in bnd.items()}
        if found:
            print("failing input of the %s check" % ("bounded" if bnd else "replay"))
            fails.append({"target": a.prop, "kind": "bounded" if bnd else "replay", "what": found[:2000], "pos": "", "res": "refuted"})
    evidence(a.prop, tier, seed, reps, fails, time.time() - t0, extra)
    if fails:
        report(a.prop, fails, tier, seed)
        sys.exit(1)
    sys.exit(0)
