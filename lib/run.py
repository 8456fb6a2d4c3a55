"""bin/check ID [quick|thorough]: decide one property.

1. TLC explores the property's bounded models exhaustively (step properties of
   spec/Props.tla on every transition).
2. TLC generates behaviours of those models; each is replayed into the real
   program, built from /repo's current tree.
3. Seeded random environments drive the real program further.
4. Every execution recorded in 2 and 3 is checked against the specification
   by TLC (spec/Trace.tla).  A rejection is reported after a re-run of the
   same environment is rejected too.
"""
import json, os, random, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor
from multiprocessing import get_context
import build, tlc

VERIF = build.VERIF
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")


def rnd_for(*parts):
    return random.Random(":".join(str(p) for p in parts))


def _job(j):
    """run one environment in the real program -> trace"""
    import profiles
    t0 = time.time()
    try:
        p = profiles.PROFILES[j["property"]]
        if j["kind"] == "beh":
            t = p.scenario(j["sc"]).replay(j["beh"])
        else:
            f = p.load(j["load"])
            t = f(rnd_for(j["property"], j["load"], j["seed"], j["k"]), j["tier"])
        t["wall"] = time.time() - t0
        return t
    except Exception:
        return {"error": traceback.format_exc(), "ev": []}


def pool_run(jobs, procs=8):
    if not jobs:
        return []
    with get_context("fork").Pool(min(procs, len(jobs))) as p:
        return p.map(_job, jobs, chunksize=1)


class Runner:
    """runs batches of environments in the background"""

    def __init__(self, procs=8):
        self.pool = get_context("fork").Pool(procs)

    def start(self, batch):
        return batch, self.pool.map_async(_job, batch, chunksize=1)

    def close(self):
        self.pool.terminate()
        self.pool.join()


def label(j):
    return "%s #%s" % ((j["sc"], j["k"]) if j["kind"] == "beh" else (j["load"], j["k"]))


def strip(t):
    keep = ("cfg", "live", "ev", "name", "x")
    return {k: t[k] for k in keep if k in t}


def verdicts(p, traces, timeout):
    by = {}
    for i, t in enumerate(traces):
        by.setdefault(t.get("module", p.trace_module), []).append(i)
    acc, rej, states, trans = {}, {}, 0, 0
    for mod, idx in by.items():
        r = tlc.check_traces([strip(traces[i]) for i in idx], module=mod, timeout=timeout)
        states += r["states"]
        trans += r["transitions"]
        for k, v in r["accepted"].items():
            acc[idx[k]] = v
        for k, v in r["rejected"].items():
            rej[idx[k]] = v
    return acc, rej, states, trans


def known_for(pid):
    try:
        with open(KNOWN) as f:
            return [x for x in json.load(f)["findings"] if x["property"] == pid]
    except OSError:
        return []


def short(ev):
    s = json.dumps(ev, sort_keys=True)
    return json.loads(s) if len(s) < 900 else s[:900]


def main(argv):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if len(argv) > 2:
        seed = int(argv[2])
    t0 = time.time()
    try:
        return decide(pid, tier, seed, t0)
    except build.BuildError as e:
        print("cannot build the tree: %s" % e)
        return 2
    except tlc.TLCError as e:
        print("model checking failed: %s" % e)
        return 2


def confirm(p, suspect, log):
    """a rejection is believed only if a re-run of the same environment is rejected too"""
    j, t, r = suspect
    log("rejected: %s at event %d; running it again" % (label(j), r[0]))
    again = [x for x in pool_run([j] * 4) if "error" not in x]
    acc, rej, _, _ = verdicts(p, again, 600)
    if rej:
        k = sorted(rej)[0]
        return j, t, r, again[k], rej[k], len(rej), len(again)
    log("not repeated in %d runs: not reported" % len(again))
    if os.environ.get("VERIF_KEEP"):
        with open(os.path.join(EVID, "%s.once.json" % p.pid), "w") as f:
            i = r[0]
            json.dump({"property": p.pid, "job": j, "rejected_event": i, "event": t["ev"][i], "before": t["ev"][max(0, i - 4):i],
                       "specification_allows": r[1], "log": t.get("log", ""), "trace": strip(t)}, f, indent=1)
    return None


def decide(pid, tier, seed, t0):
    import profiles
    p = profiles.PROFILES[pid]
    p.tier = tier
    for b in p.builds:
        b()
    quick = tier == "quick"
    budget = p.budget[0 if quick else 1]
    os.makedirs(EVID, exist_ok=True)
    log = lambda *a: print("[%6.1f s]" % (time.time() - t0), *a, flush=True)

    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
           "models": {}, "events": {}, "outputs": {}, "environments": {}}

    runner = Runner()

    # 1+2: models, behaviours
    def model(s):
        r = s.check(depth=s.depth if quick else s.tdepth, workers=4 if quick else 8, timeout=300 if quick else 1500)
        return s.name, r
    jobs = []
    with ThreadPoolExecutor(3 if quick else 1) as ex:
        fut = [ex.submit(model, s) for s in p.scenarios]
        bf = [(s, ex.submit(s.behaviours, s.nbeh if quick else s.nbeh * 5, seed)) for s in p.scenarios if s.nbeh]
        # 3: random environments meanwhile
        loads = []
        for name, n in p.loads.items():
            for k in range(n if quick else n * p.scale):
                loads.append({"kind": "load", "property": pid, "load": name, "seed": seed, "k": k, "tier": tier})
        rnd_for("order", seed).shuffle(loads)
        for f in fut:
            name, r = f.result()
            cov["states"] += r["distinct"]
            cov["transitions"] += r["states"]
            cov["models"][name] = {"distinct_states": r["distinct"], "generated": r["states"], "wall_s": round(r["wall"], 1)}
            log("model %s: %d distinct states, every step property holds" % (name, r["distinct"]))
        for s, f in bf:
            b = f.result()
            for k, x in enumerate(b):
                jobs.append({"kind": "beh", "property": pid, "sc": s.name, "beh": x, "k": k, "tier": tier})
            log("model %s: %d behaviours to replay" % (s.name, len(b)))
    queue = jobs + loads
    total = len(queue)
    suspects, errors, accepted, steps = [], [], 0, 0
    confirmed, unconfirmed = [], 0
    chunk = 96 if quick else 256
    samples = []
    nxt = None
    while queue or nxt:
        if nxt is None:
            nxt = runner.start(queue[:chunk])
            queue = queue[chunk:]
        batch, res = nxt
        traces = res.get()
        nxt = None
        if queue and time.time() - t0 < budget:
            nxt = runner.start(queue[:chunk])
            queue = queue[chunk:]
        good = []
        for j, t in zip(batch, traces):
            if "error" in t:
                errors.append((j, t["error"]))
            else:
                good.append((j, t))
        if good:
            acc, rej, st, tr = verdicts(p, [t for _, t in good], 600)
            cov["states"] += st
            cov["transitions"] += tr
            accepted += len(acc)
            for i, (j, t) in enumerate(good):
                cov["environments"][label(j).split(" #")[0]] = cov["environments"].get(label(j).split(" #")[0], 0) + 1
                for e in t["ev"]:
                    cov["events"][e["op"]] = cov["events"].get(e["op"], 0) + 1
                    for o in e.get("outs", []):
                        if "k" in o:
                            cov["outputs"][o["k"]] = cov["outputs"].get(o["k"], 0) + 1
                steps += len(t["ev"])
                if i in rej:
                    suspects.append((j, t, rej[i]))
                elif len(samples) < 3 and t["ev"]:
                    samples.append({"environment": label(j), "seed": seed, "events": len(t["ev"]),
                                    "first": [short(e) for e in t["ev"][:3]], "last": short(t["ev"][-1])})
        log("%d executions accepted, %d rejected" % (accepted, len(suspects)))
        while suspects and len(confirmed) < 3:
            x = confirm(p, suspects.pop(0), log)
            if x:
                confirmed.append(x)
                if quick:
                    suspects = suspects[:3]
            else:
                unconfirmed += 1
        if confirmed and (quick or len(confirmed) >= 3):
            break
        if time.time() - t0 > budget:
            break
    runner.close()
    cov["traces_validated_against_impl"] = accepted
    cov["samples"] = samples
    cov["steps_validated"] = steps
    cov["rejections_not_repeated"] = unconfirmed
    if errors:
        log("environment errors: %d\n%s" % (len(errors), errors[0][1]))
        if len(errors) > max(2, total // 10) and not confirmed:
            print("the environments could not be run")
            return 2

    known = known_for(pid)
    rc, nviol = 0, 0
    for n, (j, t, r, t2, r2, a, b) in enumerate(confirmed):
        why = p.describe(t2, r2) if p.describe else ""
        hit = None
        for kf in known:
            if kf.get("environment") == label(j).split(" #")[0] and kf.get("signature", "\0") in json.dumps(t2["ev"][r2[0]]):
                hit = kf
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, hit["what"]))
            continue
        path = os.path.join(EVID, "%s.violation%d.json" % (pid, n + 1))
        i = r2[0]
        with open(path, "w") as f:
            json.dump({"property": pid, "job": j, "rejected_event": i, "repeated": "%d of %d re-runs" % (a, b),
                       "event": t2["ev"][i], "before": t2["ev"][max(0, i - 4):i], "specification_allows": r2[1], "log": t2.get("log", ""),
                       "trace": strip(t2)}, f, indent=1)
        print("event rejected by the specification: %s" % json.dumps(t2["ev"][i])[:1500])
        if t2.get("log"):
            print(t2["log"][-1500:])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rc, nviol = 1, nviol + 1
    for kf in known:
        if kf.get("always"):
            print("KNOWN-FINDING: property=%s %s" % (pid, kf["what"]))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": p.level, "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "violations": nviol, "assumptions": p.assumptions}
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s: %s" % (pid, "violated" if rc else "held on everything explored"))
    return rc
