"""Runs the configurations of one check, replays what the solver found, writes the evidence."""
import collections
import copy
import hashlib
import importlib
import json
import os
import sys
import time
import traceback

from . import engine
from . import env
from .engine import explore, run_concrete

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Config:
    """One harness with its bounds.

    fn: the harness; cover: labels that at least one path has to reach (guard against vacuity);
    prep: keyword arguments of env.prepare."""

    def __init__(self, name, fn, bounds, cover=(), time_limit=None, path_limit=60, validate=12, **prep):
        self.name, self.fn, self.bounds, self.cover = name, fn, bounds, set(cover)
        self.time_limit, self.path_limit, self.validate, self.prep = time_limit, path_limit, validate, prep


def configs_of(mod, tier):
    """The configurations of a check.  A check with SCRIPTS runs them with the build script started under these names,
    alternating in the quick tier, each under every name in the thorough one."""
    cs = mod.configs(tier)
    forms = getattr(mod, "SCRIPTS", None)
    if not forms:
        return cs
    out = []
    for i, c in enumerate(cs):
        if "script" in c.prep:
            out.append(c)
            continue
        for f in [forms[i % len(forms)]] if tier == "quick" else forms:
            d = copy.copy(c)
            d.prep = dict(c.prep, script=f)
            d.bounds = "%s; script started as %s" % (c.bounds, f)
            if tier != "quick":
                d.name = "%s (%s)" % (c.name, f)
            out.append(d)
    return out


def known_ids(prop):
    """finding ids listed as open for the property: lines 'known: property=C19 id=F1 text'"""
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                if line.startswith("known: property=%s " % prop):
                    rest = line[len("known: property=%s " % prop):].strip()
                    if rest.startswith("id="):
                        i, _, t = rest[3:].partition(" ")
                        out[i] = t
    return out


def _replay_file(prop, cfg, label, detail, asg):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    body = {"property": prop, "config": cfg.name, "assertion": label, "detail": detail, "assignment": asg,
            "how": "python3-vt run_check.py %s --replay <this file>" % prop}
    h = hashlib.sha1(json.dumps([cfg.name, asg], sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s.json" % (prop, h))
    with open(p, "w") as f:
        json.dump(body, f, indent=1, sort_keys=True)
    return p


def _norm(x):
    return json.loads(json.dumps(x, default=repr))


def run(prop, mod, tier, seed):
    t0 = time.time()
    budget = getattr(mod, "BUDGET", {}).get(tier, 780 if tier == "quick" else 3600 * 3)
    known = known_ids(prop)
    cfgs = [c for c in configs_of(mod, tier)]
    only = os.environ.get("VERIF_ONLY")
    if only:
        cfgs = [c for c in cfgs if only in c.name]
    debug = bool(os.environ.get("VERIF_DEBUG"))
    tot = collections.Counter()
    fns = set()
    samples, bounds, errors, viol, knowns, percfg = [], [], [], [], {}, []
    tq = 0.0
    for cfg in cfgs:
        left = budget - (time.time() - t0)
        if left < 5:
            errors.append("%s: out of time before the configuration was explored" % cfg.name)
            continue
        tc = time.time()
        recs = explore(cfg.fn, lambda: env.prepare(**cfg.prep), time_limit=min(left, cfg.time_limit or left),
                       path_limit=cfg.path_limit, debug=debug)
        st = collections.Counter(r["status"] for r in recs)
        covers = set()
        pend = []
        for r in recs:
            tot["paths"] += 1
            tot["queries"] += r.get("nq", 0)
            tot["branches"] += r.get("forks", 0)
            tot["assertions"] += r.get("checks", 0)
            tot["proved"] += r.get("proved", 0)
            tq += r.get("tq", 0.0)
            covers.update(r.get("covers", ()))
            fns.update(r.get("fns", ()))
            for v in r.get("violations", ()):
                pend.append(v)
            for k in r.get("knowns", ()):
                knowns.setdefault(k[0], (cfg, k))
        bad = [r for r in recs if r["status"] in ("unsupported", "crash", "deadline")]
        nok = st["ok"] + st["known"]
        # ---- counterexamples: replay on the code as it is
        unrep = []
        seen = collections.Counter()
        for label, detail, asg in pend:
            if seen[label] >= 3:
                continue
            seen[label] += 1
            rr = run_concrete(cfg.fn, asg, lambda: env.prepare(**dict(cfg.prep, instrumented=False)),
                              time_limit=cfg.path_limit)
            if rr["status"] == "violation" or rr.get("violations"):
                p = _replay_file(prop, cfg, label, detail, asg)
                viol.append((cfg, rr["violations"][0], p))
                tot["replayed"] += 1
            else:
                unrep.append((label, detail, asg, rr))
        if unrep and not viol:
            errors.append("%s: counterexample does not reproduce: %s" % (cfg.name, unrep[0]))
        if bad and not viol:
            errors.append("%s: %d paths without an answer, e.g. %s: %s" % (
                cfg.name, len(bad), bad[0]["status"], bad[0].get("msg")))
        if not viol and not bad:
            miss = cfg.cover - covers
            if miss:
                errors.append("%s: vacuous, never reached: %s" % (cfg.name, sorted(miss)))
            if nok == 0:
                errors.append("%s: no path reached the end" % cfg.name)
        # ---- the encoding against the code as it is: same inputs, same observations
        oks = sorted((r for r in recs if r["status"] == "ok"), key=lambda r: r["path"])
        pick = []
        if oks:
            n = cfg.validate * (1 if tier == "quick" else 8)
            step = max(1, len(oks) // n)
            pick = oks[::step][:n]
        if not viol:
            for r in pick:
                rr = run_concrete(cfg.fn, r["asg"], lambda: env.prepare(**dict(cfg.prep, instrumented=False)),
                                  time_limit=cfg.path_limit)
                if rr["status"] != "ok" or _norm(rr.get("obs")) != _norm(r["obs"]):
                    errors.append("%s: encoding and code disagree on %s: %s / %s" % (
                        cfg.name, r["asg"], r["obs"], (rr["status"], rr.get("msg"), rr.get("violations"), rr.get("obs"))))
                    break
                tot["validated"] += 1
        for r in pick[:2]:
            samples.append({"config": cfg.name, "assignment": r["asg"], "observed": r["obs"]})
        bounds.append("%s: %s" % (cfg.name, cfg.bounds))
        percfg.append({"config": cfg.name, "paths": len(recs), "by_status": dict(st), "wall_s": round(time.time() - tc, 2),
                       "reached": sorted(cfg.cover & covers)})
        if debug:
            print(cfg.name, dict(st), round(time.time() - tc, 2), file=sys.stderr)
        if viol:
            break
    # ---- verdict
    rc = 0
    kn = 0
    for fid, (cfg, k) in sorted(knowns.items()):
        if fid not in known:
            rr = run_concrete(cfg.fn, k[3], lambda: env.prepare(**dict(cfg.prep, instrumented=False)))
            p = _replay_file(prop, cfg, k[1], k[2], k[3])
            viol.append((cfg, (k[1], k[2]), p))
            continue
        rr = run_concrete(cfg.fn, k[3], lambda: env.prepare(**dict(cfg.prep, instrumented=False)))
        if rr["status"] != "known":
            errors.append("%s: known finding %s does not reproduce: %s" % (cfg.name, fid, rr))
            continue
        kn += 1
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, fid, known[fid]))
    if viol:
        rc = 1
        done = set()
        for cfg, v, p in viol:
            if p in done:
                continue
            done.add(p)
            print("violated in %s: %s: %s" % (cfg.name, v[0], str(v[1])[:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, p))
    elif errors:
        rc = 2
        for e in errors:
            print("ERROR: %s" % e[:4000])
    lic = sorted(f for f in fns if f.startswith("licant"))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"], "transitions": tot["branches"],
            "traces_validated_against_impl": tot["validated"],
            "samples": samples[:12],
            "explanation": "states = symbolic execution paths of the real code, each standing for every assignment "
                           "that satisfies its path condition; transitions = branch points where the solver found "
                           "both sides feasible; traces validated = solver models replayed on the uninstrumented "
                           "code with equal observations",
            "functions_encoded": lic, "bounds": bounds, "configurations": percfg,
            "solver_queries": tot["queries"], "solver_time_s": round(tq, 3),
            "assertions_checked": tot["assertions"], "assertions_discharged": tot["proved"],
            "counterexamples_replayed": tot["replayed"], "known_findings_reported": kn,
            "exhaustive": rc == 0, "errors": errors[:5],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", ())) + COMMON,
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d paths, %d queries, %d assertions, %.1f s, exit %d" % (
        prop, tier, tot["paths"], tot["queries"], tot["assertions"], time.time() - t0, rc))
    return rc


COMMON = [
    "file system, processes, thread pool and event loop clock are the stubs of symx/env.py",
    "an action of a worker thread takes effect as a whole at the moment it completes",
    "sets of licant's objects are iterated in the order of first use, in C01-C05 and C31 also in the reverse order; "
    "sets of other objects in the order of this run",
]


def main(argv):
    prop = argv[1].upper()
    sys.path.insert(0, VERIF)
    mod = importlib.import_module("checks." + prop.lower())
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f:
            d = json.load(f)
        cfg = [c for t in ("quick", "thorough") for c in configs_of(mod, t) if c.name == d["config"]][0]
        rr = run_concrete(cfg.fn, d["assignment"], lambda: env.prepare(**dict(cfg.prep, instrumented=False)))
        print(json.dumps(rr, indent=1))
        return 1 if rr["status"] == "violation" else 0
    try:
        return run(prop, mod, tier, seed)
    except Exception:
        traceback.print_exc(file=sys.stdout)
        return 2
