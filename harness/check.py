#!/usr/bin/env python3
"""Decides one property.

    check.py PROP [--tier quick|thorough] [--replay FILE] [--cases N]

Exit status: 0 the property held, 1 it did not (with a VIOLATION line), 2 the check itself failed.
"""
import argparse
import json
import os
import re
import sys
import tempfile
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(10000)
import common  # noqa: E402
import gen  # noqa: E402
import jobs  # noqa: E402
import models  # noqa: E402
import record  # noqa: E402
import sessions  # noqa: E402

QUICK = {"C01": 700, "C02": 900, "C03": 1500, "C04": 1800, "C05": 500, "C06": 1200, "C07": 1500, "C08": 1000, "C09": 900, "C10": 1000,
         "C11": 900, "C12": 500, "C13": 700, "C14": 700, "C15": 800, "C16": 800, "C17": 900, "C18": 700, "C19": 700, "C20": 700, "C21": 700,
         "C22": 700, "C23": 500, "C24": 900, "C25": 2500, "C26": 600, "C27": 700, "C28": 1500}

CFG = """SPECIFICATION Spec
INVARIANT TreesKeepTheLaws
INVARIANT SpecsKeepTheLaws
POSTCONDITION AllJudged
"""

SESSION_CFG = """SPECIFICATION Spec
POSTCONDITION AllJudged
"""

ALPHABET = set(gen.ALPHABET)


class Validation:
    """What TLC said about some cases."""

    def __init__(self):
        self.states = self.transitions = self.judged = self.accepted = 0
        self.failures = []      # (case, complaints)


def validate(prop, cases, v, module="Conformance", cfg=CFG):
    """Has TLC judge the cases."""
    if not cases:
        return
    # Spread the long ones.
    order = sorted(range(len(cases)), key=lambda k: -sum(len(t) for t in cases[k].get("texts", [])))
    n = max(1, min(common.JOBS, len(cases) // 10 + 1))
    shards = [[cases[k] for k in order[i::n]] for i in range(n)]

    def one(shard):
        with tempfile.NamedTemporaryFile("w", suffix=".ndjson", dir=common.BUILD, delete=False) as f:
            for k, c in enumerate(shard):
                d = {x: y for x, y in c.items() if x not in ("job", "inputs")}
                d["id"] = k
                f.write(json.dumps(d, ensure_ascii=False) + "\n")
        try:
            rc, out = common.tlc(module, cfg, env={"TRACE": f.name, "PROP": prop}, heap="3g", timeout=1500)
        finally:
            os.unlink(f.name)
        judged = accepted = None
        fails = []
        for l in out.split("\n"):
            if l.startswith('"JUDGED '):
                w = l.strip('"').split()
                judged, accepted = int(w[1]), int(w[5])
            elif l.startswith('"FAIL '):
                j = json.loads(json.loads(l)[5:])
                fails.append((shard[j["id"]], j["bad"]))
        if rc != 0 or judged != len(shard):
            broken = [l for l in out.split("\n") if l.startswith("Error:")]
            at = re.findall(r"cid = (\d+)", out)
            raise common.ToolError("TLC could not judge (exit %s):\n%s\n%s\n%s" % (
                rc, "\n".join(broken), json.dumps(shard[int(at[-1]) - 1]["job"], ensure_ascii=False)[:3000] if at else "", out[-1500:]))
        return common.tlc_stats(out), judged, accepted, fails

    with ThreadPoolExecutor(n) as ex:
        for (gen_, distinct), judged, accepted, fails in ex.map(one, shards):
            v.states += distinct
            v.transitions += gen_
            v.judged += judged
            v.accepted += accepted
            for case, bad in fails:
                if any(b["what"].startswith("SPEC:") for b in bad):
                    raise common.ToolError("the specification disagrees with itself: %s\n%s" % (
                        json.dumps(bad, ensure_ascii=False)[:3000], json.dumps(case["job"], ensure_ascii=False)[:2000]))
                v.failures.append((case, bad))


def outside(case):
    return sorted({c for t in case.get("texts", []) for c in t} - ALPHABET)


def report(prop, case, bad, k):
    d = os.path.join(common.VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (prop, k))
    with open(path, "w", errors="backslashreplace") as f:
        json.dump({"property": prop, "job": case["job"], "complaints": bad,
                   "texts": ["".join(t) for t in case.get("texts", [])], "inputs": case.get("inputs", [])}, f, ensure_ascii=False, indent=1)
    for b in bad[:2]:
        print("  %s\n    expected: %s\n    observed: %s" % (b["what"], json.dumps(b["want"], ensure_ascii=False)[:600],
                                                            json.dumps(b["got"], ensure_ascii=False)[:600]))
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)


def sample(case):
    s = {"job": case["job"][0], "texts": ["".join(t)[:400] for t in case.get("texts", [])][:3]}
    for k in ("runs", "rounds", "repairs", "steps"):
        if case.get(k):
            s[k] = [str(r.get("args", ""))[:120] + " -> %s" % r.get("rc", "") for r in case[k]][:8]
    if case.get("inputs"):
        s["solidity"] = [i["sol"][:300] for i in case["inputs"]][:1]
    return s


def worker(js, session):
    """Runs a few jobs; tells how many commands did not end."""
    before = common.HUNG
    cs = [c for c in ((sessions if session else jobs).run(j) for j in js) if c is not None]
    return cs, common.HUNG - before


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--no-models", action="store_true")
    a = ap.parse_args()
    sys.stdout.reconfigure(errors="backslashreplace")
    prop, thorough = a.prop, a.tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    start = time.time()
    exe, view = common.build(library={"C27": "steps", "C28": "stages"}.get(prop, prop in ("C25", "C26")))
    common.EXE = exe
    session = prop in sessions.PROPS
    module, cfg = ("SessionTrace", SESSION_CFG) if session else ("Conformance", CFG)
    v = Validation()
    samples, counts, distinct = [], {}, set()
    runs = 0
    mres = []
    with common.Scratch() as work, \
            ProcessPoolExecutor(common.JOBS, initializer=record.init, initargs=(exe, view, work)) as pool:

        def do(joblist):
            nonlocal runs
            got, hung = [], 0
            todo = [pool.submit(worker, joblist[k:k + 4], session) for k in range(0, len(joblist), 4)]
            for f in todo:
                if hung > 12:
                    f.cancel()
                    continue
                cs, h = f.result()
                got += cs
                hung += h
            odd = [c for c in got if outside(c)]
            if odd:
                raise common.ToolError("characters outside of the alphabet: %r" % outside(odd[0]))
            for c in got:
                distinct.add(hash(json.dumps(c["job"], ensure_ascii=False, sort_keys=True)))
                record.tally(c, counts)
            validate(prop, got, v, module, cfg)
            runs += len(got)
            return got

        if a.replay:
            with open(a.replay) as f:
                do([json.load(f)["job"]])
        else:
            # 1. The design, in small.  2. Its behaviours, replayed.  3. Larger ones, at random.
            joblist = []
            if not a.no_models:
                mres = models.run(prop, a.tier, seed)
                for m in mres:
                    joblist += m["jobs"]
            n = a.cases or QUICK[prop]
            mk = sessions.random_job if session else jobs.random_job
            joblist += [mk(prop, seed * 1000000 + k) for k in range(n)]
            got = do(joblist)
            samples += [sample(c) for c in got[:1] + got[-2:]]
            if thorough:
                budget = float(os.environ.get("VERIF_BUDGET", "600"))
                k = n
                while time.time() - start < budget and not v.failures:
                    do([mk(prop, seed * 1000000 + k + j) for j in range(2500 if not session else 800)])
                    k += 2500 if not session else 800

    v.failures.sort(key=lambda f: len(json.dumps(f[0]["job"], ensure_ascii=False)))
    for k, (case, bad) in enumerate(v.failures[:3]):
        report(prop, case, bad, k)
    if len(v.failures) > 3:
        print("(%d more)" % (len(v.failures) - 3))
    for l in models.known(prop):
        print(l)
    evidence = {
        "property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "model_checking",
        "coverage": {
            "states": v.states + sum(m["states"] for m in mres),
            "transitions": v.transitions + sum(m["transitions"] for m in mres),
            "traces_validated_against_impl": v.judged,
            "samples": samples,
            "distinct_cases": len(distinct),
            "texts_or_batches_accepted": v.accepted,
            "model_states": {m["name"]: m["states"] for m in mres},
            "model_behaviours": {m["name"]: m["behaviours"] for m in mres},
            "model_behaviours_replayed": {m["name"]: len(m["jobs"]) for m in mres},
            "models_exhaustive": {m["name"]: m["bounds"] for m in mres},
            "observed": counts,
        },
        "assumptions": ["texts over the alphabet of spec/Chars.tla", "solang-parser 0.3.2 and forge-fmt 0.2.0 read Solidity for the observer",
                        "a debug build of bulloak (and its libraries) from /repo's working tree"],
        "wall_s": round(time.time() - start, 2),
        "violations": len(v.failures),
    }
    if not a.replay:
        os.makedirs(os.path.join(common.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(common.VERIF, "evidence", prop + ".json"), "w", errors="backslashreplace") as f:
            json.dump(evidence, f, ensure_ascii=False, indent=1)
    print("%s: %d cases validated, %d model states, %.1f s%s" % (
        prop, v.judged, sum(m["states"] for m in mres), time.time() - start, "" if v.failures else ": held"))
    return 1 if v.failures else 0


if __name__ == "__main__":
    try:
        rc = main()
    except common.ToolError as e:
        print("TOOL ERROR: %s" % e, file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
