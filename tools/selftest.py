#!/usr/bin/env python3
"""Does the machinery bite?  Not a check: run by hand after changes to spec/ or harness/.

    selftest.py records [PROP...]   corrupts recorded fields, one at a time, and shows which ones the judge of a property rejects
    selftest.py models              breaks the specification, one operator at a time, and expects TLC to notice in a model
"""
import copy
import os
import random
import re
import shutil
import sys
from concurrent.futures import ProcessPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "harness"))
sys.setrecursionlimit(10000)
import check  # noqa: E402
import common  # noqa: E402
import jobs  # noqa: E402
import models  # noqa: E402
import record  # noqa: E402
import sessions  # noqa: E402

SEEN = ("runs", "check", "rounds", "repairs", "steps", "all", "alone", "fixes", "entries", "one", "each")
MUTED = ("args", "text", "src")


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        for k, v in enumerate(x):
            yield from leaves(v, path + (k,))
        if x:
            yield path + ("[]",), x
    else:
        yield path, x


def corrupt(case, path, r):
    c = copy.deepcopy({k: v for k, v in case.items() if k not in ("job", "inputs")})
    c["job"] = path
    x = c
    for k in path[:-1]:
        x = x[k]
    if path[-1] == "[]":
        x.pop(r.randrange(len(x)))
        return c
    v = x[path[-1]]
    x[path[-1]] = (not v) if isinstance(v, bool) else v + 1 if isinstance(v, int) else v + "x"
    return c


def pattern(path):
    return ".".join("*" if isinstance(k, int) else k for k in path)


def records(props):
    exe, view = common.build(library="steps,stages")
    common.EXE = exe
    with common.Scratch() as work, ProcessPoolExecutor(4, initializer=record.init, initargs=(exe, view, work)) as pool:
        for prop in props:
            session = prop in sessions.PROPS
            module, cfg = ("SessionTrace", check.SESSION_CFG) if session else ("Conformance", check.CFG)
            r = random.Random(prop)
            mk = sessions.random_job if session else jobs.random_job
            cases = [c for c in pool.map(sessions.run if session else jobs.run, [mk(prop, 777000 + k) for k in range(25)]) if c is not None]
            by = {}
            for c in cases:
                for p, _ in leaves({k: c[k] for k in SEEN if k in c}):
                    by.setdefault(pattern(p), []).append((c, p))
            bad = []
            for pat, where in sorted(by.items()):
                for c, p in r.sample(where, min(6, len(where))):
                    bad.append(corrupt(c, p, r))
            hit, tried = {}, {}
            # A corrupted record may make no sense at all: then TLC cannot evaluate it, which is a rejection too.
            for b in bad:
                tried.setdefault(pattern(b["job"]), 0)
                tried[pattern(b["job"])] += 1
            groups = [bad[i::8] for i in range(8)]

            def judge(bs):
                v = check.Validation()
                try:
                    check.validate(prop, bs, v, module, cfg)
                    for c, _ in v.failures:
                        hit[pattern(c["job"])] = hit.get(pattern(c["job"]), 0) + 1
                except common.ToolError:
                    if len(bs) == 1:
                        hit[pattern(bs[0]["job"])] = hit.get(pattern(bs[0]["job"]), 0) + 1
                    else:
                        judge(bs[:len(bs) // 2])
                        judge(bs[len(bs) // 2:])
            for g in groups:
                if g:
                    judge(g)
            yes = ["%s %d/%d" % (p, hit[p], tried[p]) for p in sorted(tried) if p in hit]
            no = [p for p in sorted(tried) if p not in hit]
            print("%s  rejected: %s\n     ignored:  %s" % (prop, ", ".join(yes) or "NOTHING", ", ".join(no)), flush=True)


# (module, what, instead, the models of which one must notice)
BREAKS = [
    ("Workspace", "/\\ cmd.write /\\ (cmd.force \\/ ~Exists(SolOf(Head(todo))))", "/\\ cmd.write", ["work1"]),
    ("Workspace", "Readable(p) == disk[p].kind \\in {\"file\", \"locked\", \"link\"}", "Readable(p) == disk[p].kind # \"absent\"", ["work1"]),
    ("Workspace", "kind |-> IF @.kind = \"link\" THEN \"link\" ELSE \"file\"", "kind |-> \"file\"", ["work1"]),
    ("Workspace", "rc' = IF failed = <<>> THEN 0 ELSE 1", "rc' = 0", ["work1"]),
    ("Workspace", "/\\ rc = Running /\\ ~Sensible", "/\\ FALSE", ["work1"]),
    ("Workspace", "rc' = IF failed = <<>> /\\ found = 0 THEN 0 ELSE 1", "rc' = IF found = 0 THEN 0 ELSE 1", ["work1"]),
    ("Workspace", "/\\ todo = <<>> /\\ loaded = <<>>\n  /\\ rc'", "/\\ todo = <<>>\n  /\\ rc'", ["work1"]),
    ("Workspace", "ELSE /\\ Fail(Head(loaded).tree)", "ELSE /\\ UNCHANGED failed", ["work1"]),
    ("Workspace", "Next1 == Check /\\ todo = <<>> /\\ loaded # <<>> /\\ loaded' = Tail(loaded)",
     "Next1 == Check /\\ todo = <<>> /\\ loaded # <<>> /\\ loaded' = loaded", ["work1"]),
    ("Solidity", "IF Misplaced(c, parts) = <<>> THEN parts", "IF TRUE THEN parts", ["sol"]),
    ("Solidity", "InsertAfter(parts, PrevPresent(c, parts, k), New(c, k))", "InsertAfter(parts, 0, New(c, k))", ["sol"]),
    ("Solidity", "\\o [k \\in 1..Len(rest) |-> parts[rest[k]]]", "", ["sol"]),
    ("Solidity", "Matches(p, f) == p.ty = f.ty /\\ p.name = f.name", "Matches(p, f) == p.name = f.name", ["sol"]),
    ("Solidity", "InsertAfter(parts, PrevPresent(c, parts, k), New(c, k))", "InsertAfter(parts, 0, New(c, k))", ["steps"]),
    ("Solidity", "IF Misplaced(c, parts) = <<>> THEN parts", "IF TRUE THEN parts", ["steps"]),
    ("Solidity", "!.parts = InsertFn(c, @, p.fn)", "!.parts = Repair(c, @, FALSE)", ["steps"]),
    ("Solidity", "IF sol.cname = want THEN <<>>", "IF TRUE THEN <<>>", ["headers"]),
    ("Solidity", "LAMBDA k : ~(fl.nomods /\\ c.fns[k].ty = \"modifier\")", "LAMBDA k : ~fl.nomods", ["tree"]),
    ("Solidity", "skip |-> fl.vmskip /\\ f.ty = \"function\"", "skip |-> FALSE", ["tree"]),
    ("Spec", "k \\in (i+1)..Len(nodes) : nodes[k].parent = i /\\ nodes[k].kind = \"cond\"", "k \\in (i+1)..Len(nodes) : nodes[k].parent = i", ["tree"]),
    ("Spec", "[k \\in 1..Len(as) |-> ModifierName(nodes[as[k]])]\n     \\o", "<<>>\n     \\o", ["tree"]),
    ("Spec", "<<Str(TrimRight(nodes[a].title))>> \\o", "<<>> \\o", ["tree"]),
    ("Spec", "IF r = <<>> THEN <<>>", "IF TRUE THEN <<>>", ["multi"]),
    ("Spec", "fns |-> OnceEach(Concat(", "fns |-> (Concat(", ["multi"]),
    ("Spec", "IN empty \\o hollow \\o dups", "IN empty \\o dups", ["tree"]),
]


def break_models():
    ok = True
    for module, what, new, names in BREAKS:
        if names is None:
            continue
        with common.Scratch() as d:
            spec = os.path.join(d, "spec")
            shutil.copytree(os.path.join(VERIF, "spec"), spec)
            f = os.path.join(spec, module + ".tla")
            t = open(f).read()
            if t.count(what) < 1:
                print("STALE  %s: %s" % (module, what))
                ok = False
                continue
            open(f, "w").write(t.replace(what, new, 1))
            common.SPEC = spec
            why = None
            for n in names:
                try:
                    models.explore(n, False)
                except common.ToolError as e:
                    m = re.search(r"(Invariant|Action property|Temporal properties) [^\n]*violated|Attempted to [^\n]*", str(e))
                    why = "%s: %s" % (n, m.group(0) if m else "TLC stopped")
                    break
            print("%s  %s: %s -> %s   %s" % ("ok   " if why else "MISSED", module, what.split("\n")[0][:60], new.split("\n")[0][:40], why or ""), flush=True)
            ok = ok and bool(why)
    return ok


if __name__ == "__main__":
    if sys.argv[1] == "models":
        sys.exit(0 if break_models() else 1)
    records(sys.argv[2:] or sorted(check.QUICK))
