"""Bounded models of the design, checked exhaustively by TLC; their behaviours are replayed on the real tool."""
import json
import os
import random

import common
import jobs

TEXT = ("Laws", "NeutralEdits")


def text(module, quick, deep, start="MCStart", end="MCEnd", neutral=False, onlyok=False, more="MCMore"):
    """A model that puts texts together; quick and deep are the numbers of pieces."""
    def consts(thorough, pieces):
        return "Start <- %s\nPieces <- %s\nEnd <- %s\nMost = %d\nNeutral = %s\nOnlyOk = %s\n" % (
            start, pieces, end, deep if thorough else quick, str(neutral).upper(), str(onlyok).upper())
    return {"module": module, "inv": TEXT, "prop": (), "consts": lambda th: consts(th, more if th else "MCPieces"),
            "bounds": lambda th: "%s: every text of at most %d pieces, of %s" % (module, deep if th else quick, more if th else "MCPieces")}


def tree(quick, deep, neutral=False):
    return {"module": "MC_Tree", "inv": TEXT + ("AcceptedWhenComplete", "ReadAsDrawn"), "prop": (),
            "consts": lambda th: "Branches = %d\nNeutral = %s\n" % (deep if th else quick, str(neutral).upper()),
            "bounds": lambda th: "every well-formed drawing of at most %d branches" % (deep if th else quick)}


def sol(quick, deep, names='{"Foo"}'):
    return {"module": "MC_Sol", "prop": (),
            "inv": ("Converges", "Keeps", "AliensDontMatter", "OrderIsTheOrder", "InsertKeepsOrder", "ReportsExactly"),
            "consts": lambda th: "Parts = %d\nNames = %s\n" % (deep if th else quick, names),
            "bounds": lambda th: "three trees, contracts named %s of at most %d parts" % (names, deep if th else quick)}


def steps(quick, deep):
    return {"module": "MC_Steps", "prop": ("Progress", "OneAtATime", "StaysInOrder", "Ends"), "inv": ("Kept", "SameEnd", "AsAtFirst"),
            "consts": lambda th: "Parts = %d\n" % (deep if th else quick),
            "bounds": lambda th: "three trees, contracts of at most %d parts, problems repaired one by one in every order" % (deep if th else quick)}


def work(files, commands, kinds, live=False):
    return {"module": "MC_Work", "prop": ("EndsBy", "NeverOverwrites") + (("Terminates",) if live else ()),
            "inv": ("GoesOn", "OnlyTheirs", "AsIfAlone", "StatusTells", "FixSettles", "PrintsWhatItWrites", "RefusedDoesNothing"),
            "consts": lambda th: "Files = %d\nCommands = %d\nKinds = {%s}\n" % (
                files, commands + (1 if th and commands > 1 else 0), ", ".join('"%s"' % k for k in kinds)),
            "bounds": lambda th: "%d files in every state of %s, %d commands" % (files, " ".join(kinds), commands + (1 if th and commands > 1 else 0))}


ALLKINDS = ("absent", "file", "dir", "stuck", "locked", "hidden", "link")
M = {
    "symbols": text("MC_Symbols", 3, 4),
    "draw": text("MC_Draw", 2, 3),
    "draw-edits": text("MC_Draw", 2, 3, neutral=True, onlyok=True, more="MCPieces"),
    "conditions": text("MC_Names", 2, 2, "CondStart", "CondEnd"),
    "actions": text("MC_Names", 2, 2, "ActionStart", "ActionEnd"),
    "functions": text("MC_Names", 2, 2, "FnStart", "FnEnd"),
    "names": text("MC_Dups", 2, 3),
    "multi": text("MC_Multi", 2, 3),
    "multi-edits": text("MC_Multi", 2, 2, neutral=True, onlyok=True),
    "bodies": text("MC_Bodies", 3, 3),
    "tree": tree(4, 6),
    "tree-edits": tree(3, 4, True),
    "sol": sol(3, 4),
    "headers": sol(2, 3, '{"Foo", "", "Bar"}'),
    "steps": steps(2, 3),
    "work2": work(2, 1, ("absent", "file", "dir", "locked", "link")),
    "work1": work(1, 2, ALLKINDS, live=True),
}
USE = {
    "C01": ("symbols", "headers"), "C02": ("tree", "draw"), "C03": ("symbols", "draw", "names"), "C04": ("symbols", "draw", "multi"),
    "C05": ("tree-edits", "draw-edits", "multi-edits"), "C06": ("tree", "multi"), "C07": ("conditions", "actions", "functions"),
    "C08": ("tree", "multi"), "C09": ("bodies", "tree"), "C10": ("multi",), "C11": ("conditions", "multi"), "C12": ("tree",),
    "C13": ("work2", "work1"), "C14": ("work2", "work1"), "C15": ("sol",), "C16": ("sol",), "C17": ("headers", "work2"),
    "C18": ("tree", "conditions", "multi"), "C19": ("sol", "headers"), "C20": ("sol", "headers"), "C21": ("work2", "work1"),
    "C22": ("names", "multi"), "C23": ("work2", "sol"), "C24": ("sol", "headers"),
    "C25": ("tree", "draw", "bodies", "multi"), "C26": ("tree", "conditions", "multi", "sol"), "C27": ("steps",), "C28": ("symbols", "tree", "multi"),
}
QUICK, DEEP = 300, 12000


# ---------------------------------------------------------------------------
# From behaviours to jobs.

def from_text(prop, c, r):
    t = c["text"]
    if prop == "C01":
        sol = r.choice([None, ("text", ""), ("text", "contract Foo {}\n"), ("text", "contract {"), ("derive", t, 2, r.randrange(1 << 30))])
        return ("clean_job", t, sol, "plain", [["scaffold", "a.tree"], ["scaffold", "-w", "-f", "a.tree"], ["check", "a.tree"], ["check", "--fix", "a.tree"]])
    if prop == "C05":
        es = r.sample(c["edits"], min(5, len(c["edits"])))
        return ("variant_case", [t] + es, ["base"] + ["edit"] * len(es)) if es else None
    if prop == "C18":
        return ("round_case", t) if c["stage"] == "ok" else None
    if prop == "C22":
        return ("repeat_case", t, None)
    if prop == "C25":
        return ("parse_case", t)
    if prop == "C28":
        return ("stages_case", t, [(r.random() < 0.5, False, None)])
    if prop == "C26":
        return ("library_job", t, jobs.flagset(r)[:1], ("derive", t, r.choice([0, 1, 2]), r.randrange(1 << 30)))
    flags = jobs.ALLFLAGS if prop == "C12" else [(False, False, None)] if prop != "C11" else jobs.flagset(r)
    if c["stage"] != "ok" and prop in ("C02", "C06", "C07", "C08", "C09", "C11", "C12"):
        return None
    return ("scaffold_case", t, flags, prop == "C03")


def source(c, r):
    """The Solidity file a behaviour of MC_Sol stands for."""
    if c["name"] == "":
        return r.choice(["", "// é nothing\n", "pragma solidity 0.8.0;\n", "error E();\n"])
    out = []
    for k, p in enumerate(c["parts"]):
        if p["ty"] == "other":
            out.append("    uint256 %s%d; // é %d" % (p["name"], k, k))
        elif p["ty"] == "modifier":
            out.append("    modifier %s() {\n        // body %d\n        _;\n    }" % (p["name"], k))
        else:
            params = "uint256 p%d" % k if r.random() < 0.3 else ""
            out.append("    %sfunction %s(%s) external {\n        x = %d;\n    }" % ("/// doc\n    " if r.random() < 0.2 else "", p["name"], params, k))
    return "pragma solidity 0.8.0;\n\ncontract %s {\n%s\n}\n" % (c["name"], ("\n" + "\n" * r.randrange(2)).join(out))


def from_sol(prop, c, r):
    if prop == "C01":
        return ("clean_job", c["tree"], ("text", source(c, r)), "plain", [["check", "a.tree"], ["check", "--fix", "a.tree"], ["check", "--fix", "-m", "a.tree"]])
    es = [("a", c["tree"], ("text", source(c, r)), None)]
    if prop == "C23":
        return ("check_job", es, True)
    if prop == "C27":
        return ("steps_job", c["tree"], ("text", source(c, r)), jobs.orders(r))
    if prop == "C26":
        return ("library_job", c["tree"], jobs.flagset(r)[:1], ("text", source(c, r)))
    return ("fix_job", es) if prop in ("C19", "C20") else ("check_job", es, False)


GOOD = {"a.tree": "A\n├── when on\n│   └── when off\n│       └── it is\n└── it runs", "b.tree": "B::f\n└── it x\n\nB::g\n└── given c\n    └── it should revert",
        "dir/c.tree": "C\n└── it ends"}
BAD = {"a.tree": "A\n└── when on", "b.tree": "B\n├── it runs", "dir/c.tree": "C\n└── it ends\n\nD\n└── it x"}


def contents(path, text):
    if path.endswith(".tree"):
        return GOOD[path] if text == "good" else BAD[path]
    t = GOOD[path[:-len(".t.sol")] + ".tree"]
    if text == "scaffold:good":
        return ("derive", t, 0, 0)
    return ("text", "contract {\n" if text == "junk" else "contract Mine {\n    function keep() external {\n        // é\n    }\n}\n")


def from_work(prop, c, r):
    disk = sorted(c["disk"].items())
    if prop in ("C17", "C23"):
        cmd = c["commands"][0]
        if cmd["name"] != "check":
            return None
        es = []
        for p in cmd["files"]:
            t, s = c["disk"][p], c["disk"][p[:-5] + ".t.sol"]
            if t["kind"] == "hidden" or s["kind"] in ("locked", "stuck", "link") or any(p == e[0] + ".tree" for e in es):
                return None
            q = {"absent": "notree", "dir": "treedir"}.get(t["kind"]) or ({"dir": "soldir"}.get(s["kind"]))
            es.append((p[:-5], contents(p, t["text"]) if t["kind"] in ("file", "link") else "", ("none",) if s["kind"] == "absent"
                       else contents(p[:-5] + ".t.sol", s["text"]), q))
        return ("check_job", es, prop == "C23")
    init = [(p, w["kind"], contents(p, w["text"]) if w["kind"] in ("file", "locked", "hidden", "link") else None)
            for p, w in disk if w["kind"] != "absent"]
    steps = [("scaffold", x["files"], False, False, None, x["write"], x["force"]) if x["name"] == "scaffold"
             else ("check", x["files"], False, x["fix"], x["stdout"]) for x in c["commands"]]
    return ("session", init, steps)


FROM = {"MC_Sol": from_sol, "MC_Steps": from_sol, "MC_Work": from_work}


def explore(name, thorough):
    """TLC on one model: its statistics and its behaviours."""
    m = M[name]
    cfg = "SPECIFICATION Spec\n" + "".join("INVARIANT %s\n" % i for i in m["inv"]) + "".join("PROPERTY %s\n" % p for p in m["prop"])
    rc, out = common.tlc(m["module"], cfg + "CONSTANTS\n" + m["consts"](thorough), workers=common.JOBS if thorough else 4, heap="12g" if thorough else "3g",
                         timeout=3000)
    if rc != 0:
        raise common.ToolError("the model %s does not keep its promises (exit %s):\n%s" % (
            name, rc, (lambda o: o[:1500] + "\n...\n" + o[-2500:] if len(o) > 4000 else o)("\n".join(
                l for l in out.split("\n") if not l.startswith(('"CASE ', "Parsing file", "Semantic processing"))))))
    cases = [l for l in out.split("\n") if l.startswith('"CASE ')]
    return common.tlc_stats(out), sorted(cases)


def run(prop, tier, seed):
    thorough = tier == "thorough"
    out = []
    names = USE[prop]
    for name in names:
        (generated, distinct), cases = explore(name, thorough)
        r = random.Random("%s/%s/%s" % (prop, name, seed))
        r.shuffle(cases)
        limit = (DEEP if thorough else QUICK) // len(names)
        make = FROM.get(M[name]["module"], from_text)
        js = []
        for l in cases:
            j = make(prop, json.loads(json.loads(l)[5:]), r)
            if j is not None:
                js.append(j)
                if len(js) >= limit:
                    break
        out.append({"name": name, "states": distinct, "transitions": generated, "jobs": js, "behaviours": len(cases),
                    "bounds": M[name]["bounds"](thorough)})
    return out


def known(prop):
    """The KNOWN-FINDING lines of a property."""
    path = os.path.join(common.VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for l in f:
                if l.startswith("KNOWN-FINDING: property=%s " % prop):
                    out.append(l.rstrip("\n"))
    return out
