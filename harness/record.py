"""Runs the real bulloak and records what it did, in the shape the specification reads."""
import json
import os
import re
import resource
import select
import shutil
import subprocess

import common

VIEW = None
_view = None
WORK = None


def init(exe, view, work):
    """Once per worker process."""
    global VIEW, WORK
    common.EXE = exe
    VIEW = view
    WORK = os.path.join(work, "w%d" % os.getpid())
    os.makedirs(WORK, exist_ok=True)
    # What runs here, and what it starts, cannot eat up the memory or fill the disk.
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def solview(src, fmt=False):
    global _view
    for _ in range(2):
        if _view is None or _view.poll() is not None:
            _view = subprocess.Popen([VIEW], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        try:
            _view.stdin.write((json.dumps({"src": src, "fmt": fmt}) + "\n").encode())
            _view.stdin.flush()
            l = _view.stdout.readline()
            if l:
                return json.loads(l)
        except BrokenPipeError:
            pass
        _view = None
    raise common.ToolError("solview died")


_library = None


def library(op, text, vmskip=False, nomods=False, version=None, **more):
    """What the libraries answer. A call that ends or hangs the process is a panic."""
    global _library
    if _library is None or _library.poll() is not None:
        _library = subprocess.Popen([common.LIBRARY], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    q = {"op": op, "text": text, "vmskip": vmskip, "nomods": nomods, "version": version or "0.8.0", **more}
    try:
        _library.stdin.write((json.dumps(q) + "\n").encode())
        _library.stdin.flush()
        l = _library.stdout.readline() if select.select([_library.stdout], [], [], 20)[0] else b""
    except BrokenPipeError:
        l = b""
    if not l:
        _library.kill()
        _library = None
        return {"ok": False, "panicked": True, "err": ""}
    return json.loads(l)


def fresh():
    """An empty directory."""
    d = os.path.join(WORK, "d")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    return d


def shown(x):
    """How the bytes of names are printed."""
    if isinstance(x, str):
        return x.encode("utf-8", "surrogateescape").decode("utf-8", "replace")
    if isinstance(x, dict):
        return {shown(k): shown(v) for k, v in x.items()}
    return [shown(y) for y in x] if isinstance(x, (list, tuple)) else x


def put(path, text):
    with open(path, "wb") as f:
        f.write(text if isinstance(text, bytes) else text.encode("utf-8"))


def get(path):
    try:
        with open(path, "rb") as f:
            return f.read().decode("utf-8", "replace")
    except OSError:
        return None


# ---------------------------------------------------------------------------
# Reading what the tool prints.

BULLETS = "•" * 79
WHERE = re.compile(r"^--- \(line (\d+), column (\d+)\) ---$")
ERR = "bulloak error: "


def lead(l):
    """How the white space before a line is printed does not matter."""
    n = len(l) - len(l.lstrip())
    return " " * n + l[n:]


def diagnostics(err):
    """The diagnostics on stderr of scaffold, and the files named as failed.

    An error is one or more diagnostics, or a plain text, followed by the file.
    """
    ls = err.split("\n")
    diags, failed, texts = [], [], []
    k = 0
    while k < len(ls):
        l = ls[k]
        if l == BULLETS and k + 1 < len(ls) and ls[k + 1].startswith(ERR):
            # Up to the next diagnostic, file, or summary.
            j = k + 2
            while j < len(ls) and ls[j] != BULLETS and not ls[j].startswith("file: ") and not WHERE.match(ls[j]):
                j += 1
            d = {"text": ls[k + 1][len(ERR):], "placed": False, "line": 0, "col": 0, "quoted": "", "caretcol": 0,
                 "carets": 0}
            body = ls[k + 2:j]
            m = WHERE.match(ls[j]) if j < len(ls) else None
            if m:
                d.update(placed=True, line=int(m.group(1)), col=int(m.group(2)))
                j += 1
            while body and not body[-1].strip():
                body.pop()
            if body and re.match(r"^ *\^+$", body[-1]):
                d.update(quoted=lead(body[-2].rstrip()) if len(body) > 1 else "", caretcol=len(body[-1]) - len(body[-1].lstrip()) + 1,
                         carets=body[-1].count("^"))
            elif body:
                d.update(quoted=lead("\n".join(body).strip("\n")))
            diags.append(d)
            texts.append(d["text"])
            k = j
            continue
        if l.startswith("file: "):
            failed.append({"file": l[6:], "why": "; ".join(texts)})
            texts = []
        elif l.strip() and not l.startswith(("warn:", "    =")):
            texts.append(l.strip())
        k += 1
    return diags, failed


VHEAD = re.compile(r"^warn: (.*)$")
SUMMARY = re.compile(r"^warn: (\d+) checks? failed(?: \(run `bulloak check --fix <\.tree files>` to apply (\d+) fix(?:es)?\))?$")


def kind_of(msg):
    if re.match(r'^contract ".*" is missing in \.sol -- found', msg):
        return "name"
    if re.match(r'^contract ".*" is missing in \.sol$', msg):
        return "contract"
    if re.match(r'^function ".*" is missing in \.sol$', msg):
        return "missing"
    if msg.startswith("incorrect position for function"):
        return "order"
    return "file"


def violations(run):
    """What bulloak check says."""
    vs, failed, fixable, cur = [], 0, 0, None
    other = 0
    for l in run.err.split("\n"):
        m = SUMMARY.match(l)
        if m:
            failed, fixable = int(m.group(1)), int(m.group(2) or 0)
            if m.group(2) == "0":
                fixable = -1   # an advice to apply nothing
            cur = None
            continue
        m = VHEAD.match(l)
        if m:
            cur = {"msg": m.group(1), "help": "", "fix": "", "loc": "", "kind": kind_of(m.group(1))}
            vs.append(cur)
            continue
        s = l.strip()
        if cur is not None and s.startswith("= help: "):
            cur["help"] = s[len("= help: "):]
        elif cur is not None and s.startswith("+ fix: "):
            cur["fix"] = s[len("+ fix: "):]
        elif cur is not None and s.startswith("--> "):
            cur["loc"] = s[4:]
            cur = None
        elif s:
            other += 1
    fixed = re.search(r"^success: (\d+) issues? fixed\.$", run.out, re.M)
    return {"viols": vs, "failed": failed, "fixable": fixable, "success": "All checks completed successfully!" in run.out,
            "rc": run.rc, "crashed": run.crashed, "noisy": bool(run.err.strip()), "fixed": int(fixed.group(1)) if fixed else -1,
            "other": other}


# ---------------------------------------------------------------------------
# Solidity.

def part(b, p, comments):
    """A part of a contract in a source b (bytes)."""
    ins = [c for c in comments if p["bstart"] < c["start"] and c["end"] <= p["bend"]] if p["bend"] else []
    code, at = [], p["bstart"]
    for c in ins:
        code.append(b[at:c["start"]])
        at = c["end"]
    code.append(b[at:p["bend"]])
    code = b" ".join(code).decode("utf-8", "replace")
    code = " ".join(code.split())
    if code.startswith("{") and code.endswith("}"):
        code = code[1:-1].strip()
    return {"ty": p["ty"], "name": p["name"], "mods": p["mods"], "attrs": p["attrs"], "params": p["params"],
            "returns": p["returns"], "line": p["line"], "code": code,
            "comments": [b[c["start"]:c["end"]].decode("utf-8", "replace").rstrip() for c in ins]}


NO_SOL = {"ok": False, "spdx": False, "pragmas": [], "imports": [], "bases": [], "kinds": [], "name": "", "others": 0,
          "parts": []}


def seen_sol(src):
    """What scaffold printed."""
    v = solview(src)
    if not v["ok"] or not v["contracts"]:
        return dict(NO_SOL)
    b = src.encode()
    c = v["contracts"][0]
    bodies = [(p["bstart"], p["bend"]) for p in c["parts"]]
    stray = [x for x in v["comments"] if not any(s < x["start"] < e for s, e in bodies)]
    spdx = [x for x in stray if re.match(r"^// SPDX-License-Identifier: \S+$", b[x["start"]:x["end"]].decode())
            and x["start"] == 0]
    others = len(stray) - len(spdx) + sum(1 for t in v["top"] if t["ty"] == "other")
    return {"ok": True, "spdx": len(spdx) == 1, "pragmas": [" ".join(p.split()).rstrip(";").rstrip() for p in v["pragmas"]],
            "imports": [i["path"] for i in v["imports"]], "bases": c["bases"], "kinds": [x["kind"] for x in v["contracts"]],
            "name": c["name"], "others": others, "parts": [part(b, p, v["comments"]) for p in c["parts"]]}


def entry_sol(src):
    """A source that is given to check."""
    v = solview(src)
    if not v["ok"]:
        return "unparsable", {"has": False, "cname": "", "cline": 0, "parts": []}
    if not v["contracts"]:
        return "ok", {"has": False, "cname": "", "cline": 0, "parts": []}
    c = v["contracts"][0]
    return "ok", {"has": True, "cname": c["name"], "cline": c["line"],
                  "parts": [{"ty": p["ty"], "name": p["name"], "line": p["line"]} for p in c["parts"]]}


def squeeze(s):
    """Ignores how the lines of a fragment are indented."""
    return "\n".join(l.strip() for l in s.strip().split("\n"))


def inked(s):
    """Like squeeze, without blank lines: the formatter keeps those of block comments or not, depending on what is around."""
    return "\n".join(l for l in squeeze(s).split("\n") if l)


def calm(b, start, end, comments):
    """A fragment of the source b, its comments without blank lines."""
    out, at = [], start
    for c in comments:
        if start <= c["start"] and c["end"] <= end:
            out += [b[at:c["start"]].decode(), inked(b[c["start"]:c["end"]].decode())]
            at = c["end"]
    return squeeze("".join(out) + b[at:end].decode())


def repaired(src):
    """A formatted source, in the detail needed to see what a repair kept."""
    v = solview(src)
    b = src.encode()
    if not v["ok"]:
        return {"ok": False, "has": False, "blank": False, "cname": "", "tops": [], "parts": [], "comments": [], "rest": [],
                "src": src}
    tops, rest = [], []
    for t in v["top"]:
        if t["ty"] == "contract":
            tops.append("contract")
        else:
            tops.append(calm(b, t["start"], t["end"], v["comments"]))
    parts = []
    if v["contracts"]:
        c = v["contracts"][0]
        for p in c["parts"]:
            q = part(b, p, v["comments"])
            q["text"] = calm(b, p["start"], max(p["end"], p["bend"]), v["comments"])
            parts.append(q)
        rest = [c["kind"]] + c["bases"] + [calm(b, x["start"], x["end"], v["comments"]) for x in v["contracts"][1:]]
    return {"ok": True, "has": bool(v["contracts"]), "blank": not src.strip(), "cname": v["contracts"][0]["name"] if v["contracts"] else "",
            "tops": tops, "parts": parts, "rest": rest, "src": src,
            "comments": [inked(b[x["start"]:x["end"]].decode()) for x in v["comments"]]}


# ---------------------------------------------------------------------------
# Cases about one text.

def chars(t):
    return list(t)


LONG = {"S": "--vm-skip", "m": "--skip-modifiers", "s": "--solidity-version", "w": "--write-files", "f": "--force-write"}


def spelled(opts, files, n):
    """The same command line in one of several ways."""
    how = n % 4
    if how == 0:
        # short, before the files
        out = []
        for o in opts:
            out += ["-s", o[1]] if isinstance(o, tuple) else ["-" + o if len(o) == 1 else "--" + o]
        return out + files
    out = []
    for o in opts:
        o, v = o if isinstance(o, tuple) else (o, None)
        l = LONG.get(o, "--" + o)
        out += [l] if v is None else [l + "=" + v] if how == 1 else [l, v]
    if how == 1:
        return files + out
    if how == 2:
        return out[::-1] + files if all(x.startswith("-") for x in out) else out + files
    # short ones in one word, in the middle of the files
    short = "".join(o for o in opts if isinstance(o, str) and len(o) == 1)
    rest = ["--" + o for o in opts if isinstance(o, str) and len(o) > 1]
    value = [o[1] for o in opts if isinstance(o, tuple)]
    word = (["-" + short + "s"] + value if value else ["-" + short] if short else [])
    return files[:1] + word + rest + files[1:]


def scaffold_run(path, cwd, vmskip=False, nomods=False, version=None, view=True, how=0):
    opts = ["S"] * vmskip + ["m"] * nomods + ([("s", version)] if version is not None else [])
    args = ["scaffold"] + spelled(opts, [path], how)
    r = common.bulloak(args, cwd)
    diags, failed = diagnostics(r.err)
    rec = {"args": " ".join(args), "vmskip": vmskip, "nomods": nomods, "version": version or "0.8.0", "rc": r.rc, "crashed": r.crashed,
           "noisy": bool(r.err.strip()), "empty": not r.out.strip(), "diags": diags}
    rec["sol"] = seen_sol(r.out) if view and r.rc == 0 and not r.crashed else dict(NO_SOL)
    return rec, r


def scaffold_case(text, flags=((False, False, None),), check=False):
    d = fresh()
    put(os.path.join(d, "a.tree"), text)
    runs = [scaffold_run("a.tree", d, *f, how=len(text) + k)[0] for k, f in enumerate(flags)]
    case = {"kind": "scaffold", "texts": [chars(text)], "runs": runs, "tree": "a.tree"}
    if check:
        # Without a Solidity file.
        case["check"] = violations(common.bulloak(["check", "a.tree"], d))
    return case


def answered(a, **default):
    """An answer of a library in the shape of every answer."""
    out = {"ok": a["ok"], "panicked": a["panicked"], "diags": diagnostics(common.ANSI.sub("", a.get("err", "")))[0]}
    for k, v in default.items():
        out[k] = a.get(k, v)
    return out


def parse_case(text):
    """The syntax trees of a text."""
    return {"kind": "parse", "texts": [chars(text)], "runs": [dict(answered(library("parse", text), trees=[]), args="parse")]}


def stages_case(text, flags):
    """What the stages of the libraries make of a text and of each of its trees."""
    runs = []
    for f in flags:
        a = library("stages", text, *f)
        one = answered(a["one"], trees=[]) if a["ok"] else answered(a, trees=[])
        runs.append(dict(answered(a), args="", vmskip=f[0], one=one, each=a.get("each", [])))
    return {"kind": "stages", "texts": [chars(text)], "runs": runs}


def library_case(text, flags, sol=None):
    """What the libraries say, and what the commands say."""
    runs = []
    for k, f in enumerate(flags):
        d = fresh()
        tree = os.path.join(d, "a.tree")
        put(tree, text)
        if sol is not None:
            put(os.path.join(d, "a.t.sol"), sol)
        rec, r = scaffold_run("a.tree", d, *f, view=False)
        rec["hir"] = answered(library("translate", text, *f), contracts=0, others=0, name="", parts=[])
        rec["emit"] = answered(library("scaffold", text, *f), out="")
        rec["out"] = r.out[:-1] if r.rc == 0 else ""
        said = common.bulloak(["check"] + ["-m"] * f[1] + [tree], d)
        rec["check"] = [common.ANSI.sub("", x["text"]) for x in library("check", tree, *f).get("problems", [{"text": "panic"}])]
        rec["said"] = [l for l in said.err.split("\n") if l]
        rec["check"] = [l for x in rec["check"] for l in x.split("\n") if l]
        if rec["said"] and SUMMARY.match(rec["said"][-1]):
            rec["said"].pop()
        runs.append(rec)
    return {"kind": "library", "texts": [chars(text)], "runs": runs}


def steps_case(text, sol, orders):
    """Problems repaired one by one, in several orders."""
    d = fresh()
    tree, file = os.path.join(d, "a.tree"), os.path.join(d, "a.t.sol")
    put(tree, text)
    put(file, sol)
    st, _ = entry_sol(sol)
    runs = []
    for k, order in enumerate(orders):
        nomods, stale = k % 2 == 1, k >= 2
        a = library("steps", tree, nomods=nomods, stale=stale, order=order)
        steps = []
        for s in a.get("steps", []):
            said = common.Run([], 0, b"", "\n".join(s["problems"]).encode(), False)
            sst, view = entry_sol(s["src"])
            steps.append({"pick": s["pick"], "viols": violations(said)["viols"], "st": sst, "sol": view})
        runs.append(dict(answered(a), args="order %s%s" % (order[:8], ", of the problems there were at first" if stale else ""), nomods=nomods, stale=stale, steps=steps))
    return {"kind": "steps", "texts": [chars(text)], "tree": tree, "file": file, "solst": st, "runs": runs,
            "inputs": [{"name": "a", "sol": sol, "quirk": ""}]}


def variant_case(texts, names):
    d = fresh()
    runs = []
    for k, t in enumerate(texts):
        put(os.path.join(d, "a.tree"), t)
        _, r = scaffold_run("a.tree", d, view=False)
        runs.append({"args": names[k], "rc": r.rc, "crashed": r.crashed, "noisy": bool(r.err.strip()), "out": r.out if r.rc == 0 else ""})
    return {"kind": "variants", "texts": [chars(t) for t in texts], "runs": runs}


def clean(r, args):
    return {"args": " ".join(args), "rc": r.rc, "crashed": r.crashed, "noisy": bool(r.err.strip())}


def repeat_case(text, sol=None, times=4):
    """The same commands again, and elsewhere."""
    d = fresh()
    runs = []
    for k in range(times):
        sub = os.path.join(d, "x" if k < times - 1 else "another place")
        os.makedirs(sub, exist_ok=True)
        put(os.path.join(sub, "a.tree"), text)
        if sol is not None:
            put(os.path.join(sub, "a.t.sol"), sol)
            if k == 1:
                common.bulloak(["check", "--fix", "--stdout", "a.tree"], sub)
            r = common.bulloak(["check", "a.tree"], sub)
            f = common.bulloak(["check", "--fix", "--stdout", "a.tree"], sub)
            runs.append({"rc": r.rc, "out": r.out + f.out, "err": r.err + f.err, "diags": []})
        else:
            r = common.bulloak(["scaffold", "a.tree"], sub)
            runs.append({"rc": r.rc, "out": r.out, "err": r.err, "diags": diagnostics(r.err)[0]})
    return {"kind": "scaffold" if sol is None else "repeat", "texts": [chars(text)], "runs": runs}


def order_case(entries, rng):
    """Several files, in some order, and each of them alone."""
    d = fresh()
    es = setup_entries(d, entries)
    trees = [e["tree"] for e in es]
    rng.shuffle(trees)
    if rng.random() < 0.3:
        trees.insert(rng.randrange(len(trees) + 1), rng.choice(trees))

    def seen(fs):
        s = common.bulloak(["scaffold"] + fs, d)
        c = common.bulloak(["check"] + fs, d)
        x = common.bulloak(["check", "--fix", "--stdout"] + fs, d)
        vs = violations(c)["viols"]
        return {"out": s.out, "failed": [f["file"] for f in diagnostics(s.err)[1]], "first": [v for v in vs if v["kind"] == "file"],
                "then": [v for v in vs if v["kind"] != "file"], "shown": blocks(x.out), "crashed": s.crashed or c.crashed or x.crashed}

    return {"kind": "order", "texts": [], "trees": trees, "all": seen(trees), "alone": [seen([t]) for t in trees], "runs": [],
            "inputs": [{"name": n, "tree": t, "sol": s or "", "quirk": q or ""} for n, t, s, q in entries]}


def blocks(out):
    """What --fix --stdout shows: under which path, what."""
    got, cur = [], None
    for l in out.split("\n"):
        if l.startswith("--> ") and cur is None:
            cur = {"path": l[4:], "text": []}
        elif l == "<--" and cur is not None:
            got.append({"path": cur["path"], "text": "\n".join(cur["text"])})
            cur = None
        elif cur is not None:
            cur["text"].append(l)
    if cur is not None:
        got.append({"path": cur["path"], "text": "UNFINISHED"})
    return got


def clean_case(text, sol, layout, argvs):
    """Arbitrary commands; only their ending matters. layout: extra setup of the directory."""
    d = fresh()
    stem = "\udcffa" if layout == "oddname" else "a"
    argvs = [[re.sub(r"^(\./)?a\.", lambda m: (m[1] or "") + stem + ".", x) for x in argv] for argv in argvs]

    def reset():
        for f in os.listdir(d):
            p = os.path.join(d, f)
            shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
        put(os.path.join(d, stem + ".tree"), text)
        if layout == "soldir":
            os.mkdir(os.path.join(d, stem + ".t.sol"))
        elif layout == "treedir":
            os.unlink(os.path.join(d, stem + ".tree"))
            os.mkdir(os.path.join(d, stem + ".tree"))
        elif layout == "notree":
            os.unlink(os.path.join(d, stem + ".tree"))
        elif layout == "badutf8":
            put(os.path.join(d, stem + ".tree"), text.encode() + b"\xff\xfe")
        if sol is not None and layout != "soldir":
            put(os.path.join(d, stem + ".t.sol"), sol if layout != "solbadutf8" else sol.encode() + b"\xff")

    runs = []
    for argv in argvs:
        reset()
        runs.append(clean(common.bulloak(argv, d), argv))
    return {"kind": "clean", "texts": [chars(text)], "runs": runs, "sol": sol if sol is not None else "", "layout": layout}


def round_case(text, name="a"):
    """Scaffold to a file, then check."""
    rounds = []
    tree, file = name + ".tree", name + ".t.sol"
    for S, m, s in ((False, False, None), (True, False, "^0.8.20"), (False, True, None), (True, True, "0.7.6")):
        d = fresh()
        if name.startswith("@/"):
            name = d + name[1:]
            tree, file = name + ".tree", name + ".t.sol"
        os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True)
        put(os.path.join(d, tree), text)
        common.bulloak(["scaffold", "-w", tree] + ["-S"] * S + ["-m"] * m + (["-s", s] if s else []), d)
        wrote = os.path.isfile(os.path.join(d, file))
        for cm in (False, True):
            v = violations(common.bulloak(["check", tree] + ["-m"] * cm, d))
            v.update(args="-S=%s -m=%s check -m=%s" % (S, m, cm), wrote=wrote, scaffoldm=m, checkm=cm, refixed=0, same=True)
            if cm or not m:
                # Nothing to repair.
                before = get(os.path.join(d, file))
                x = violations(common.bulloak(["check", "--fix", tree] + ["-m"] * cm, d))
                v.update(refixed=x["fixed"], same=before == get(os.path.join(d, file)) and x["rc"] == 0)
            rounds.append(v)
    return {"kind": "round", "texts": [chars(text)], "rounds": rounds, "inputs": [{"name": name, "sol": "", "quirk": ""}]}


# ---------------------------------------------------------------------------
# Cases about trees and Solidity files.

def setup_entries(d, entries):
    """entries: [(name, text or None, sol or None, quirk)]. Returns their descriptions."""
    out = []
    for name, text, sol, quirk in entries:
        if name.startswith("@/"):
            name = d + name[1:]     # an absolute path
        tree, file = name + ".tree", name + ".t.sol"
        os.makedirs(os.path.dirname(os.path.join(d, name)) or d, exist_ok=True)
        treeok = True
        if quirk == "notree":
            treeok = False
        elif quirk == "treedir":
            os.makedirs(os.path.join(d, tree), exist_ok=True)
            treeok = False
        elif quirk == "badtree":
            put(os.path.join(d, tree), text.encode() + b"\xc3\x28")
            treeok = False
        else:
            put(os.path.join(d, tree), text)
        solst, view = "missing", {"has": False, "cname": "", "cline": 0, "parts": []}
        if quirk == "soldir":
            os.makedirs(os.path.join(d, file), exist_ok=True)
            solst = "unreadable"
        elif quirk == "badsol":
            put(os.path.join(d, file), (sol or "").encode() + b"\xc3\x28")
            solst = "unreadable"
        elif sol is not None:
            put(os.path.join(d, file), sol)
            solst, view = entry_sol(sol)
        out.append({"tree": tree, "file": file, "treeok": treeok, "solst": solst, "sol": view})
    return out


def check_case(entries, fixes=False):
    d = fresh()
    es = setup_entries(d, entries)
    trees = [e["tree"] for e in es]
    runs = []
    for m in (False, True):
        v = violations(common.bulloak(["check"] + trees + ["-m"] * m, d))
        v.update(args="check" + " -m" * m, nomods=m)
        runs.append(v)
    fx = []
    if fixes:
        for argv in (["--fix", "--stdout"], ["--fix"]):
            v = violations(common.bulloak(["check"] + trees + argv, d))
            v["args"] = " ".join(argv)
            fx.append(v)
    return {"kind": "check", "texts": [chars(t or "") for _, t, _, _ in entries], "entries": es, "runs": runs, "fixes": fx,
            "inputs": [{"name": n, "sol": s or "", "quirk": q or ""} for n, _, s, q in entries]}


def layout(v):
    """How many comments there are, and in which parts."""
    ps = [[(p["start"], max(p["end"], p["bend"])) for p in c["parts"]] for c in v["contracts"]]
    return len(v["comments"]), [[sum(s <= x["start"] < e for x in v["comments"]) for s, e in c] for c in ps]


def fix_case(entries, flags=(False, True)):
    """--fix, check, --fix. Returns None when a source cannot be formatted to begin with."""
    repairs, es = [], None
    befores = []
    for _, _, sol, quirk in entries:
        if sol is None or quirk:
            befores.append(repaired(""))
            continue
        v = solview(sol, True)
        if v["ok"]:
            if v.get("fmt") is None:
                return None
            # Only sources the formatter itself treats well: it settles, and comments stay, and stay where they are.
            text, settled = v["fmt"], False
            for _ in range(4):
                w = solview(text, True)
                if not w["ok"] or layout(w) != layout(v):
                    return None
                if w.get("fmt") == text:
                    settled = True
                    break
                text = w["fmt"]
            if not settled:
                return None
            befores.append(repaired(text))
        else:
            befores.append(repaired(""))
    for m in flags:
        d = fresh()
        es = setup_entries(d, entries)
        trees = [e["tree"] for e in es]
        fix = violations(common.bulloak(["check", "--fix"] + trees + ["-m"] * m, d))
        texts = [get(os.path.join(d, e["file"])) for e in es]
        after = [repaired(t) if t is not None and e["solst"] == "ok" else repaired("") for t, e in zip(texts, es)]
        recheck = violations(common.bulloak(["check"] + trees + ["-m"] * m, d))
        again = violations(common.bulloak(["check", "--fix"] + trees + ["-m"] * m, d))
        unchanged = texts == [get(os.path.join(d, e["file"])) for e in es]
        repairs.append({"args": "--fix" + " -m" * m, "nomods": m, "fix": fix, "recheck": recheck, "again": again, "unchanged": unchanged,
                        "before": befores, "after": after})
    return {"kind": "fix", "texts": [chars(t or "") for _, t, _, _ in entries], "entries": es, "repairs": repairs, "runs": [],
            "inputs": [{"name": n, "sol": s or "", "quirk": q or ""} for n, _, s, q in entries]}


def tally(case, counts):
    """Counts what was seen, to show that properties were not held vacuously."""
    def add(k, n=1):
        counts[k] = counts.get(k, 0) + n

    for r in case.get("runs", []) + case.get("rounds", []) + [s for s in case.get("steps", []) if "rc" in s]:
        add("exit status %s" % r.get("rc"))
        for d in r.get("diags", []):
            add("diagnostic: " + re.split(r"['$:`0-9]", d["text"])[0].strip())
        for x in r.get("viols", []):
            add("violation: " + x["kind"])
    for r in case.get("repairs", []) if case["kind"] == "fix" else []:
        add("repairs")
        add("issues fixed", max(0, r["fix"]["fixed"]))
    for s in case.get("steps", []):
        i = s.get("issue")
        add("step: " + s["cmd"] + (" --fix" * i["fix"] + " --stdout" * i["stdout"] + " -w" * i["write"] + " -f" * i["force"] if i else ""))
        for k in ("failed", "skipped") if i else ():
            add("files " + k, len(s["seen"][k]))
