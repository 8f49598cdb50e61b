"""Sessions: several commands, one after the other, on the files of a directory, and edits in between."""
import os
import random
import re
import shutil

import common
import gen
import jobs
import record

PROPS = {"C13", "C14", "C21"}

TREES = ["a.tree", "b.tree", "dir/c.tree", "e.x.tree", "f g.tree", "a.txt", "noext", "h.tree.old.tree", "my.trees/a.tree", "x.t.sol/b.tree", "k.t.sol.tree",
         ".hidden.tree", "\udcffn.tree", "q\"u'o.tree"]
BYSTANDERS = ["a.sol", "notes.txt", "a.tree.t.sol", "b.t.sol.bak", "dir/c.sol", "t.sol"]


def solof(p):
    """x.tree -> x.t.sol"""
    d, f = os.path.split(p)
    i = f.rfind(".")
    return os.path.join(d, (f[:i] if i > 0 else f) + ".t.sol")


# ---------------------------------------------------------------------------
# Jobs.

def tree_text(r):
    x = r.random()
    g = gen.TreeGen(r, odd=r.choice([0, 0.2]), budget=r.choice([1, 2, 4]), depth=2, width=2, actions=2)
    if x < 0.75:
        return g.file(roots=r.choice([1, 1, 1, 2]))
    if x < 0.9:
        return gen.mutate(r, g.file(roots=1))
    return r.choice(["", "Foo", "// nothing\n", "Foo\n└── when x", "a::b\n└── it x\n\nc::d\n└── it y", "├── it x"])


def sol_text(r, tree):
    x = r.random()
    if x < 0.6:
        return ("derive", tree, r.choice([0, 1, 2]), r.randrange(1 << 30))
    if x < 0.75:
        return ("mutate", tree, r.choice([0, 1]), r.randrange(1 << 30))
    return ("text", r.choice(["", "contract {", "// mine\n", "contract Mine {}\n", "pragma solidity 0.8.0;\ncontract Foo {uint x;}\n"]))


def tree_what(r, text):
    x = r.random()
    if x < 0.9:
        return ("file", text)
    return (r.choice(["absent", "dir", "hidden", "locked", "link"]), text)


def sol_what(r, tree):
    x = r.random()
    kind = "file" if x < 0.75 else r.choice(["dir", "stuck", "locked", "hidden", "link", "link"])
    return (kind, sol_text(r, tree))


def random_job(prop, seed):
    r = random.Random("session/%s/%d" % (prop, seed))
    names = r.sample(TREES[:4] if r.random() < 0.75 else TREES, r.choice([1, 2, 2, 3, 3]))
    if r.random() < 0.03:
        names = r.sample(TREES, r.randint(6, len(TREES)))
    texts = {n: tree_text(r) for n in names}
    init = []
    for n in names:
        init.append((n,) + tree_what(r, texts[n]))
        if r.random() < (0.35 if prop != "C21" else 0.8) and solof(n) not in [i[0] for i in init]:
            init.append((solof(n),) + sol_what(r, texts[n]))
    for n in names:
        # What looks like a source of a tree, and is not.
        if r.random() < 0.3:
            stem = n[:-5] if n.endswith(".tree") else n
            b = r.choice([stem + ".sol", stem + ".T.sol", n + ".t.sol", n + ".sol", stem + ".t.sol.sol", stem.split(".")[0] + ".t.sol",
                          stem + "Test.t.sol", stem + ".s.sol", os.path.join("test", os.path.basename(stem) + ".t.sol"),
                          os.path.basename(stem) + ".t.sol"])
            taken = [i[0] for i in init] + [solof(n) for n in names] + names
            if not any(b == p or p.startswith(b + "/") or b.startswith(p + "/") for p in taken):
                init.append((b, "file", sol_text(r, texts[n])))
    for b in r.sample(BYSTANDERS, 2):
        if b not in [i[0] for i in init] + [solof(n) for n in names] + names:
            init.append((b, "file", ("text", "not yours: %s\n" % b)))
    steps = []
    for _ in range(r.choice([2, 3, 4, 5])):
        x = r.random()
        if x < 0.2:
            n = r.choice(names)
            if r.random() < 0.4:
                if r.random() < 0.6:
                    texts[n] = tree_text(r)
                steps.append(("edit", n) + tree_what(r, texts[n]))
            else:
                steps.append(("edit", solof(n)) + (("absent", None) if r.random() < 0.3 else sol_what(r, texts[n])))
            continue
        fs = [n for n in names if r.random() < 0.75] or [r.choice(names)]
        r.shuffle(fs)
        if r.random() < 0.1:
            fs.append(r.choice(fs))
        if r.random() < 0.1:
            fs.insert(r.randrange(len(fs) + 1), "nothere.tree")
        if r.random() < 0.03:
            fs = []
        check = r.random() < (0.25 if prop != "C21" else 0.75)
        if not check:
            w = r.random() < (0.75 if prop != "C14" else 0.5)
            steps.append(("scaffold", fs, r.random() < 0.25, r.random() < 0.25, r.choice([None, None, None, "^0.8.20"]), w,
                          r.random() < (0.4 if w else 0.06)))
        else:
            fix = r.random() < 0.7
            steps.append(("check", fs, r.random() < 0.25, fix, r.random() < (0.35 if fix else 0.1)))
    return ("session", init, steps)


# ---------------------------------------------------------------------------
# Running them.

def wipe(p):
    if os.path.islink(p) or os.path.isfile(p):
        os.unlink(p)
    elif os.path.isdir(p):
        shutil.rmtree(p)


def place(d, path, kind, text):
    p = os.path.join(d, path)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    wipe(p)
    if kind == "dir":
        os.mkdir(p)
    elif kind == "stuck":
        os.symlink("no/such/dir/x", p)
    elif kind == "link":
        # To a file that is not among those looked at.
        t = os.path.join(os.path.dirname(d), "linked", path.replace("/", "%"))
        os.makedirs(os.path.dirname(t), exist_ok=True)
        own(os.path.dirname(t))
        wipe(t)
        record.put(t, text)
        own(t)
        os.symlink(t, p)
    elif kind != "absent":
        record.put(p, text)
        if kind == "locked":
            os.chmod(p, 0o444)
        elif kind == "hidden":
            os.chmod(p, 0)
        else:
            own(p)
    for x, ds, _ in os.walk(d):
        own(x)


def own(p):
    if common.can_drop():
        os.chown(p, common.NOBODY, common.NOBODY)


def snapshot(d, kinds):
    """What is at every path. kinds: the special kinds that were put there."""
    out = {}
    for x, ds, fs in os.walk(d):
        for n in list(ds) + fs:
            p = os.path.join(x, n)
            rel = os.path.relpath(p, d)
            if os.path.islink(p):
                out[rel] = {"kind": "stuck", "text": ""} if os.readlink(p) == "no/such/dir/x" else {"kind": "link", "text": record.get(p)}
            elif os.path.isdir(p):
                if rel != "dir":
                    out[rel] = {"kind": "dir", "text": ""}
            elif os.path.isfile(p):
                mode = os.stat(p).st_mode & 0o777
                kind = "locked" if mode == 0o444 else "hidden" if mode == 0 else "file"
                out[rel] = {"kind": kind, "text": record.get(p)}
            else:
                out[rel] = {"kind": "odd", "text": ""}
    return out


SKIP = re.compile(r'^warn: Skipped emitting "(.*)"$', re.M)


def unquoted(x):
    """A name as it is, lossily, when it is printed with escapes."""
    x = x.encode("utf-8", "surrogateescape").decode("utf-8", "replace")
    return re.sub(r"\\(x[0-9A-F]{2}|.)", lambda m: "\ufffd" if len(m[1]) > 1 else m[1], x)


COUNT = re.compile(r"^warn: Could not scaffold (\d+) files\.", re.M)


def session(init, steps):
    drop = common.can_drop()
    cache = {}

    def sol(what, spec):
        if isinstance(spec, (tuple, list)):
            spec = tuple(spec)
            if spec not in cache:
                cache[spec] = jobs.derive(spec, "contract A {}")
            return cache[spec]
        return spec or ""

    # Derive the sources first: that uses the scratch directory.
    def resolve(path, kind, text):
        kind = kind if drop or kind not in ("locked", "hidden") else "file"
        return path, kind, (sol(kind, text) or "") if kind in ("file", "locked", "hidden", "link") else ""

    init = [resolve(*i) for i in init]
    steps = [("edit",) + resolve(*s[1:]) if s[0] == "edit" else s for s in steps]
    d = record.fresh()
    ref = os.path.join(os.path.dirname(d), "ref")
    shutil.rmtree(ref, ignore_errors=True)
    os.mkdir(ref)
    own(d)
    kinds = {}
    for path, kind, text in init:
        place(d, path, kind, text)
        kinds[path] = kind
    trees, sols, scaffolds, repairs = {}, {}, {}, {}
    first = snapshot(d, kinds)
    now = first
    log = []
    for s in steps:
        if s[0] == "edit":
            _, path, kind, text = s
            place(d, path, kind, text)
            kinds[path] = kind
            now = snapshot(d, kinds)
            log.append({"cmd": "edit", "path": path, "what": now.get(path, {"kind": "absent", "text": ""})})
            continue
        flags = {"vmskip": False, "nomods": False, "version": "0.8.0"}
        if s[0] == "scaffold":
            _, fs, S, m, v, w, f = s
            flags = {"vmskip": S, "nomods": m, "version": v or "0.8.0"}
            opts = ["S"] * S + ["m"] * m + [("s", v)] * bool(v) + ["w"] * w + ["f"] * f
            issue = {"name": "scaffold", "files": fs, "flags": flags, "write": w, "force": f, "fix": False, "stdout": False}
        else:
            _, fs, m, fix, std = s
            flags["nomods"] = m
            opts = ["m"] * m + ["fix"] * fix + ["stdout"] * std
            issue = {"name": "check", "files": fs, "flags": flags, "write": False, "force": False, "fix": fix, "stdout": std}
        # The references: the same on each file alone.
        for p in fs:
            e, q = now.get(p), now.get(solof(p))
            if not e or e["kind"] not in ("file", "locked", "link"):
                continue
            t = e["text"]
            trees[t] = True
            x = os.path.join(ref, "x.tree")
            key = (t, flags["vmskip"], flags["nomods"], flags["version"])
            if s[0] == "scaffold" and key not in scaffolds:
                record.put(x, t)
                r = common.bulloak(["scaffold", "x.tree"] + ["-S"] * S + ["-m"] * m + (["-s", v] if v else []), ref)
                scaffolds[key] = r.out[:-1] if r.rc == 0 and r.out.endswith("\n") else "(rejected)"
            if s[0] == "check" and q and q["kind"] in ("file", "locked", "link"):
                sols[q["text"]] = True
                key = (t, q["text"], m)
                if key not in repairs:
                    record.put(x, t)
                    record.put(os.path.join(ref, "x.t.sol"), q["text"])
                    common.bulloak(["check", "--fix", "x.tree"] + ["-m"] * m, ref)
                    repairs[key] = record.get(os.path.join(ref, "x.t.sol"))
        args = [s[0]] + record.spelled(opts, fs, len(log) + sum(map(len, fs)))
        r = common.bulloak(args, d, drop=drop)
        after = snapshot(d, kinds)
        diags, failed = record.diagnostics(r.err)
        c = COUNT.search(r.err)
        fixed = re.search(r"^success: (\d+) issues? fixed\.$", r.out, re.M)
        log.append({"cmd": s[0], "args": " ".join(args), "issue": issue, "rc": r.rc,
                    "seen": {"disk": after, "rc": r.rc, "crashed": r.crashed and r.rc != 2, "printed": r.out if s[0] == "scaffold" else "",
                             "shown": record.blocks(r.out) if s[0] == "check" else [], "skipped": [unquoted(x) for x in SKIP.findall(r.err)],
                             "failed": [f["file"] for f in failed], "reasons": all(f["why"].strip() for f in failed),
                             "count": int(c.group(1)) if c else 0, "fixed": int(fixed.group(1)) if fixed else 0}})
        now = after
    shutil.rmtree(ref, ignore_errors=True)
    # The same paths everywhere.
    paths = set(first)
    for s in log:
        paths |= set(s["seen"]["disk"]) if "seen" in s else {s["path"]}
        if "issue" in s:
            paths |= set(s["issue"]["files"]) | {solof(p) for p in s["issue"]["files"]}
    for disk in [first] + [s["seen"]["disk"] for s in log if "seen" in s]:
        for p in paths:
            disk.setdefault(p, {"kind": "absent", "text": ""})
    return {
        "kind": "session", "disk": first, "steps": log, "solof": {p: solof(p) for p in paths},
        "trees": [{"text": t, "chars": list(t)} for t in trees],
        "texts": [list(t) for t in trees],
        "sols": [dict(zip(("st", "sol"), record.entry_sol(t)), text=t) for t in sols],
        "scaffolds": [{"tree": k[0], "flags": {"vmskip": k[1], "nomods": k[2], "version": k[3]}, "text": v} for k, v in scaffolds.items()],
        "repairs": [{"tree": k[0], "sol": k[1], "nomods": k[2], "text": v, "trimmed": v.strip()} for k, v in repairs.items()],
    }


def run(job):
    case = record.shown(session(*job[1:]))
    case["job"] = job
    return case
