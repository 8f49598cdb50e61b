"""Inputs for every property: (function of record.py, arguments) pairs, from a seed or from a model."""
import random

import gen
import record

ODD_VERSIONS = ["abc", "", "0.8.0;", "0.8.0 x;y", "é", "^0.8.20", ">=0.8 <0.9", "*", "0.8", "0", ".", "..", "x.y.z", "0.8.x", "v0.8.0", "0.8.0-alpha.1", "0.8.0+commit.1",
                "^0.7.0 || ^0.8.0", "0.7.0 - 0.9.0", "~0.8", "99999999999999999999.0.0", "0.300.0", "0.-1.0", " ", " 0.8.1 ", "\"0.8.0\"", "0.8.0 // c", "0.8.0 /* c */", "0.8.0\n", "0.8.0 {",
                "😀.😀.😀", "0.8.é", "0x8", "1e9", "latest", "0.8.0.1", "> 0.8.0", "<0.9", ">=0.8.0<0.9.0", "0 . 8 . 0", "0,8,0"]
VERSIONS = [None, "0.8.0", "^0.8.20", ">=0.7.0 <0.9.0", "0.7.6", "=0.8.17"]


def tgen(r, big=True, **kw):
    return gen.TreeGen(r, odd=kw.pop("odd", r.choice([0, 0.1, 0.4])), budget=r.choice([2, 4, 7, 12] if big else [1, 2, 4, 7]), **kw)


def good(r, big=True, **kw):
    if r.random() < 0.05:
        return bulk(r)
    return tgen(r, big, **kw).file()


def bulk(r, of=None):
    """Many of one thing: trees, branches, actions of a condition, descriptions of an action, levels."""
    many = r.randint(8, 17)
    of = of or r.choice(["trees", "branches", "actions", "mixed", "mixed", "descriptions", "levels"])
    kw = {"odd": r.choice([0, 0.05]), "budget": 3, "near_": 0, "depth": 2, "width": 2, "actions": 2}
    if of == "branches":
        kw.update(width=2 * many, budget=many // 2)
    if of == "actions":
        kw.update(actions=2 * many, budget=2)
    if of == "mixed":
        kw.update(actions=many, nest=[0, 2, 3, 6], budget=many)
    if of == "levels":
        kw.update(depth=many, width=r.choice([1, 2]), actions=1, nest=r.choice([[1], [1, 1, 1, 2], [1, 2]]), budget=2 * many)
    g = gen.TreeGen(r, **kw)
    if of == "descriptions":
        g.descriptions = [0, 1, many]
    return g.file(roots=many if of == "trees" else 1)


def anytext(r, pgood=0.45):
    x = r.random()
    if x < pgood:
        return good(r, near_=r.choice([0, 0.06, 0.3]))
    if x < pgood + 0.35:
        return gen.mutate(r, r.choice([deep, chain])(r) if r.random() < 0.12 else good(r, big=r.random() < 0.3))
    if x < pgood + 0.48:
        return gen.soup(r)
    return gen.broken_batch(r)


def bad(r):
    """Most of the time rejected."""
    t = anytext(r, 0.08)
    return gen.stretch(r, t) if r.random() < 0.02 else t


def deep(r):
    """Regular, deep and wide."""
    return gen.TreeGen(r, odd=0.05, budget=14, depth=6, width=3, actions=2).file(roots=1)


def lines(r):
    """Actions with many descriptions, drawn in any way."""
    g = gen.TreeGen(r, odd=0.05, wild=0.9, budget=4, depth=2, width=2, actions=2)
    g.descriptions = [0, 2, 3, 4, 5, 6]
    return g.file(roots=1)


def chain(r):
    """Deep and narrow."""
    g = gen.TreeGen(r, odd=0.05, budget=r.choice([5, 7, 9]), depth=r.choice([5, 7, 9]), width=2, actions=1, nest=[1, 1, 1, 1, 2])
    return g.file(roots=r.choice([1, 1, 2]))


def multi(r):
    if r.random() < 0.03:
        return bulk(r, "trees")
    g = tgen(r, big=False, odd=r.choice([0, 0, 0.2]), near_=r.choice([0, 0.1]))
    t = g.file(roots=r.choice([2, 2, 3, 4, 5]))
    x = r.random()
    if x < 0.12:
        # disagreeing roots
        ls = t.split("\n")
        ks = [k for k, l in enumerate(ls) if "::" in l and not l.startswith((" ", "├", "└", "│"))]
        if ks:
            k = r.choice(ks)
            ls[k] = r.choice(["Bar::x", "Foo", "::x", "Foo::", "foo::x", ls[k].replace("::", ":"), ls[k] + "::y", "  Foo::zz", "Fo o::x",
                              ls[k].replace("::", " ::")])
            t = "\n".join(ls)
    elif x < 0.2:
        t = gen.mutate1(r, t)
    return t


def flagset(r):
    return [(r.random() < 0.5, r.random() < 0.5, r.choice(VERSIONS)) for _ in range(2)]


ALLFLAGS = [(s, m, v) for s in (False, True) for m in (False, True) for v in (None, "^0.8.20")] + [(True, True, ">=0.7.0 <0.9.0"), (False, False, "0.7.6")]


# -- one job per seed, by property -----------------------------------------

def j_scaffold(textfn, flags=None, check=False):
    def f(r):
        return ("scaffold_case", textfn(r), flags(r) if callable(flags) else flags or [(False, False, None)], check)
    return f


def j_c01(r):
    t = anytext(r, 0.5)
    if r.random() < 0.05:
        t = gen.stretch(r, t)
    if r.random() < 0.02:
        t = gen.tower(r)
    layout = r.choice(["plain"] * 8 + ["soldir", "treedir", "notree", "badutf8", "solbadutf8", "oddname"])
    sol = None
    x = r.random()
    if x < 0.8:
        g = tgen(r, big=False)
        base = g.file() if r.random() < 0.2 else t
        sol = ("derive", base, r.choice([0, 1, 2, 2]), r.randrange(1 << 30))
        if r.random() < 0.15:
            sol = ("mutate",) + sol[1:]
    argvs = [["scaffold", "a.tree"], ["scaffold", "-w", "a.tree"], ["check", "a.tree"], ["check", "--fix", "a.tree"]]
    extra = [["scaffold", "-S", "-m", "a.tree"], ["scaffold", "-w", "-f", "a.tree", "-s", r.choice(ODD_VERSIONS)],
             ["check", "-m", "a.tree"], ["check", "--fix", "--stdout", "a.tree", "-m"], ["check", "--fix", "-m", "a.tree", "a.tree"],
             ["scaffold", "a.tree", "b.tree", "a.tree"], ["check", "b.tree", "a.tree"], ["scaffold"], ["check"], ["scaffold", "./a.tree"],
             ["check", "--fix", "a.t.sol"], ["scaffold", "-w", "a.t.sol"], ["check", "."]]
    argvs += r.sample(extra, 2)
    if r.random() < 0.25:
        argvs.append(["scaffold", "a.tree", "-s", r.choice(ODD_VERSIONS)] + r.choice([[], ["-S"], ["-m"]]))
    return ("clean_job", t, sol, layout, argvs)


def j_c05(r):
    t = good(r, big=False) if r.random() < 0.75 else multi(r)
    texts, names = [t], ["base"]
    cur = t
    for k in range(4):
        op, cur2 = gen.neutral(r, cur if r.random() < 0.5 else t)
        texts.append(cur2)
        names.append(op)
        cur = cur2
    return ("variant_case", texts, names)


def j_c22(r):
    x = r.random()
    if x < 0.25:
        return ("order_job", entries(r, sizes=(2, 2, 3, 4), level=(1, 2, 2)), r.randrange(1 << 30))
    if x < 0.45:
        return ("repeat_case", gen.broken_batch(r), None)
    if x < 0.6:
        return ("repeat_case", anytext(r, 0.7), None)
    if x < 0.7:
        return ("repeat_case", multi(r), None)
    return ("repeat_job", good(r), r.randrange(1 << 30))


def entry(r, name, files=0.06, level=(0, 1, 1, 2, 2, 2), bad=0.05):
    x = r.random()
    t = good(r, big=False, depth=3, width=3) if x < 0.75 else chain(r) if x < 0.85 else multi(r)
    if r.random() < bad:
        t = gen.mutate(r, t)
    q, x = None, r.random()
    drop = False
    if r.random() < 0.06:
        # Nothing is there yet: everything is added at once, in whatever words and depth.
        t = good(r, odd=0.6, depth=3) if r.random() < 0.6 else r.choice([deep, lines, chain])(r)
        return (name, t, ("text", r.choice(["", "", " \n", "// é nothing\n", "pragma solidity 0.8.0;\n"])), None)
    if x < files * 0.4:
        q = r.choice(["notree", "treedir", "badtree", "soldir", "badsol"])
    elif x < files * 0.7:
        drop = True
    garble = files * 0.7 <= x < files
    # The source may come from an earlier state of the tree.
    old = gen.nudge(r, t) if (y := r.random()) < 0.08 else gen.mutate1(r, t) if y < 0.16 else t
    return (name, t, ("none",) if drop else ("derive" if not garble else "mutate", old, r.choice(level), r.randrange(1 << 30)), q)


NAMES = ["a", "b", "dir/c", "./d", "e.x", "f tree", "g.t", "h.tree.old", "x.t.sol/k", "l.t.sol", "trees.tree/m", "n.sol", "é ü", "o/../p", "@/q", "@/r s/t.x", ".u", "V.Tree", "w-x_y+z", "dir/deeper/and deeper/c", "t", "\udcffn", "\udcc3/m", "q\"u'o", "b\\s"]


def entries(r, sizes=(1, 1, 1, 2, 3), **kw):
    n = r.choice(sizes) if r.random() > 0.015 else r.randint(6, 12)
    names = r.sample(NAMES, n) if n > 1 or r.random() < 0.3 else ["a"]
    return [entry(r, nm, **kw) for nm in names]


def j_check(fixes=False, **kw):
    return lambda r: ("check_job", entries(r, **kw), fixes)


def j_fix(**kw):
    return lambda r: ("fix_job", entries(r, **kw))


def j_library(r):
    t = r.choice([good, good, multi, anytext])(r)
    x = r.random()
    sol = None if x < 0.1 else ("derive", t, r.choice([0, 1, 2, 2]), r.randrange(1 << 30)) if x < 0.9 else ("mutate", t, 1, r.randrange(1 << 30))
    return ("library_job", t, flagset(r), sol)


def j_steps(r):
    t = good(r, big=False) if r.random() < 0.75 else multi(r)
    return ("steps_job", t, ("derive", t, r.choice([1, 2, 2, 2]), r.randrange(1 << 30)), orders(r))


def j_stages(r):
    t = r.choice([good, good, deep, chain, lines, multi, multi, anytext, bad])(r)
    return ("stages_case", t, [(r.random() < 0.5, r.random() < 0.3, None)])


def orders(r):
    """In which order problems are repaired: the first, the last, or any one."""
    return [r.choice([[0], [9999999], [r.randrange(1 << 20) for _ in range(40)], [r.randrange(1 << 20) for _ in range(40)]]) for _ in range(4)]


JOBS = {
    "C01": j_c01,
    "C02": j_scaffold(lambda r: r.choice([good, good, deep, lines])(r)),
    "C03": j_scaffold(lambda r: anytext(r, 0.35), check=True),
    "C04": j_scaffold(bad),
    "C05": j_c05,
    "C06": j_scaffold(lambda r: good(r)),
    "C07": j_scaffold(lambda r: good(r, big=False, odd=0.5)),
    "C08": j_scaffold(lambda r: bulk(r, "levels") if r.random() < 0.06 else r.choice([good, deep, multi])(r)),
    "C09": j_scaffold(lambda r: good(r, odd=0.5), flagset),
    "C10": j_scaffold(multi),
    "C11": j_scaffold(lambda r: anytext(r, 0.85), flagset),
    "C12": j_scaffold(lambda r: good(r, big=False), ALLFLAGS),
    "C15": j_check(),
    "C16": j_check(level=(1, 2)),
    "C17": j_check(files=0.5, bad=0.2),
    "C18": lambda r: ("round_case", good(r, big=False) if r.random() < 0.7 else chain(r) if r.random() < 0.3 else multi(r),
                      "a" if r.random() < 0.5 else r.choice(NAMES)),
    "C19": j_fix(),
    "C20": j_fix(level=(1, 1, 2, 2)),
    "C22": j_c22,
    "C23": j_check(fixes=True, files=0.25, sizes=(1, 2, 2, 3, 4)),
    "C24": j_check(sizes=(1, 1, 2)),
    "C25": lambda r: ("parse_case", r.choice([good, good, good, deep, lines, multi, multi, anytext, bad])(r)),
    "C26": j_library,
    "C27": j_steps,
    "C28": j_stages,
}


def random_job(prop, seed):
    return JOBS[prop](random.Random("%s/%d" % (prop, seed)))


# -- running a job, in a worker --------------------------------------------

def derive(spec, default):
    """The Solidity file a recipe stands for: a scaffold of a tree, moved away from it."""
    if spec is None or spec[0] == "none":
        return None
    if spec[0] == "text":
        return spec[1]
    kind, text, level, seed = spec
    r = random.Random(seed)
    s = record.scaffold_case(text)["runs"][0]["sol"]
    if not s["ok"]:
        return default
    fns = [(p["ty"], p["name"], p["mods"], p["comments"]) for p in s["parts"]]
    src = gen.sol_file(r, fns, s["name"], level)
    return gen.mutate1(r, src) if kind == "mutate" else src


def clean_job(t, sol, layout, argvs):
    return record.clean_case(t, derive(sol, "contract A {}"), layout, argvs)


def repeat_job(t, seed):
    sol = derive(("derive", t, 2, seed), None)
    return record.repeat_case(t, sol) if sol is not None else record.repeat_case(t, None)


def library_job(t, flags, sol):
    return record.library_case(t, flags, derive(sol, "contract A {}"))


def steps_job(t, sol, orders_):
    return record.steps_case(t, derive(sol, "contract A {}"), orders_)


def order_job(es, seed):
    return record.order_case(materialize(es), random.Random(seed))


def materialize(es):
    return [(n, t, derive(s, "contract A {}"), q) for n, t, s, q in es]


def check_job(es, fixes):
    return record.check_case(materialize(es), fixes)


def fix_job(es):
    return record.fix_case(materialize(es))


def run(job):
    """Records one case; the job itself stays with it, for replays."""
    fn = globals().get(job[0]) or getattr(record, job[0])
    case = fn(*job[1:])
    if case is not None:
        case = record.shown(case)
        case["job"] = job
    return case
