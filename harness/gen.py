"""Seeded generators of .tree texts, of edits to them, and of Solidity files.

They only produce inputs. What is right or wrong about the outcome is decided by the specification.
"""
import random
import re

PLAIN = ["foo", "bar", "the", "user", "owner", "is", "not", "zero", "amount", "balance", "called", "caller", "a", "an",
         "token", "valid", "stream", "x", "y", "transfer", "sender", "to", "address", "exceeds", "already"]
ODD_TITLE = ["don't", "\"quoted\"", "zero-value", "under_score", "_", "-", "--", "2", "7x", "x7", "ERC20", "FOO", "fOo",
             "été", "Éa", "ñandu", "straße", "ß", "Λx", "я", "名字", "²", "x²", "①", "ª", "'", "a-b-c",
             "_lead", "trail_", "ς", "ŉx", "İ", "ΑΣ"[1:], "ʼn", "Ⅷ", "½", "٣", "x٣", "when", "given", "it", "When", "IT", "GIVEN", "should", "revert", "test_", "latest_price", "test_test_x",
             "test", "reverts", "Revert", "modifier"]
ODD_ACTION = ["foo.", "(bar)", "a,b", "x;", "{", "}", "{}", "a/b", "http://x.y/z", "a//b", "/", "/*", "*/", "$", "100%",
              "`code`", "#1", "&", "a=b", "<x>", "[0]", "!", "?", "~", "|", "\\", "\\n", "@dev", "😀", "→", "…", "“q”", "•",
              "—", "a·b", "e\u0301", "x├y", "x└", "a│b", "a─b", "\ufeffbom", "zw\u200bsp", "x\u2028y", "x\x85y", "\u3000", "a\x0bb", "\x01", "x\x7f", "r\u202el", "n\u00a0b", "\u00a0", "a\u2003b", "w\x0cz", "forgefmt:", "forgefmt: disable-start",
              "forgefmt: disable-next-item", "forgefmt: disable-end", "forgefmt: disable-line", "'test_x", "\"test_", "(test_foo)", "`test_foo`", "$x", "'foo'", ".foo", "!x", "(should)", "'revert'", "__bulloak_comment__", "::", "Foo::bar", "^0.8"]
ALPHABET = (
    [chr(c) for c in range(32, 127)]
    + list("éñüλяσÉÑÜΛЯΣ名字ªßςŉİʼⅧ²①½٣·‿") + ["\u0301"]
    + list("😀→…—“”•") + ["\ufeff", "\u200b", "─", "│", "├", "└", "\n", "\t", "\r", "\f", "\u00a0", "\u2003", "\x0b", "\x85", "\u2028", "\u3000",
       "\x01", "\x7f", "\u202e"])
CONTRACTS = ["Foo", "FooTest", "Foo_Bar", "Foo-Bar", "foo", "F", "Stream2", "Été", "Foo.t", "Foo!", "_Foo", "Foo$", "ŉFoo", "٣Foo", "Foo٣", "Foo½"]
FUNCTIONS = ["create", "cancel", "hashPair", "withdraw", "_x", "fn2", "été", "ß", "a-b", "get(uint256)", "ctor", "Create", "ŉ", "٣", "ςx", "½", "when", "given", "it", "test_", "modifier"]


class Node:
    """A branch of a drawing."""

    def __init__(self, kind, words, kids=()):
        self.kind, self.words, self.kids = kind, list(words), list(kids)


class Style:
    """How a drawing is drawn."""

    def __init__(self, rng, wild):
        self.bars = rng.random() < 0.8
        self.strokes = rng.choice(["── ", "── ", "─ ", " ", "", "───── ", "- "[1:]])
        self.width = rng.choice([3, 3, 3, 2, 4, 1, 6, 3, 9, 13])
        self.ragged = wild and rng.random() < 0.35
        self.mixed = wild and rng.random() < 0.35   # connectors of nested branches are not checked
        self.comments = rng.random() < 0.3
        self.trail = rng.random() < 0.2
        self.inline = wild and rng.random() < 0.12   # a branch may start on the line of its parent
        self.tabs = wild and rng.random() < 0.25     # a tab is one column, like every character
        self.slope = rng.randint(1, 5) if wild and rng.random() < 0.25 else 0   # top-level branches move to the left


def near(r, kw, t):
    """A title that is almost another one."""
    s = " ".join(t[1:])
    op = r.randrange(10)
    ks = [k for k, c in enumerate(s) if c.isalpha()]
    k = r.choice(ks) if ks else 0
    if op <= 2:
        s = s[:k] + s[k:k + 1].swapcase() + s[k + 1:]
    elif op == 3 and " " in s:
        s = s.replace(" ", "", 1)
    elif op == 4:
        s = s.replace(" ", r.choice(["-", "_", "  "]), 1)
    elif op == 5:
        s = s[:k] + r.choice(["'", "\"", "_", "-"]) + s[k:]
    elif op == 6:
        s += r.choice(["2", "_", "s", " x"])
    elif op == 7:
        s = s.upper()
    elif op == 8:
        kw = "given" if kw.lower() == "when" else "when" if kw.lower() == "given" else kw
    s = "".join(c for c in s if c in ALPHABET)
    return [kw] + (s.split() or ["x"])


def nudge(r, t):
    """Changes the title of one condition a little."""
    ls = t.split("\n")
    ks = [k for k, l in enumerate(ls) if re.search(r"[├└][─ ]*(when|given) [A-Za-z]", l, re.I) and "//" not in l]
    if ks:
        k = r.choice(ks)
        head, kw, rest = re.match(r"(.*?[├└][─ ]*)(when|given) (.*)$", ls[k], re.I).groups()
        ls[k] = head + " ".join(near(r, kw, [kw] + rest.split()))
    return "\n".join(ls)


class TreeGen:
    def __init__(self, rng, odd=0.15, wild=0.4, depth=4, width=4, actions=3, budget=30, near_=0.06, long=0.02, nest=None):
        self.r, self.odd, self.wild = rng, odd, wild
        self.depth, self.width, self.actions, self.budget = depth, width, actions, budget
        self.used = set()
        self.near, self.titles = near_, []
        self.long, self.hint = long, None
        self.descriptions = [0, 0, 0, 1, 1, 2, 3]
        self.nest = nest or [0, 0, 1, 1, 2, width]

    # -- words -----------------------------------------------------------
    def word(self, pool):
        return self.r.choice(pool) if self.r.random() < self.odd else self.r.choice(PLAIN)

    def title(self, pool, lo=1, hi=4):
        r = self.r
        ws = [self.word(pool) for _ in range(r.randint(lo, hi))]
        if r.random() < self.long:
            # Longer than any line one would print.
            if r.random() < 0.5:
                ws += [self.word(PLAIN) for _ in range(r.randint(12, 40))]
            else:
                ws.insert(r.randrange(len(ws) + 1), "".join(r.choice(PLAIN) for _ in range(r.randint(15, 45))))
        if self.hint and r.random() < 0.12:
            ws.insert(0, r.choice([self.hint, self.hint, self.hint.capitalize(), self.hint + "s", "test_", "test_" + self.hint, "'test_" + self.hint]))
        return ws

    def kw(self, k):
        return self.r.choice([k, k, k, k.capitalize(), k.upper()]) if self.r.random() < 0.3 else k

    def fresh_title(self, kw):
        """A title whose name is (very likely) not used yet."""
        if self.titles and self.r.random() < self.near:
            return near(self.r, kw, self.r.choice(self.titles))
        for _ in range(8):
            t = [kw] + self.title(ODD_TITLE)
            self.titles.append(t)
            key = re.sub(r"[^A-Za-z0-9_À-￿]", "", "".join(w[:1].upper() + w[1:] for w in t)).lower()
            if key not in self.used:
                self.used.add(key)
                return t
        t = [kw, "case", "n%d" % len(self.used)]
        self.used.add("".join(t))
        return t

    # -- structure -------------------------------------------------------
    def description(self, depth=0):
        n = Node("desc", self.title(PLAIN + ODD_ACTION + ODD_TITLE, 1, 5))
        while n.words[0].lower() in ("when", "given", "it") or n.words[0].startswith("//"):
            n.words[0] = self.r.choice(PLAIN)
        if self.r.random() < 0.1 * self.odd:
            # What the formatter would obey.
            n.words = ["forgefmt:", "disable-" + self.r.choice(["start", "next-item", "next-line", "line", "end"])]
        return n

    def action(self, fresh=False):
        r = self.r
        if r.random() < 0.2:
            words = r.choice([["should", "revert"], ["should", "revert."], ["should", "Revert"], ["Should", "REVERT!"],
                              ["should", "revert", "when", "x"], ["should", "reverts"], ["should_revert"],
                              ["should", "not", "revert"], ["should", "“revert”"], ["should-revert"]])
            words = [self.kw("it")] + words
            if fresh:
                words += ["n%d" % len(self.used)]
                self.used.add("n%d" % len(self.used))
        elif fresh:
            words = self.fresh_title(self.kw("it"))
            if r.random() < self.odd:
                words.append(r.choice(ODD_ACTION))
        elif r.random() < 0.04:
            words = [self.kw("it")]
        else:
            words = [self.kw("it")] + self.title(ODD_TITLE + ODD_ACTION, 1, 5)
        words = [w if not w.startswith("//") else "x" + w for w in words]
        n = Node("it", words)
        for _ in range(r.choice(self.descriptions)):
            n.kids.append(self.description())
        return n

    def condition(self, depth):
        r = self.r
        self.budget -= 1
        n = Node("cond", self.fresh_title(self.kw(r.choice(["when", "given"]))))
        kids = []
        for _ in range(r.randint(0, self.actions)):
            kids.append(self.action())
        if depth < self.depth and self.budget > 0:
            for _ in range(r.choice(self.nest)):
                if self.budget > 0:
                    kids.append(self.condition(depth + 1))
        if not kids:
            kids = [self.action()]
        if r.random() < 0.5:
            r.shuffle(kids)
        n.kids = kids
        return n

    def forest(self):
        r = self.r
        top = []
        for _ in range(r.randint(1, self.width)):
            if r.random() < 0.3:
                top.append(self.action(fresh=True))
            else:
                top.append(self.condition(1))
        return top

    # -- drawing ---------------------------------------------------------
    def draw(self, root, top, style=None):
        r = self.r
        st = style or Style(r, r.random() < self.wild)
        lines = [root]

        def put(nodes, col, bars, level):
            left = st.slope
            for k, n in enumerate(nodes):
                last = k + 1 == len(nodes)
                conn = "└" if last else "├"
                if st.mixed and level > 0 and r.random() < 0.4:
                    conn = r.choice("├└")
                c = col
                if st.slope and level == 0:
                    c = left = r.randint(max(0, left - 2), left)
                if st.ragged and level > 0 and r.random() < 0.5:
                    c += r.randint(0, 2)
                lead = [" "] * c
                if st.bars:
                    for b in bars:
                        if b < c:
                            lead[b] = "│"
                if st.tabs and level > 0:
                    lead = ["\t" if x == " " and r.random() < 0.5 else x for x in lead]
                text = "".join(lead) + conn + st.strokes + " ".join(n.words)
                if st.strokes == "":
                    text = "".join(lead) + conn + " ".join(n.words)
                kids = n.kids
                if st.inline and kids and not kids[0].kids and r.random() < 0.5:
                    text += " " + r.choice("├└") + st.strokes + " ".join(kids[0].words)
                    kids = kids[1:]
                if st.trail and r.random() < 0.3:
                    text += r.choice([" ", "  ", "\t"])
                if st.comments and r.random() < 0.15:
                    text += " // " + " ".join(self.title(ODD_ACTION, 1, 3))
                lines.append(text)
                if st.comments and r.random() < 0.12:
                    lines.append(" " * r.randint(0, 4) + r.choice(["// ", "//", "//├── "]) + " ".join(self.title(ODD_ACTION, 1, 3)))
                put(kids, c + max(1, st.width if not st.ragged else r.randint(1, 5)), bars + ([] if last else [c]), level + 1)

        put(top, 0, [], 0)
        return "\n".join(lines)

    def tree(self, root=None, hint=None):
        self.used = set()
        self.hint = hint if hint and re.fullmatch(r"\w+", hint) else None
        self.budget = self.budget or 10
        b = self.budget
        if root is None:
            root = self.r.choice(CONTRACTS[:3] if self.r.random() > self.odd * 3 else CONTRACTS)
        t = self.draw(root, self.forest())
        self.budget = b
        return t

    def file(self, roots=None):
        """One or more trees."""
        r = self.r
        n = roots or r.choice([1, 1, 1, 2, 2, 3, 4])
        if n == 1:
            f = r.choice(FUNCTIONS)
            t = self.tree() if r.random() < 0.8 else self.tree("Foo::" + f, f)
        else:
            contract = r.choice(CONTRACTS[:3] if r.random() > self.odd * 2 else CONTRACTS)
            fns = [r.choice(FUNCTIONS[:6] if r.random() > self.odd * 2 else FUNCTIONS) for _ in range(n)]
            if r.random() < 0.85:
                seen = list(dict.fromkeys(fns))
                fns = seen + ["fn%d" % k for k in range(n - len(seen))]
            trees = []
            shared = []
            for f in fns:
                t = self.tree(contract + "::" + f, f)
                if shared and r.random() < 0.6:
                    # repeat conditions of another tree
                    t = contract + "::" + f + "\n" + r.choice(shared).split("\n", 1)[1]
                    if r.random() < 0.3:
                        t = nudge(r, t)
                shared.append(t)
                if r.random() < 0.1:
                    trees.append("// only a comment\n" * r.randint(1, 2) + "//")
                trees.append(t)
            t = r.choice(["\n\n", "\n\n", "\n\n\n", "\n\n\n\n"]).join(trees)
        if r.random() < 0.15:
            t = r.choice(["\n", "\n\n", "// header\n", "  \n", "\n// c\n\n"]) + t
        t += r.choice(["", "\n", "\n", "\n\n", "\n \n" if n == 1 else "\n"])
        if r.random() < 0.1:
            t = t.replace("\n", "\r\n")
        return t


# ---------------------------------------------------------------------------
# Edits that break (or do not break) a text.

def mutate(rng, t):
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        t = mutate1(rng, t)
    return t


def stretch(rng, t):
    """Makes a line (much) longer than any one would write."""
    lines = t.split("\n")
    k = rng.randrange(len(lines))
    n = rng.choice([100, 300, 600, 1100, 2100])
    run = rng.choice(["─", " ", "x", "é", "😀", "─é", "a b ", "é 名 "])
    run = (run * n)[:n]
    m = re.search(r"[├└][─ ]*", lines[k])
    p = rng.choice([0, len(lines[k]), m.start() if m else 0, m.end() if m else 0, m.end() if m else len(lines[k])])
    lines[k] = lines[k][:p] + run + lines[k][p:]
    if rng.random() < 0.3:
        lines[k] += rng.choice([" ├ x", " @ when", " it", " // c", "\t!"])
    return "\n".join(lines)


def tower(r):
    """Far more levels than any one would draw."""
    n = r.choice([20, 30, 45, 80, 150])
    width, often = r.choice([1, 1, 2]), r.choice([0, 0, 0.1, 0.6])
    lines = ["Foo"]
    for k in range(n):
        if r.random() < often:
            lines.append(" " * (k * width) + "├ it a%d" % k)
        lines.append(" " * (k * width) + "└ when x%d" % k)
    lines.append(" " * (n * width) + "└ it z")
    return "\n".join(lines)


def mutate1(rng, t):
    lines = t.split("\n")
    k = rng.randrange(len(lines))
    op = rng.randrange(24)
    if op == 0:
        del lines[k]
    elif op == 1:
        lines.insert(k, lines[k])
    elif op == 2 and len(lines) > 1:
        j = rng.randrange(len(lines))
        lines[k], lines[j] = lines[j], lines[k]
    elif op in (3, 4, 5):
        s = "\n".join(lines)
        p = rng.randrange(len(s) + 1)
        c = rng.choice(ALPHABET)
        return s[:p] + c + s[p:]
    elif op == 6:
        s = "\n".join(lines)
        if s:
            p = rng.randrange(len(s))
            return s[:p] + s[p + 1:]
    elif op == 7:
        s = "\n".join(lines)
        if s:
            p = rng.randrange(len(s))
            return s[:p] + rng.choice(ALPHABET) + s[p + 1:]
    elif op in (8, 9):
        lines[k] = lines[k].replace("├", "@").replace("└", "├").replace("@", "└")
    elif op == 10:
        lines[k] = re.sub(r"\b(when|given|it)\b ?", "", lines[k], count=1, flags=re.I)
    elif op == 11:
        lines[k] = re.sub(r"\b(when|given|it)\b", rng.choice(["when", "given", "it", "wen", "whenever"]), lines[k], count=1)
    elif op == 12:
        lines[k] = re.sub(r"(\b(?:when|given|it)\b).*", r"\1", lines[k], flags=re.I)
    elif op == 13:
        lines[k] = " " * rng.randint(1, 4) + lines[k]
    elif op == 14:
        lines[k] = lines[k][rng.randint(1, 3):]
    elif op == 15:
        lines = lines[:k + 1]
    elif op == 16:
        lines = lines[k:]
    elif op == 17:
        lines[k] = re.sub(r"([├└]).*", r"\1", lines[k])
    elif op == 18:
        lines.insert(k, "")
    elif op == 19:
        lines[k] += rng.choice([" // c", "//c", "  ", " ├", " └── it x", "\t", " it", " when", "\r"])
    elif op == 20:
        lines[k] = lines[k].replace("::", rng.choice([":", "", " :: ", "::::"]))
    elif op == 21:
        # Something that stands alone.
        k = rng.choice([0, len(lines)] + [j for j in range(len(lines)) if lines[j] == ""])
        lines[k:k] = ["", rng.choice(["/", "/ Foo", "/x\n/y", "* c", "# c", "; c", "│", "x", "when x", "├", "\t", "//c\n/c", "-- c", "/* c */", "\\ c"]), ""]
    elif op == 22:
        # A title over two lines; its branch may lose what hangs on it.
        ks = [j for j in range(len(lines)) if re.search(r"[├└][─ ]*(when|given|it) \w", lines[j], re.I)]
        if ks:
            k = rng.choice(ks)
            m = re.search(r"[├└]", lines[k])
            j = k + 1
            while rng.random() < 0.9 and j < len(lines) and re.match(r"[ │\t]*[├└]", lines[j]) and re.search(r"[├└]", lines[j]).start() > m.start():
                j += 1
            if rng.random() < 0.8:
                del lines[k + 1:j]
            sp = [p for p in range(m.start(), len(lines[k])) if lines[k][p] == " "]
            p = rng.choice(sp)
            lines[k] = lines[k][:p] + "\n" + rng.choice(["", " ", "│   ", "        ", " " * 30, "│\n   "]) + lines[k][p + 1:]
    else:
        ws = lines[k].split(" ")
        ws.insert(rng.randrange(len(ws) + 1), rng.choice(ODD_TITLE + ODD_ACTION))
        lines[k] = " ".join(ws)
    return "\n".join(lines)


SOUP = ["/", "\n\n/ x\n\n", "├", "└", "├── ", "└── ", "│", "─", " ", "  ", "   ", "when", "When ", "given ", "it ", "it", "when x", "foo", "Foo::bar",
        "Foo", "::", "a::b", "\n", "\n", "\n", "\n\n", "//", "// c", "\t", "\r\n", "it should revert", "😀", "é", "$", "\f", "\u00a0",
        "\ufeff", "-", "_", "²", "├── when a\n", "├── when b\n", "└── it c\n", "│   └── it d\n", "    ├── it e\n", "       └── f\n"]


def soup(rng):
    return "".join(rng.choice(SOUP) for _ in range(rng.randint(1, 25)))


def broken_batch(rng):
    """A tree with several semantic errors at once."""
    names = ["dup%d" % k for k in range(rng.randint(2, 7))]
    lines = []
    for n in names:
        for _ in range(rng.randint(1, 3)):
            kw = rng.choice(["when", "given", "when"])
            lines.append((kw, n))
    rng.shuffle(lines)
    out = ["Foo"]
    for k, (kw, n) in enumerate(lines):
        last = k + 1 == len(lines)
        out.append(("└" if last else "├") + "── %s %s" % (kw, n))
        if rng.random() < 0.8:
            out.append(("    " if last else "│   ") + "└── it works")
    return "\n".join(out)


# ---------------------------------------------------------------------------
# Edits that do not change the meaning of an accepted text.

def neutral(rng, t):
    """Returns (name, text)."""
    crlf = "\r\n" in t
    u = t.replace("\r\n", "\n")
    lines = u.split("\n")
    trees_started = [k for k, l in enumerate(lines) if l.strip() and not l.strip().startswith("//")]
    if not trees_started:
        return "none", t
    inner = [k for k in trees_started if re.search("[├└]", lines[k])]
    op = rng.choice(["comment-line", "trailing-comment", "trailing-space", "stroke-line", "blank-lines", "strokes", "crlf",
                     "surround", "comment-line", "trailing-comment"])
    text = rng.choice([" c", " when x", "├── it foo", "", " // again", " └── when", "😀 é", " \"q\" 'r' {", "/ three", " a\u2028└── it b", " \x0b└── it c",
                       " x\x0c", "\x85├── when x", " a\rb", "*", " */", "\u3000"])
    if op == "comment-line":
        # Not right before the separating blank line of two trees' worth of text: anywhere next to a line of a tree.
        k = rng.choice(trees_started) + rng.choice([0, 1])
        lines.insert(k, rng.choice(["", "  ", "│  ", "\t"]).replace("│", " ") + "//" + text)
    elif op == "trailing-comment":
        k = rng.choice(trees_started)
        lines[k] = lines[k] + rng.choice([" ", "  ", "\t"]) + "//" + text
    elif op == "trailing-space":
        k = rng.choice(trees_started)
        lines[k] = lines[k] + rng.choice([" ", "   ", "\t", " \t "])
    elif op == "stroke-line" and inner:
        k = rng.choice(inner)
        lines.insert(k, rng.choice(["│", "│   │", "   ", " ", "│ ", "──", "\t"]))
    elif op == "blank-lines":
        blanks = [k for k in range(1, len(lines) - 1) if lines[k] == "" and lines[k - 1] != ""]
        if blanks:
            lines.insert(rng.choice(blanks), "")
    elif op == "strokes" and inner:
        k = rng.choice(inner)
        m = re.match(r"^([ │]*)([├└])([─ ]*)(.*)$", lines[k])
        # What else starts on the line stays where it is.
        if m and not re.search("[├└]", m.group(4)):
            lines[k] = m.group(1) + m.group(2) + rng.choice(["── ", "─", " ", "", "─── ─ ", "│ "]) + m.group(4)
    elif op == "crlf":
        crlf = not crlf
    elif op == "surround":
        pre, post = rng.choice(["", "\n", "\n\n", "// top\n", "  \n", "// a\n\n"]), rng.choice(["", "\n", "\n\n\n", "\n// end", "\n  "])
        lines = (pre + "\n".join(lines) + post).split("\n")
    s = "\n".join(lines)
    return op, s.replace("\n", "\r\n") if crlf else s


# ---------------------------------------------------------------------------
# Solidity.

FOREIGN = [
    "uint256 internal counter%d;",
    "mapping(address => uint256) public balances%d; // é balance",
    "event Logged%d(address indexed who);",
    "error Failed%d();",
    "struct Point%d {\n        uint256 x;\n        uint256 y;\n    }",
    "using Lib%d for uint256;",
    "function helper%d(uint256 a) internal pure returns (uint256) {\n        return a + 1; // {not} a brace\n    }",
    "function setUp%d() public {\n        // é ü 😀 multi-byte\n        counter = 1;\n    }",
    "modifier onlyOwner%d() {\n        require(msg.sender == owner, \"not {owner}\");\n        _;\n    }",
    "enum Kind%d {\n        A,\n        B\n    }",
    "function test_Extra%d() external {\n        string memory s = \"}\";\n    }",
    "bytes32 constant HASH%d = keccak256(\"x\");",
    "function abstractish%d() external virtual;",
    "type Price%d is uint128;",
    "event Anon%d(uint256 indexed a, bytes b) anonymous;",
    "function over%d(uint256 a, bytes calldata b) public payable virtual override(A, B) returns (bytes memory c, uint256) {\n        return (b, a);\n    }",
    "address payable immutable who%d;",
    "uint256[][3] internal xs%d = [uint256(1), 2, 3];",
    "function(uint256) external returns (bool) cb%d;",
    "mapping(address who => mapping(uint256 => bool) seen) private nested%d;",
    "string constant TEXT%d = \"it // is /* not */ a comment\";",
]
ONCE = ["constructor() {\n        counter = 2;\n    }", "receive() external payable {}", "fallback() external payable {\n        revert();\n    }"]
COMMENTS = ["// a comment", "/* block */", "/// @notice doc", "// é 😀 → wide", "/* two\n       lines */", "/* spaces   \n   at the end  */", "// function test_Foo() {}",
            "// when }", "/** doc\n     * block */", "/* above\n\n       below */", "/**\n     * doc\n     *\n\n\n     * more\n     */",
            "/*\n\n    x\n\n    */", "/// @notice doc\n    ///\n    /// more", "// one\n\n    // two", "/* a */ /* b */"]
BODIES = ["", "// it should do something", "uint256 a = 1;\n        a++;", "if (x) {\n            revert();\n        } else {\n            y();\n        }",
          "string memory s = \"// not { a comment\"; // é", "assertEq(a, b);\n        // trailing", "vm.skip(true);\n        // later",
          "uint256 a;\n\n\n        uint256 b;", "/* x\n\n           y */\n        a = 1;", "// one\n\n        // two\n\n        a;",
          "assembly {\n            let x := 1\n\n            // é }\n            mstore(0, x)\n        }",
          "string memory s = unicode\"é {\";", "bytes memory b = hex\"00\";", "try this.f() {} catch {}",
          "for (uint256 i; i < 3; i++) {\n            if (i == 1) continue;\n        }", "unchecked {\n            a++;\n        }"]


def part_text(rng, ty, name, mods, comments, bare, custom):
    if ty == "modifier":
        if bare and rng.random() < 0.5:
            return "modifier %s%s" % (name, rng.choice([" {\n        _;\n    }", " virtual;", " virtual {\n        _;\n    }", " { _; }"]))
        if custom and rng.random() < 0.3:
            return "modifier %s%s" % (name, rng.choice(["() virtual;", "(uint256 a) {\n        _;\n    }", "() virtual {\n        _;\n    }",
                                                        "()\n    {\n        _; // é\n    }"]))
        body = "_;" if not custom else rng.choice(["_;", "x = 1;\n        _;", "// é\n        _;", "require(true);\n        _;"])
        return "modifier %s() {\n        %s\n    }" % (name, body)
    attrs = "external" if not custom else rng.choice(["external", "public", "external view", "public virtual"])
    params = "" if not custom else rng.choice(["", "", "uint256 a", "address who, uint256 amount"])
    if custom:
        mods = [m for m in mods if rng.random() < 0.7]
        if rng.random() < 0.17:
            return "function %s(%s) %s%s;" % (name, params, rng.choice(["external virtual", "external", "public\n        virtual\n       "]),
                                              rng.choice(["", ""] if bare else ["", " // no body ;\n    ", " /* ; } */ ", " /* ; } */ ", "\n        /* a;\n        b */\n        "]))
        body = rng.choice(BODIES)
    else:
        body = "\n        ".join(comments)
    return "function%s%s(%s)\n        %s%s\n    {\n        %s\n    }" % (rng.choice(["\n        ", "  ", " /* é */ ", "\n\n  // it\n"]) if custom and not bare and rng.random() < 0.2 else " ", name, params, attrs, "".join("\n        " + m for m in mods), body)


def sol_file(rng, fns, cname, level):
    """A Solidity file derived from the functions [(ty, name, mods, comments)] a tree asks for.

    level 0: as scaffolded; higher levels are further away from it.
    """
    r = rng
    items = [(f, True) for f in fns]
    # The formatter moves comments into the parentheses it adds to modifiers: either modifiers without them, or comments.
    bare = level >= 1 and r.random() < 0.12
    if level >= 1:
        p = r.choice([0, 0.1, 0.3, 0.6, 1.0]) if level > 1 else r.choice([0, 0.15])
        items = [x for x in items if r.random() >= p]
        how = r.random()
        if how < 0.35 and len(items) > 1:
            i, j = r.sample(range(len(items)), 2)
            items.insert(j, items.pop(i))
        elif how < 0.5:
            r.shuffle(items)
        elif how < 0.55:
            items.reverse()
    parts = []
    for f, _ in items:
        ty, name, mods, comments = f
        x = r.random()
        if level >= 2 and x < 0.06:
            ty = "function" if ty == "modifier" else "modifier"
        elif level >= 2 and x < 0.10:
            name = name + r.choice(["2", "_", "X"])
        elif level >= 2 and x < 0.13:
            name = name.lower()
        if level >= 2 and x > 0.90 and x <= 0.95:
            # Something of the other kind, with the same name.
            parts.append(r.choice(["function %s(uint8 q) public {\n        q;\n    }", "function %s() internal {}"]) % name if f[0] == "modifier"
                         else r.choice(["modifier %s() {\n        _;\n    }", "modifier %s(uint256 a) {\n        _;\n    }"]) % name)
        parts.append(part_text(r, ty, name, mods, comments, bare, level >= 1 and r.random() < 0.5))
        if level >= 2 and x > 0.95:
            # an overload
            parts.append("function %s(uint8 q) public {\n        q;\n    }" % name)
    n = 0
    if level >= 1:
        for _ in range(r.choice([0, 0, 1, 2, 4])):
            n += 1
            parts.insert(r.randint(0, len(parts)), (r.choice(FOREIGN) % n).replace(" // é balance", "" if bare else " // é balance"))
        if r.random() < 0.2:
            parts.insert(r.randint(0, len(parts)), r.choice(ONCE))
    body = ""
    for k, p in enumerate(parts):
        if level >= 1 and not bare and r.random() < 0.15:
            body += "    " + r.choice(COMMENTS) + "\n"
        body += "    " + p + (r.choice(["", "", " // side", " /* é */"]) if level >= 2 and not bare else "") + "\n" + ("\n" if r.random() < 0.8 else "")
    if level >= 1 and not bare and r.random() < 0.1:
        body += "    " + r.choice(COMMENTS) + "\n"
    if level >= 2 and r.random() < 0.15:
        cname = r.choice([cname + "X", "Other", cname.lower() + "q", "ABC", "_" + cname, "__" + cname, cname + "_", cname + "2", "$" + cname,
                          cname.swapcase(), cname[:1].swapcase() + cname[1:], cname.lower(), cname.upper(), cname.strip("_") or "Z", cname[:-1] or "Z",
                          cname + "Test", "Test" + cname, "I" + cname])
        if not re.fullmatch(r"[A-Za-z_$][A-Za-z0-9_$]*", cname):
            cname = "Other"
    kind = r.choice(["contract"] * 6 + ["abstract contract"]) if level >= 1 else "contract"
    if level >= 2 and r.random() < 0.05 and not any(x in body for x in ("constructor", "receive", "fallback")):
        kind = r.choice(["library", "interface"])
    bases = r.choice(["", "", " is Test", " is Test, Base(1)", " is Base(S({a: 1}))", " is A(\"{\"), B", " is\n    A,\n    B({x: \"}\"})"]) if level >= 1 and kind not in ("library", "interface") else ""
    head = "// SPDX-License-Identifier: MIT\npragma solidity 0.8.0;\n\n"
    pre = post = ""
    if level >= 1:
        head = r.choice([head, head, "pragma solidity ^0.8.19;\n", "", "// é\n" + head, head + "import \"forge-std/Test.sol\";\nimport {A as B} from \"./A.sol\";\n\n"])
        if not bare and r.random() < 0.15:
            pre = r.choice(["/// docs {\n", "// test_Foo\n", "/* a\n b */\n", "error Top();\n", "uint256 constant X = 1;\n", "struct S {\n    uint256 a;\n}\n\n"])
        if not bare and r.random() < 0.2:
            post = r.choice(["\ncontract Helper {\n    function test_Foo() external {}\n}\n", "\nlibrary L {}\n", "\n// the end\n", "\nfunction free(uint256 a) pure returns (uint256) {\n    return a;\n}\n"])
    if level >= 1 and not bare and r.random() < 0.06:
        bases += r.choice([" // {\n", " /* { */", " /*/ { */", " // */ {\n", " /** { **/", " /* // */", "\n// a { b\n", " // é }\n"])
    if level >= 1 and r.random() < 0.1:
        kind = r.choice([kind + "\n   ", kind.replace(" ", "\n"), kind.replace(" ", "\n\n") + "\n", kind + " "])
    src = head + pre + "%s %s%s {\n%s}\n" % (kind, cname, bases, body) + post
    if level >= 2:
        x = r.random()
        if x < 0.05:
            src = r.choice(["", "\n", " \n\t\n", "\r\n  ", "/* a */", "/// docs\n", "type T is uint256;\n", "abstract", "pragma abicoder v2;\n\n\n", "// just a comment\n", "pragma solidity 0.8.0;\n", "// a\npragma solidity 0.8.0;\nerror E();\n", "import \"x.sol\";\n"])
        elif x < 0.075:
            src = src.replace("\n", "\r\n")
        elif x < 0.095:
            src = "\n\n" + src
    return src
