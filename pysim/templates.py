"""Drawn generator templates: an abstract form, its text, and an independent model of what generating them gives."""
import hashlib

WORDS = ["int x;", "alpha", "  beta(1, 2);", "", "\tgamma", "/* note */", "# hash", "x = \"[[\";", "\u03bb \u00e9", "a" * 90, "end", "]]"]
PREFIXES = ["", "// ", "# ", "  // ", "    ", "\t", "/*", "  # "]
NAMES = ["NAME", "MODE", "K"]


class Blk:
    """A generator block. kind and args decide its code and its output."""
    def __init__(self):
        self.kind, self.arg, self.pre, self.single, self.trail, self.endpre = "line", 1, "", False, "", ""
        self.cpre = self.epre = None    # before the code lines and before the marker that ends them, if not like before the first
        self.etrail = ""        # after that marker
        self.section = ""       # text between the markers now
        self.stamp = None       # checksum in the end marker, or None


class Mark:
    def __init__(self, b="[[[cog", e="]]]", o="[[[end]]]"):
        self.b, self.e, self.o = b, e, o


DEFAULT = Mark()
OTHER = [Mark("{{{gen", "}}}", "{{{stop}}}"), Mark("<<cog", ">>", "<<fin>>"), Mark("[[[cog", "]]]", "[[[over]]]")]

# kinds every family may use: regenerating gives the same text
PLAIN = ["line", "loop", "count", "define", "tail", "dedent", "empty", "unicode", "helper", "blank", "infile", "set", "multi", "wide", "state", "dedent2", "trim"]


def code(b):
    k, n = b.kind, b.arg
    if k == "line":
        return ["cog.outl(\"v%d = %d;\")" % (n, n * 7)]
    if k == "loop":
        return ["for i in range(%d):" % n, "  cog.outl(\"x%d = %d;\" % (i, i * i))"]
    if k == "count":
        return ["count = globals().get(\"count\", 0) + %d" % n, "cog.outl(\"count %d\" % count)"]
    if k == "state":
        return ["state = dict(globals().get(\"state\", {}))", "state[%d] = len(state)" % n, "cog.outl(\"state %r\" % (sorted(state.items()),))"]
    if k == "define":
        return ["cog.outl(\"is \" + %s)" % NAMES[n % len(NAMES)]]
    if k == "tail":
        return ["cog.out(\"no newline %d\")" % n]
    if k == "dedent":
        return ["cog.out(\"\"\"", "    a%d" % n, "      b", "    c", "    \"\"\", dedent=True, trimblanklines=True)"]
    if k == "dedent2":
        return ["cog.outl(\"z%d\")" % n, "cog.out(\"\\n    p\\n      q\\n\\n    r\\n  \", dedent=True, trimblanklines=True)"]
    if k == "trim":
        return [["cog.out(\"\\nq\\n  r\", trimblanklines=True)"], ["cog.out(\"q\\n  r\\n\", trimblanklines=True)"], ["cog.out(\"  q\\n  r\\n\\n\", dedent=True)", "cog.outl(\"end\")"],
                ["cog.out(\"\\n\", trimblanklines=True)", "cog.outl(\"  v\", dedent=True)", "cog.outl(\"  w\")"]][n % 4]
    if k == "empty":
        return []
    if k == "unicode":
        return ["cog.outl(chr(0x3bb) * %d + \"x\")" % n]
    if k == "helper":
        return ["import helper_a", "cog.outl(helper_a.f(%d))" % n]
    if k == "blank":
        return ["cog.outl()", "cog.outl(\"after blank\")", "cog.outl()"] if n % 2 else ["cog.out(\"\\n\\n\")"]
    if k == "infile":
        return ["cog.outl(\"from \" + cog.inFile)"]
    if k == "set":
        return ["cog.outl(\" \".join(sorted({\"a\", \"b\", \"c%d\"})))" % n]
    if k == "multi":
        return ["def f(k):", "  return \"f%d\" % k", "", "for i in range(%d):" % n, "  cog.outl(f(i))"]
    if k == "wide":
        return ["for i in range(%d):" % (n * 60), "  cog.outl(\"row %06d \" % i + \"=\" * 60)"]
    if k == "path":
        return ["cog.outl(\"path %r\" % ([str(q) for q in cog.path],))"]
    if k == "probe":
        return ["import importlib.util", "cog.outl(\"sees \" + \" \".join(m for m in (\"only_d0\", \"only_d1\", \"only_inc0\", \"only_inc1\") if importlib.util.find_spec(m)))"]
    if k == "syspath":
        return ["import sys", "cog.outl(\"tail %r\" % (sys.path[-1],))"]
    if k == "number":
        return ["cog.outl(\"at %d\" % cog.firstLineNum)"]
    if k == "prev":
        return ["cog.outl(\"had %d %r\" % (len(cog.previous), cog.previous[:20]))"]
    if k == "out":
        return ["cog.outl(\"to \" + str(cog.outFile))"]
    if k == "msg":
        return ["cog.msg(\"note %d\")" % n, "cog.outl(\"noted\")"]
    if k == "latin":
        return ["cog.outl(chr(0x20ac))"]
    if k == "flaky":
        bad = ["raise ValueError(\"no\")", "cog.error(\"no\")", "sys.exit(0)", "sys.exit(3)", "raise KeyboardInterrupt()", "raise MemoryError()", "no_such_name()", "open(\"absent\")"][n % 8]
        return ["import os, sys", "cog.outl(\"before\")", "if not os.path.exists(\"flag\"):", "  " + bad, "cog.outl(\"after\")"]
    if k == "broken":
        return [["raise ValueError(1)"], ["cog.error(\"always\")"], ["x = = 1"], ["import no_such_module_q"], ["cog.outl(chr(0xd800))"], ["cog.outl(3)"]][n % 6]
    raise AssertionError(k)


def reindent(text, pre):
    lines = text.split("\n")
    common = None
    for l in lines:
        if l.strip():
            w = l[:len(l) - len(l.lstrip())]
            if common is None:
                common = w
            else:
                k = 0
                while k < len(common) and k < len(w) and common[k] == w[k]:
                    k += 1
                common = common[:k]
    common = common or ""
    out = []
    for l in lines:
        if common and common in l:
            i = l.index(common)
            l = l[:i] + l[i + len(common):]
        out.append(pre + l if l and pre else l)
    return "\n".join(out)


def raw(b, env):
    k, n = b.kind, b.arg
    if k == "line":
        return "v%d = %d;\n" % (n, n * 7)
    if k == "loop":
        return "".join("x%d = %d;\n" % (i, i * i) for i in range(n))
    if k == "count":
        env["count"] = env.get("count", 0) + n
        return "count %d\n" % env["count"]
    if k == "state":
        s = env.setdefault("state", {})
        s[n] = len(s)
        return "state %r\n" % (sorted(s.items()),)
    if k == "define":
        return "is %s\n" % env["defines"][NAMES[n % len(NAMES)]]
    if k == "tail":
        return "no newline %d" % n
    if k == "dedent":
        return "a%d\n  b\nc\n" % n
    if k == "dedent2":
        return "z%d\np\n  q\n\nr\n" % n
    if k == "trim":
        return ["q\n  r\n", "q\n  r\n", "q\nr\n\nend\n", "\nv\n  w\n"][n % 4]
    if k == "prev":
        return "had %d %r\n" % (len(env["previous"]), env["previous"][:20])
    if k == "number":
        return "at %d\n" % env["line"]
    if k == "out":
        return "to %s\n" % env["infile"]
    if k == "empty":
        return ""
    if k == "unicode":
        return "\u03bb" * n + "x\n"
    if k == "helper":
        return "helped %d\n" % (n * 3)
    if k == "blank":
        return "\nafter blank\n\n" if n % 2 else "\n\n"
    if k == "infile":
        return "from %s\n" % env["infile"]
    if k == "set":
        return " ".join(sorted({"a", "b", "c%d" % n})) + "\n"
    if k == "multi":
        return "".join("f%d\n" % i for i in range(n))
    if k == "path":
        return "path %r\n" % (env["path"],)
    if k == "syspath":
        return "tail %r\n" % (env["path"][-1],)
    if k == "wide":
        return "".join("row %06d " % i + "=" * 60 + "\n" for i in range(n * 60))
    raise AssertionError(k)


def white(s):
    return s[:len(s) - len(s.lstrip())]


def produce(b, env, suffix):
    """what the block's generator writes between the markers"""
    if not code(b):
        t = ""
    else:
        t = raw(b, env)
        if t and t[-1] != "\n":
            t += "\n"
        ind = white(b.pre)
        if b.epre is not None and not b.single:
            e = white(b.epre)
            while not e.startswith(ind):
                ind = ind[:-1]
        t = reindent(t, ind)
    if suffix:
        t = "\n".join(l + suffix if l.strip() else l for l in t.split("\n"))
    return t


HELPER = b"def f(n):\n  return \"helped %d\" % (n * 3)\n"


class Doc:
    """A template: text lines and blocks in order."""
    def __init__(self):
        self.items = []
        self.mark = DEFAULT
        self.eofend = False     # the last block has no end marker (-z)

    def blocks(self):
        return [x for x in self.items if isinstance(x, Blk)]

    def block_text(self, b, last):
        m, o = self.mark, []
        if b.single:
            c = code(b)
            o.append("%s%s %s %s\n" % (b.pre, m.b, c[0] if c else "", m.e))
        else:
            o.append("%s%s\n" % (b.pre, m.b))
            for l in code(b):
                o.append("%s%s\n" % (b.pre if b.cpre is None else b.cpre, l))
            o.append("%s%s%s\n" % (b.pre if b.epre is None else b.epre, m.e, b.etrail))
        o.append(b.section)
        if not (last and self.eofend):
            o.append("%s%s%s%s\n" % (b.endpre, m.o, " (checksum: %s)" % b.stamp if b.stamp else "", b.trail))
        return "".join(o)

    def bare(self):
        """without the generators, as -d leaves it"""
        return "".join(x if isinstance(x, str) else x.section for x in self.items)

    def lines(self):
        """(item, part) of every line; part is text, begin, code, spec (ends the code), section or end; a block on a single line is begin"""
        o = []
        for i, x in enumerate(self.items):
            if isinstance(x, str):
                o += [(i, "text")] * x.count("\n")
                continue
            n = self.block_text(x, i == len(self.items) - 1).count("\n")
            head = 1 if x.single else 2 + len(code(x))
            o += [(i, "begin")]
            if not x.single:
                o += [(i, "code")] * (head - 2) + [(i, "spec")]
            e = 0 if self.eofend and i == len(self.items) - 1 else 1
            o += [(i, "section")] * (n - head - e) + [(i, "end")] * e
        return o

    def text(self):
        o = []
        for i, x in enumerate(self.items):
            o.append(x if isinstance(x, str) else self.block_text(x, i == len(self.items) - 1))
        return "".join(o)


def md5(t):
    return hashlib.md5(t.encode("utf8")).hexdigest()


def generated(doc, env, suffix="", checksum=False, excise=False):
    """The document after a successful regeneration, as a new list of (section, stamp)."""
    env = dict(env)
    res = []
    begins = [q + 1 for q, x in enumerate(doc.lines()) if x[1] == "begin"]
    for i, b in enumerate(doc.blocks()):
        env["previous"], env["line"] = b.section, begins[i]
        sec = "" if excise else produce(b, env, suffix)
        implied = doc.eofend and doc.items and doc.items[-1] is b
        res.append((sec, md5(sec) if checksum and not implied else None))
    return res


def draw_block(ch, kinds):
    b = Blk()
    b.kind = ch.of(kinds)
    b.arg = 1 + ch.pick(4)
    b.pre = ch.of(PREFIXES)
    b.endpre = ch.of(["", "", "// ", "  # "])
    b.trail = ch.of(["", "", "", " */", " tail"])
    if ch.chance(1, 6):     # a comment around the whole generator
        b.pre = ch.of(["/* ", "  /* ", "\t/*", "    // ", "", "      "])
        b.cpre = ch.of(["", "  ", "\t", "      "])
        b.epre = ch.of(["", "  ", "\t", "    ", "  * ", "*"])
        b.etrail = ch.of(["", " */", "  "])
    if len(code(b)) <= 1 and ch.chance(1, 4):
        b.single = True
        b.pre = ch.of(["", "// ", "  "])
    return b


def draw_doc(ch, kinds, nmax=4, mark=None, filler=True):
    d = Doc()
    if mark:
        d.mark = mark
    for _ in range(1 + ch.pick(nmax)):
        if filler:
            for _ in range(ch.pick(3)):
                d.items.append(ch.of(WORDS) + "\n")
        b = draw_block(ch, kinds)
        s = ch.pick(4)
        if s == 1:
            b.section = "old output\n"
        elif s == 2:
            b.section = "  stale one\nstale two\n\n"
        d.items.append(b)
    if filler and ch.chance(1, 2):
        d.items.append(ch.of(WORDS) + "\n")
    return d
