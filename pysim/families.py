"""The simulated histories for the code generator."""
import hashlib, os, re, shutil
from .core import *
from . import templates as T

DEFS = {"NAME": "reproblas", "MODE": "fast", "K": "k 3"}
DARGS = sum([["-D", "%s=%s" % kv] for kv in sorted(DEFS.items())], [])


def base_files(sim):
    sim.put("inc/helper_a.py", T.HELPER)


def tmpfree(sim):
    """files below the simulated directory that the run did not name"""
    out = []
    for d, _, fs in os.walk(sim.root):
        for f in fs:
            p = os.path.relpath(os.path.join(d, f), sim.root)
            if sim.names.get(p, "tmp").startswith("tmp"):
                out.append(p)
    return sorted(out)


def snapshot(sim, paths):
    return {p: sim.get(p) for p in paths}


def short(b):
    if b is None:
        return "absent"
    return "%d bytes ending %r" % (len(b), b[-40:])


# ------------------------------------------------------------------------------------------ C16
FLAKY = T.PLAIN + ["flaky", "flaky"]


class Job:
    """Some invocations of the generator and the files they are to write."""
    def __init__(self):
        self.procs = []         # argv of each process
        self.outs = []          # files written with -o (path, template)
        self.files = []         # files replaced in place
        self.concurrent = False
        self.kind = ""
        self.root = True
        self.fails = False      # an undisturbed run may fail
        self.plain = []         # templates with nothing to generate
        self.warn = False
        self.garbled = []       # templates holding bytes that are no text


GARBLED = b"// caf\xe9 \xff\xfe z\x80"


def draw_job(ch, sim):
    j = Job()
    kinds = FLAKY + ["number", "latin"]
    shape = ch.pick(8)
    enc = ch.of([[], [], [], ["-n", "latin-1"], ["-n", "utf-8"]])
    if enc == ["-n", "latin-1"]:
        kinds = [k for k in kinds if k != "unicode"]
    else:
        kinds = [k for k in kinds if k != "latin"] + (["broken"] if ch.chance(1, 4) else [])
    j.fails = "latin" in kinds or "broken" in kinds
    opts = DARGS + ["-I", "inc"] + enc
    if ch.chance(1, 3):
        opts += ["-c"]
    if ch.chance(1, 5):
        opts += ["-s", " // gen"]
    if ch.chance(1, 6):
        opts += ["-U"]
    if ch.chance(1, 6):
        opts += ["-e"]
        j.warn = True
    v = ch.of(["2", "2", "1", "0"])
    if v != "2":
        opts += ["--verbosity=" + v]
    enc_ = enc[1] if enc else "utf-8"
    mark, eof = T.DEFAULT, False
    if ch.chance(1, 6):
        mark = ch.of(T.OTHER)
        opts += ["--markers=%s %s %s" % (mark.b, mark.e, mark.o)]
    if ch.chance(1, 8):
        eof = True
        opts += ["-z"]
    n = 1 + ch.pick(3)
    names = []
    for i in range(n):
        ks = kinds if shape in (0, 1, 3, 5) else [k for k in kinds if k != "number"]
        d = T.draw_doc(ch, ks, 3, mark)
        if eof and isinstance(d.items[-1], T.Blk) and ch.chance(1, 2):
            d.eofend = True
        if enc_ == "latin-1":
            d.items = [x.replace("\u03bb", "l") if isinstance(x, str) else x for x in d.items]
        t = "d%d/t%d.ccog" % (ch.pick(2), i)
        text = d.text()
        if ch.chance(1, 8):
            text = text.replace("\n", "\r\n")
        if ch.chance(1, 12):
            text = "plain text, nothing to generate\n"
            j.plain.append(t)
        data = text.encode(enc_)
        if ch.chance(1, 10):   # a line in another encoding, or garbled
            k = ch.pick(data.count(b"\n") + 1)
            ls = data.split(b"\n")
            if eof or k == 0 or ch.chance(1, 2):
                ls.insert(0, GARBLED)
            else:
                ls.append(GARBLED + b"\n")
            data = b"\n".join(ls)
            j.garbled.append(t)
            j.fails = True
        sim.put(t, data)
        names.append(t)
    if shape in (0, 1):             # one process per output, as make runs them
        j.kind = "outputs"
        dele = ["-d"] if ch.chance(1, 4) else []
        for t in names:
            o = t[:-5] + ".c"
            s = ch.pick(4)
            if s == 1:
                sim.put(o, b"old complete output\n" * (1 + ch.pick(200)), mode=ch.of([0o644, 0o644, 0o755, 0o600, 0o444]))
                if ch.chance(1, 2):
                    j.root = False
                os.utime(sim.path(o), (9 * 10 ** 8, 9 * 10 ** 8))
            elif s == 2:
                sim.put(o[:-2] + "_real.c", b"old output behind a link\n")
                os.utime(sim.path(o[:-2] + "_real.c"), (9 * 10 ** 8, 9 * 10 ** 8))
                os.symlink(os.path.basename(o)[:-2] + "_real.c", sim.path(o))
            sim.know(o)
            j.outs.append((o, t))
            j.procs.append(["cog"] + opts + dele + ["-o", o, t])
        j.concurrent = shape == 1
        if not j.root and any(os.path.exists(sim.path(o)) and not os.stat(sim.path(o)).st_mode & 0o200 for o, _ in j.outs):
            j.fails = True
    elif shape in (2, 4):           # several files in place
        j.kind = "in place"
        if ch.chance(1, 6):
            j.root = False
            os.chmod(sim.path(names[ch.pick(n)]), 0o444)
            if ch.chance(1, 2):
                opts += ["-w", "chmod u+w %s"]
            else:
                j.fails = True
        x = ["-x"] if ch.chance(1, 8) else []
        j.files = names[:]
        j.procs = [["cog"] + opts + x + ["-r"] + names]
        if shape == 4 and n == 1:   # two users at once
            j.kind = "in place twice"
            j.procs = j.procs * 2
            j.concurrent = True
    elif shape == 3:                # a list with options of its own
        j.kind = "list"
        lines = []
        for i, t in enumerate(names):
            o = "o%d.c" % i
            lines.append("%s -o %s%s\n" % (t, o, ch.of(["", " -c", " -s ' ;;'", " -D NAME=other", "  # comment"])))
            if ch.chance(1, 2):
                sim.put(o, b"old\n")
            sim.know(o)
            j.outs.append((o, t))
        sim.put("files.txt", "".join(lines).encode())
        j.procs = [["cog"] + opts + ["@files.txt"]]
    elif shape == 5:                # to standard output
        j.kind = "stdout"
        j.procs = [["cog"] + opts + names]
    elif shape == 6:                # output over its own input
        j.kind = "over input"
        j.files = names[:]
        j.procs = [["cog"] + opts + ["-o", t, t] for t in names]
    else:                           # in place through a list
        j.kind = "list in place"
        sim.put("files.txt", "".join(t + "\n" for t in names).encode())
        j.files = names[:]
        j.procs = [["cog"] + opts + ["-r", "@files.txt"]]
    return j


def walk(sim):
    out = {}
    for d, _, fs in os.walk(sim.root):
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, sim.root)] = sim.get(os.path.relpath(p, sim.root))
    return out


def restore(sim, snap):
    for d, _, fs in os.walk(sim.root):
        for f in fs:
            p = os.path.join(d, f)
            if os.path.relpath(p, sim.root) not in snap and not os.path.islink(p):
                os.unlink(p)
    for p, (data, st) in snap.items():
        if sim.get(p) != data and not os.path.islink(sim.path(p)):
            with open(sim.path(p), "wb") as f:
                f.write(data)
        os.chmod(sim.path(p), st[0])
        os.utime(sim.path(p), (st[1], st[1]))


def take(sim):
    out = {}
    for p, data in walk(sim).items():
        s = os.stat(sim.path(p))
        out[p] = (data, (s.st_mode & 0o777, int(s.st_mtime)))
    return out


def fam_fault(sim, ch, prof):
    base_files(sim)
    j = draw_job(ch, sim)
    sim.tag(j.kind)
    old = take(sim)
    # the undisturbed run
    sim.put("flag", b"")
    marked = list(sim.events)
    sim.events = []
    ref = []
    for a in j.procs:
        ref.append(sim.call(a, pid=77, root=j.root))
    new = walk(sim)
    refout = [(p.rc, p.out) for p in ref]
    check_reports(sim, j, ref, old, new)
    mode = {p: m for p, (_, (m, _)) in take(sim).items()}
    for p in sorted(set(j.files + [o for o, _ in j.outs]) & set(mode)):
        was = old[p][1][0] if p in old else 0o666 & ~sim.umask
        if mode[p] != was and not (was == 0o444 and any("-w" in a for a in j.procs)):
            raise Violation("permissions", "%s has mode %o after the generation, %s it has to be %o" % (p, mode[p], "as before" if p in old else "as a new file", was))
        if not j.root and p in old and not was & 0o200 and new[p] != old[p][0] and not any("-w" in a for a in j.procs):
            raise Violation("permissions", "%s is read-only but was replaced" % p)
    for t in j.garbled:
        sim.cnt("input.undecodable")
        for o in ([t] if t in j.files else [o for o, i in j.outs if i == t and new.get(o) is not None and new.get(o) != (old[o][0] if o in old else None)]):
            if GARBLED not in (new.get(o) or b""):
                raise Violation("bytes lost", "%s holds bytes that are no valid text; generating it wrote %s without them, status %s" % (t, o, [p.rc for p in ref]))
    again = None
    if j.files:
        for a in j.procs:
            sim.call(a, pid=78, root=j.root)
        again = walk(sim)
    sim.events = marked
    restore(sim, old)
    flaky_now = ch.chance(1, 2)
    if not flaky_now:
        sim.put("flag", b"")
    idem = again is None or all(again.get(p) == new.get(p) for p in j.files)
    if not idem:
        sim.cnt("probe.not idempotent")
    # the disturbed run
    tracked = sorted(set(old) | set(o for o, _ in j.outs)) 
    def cur(p):
        return sim.get(p)
    allowed = {}
    for p in tracked:
        if p == "flag":
            continue
        a = {old[p][0] if p in old else None, new.get(p)}
        if again is not None and p in j.files:
            a.add(again.get(p))
        if p in new or p in old:
            allowed[p] = a
        else:
            allowed[p] = {None}
    last = {}

    def watch():
        for p, a in allowed.items():
            c = cur(p)
            if c not in a:
                kind = "old" if p in old else "new"
                raise Violation("damaged" if kind == "old" else "partial output",
                                "%s %s: %s; before %s, complete new contents %s" % (p, "is damaged" if kind == "old" else "is incomplete", short(c), short(old[p][0]) if p in old else "absent", short(new.get(p))))
    sim.ev("%s: %s" % (j.kind, " | ".join(" ".join(a[1:]) for a in j.procs)))
    procs = []
    pids = []
    for a in j.procs:
        f = draw_faults(ch, sim)
        pid = 500 + ch.pick(3) * (len(j.procs) > 1 and not j.concurrent) + len(procs) * (1 if j.concurrent else 0)
        pids.append(pid)
        procs.append((a, f, pid))
    ps = []
    if j.concurrent:
        for a, f, pid in procs:
            ps.append(sim.start(a, faults=f, pid=pid, root=j.root))
        sim.watch = watch
        sim.run(ps)
        sim.watch = None
    else:
        for a, f, pid in procs:
            ps.append(sim.call(a, faults=f, pid=pid, watch=watch, root=j.root))
    hits = [h for p in ps for h in p.hits]
    sim.nontrivial = bool(hits) or any(p.rc for p in ps)
    sim.state(repr(sorted((p, hashlib.md5(v or b"").hexdigest()) for p, v in walk(sim).items() if p in allowed)).encode())
    for i, p in enumerate(ps):
        benign = all((h[1], h[2]) in BENIGN for h in p.hits) and not p.full
        if p.rc == 0 or (benign and refout[i][0] == 0 and not flaky_now):
            outs = [j.outs[i][0]] if j.kind == "outputs" else [o for o, _ in j.outs]
            files = [j.files[i]] if j.kind == "over input" else j.files
            if benign and p.rc != 0:
                raise Violation("failed without cause", "%s ended with status %d although every operation was only short or interrupted and retried: %s" % (p.name, p.rc, p.err[-200:]))
            for o in outs + files:
                if cur(o) != new.get(o) and not (again and cur(o) == again.get(o)):
                    raise Violation("failure not reported", "%s ended with status 0 but %s has %s, not %s" % (p.name, o, short(cur(o)), short(new.get(o))))
            if j.kind == "stdout" and p.out != refout[i][1]:
                raise Violation("failure not reported", "%s ended with status 0 but wrote %s to standard output instead of %s" % (p.name, short(p.out), short(refout[i][1])))
    # faults are over; run it again
    sim.put("flag", b"")
    sim.events.append("faults end")
    mk = j.outs and j.kind == "outputs" and ch.chance(1, 2)
    redo = []
    for i, a in enumerate(j.procs):
        if mk:
            o, t = j.outs[i]
            if sim.get(o) is not None and os.stat(sim.path(o)).st_mtime > os.stat(sim.path(t)).st_mtime:
                continue
            sim.cnt("probe.make reruns")
        redo.append((a, i))
    for a, i in redo:
        p = sim.call(a, pid=pids[i] if ch.chance(1, 2) else 900 + i, root=j.root)
        if p.rc != refout[i][0]:
            raise Violation("retry fails", "after the faults, running %s again ended with status %d, an undisturbed run with %d: %s" % (" ".join(a), p.rc, refout[i][0], p.err[-200:]))
        if j.kind == "stdout" and p.out != refout[i][1]:
            raise Violation("retry differs", "after the faults, standard output is %s, undisturbed %s" % (short(p.out), short(refout[i][1])))
    sim.cnt("probe.retried" if hits else "probe.no fault reached")
    left = tmpfree(sim)
    if left:
        sim.cnt("probe.files left by crashes", len(left))
    if any(r[0] for r in refout):
        sim.cnt("probe.undisturbed run fails")
    for p in sorted(allowed):
        w = {new.get(p)} | ({again.get(p)} if again is not None and p in j.files else set())
        if p not in j.files and p not in [o for o, _ in j.outs]:
            w = {old[p][0]} if p in old else w
            if p in new:
                w.add(new[p])
        if cur(p) not in w:
            raise Violation("retry differs", "after the faults and %s, %s has %s; an undisturbed run gives %s" % ("make's rerun of what is out of date" if mk else "running the generation again", p, short(cur(p)), short(new.get(p))))


def check_reports(sim, j, ref, old, new):
    """A run that nothing disturbs succeeds, or says why not. In place: '(changed)' exactly for the files that change, and the others are not rewritten"""
    for p, a in zip(ref, j.procs):
        if p.rc and not p.err.strip():
            raise Violation("failure not explained", "%s ended with status %d and said nothing" % (" ".join(a), p.rc))
        if p.rc and not j.fails:
            raise Violation("failed without cause", "%s ended with status %d: %s" % (" ".join(a), p.rc, p.err[-300:]))
    if all(p.rc == 0 for p in ref) and not j.concurrent:
        said = b"".join(p.out for p in ref).count(b"Warning: ")
        if said != (len(j.plain) if j.warn else 0):
            raise Violation("report", "%d warnings for %d files without a generator%s" % (said, len(j.plain), "" if j.warn else ", not asked for"))
    if j.kind not in ("in place", "list in place") or "--verbosity=0" in j.procs[0]:
        return
    p = ref[0]
    out = p.out.decode("utf-8", "replace")
    for t in j.files:
        m = re.findall(r"^Cogging %s(.*)$" % re.escape(t), out, re.M)
        one = "--verbosity=1" in j.procs[0]
        if not m and p.rc == 0 and not one:
            raise Violation("report", "%s was processed without being listed: %r" % (t, out[-200:]))
        said = any("(changed)" in x for x in m)
        ch = old[t][0].replace(b"\r\n", b"\n") != new[t].replace(b"\r\n", b"\n")
        if said != ch and (p.rc == 0 or ch):
            raise Violation("report", "%s is %s but the generator %s so: %r" % (t, "changed" if ch else "unchanged", "said" if said else "did not say", out[-200:]))
        if not ch and t in p.writes:
            raise Violation("report", "%s does not change but was rewritten" % t)
    if p.rc == 0 and not j.warn:
        one = "--verbosity=1" in j.procs[0]
        want = ""
        for t in j.files:
            ch = old[t][0].replace(b"\r\n", b"\n") != new[t].replace(b"\r\n", b"\n")
            want += "Cogging %s%s\n" % (t, "  (changed)" if ch else "") if ch or not one else ""
        if out != want:
            raise Violation("report", "said %r instead of %r" % (out[-200:], want[-200:]))


# ------------------------------------------------------------------------------------------ C17
def edit(ch, s):
    """one alteration of a generated section"""
    k = ch.pick(10)
    lines = s.split("\n")
    if k == 0 or not s:
        i = ch.pick(len(lines))
        return "\n".join(lines[:i] + ["edited by hand"] + lines[i:]), "line inserted"
    if k == 1:
        i = ch.pick(len(s))
        return s[:i] + chr(ord(s[i]) ^ 1 if s[i] != "\x0b" and s[i] != "\x0c" else 65) + s[i + 1:], "character flipped"
    if k == 2:
        i = ch.pick(len(s))
        return s[:i] + s[i + 1:], "character deleted"
    if k == 3:
        i = ch.pick(len(lines))
        return "\n".join(lines[:i] + lines[i + 1:]), "line deleted"
    if k == 4:
        i = ch.pick(len(s))
        return s[:i], "tail lost"
    if k == 5:
        return "", "emptied"
    if k == 6:
        i = ch.pick(len(s) + 1)
        return s[:i] + " " + s[i:], "space inserted"
    if k == 7:
        i = ch.pick(len(lines))
        l = lines[:]
        l[i] = l[i] + " "
        return "\n".join(l), "trailing space"
    if k == 8:
        return s + "\n", "blank line appended"
    return s + s, "doubled"


def torn(ch, s):
    """what a torn write leaves: a hole of zero bytes or an older tail"""
    if not s:
        return s, "torn"
    i = ch.pick(len(s))
    n = 1 + ch.pick(len(s) - i)
    return s[:i] + "\0" * n + s[i + n:], "zeroes from a torn write"


def mangle(ch, d, eof):
    """The document with its markers damaged, and the line the generator has to complain about."""
    ls = d.text().split("\n")[:-1]
    kinds = d.lines()
    if len(kinds) != len(ls):
        raise Harness("lines")
    k = ch.pick(5)
    part = ["begin", "spec", "end", "text", "code"][k]
    at = [i for i, x in enumerate(kinds) if x[1] == part]
    if not at:
        return None, 0, ""
    i = at[ch.pick(len(at))]
    item = kinds[i][0]
    b = d.items[item]
    if k == 0:      # no start: the next marker of the block is unexpected
        rest = [q for q, x in enumerate(kinds) if x[0] == item and x[1] in ("spec", "end")]
        if not rest:
            return None, 0, ""
        return "\n".join(ls[:i] + ls[i + 1:]) + "\n", rest[0], "first marker lost"      # counted from 1, one line fewer
    if k == 1:      # the code runs on into the end marker, the next start or the end of the file
        rest = [q for q, x in enumerate(kinds) if q > i and x[1] in ("begin", "end")]
        if not rest:
            first = [q for q, x in enumerate(kinds) if x == (item, "begin")][0]
            return "\n".join(ls[:i] + ls[i + 1:]) + "\n", first + 1, "second marker lost"
        return "\n".join(ls[:i] + ls[i + 1:]) + "\n", rest[0], "second marker lost"
    if k == 2:
        rest = [q for q, x in enumerate(kinds) if q > i and x[1] == "begin"]
        if not rest and eof:
            return None, 0, ""
        return "\n".join(ls[:i] + ls[i + 1:]) + "\n", rest[0] if rest else len(ls) - 1, "end marker lost"
    if k == 3:
        m = d.mark
        return "\n".join(ls[:i] + [ch.of([m.o, m.e, "// " + m.o])] + ls[i:]) + "\n", i + 1, "stray marker"
    first = [q for q, x in enumerate(kinds) if x == (item, "begin")][0]
    return "\n".join(ls[:i + 1]) + "\n", first + 1, "file cut inside a generator"


def fam_sum(sim, ch, prof):
    base_files(sim)
    nf = 1 + ch.pick(2)
    kinds = T.PLAIN + ["path", "syspath", "prev", "number", "out"]
    docs, names = [], []
    defs = dict(DEFS)
    suf = ch.of(["", "", " // gen", ";", " \\1 \\g<0> %s {0}", "\\"])
    enc = ch.of(["utf-8", "utf-8", "latin-1"])
    if enc == "latin-1":
        kinds = [k for k in kinds if k != "unicode"]
    how = ch.pick(3)        # options on the command line, some in a list, all in a list
    marks = [T.DEFAULT] * nf
    if ch.chance(1, 3):
        m = ch.of(T.OTHER)
        marks = [m] * nf if how != 2 else [m if i == 0 or ch.chance(1, 2) else T.DEFAULT for i in range(nf)]
    eof = ch.chance(1, 6)
    for i in range(nf):
        d = T.draw_doc(ch, kinds, 3, marks[i])
        if enc == "latin-1":
            d.items = [x.replace("\u03bb", "l") if isinstance(x, str) else x for x in d.items]
        if eof and isinstance(d.items[-1], T.Blk) and ch.chance(1, 2):
            d.eofend = True
        docs.append(d)
        names.append("d%d/t%d.ccog" % (ch.pick(2), i))
    lineopts = []
    if suf:
        lineopts += ["-s", suf]
    if enc != "utf-8":
        lineopts += ["-n", enc]
    if eof:
        lineopts += ["-z"]

    def mk(i):
        m = marks[i]
        return [] if m is T.DEFAULT else ["--markers=%s %s %s" % (m.b, m.e, m.o)]
    sim.tag(["command line", "shared list", "list"][how] + ("" if marks[0] is T.DEFAULT else ", other markers"))

    def save(i):
        sim.put(names[i], docs[i].text().encode(enc))

    def argv(mode, outs=None):
        """mode: options such as -c -r; returns the command line, writing the list file if one is used"""
        opts = sum([["-D", "%s=%s" % kv] for kv in sorted(defs.items())], []) + ["-I", "inc"]
        if how == 0:
            return ["cog"] + opts + lineopts + mk(0) + mode + names
        if how == 1:
            sim.put("files.txt", "".join("%s\n" % n for n in names).encode())
            return ["cog"] + opts + lineopts + mk(0) + mode + ["@files.txt"]
        q = lambda a: "'%s'" % a if " " in a else a
        sim.put("files.txt", "".join("%s %s\n" % (n, " ".join(q(a) for a in lineopts + mk(i) + mode)) for i, n in enumerate(names)).encode())
        return ["cog"] + opts + ["@files.txt"]

    def text_with(i, secs):
        keep = [(b.section, b.stamp) for b in docs[i].blocks()]
        for b, (s, h) in zip(docs[i].blocks(), secs):
            b.section, b.stamp = s, h
        t = docs[i].text()
        for b, (s, h) in zip(docs[i].blocks(), keep):
            b.section, b.stamp = s, h
        return t.encode(enc)

    def adopt(i, secs):
        for b, (s, h) in zip(docs[i].blocks(), secs):
            b.section, b.stamp = s, h

    for i in range(nf):
        save(i)
    steps = 2 + ch.pick(6)
    edits = 0
    for _ in range(steps):
        op = ch.of(["regen", "edit", "regen", "code", "regen", "text", "fault", "define", "plain", "excise", "newline", "dump", "bare", "mangle", "forbidden"])
        if op == "edit":
            i = ch.pick(nf)
            bs = docs[i].blocks()
            b = bs[ch.pick(len(bs))]
            new, what = torn(ch, b.section) if ch.chance(1, 6) else edit(ch, b.section)
            # a section keeps its line end, so that the end marker stays on a line of its own
            if new and new[-1] != "\n":
                new += "\n"
            m = docs[i].mark
            if any(x in new for x in (m.b, m.e, m.o)):
                continue
            try:
                new.encode(enc)
            except UnicodeEncodeError:
                continue
            if docs[i].eofend and b is bs[-1]:
                continue
            b.section = new
            save(i)
            sim.ev("%s: %s in a generated section" % (names[i], what))
            sim.cnt("fault.edit.%s" % what)
            edits += 1
        elif op == "text":
            i = ch.pick(nf)
            docs[i].items.insert(0, ch.of([w for w in T.WORDS if enc == "utf-8" or "\u03bb" not in w]) + "\n")
            save(i)
            sim.ev("%s: text outside the sections edited" % names[i])
        elif op == "code":
            i = ch.pick(nf)
            b = docs[i].blocks()[ch.pick(len(docs[i].blocks()))]
            k = ch.of(kinds)
            single = b.single
            b.kind, b.arg = k, 1 + ch.pick(4)
            if single and len(T.code(b)) > 1:
                b.kind = "line"
            save(i)
            sim.ev("%s: a generator edited" % names[i])
        elif op == "define":
            k = ch.of(sorted(defs))
            defs[k] = ch.of(["v%d", "v%d", "a=%d", "=%d= ", "two words %d", "%d -r"]) % ch.pick(4)
            sim.ev("-D %s=%s from now on" % (k, defs[k]))
        elif op == "newline":
            # the same text with other line ends is the same text
            i = ch.pick(nf)
            t = docs[i].text().encode(enc).replace(b"\n", b"\r\n")
            sim.put(names[i], t)
            sim.ev("%s: line ends changed" % names[i])
        elif op == "forbidden":
            # what would destroy a file or makes no sense is refused and changes nothing
            before = [sim.get(n) for n in names]
            mode = ch.of([["-r", "-d"], ["-d", "-r", "-o", names[0]], ["-r", "-o", names[-1], "-x"], ["-d", "-r", "-c"], ["-r", "-o", names[0]], ["-o", names[-1], "-r"], ["-q"], ["--markers=only two", "-r"], ["-D", "NOVALUE", "-r"], ["-r", "--verbose"]])
            p = sim.call(argv(mode), pid=400)
            sim.ev("forbidden %s: status %d" % (" ".join(mode), p.rc))
            if p.rc == 0 or not p.err.strip():
                raise Violation("usage error accepted", "%s: status %d, %s" % (" ".join(mode), p.rc, short(p.err)))
            for n, b in zip(names, before):
                if sim.get(n) != b:
                    raise Violation("usage error accepted", "%s was changed although %s is refused" % (n, " ".join(mode)))
            sim.cnt("probe.forbidden options")
        else:
            mode = ch.of([["-c", "-d"], ["-d"]]) if op == "bare" else ch.of([["-c", "-r"], ["-r"], ["-x", "-r"]]) if op == "mangle" else \
                {"regen": ["-c", "-r"], "plain": ["-r"], "excise": ["-x", "-c", "-r"], "fault": ["-c", "-r"], "dump": ["-c"]}[op]
            hurt, where = None, 0
            if op == "mangle":
                hurt = ch.pick(nf)
                text, where, what = mangle(ch, docs[hurt], eof)
                if text is None:
                    continue
                sim.put(names[hurt], text.encode(enc))
                sim.ev("%s: %s" % (names[hurt], what))
                sim.cnt("fault.edit.%s" % what)
            checksum = "-c" in mode
            faults = draw_faults(ch, sim) if op == "fault" else []
            before = [sim.get(n) for n in names]
            bad = None
            for i in range(nf):
                for b in docs[i].blocks():
                    if checksum and b.stamp and T.md5(b.section) != b.stamp:
                        bad = i
                        break
                if bad is not None:
                    break
            if hurt is not None and (bad is None or bad > hurt):
                bad = hurt
            want = []
            for i in range(nf):
                e = {"defines": dict(defs), "infile": names[i], "path": ["inc", os.path.dirname(names[i])]}
                want.append(T.generated(docs[i], e, suf, checksum, "-x" in mode))
            expect = [text_with(i, want[i]) for i in range(nf)]
            p = sim.call(argv(mode), faults=faults, pid=400 + ch.pick(2))
            after = [sim.get(n) for n in names]
            what = "%s with %s" % ("generation", " ".join(mode))
            for i in range(nf):
                # whatever happens, a file with an altered protected section stays as it is
                prot = checksum and any(b.stamp and T.md5(b.section) != b.stamp for b in docs[i].blocks())
                if prot and after[i] != before[i]:
                    raise Violation("edit overwritten", "%s had an altered section under a checksum and was changed by %s (status %d): %s" % (names[i], what, p.rc, short(after[i])))
                if "-r" not in mode and after[i] != before[i]:
                    raise Violation("edit overwritten", "%s was changed by a generation to standard output" % names[i])
            if bad is not None:
                if p.rc == 0:
                    raise Violation("edit accepted", "%s has an altered section under a checksum or a damaged generator but %s ended with status 0: %s" % (names[bad], what, short(p.out)))
                at = ("%s(%d)" % (names[bad], where)).encode()
                if not p.killed and not p.hits and not (b"has been edited" in p.err and not (bad == hurt and "-c" not in mode) or bad == hurt and at in p.err):
                    raise Violation("edit not explained", "%s has %s; %s failed with %s" % (names[bad], "a damaged generator (line %d)" % where if bad == hurt else "an altered section", what, short(p.err)))
                sim.cnt("probe.damage detected" if bad == hurt else "probe.edit detected")
            elif not p.hits:
                if p.rc != 0:
                    raise Violation("unchanged section refused", "%s failed with status %d although no protected section was altered: %s" % (what, p.rc, p.err[-300:]))
                sim.cnt("probe.accepted")
            for i in range(nf):
                same = before[i].replace(b"\r\n", b"\n") == after[i].replace(b"\r\n", b"\n")
                if "-r" not in mode:
                    continue
                done = after[i] == expect[i]
                if bad is not None and i >= bad:
                    if not same:
                        raise Violation("edit overwritten", "%s was changed by %s although %s is refused" % (names[i], what, names[bad]))
                    continue
                if not p.hits and not (done or same and expect[i] == before[i].replace(b"\r\n", b"\n")):
                    raise Violation("regenerated text", "%s after %s is %s, expected %s" % (names[i], what, diff(after[i], expect[i]), short(expect[i])))
                if p.hits and not done and not same:
                    raise Violation("regenerated text", "%s after a disturbed %s is neither the old text nor the new: %s" % (names[i], what, diff(after[i], expect[i])))
                if done:
                    adopt(i, want[i])
            if hurt is not None:
                save(hurt)
            if op == "bare" and bad is None and not p.hits:
                expect = []
                for i in range(nf):
                    keep = [(b.section, b.stamp) for b in docs[i].blocks()]
                    adopt(i, want[i])
                    expect.append(docs[i].bare().encode("utf-8"))
                    adopt(i, keep)
                if p.out != b"".join(expect):
                    raise Violation("regenerated text", "standard output of %s is %s" % (what, diff(p.out, b"".join(expect))))
            if op == "dump" and bad is None and not p.hits:
                expect = [x.decode(enc).encode("utf-8") for x in expect]
                if p.out != b"".join(expect):
                    raise Violation("regenerated text", "standard output of %s is %s" % (what, diff(p.out, b"".join(expect))))
            sim.cnt("probe.generations")
            if faults and p.hits:
                sim.cnt("probe.disturbed generations")
    sim.nontrivial = edits > 0 or sim.counts.get("probe.generations", 0) > 1
    sim.state("|".join(d.text() for d in docs).encode("utf8"))


def diff(a, b):
    if a is None:
        return "absent"
    i = 0
    while i < len(a) and i < len(b) and a[i] == b[i]:
        i += 1
    return "%r instead of %r at byte %d" % (a[i:i + 60], b[i:i + 60], i)


# ------------------------------------------------------------------------------------------ C18
HKINDS = T.PLAIN + ["path", "syspath", "probe", "probe", "number", "out", "msg", "count", "state", "prev"]


def fam_group(sim, ch, prof):
    """The same templates generated alone, and together in a drawn grouping, order, interleaving and environment."""
    base_files(sim)
    for d in ("d0", "d1", "inc0", "inc1"):
        sim.put("%s/only_%s.py" % (d, d), b"")
    n = 2 + ch.pick(3)
    names, opts_of, outs = [], [], []
    for i in range(n):
        d = T.draw_doc(ch, HKINDS, 3)
        t = "d%d/t%d.ccog" % (ch.pick(2), i)
        o = []
        if ch.chance(1, 3):
            o += ["-D", "NAME=line%d" % i]
        if ch.chance(1, 4):
            o += ["-s", " ;%d" % i]
        if ch.chance(1, 4):
            o += ["-c"]
        if ch.chance(1, 4):
            o += ["-I", "inc%d" % ch.pick(2)]
        if ch.chance(1, 5):
            m = ch.of(T.OTHER)
            d.mark = m
            o += ["--markers=%s %s %s" % (m.b, m.e, m.o)]
        if ch.chance(1, 6):
            o += ["-d"]
        if ch.chance(1, 12):
            o += ["-x"]
        if ch.chance(1, 12):
            o += ["-U"]
        if ch.chance(1, 8) and isinstance(d.items[-1], T.Blk):
            d.eofend = True
            o += ["-z"]
        sim.put(t, d.text().encode())
        names.append(t)
        opts_of.append(o)
        outs.append("o%d.c" % i)
        sim.know(outs[-1])
    common = DARGS + ["-I", "inc"]
    # alone
    alone = []
    keep = sim.events
    sim.events = []
    for i in range(n):
        p = sim.call(["cog"] + common + opts_of[i] + ["-o", outs[i], names[i]], pid=50 + i, seed=17 + i)
        if p.rc:
            raise Violation("generation fails", "%s alone ended with status %d: %s" % (names[i], p.rc, p.err[-300:]))
        alone.append((sim.get(outs[i]), p.out))
        os.unlink(sim.path(outs[i]))
    sim.events = keep

    def compare(i, how):
        g = sim.get(outs[i])
        if g != alone[i][0]:
            raise Violation("text depends on history", "%s generated %s: %s" % (names[i], how, diff(g, alone[i][0])))
    q = lambda a: "'%s'" % a if " " in a or not a else a
    mode = ch.pick(5)
    order = list(range(n))
    for i in range(n - 1, 0, -1):
        k = ch.pick(i + 1)
        order[i], order[k] = order[k], order[i]
    if ch.chance(1, 3):
        order += [order[ch.pick(n)]]
    sim.ev("order %s" % order)
    seed = 1000 + ch.pick(1000)
    if mode in (0, 1):
        sim.tag("one process")
        if mode == 0:
            sim.put("files.txt", "".join("%s %s -o %s\n" % (names[i], " ".join(q(a) for a in opts_of[i]), outs[i]) for i in order).encode())
        else:       # nested lists
            sim.put("files.txt", "".join("@l%d.txt\n" % k for k in range(len(order))).encode())
            for k, i in enumerate(order):
                sim.put("l%d.txt" % k, ("%s %s -o %s\n" % (names[i], " ".join(q(a) for a in opts_of[i]), outs[i])).encode())
        p = sim.call(["cog"] + common + ["@files.txt"], pid=60, seed=seed)
        if p.rc:
            raise Violation("generation fails", "together the templates end with status %d: %s" % (p.rc, p.err[-300:]))
        for i in range(n):
            compare(i, "after others in one process")
    elif mode == 2:
        sim.tag("concurrent processes")
        ps = [sim.start(["cog"] + common + opts_of[i] + ["-o", outs[i], names[i]], pid=70 + k, seed=seed + k) for k, i in enumerate(dict.fromkeys(order))]
        sim.run(ps)
        for p in ps:
            if p.rc:
                raise Violation("generation fails", "beside others a generation ends with status %d: %s" % (p.rc, p.err[-300:]))
        for i in range(n):
            compare(i, "beside others")
    elif ch.chance(1, 2):
        sim.tag("in place in one process")
        one = {}
        uniq = list(dict.fromkeys(order))
        o = {i: [a for a in opts_of[i] if a != "-d"] for i in uniq}
        keep = sim.events
        sim.events = []
        for i in uniq:
            text = sim.get(names[i])
            p = sim.call(["cog"] + common + o[i] + ["-r", names[i]], pid=60, seed=seed)
            if p.rc:
                raise Violation("generation fails", "in place: status %d: %s" % (p.rc, p.err[-300:]))
            one[i] = sim.get(names[i])
            sim.put(names[i], text)
        sim.events = keep
        if len(set(tuple(x) for x in o.values())) == 1:
            argv = ["cog"] + common + o[uniq[0]] + ["-r"] + [names[i] for i in uniq]
        else:
            sim.put("files.txt", "".join("%s %s\n" % (names[i], " ".join(q(a) for a in o[i])) for i in uniq).encode())
            argv = ["cog"] + common + ["-r", "@files.txt"]
        p = sim.call(argv, pid=64, seed=seed + 9)
        if p.rc:
            raise Violation("generation fails", "in place together: status %d: %s" % (p.rc, p.err[-300:]))
        for i in uniq:
            if sim.get(names[i]) != one[i]:
                raise Violation("text depends on history", "%s generated in place after others in one process: %s" % (names[i], diff(sim.get(names[i]), one[i])))
    else:
        sim.tag("regenerate")
        # in place: once, again, and after excising, with other stale outputs
        i = order[0]
        o = [a for a in opts_of[i] if a != "-d"]
        t = names[i]
        r = ["cog"] + common + o
        nonum = b"firstLineNum" not in sim.get(t) and b"cog.previous" not in sim.get(t)
        p = sim.call(r + ["-r", t], pid=60, seed=seed)
        if p.rc:
            raise Violation("generation fails", "in place: status %d: %s" % (p.rc, p.err[-300:]))
        one = sim.get(t)
        if "-d" not in opts_of[i] and b"cog.outFile" not in one and one != alone[i][0]:
            raise Violation("text depends on history", "%s generated in place: %s" % (t, diff(one, alone[i][0])))
        others = [names[k] for k in order[1:]]
        if nonum and b"cog.outFile" not in one:
            p = sim.call(r + ["-r", t], pid=61, seed=seed + 1)
            two = sim.get(t)
            if p.rc or two != one:
                raise Violation("regenerating differs", "%s regenerated (status %d): %s" % (t, p.rc, diff(two, one)))
            if b"(changed)" in p.out:
                raise Violation("regenerating differs", "%s regenerated to the same text but reported as changed" % t)
            if "-z" not in o:
                p = sim.call(r + ["-x", "-r", t], pid=62, seed=seed + 2)
                p2 = sim.call(r + ["-r", t], pid=63, seed=seed + 3)
                two = sim.get(t)
                if p.rc or p2.rc or two != one:
                    raise Violation("regenerating differs", "%s excised and generated again (status %d, %d): %s" % (t, p.rc, p2.rc, diff(two, one)))
            sim.cnt("probe.regenerated")
    sim.nontrivial = True
    sim.state(repr([hashlib.md5(a[0]).hexdigest() for a in alone]).encode())


# ------------------------------------------------------------------------------------------ the repository's own templates
REPO = {"tree": None, "files": [], "incs": {}, "ref": {}}


def repo_args(tree, f, args, params, mode):
    return ["-I", os.path.join(tree, "include"), "-I", os.path.join(tree, "scripts"), "-I", os.path.join(tree, "src/gen"), "-I", os.path.join(tree, os.path.dirname(f)),
            "-D", "args=" + args, "-D", "params=" + params, "-D", "mode=" + mode]


def fam_repo(sim, ch, prof):
    """The repository's templates, several in one process or side by side, against each alone in a fresh process."""
    tree = REPO["tree"]
    n = 1 + ch.pick(3)
    pick = [ch.of(REPO["files"]) for _ in range(n)]
    params = os.path.join(tree, "src/params.json")
    how = ch.pick(3)
    args = [ch.of(REPO["args"])] * n
    if ch.chance(1, 2):   # every template with its own tuning
        args = [ch.of(REPO["args"]) for _ in range(n)]
    outs = ["o%d.c" % i for i in range(n)]
    for o in outs:
        sim.know(o)
    short_name = lambda a: a.split("/")[-2]
    sim.ev("%s with %s" % (pick, [short_name(a) for a in args]))
    seed = 5 + ch.pick(1000)
    if how < 2:
        sim.tag("one process" + (", several tunings" if len(set(args)) > 1 else ""))
        base = repo_args(tree, pick[0], args[0], params, "generate")
        sim.put("files.txt", "".join("%s -I %s -D args=%s -o %s\n" % (os.path.join(tree, f), os.path.join(tree, os.path.dirname(f)), a, os.path.abspath(sim.path(o))) for f, a, o in zip(pick, args, outs)).encode())
        ps = [sim.call(["cog"] + base + ["@" + sim.path("files.txt")], pid=300, seed=seed)]
    else:
        sim.tag("side by side")
        ps = [sim.start(["cog"] + repo_args(tree, f, a, params, "generate") + ["-o", sim.path(o), os.path.join(tree, f)], pid=300 + i, seed=seed + i) for i, (f, a, o) in enumerate(zip(pick, args, outs))]
        sim.run(ps)
    for p in ps:
        if p.rc:
            raise Violation("generation fails", "status %d: %s" % (p.rc, p.err[-400:]))
    for f, a, o in zip(pick, args, outs):
        g = sim.get(o)
        h = hashlib.md5(g or b"").hexdigest()
        want = REPO["ref"][a][f]
        if h != want["md5"]:
            ref = open(want["file"], "rb").read()
            raise Violation("text depends on history", "%s with %s generated %s: %s" % (f, short_name(a), "after others in one process" if how < 2 else "beside others", diff(g, ref)))
        sim.state(h.encode())
    sim.nontrivial = n > 1


def fam_registry(sim, ch, prof):
    """The parameter registry the templates build up, in a drawn order, against the order of the build."""
    tree = REPO["tree"]
    want = None
    if ch.chance(1, 2) and REPO["groups"]:
        g = ch.of(REPO["groups"])   # built before with another hash seed
        pick, want = list(g["files"]), open(g["file"], "rb").read()
        for i in range(len(pick) - 1, 0, -1):
            k = ch.pick(i + 1)
            pick[i], pick[k] = pick[k], pick[i]
    else:
        n = 2 + ch.pick(4)
        pick = []
        for _ in range(n):
            f = ch.of(REPO["targets"])
            if f not in pick:
                pick.append(f)
    params = sim.path("params.json")
    sim.know("params.json")
    def build(order, pid):
        if os.path.exists(params):
            os.unlink(params)
        for k, f in enumerate(order):
            p = sim.call(["cog"] + repo_args(tree, f, REPO["args"][0], params, "params") + [os.path.join(tree, f)], pid=pid + k, seed=pid + k)
            if p.rc:
                raise Violation("generation fails", "registering %s: status %d: %s" % (f, p.rc, p.err[-300:]))
        return sim.get("params.json")
    a = build(pick, 10)
    if want is not None:
        sim.ev("registry of %s" % pick)
        if a != want:
            raise Violation("registry depends on the process", diff(a, want))
        sim.tag("against another hash seed")
        sim.nontrivial = True
        sim.state(hashlib.md5(a).hexdigest().encode())
        return
    order = pick[:]
    for i in range(len(order) - 1, 0, -1):
        k = ch.pick(i + 1)
        order[i], order[k] = order[k], order[i]
    b = build(order, 40)
    sim.ev("registry of %s" % order)
    if a != b:
        raise Violation("registry depends on order", diff(b, a))
    sim.nontrivial = order != pick
    sim.state(hashlib.md5(a).hexdigest().encode())


FAMILIES = {"gen-fault": fam_fault, "gen-sum": fam_sum, "gen-group": fam_group, "gen-repo": fam_repo, "gen-registry": fam_registry}
