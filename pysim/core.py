"""Seeded scheduler and simulated processes for the Python code generator.

Every simulated process is a forked Python whose file operations stop in the preloaded shim and wait for
this scheduler, which decides who runs next and what happens to each operation."""
import ctypes, hashlib, io, os, random, re, resource, select, shutil, signal, struct, sys

OPEN, READ, WRITE, CLOSE, RENAME, UNLINK, TRUNC, SYNC, CHMOD, ACCESS, MKDIR, LINK = range(1, 13)
OPN = ["", "open", "read", "write", "close", "rename", "unlink", "truncate", "fsync", "chmod", "access", "mkdir", "link"]
GO, FAIL, SHORT, CRASH, TEAR, AFTER, INTR, LOSE, FAILAFTER = range(9)
ACT = ["go", "fail", "short", "crash-before", "torn-crash", "crash-after", "interrupt", "lost-on-close", "fails-after"]
REQ = struct.Struct("=iiiiq480s480s")
RSP = struct.Struct("=iiq")
EN = {"ENOSPC": 28, "EIO": 5, "EACCES": 13, "EMFILE": 24, "EXDEV": 18, "EPERM": 1, "EINTR": 4, "EPIPE": 32, "EDQUOT": 122, "EROFS": 30, "EBUSY": 16}
ENN = {v: k for k, v in EN.items()}
WRITING = 3 | os.O_CREAT | os.O_TRUNC


class Violation(Exception):
    def __init__(self, cls, detail):
        Exception.__init__(self, cls)
        self.cls, self.detail = cls, detail


class BecomeChild(BaseException):
    """Unwinds a forked child to the top of the interpreter, where it runs the program as __main__."""
    def __init__(self, argv, module):
        self.argv, self.module = argv, module


class Harness(Exception):
    pass


class Ch:
    """The stream of choices. Recorded; a list replays, and past its end every choice is 0."""
    def __init__(self, seed=None, fixed=None):
        self.rng = random.Random(seed) if fixed is None else None
        self.fixed, self.i, self.out = fixed, 0, []

    def pick(self, n):
        if n <= 1:
            return 0
        if self.fixed is not None:
            v = self.fixed[self.i] % n if self.i < len(self.fixed) else 0
            self.i += 1
        else:
            v = self.rng.randrange(n)
        self.out.append(v)
        return v

    def of(self, xs):
        return xs[self.pick(len(xs))]

    def chance(self, a, b):
        """true in a of b cases; 0 means no"""
        return self.pick(b) >= b - a


shim = None


def load_shim():
    global shim
    shim = ctypes.CDLL(None)
    shim.shim_on.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_char_p, ctypes.c_int, ctypes.c_ulonglong, ctypes.c_int]


class Fault:
    def __init__(self, at, kind, sticky):
        self.at, self.kind, self.sticky = at, kind, sticky


# what can happen to an operation, by a drawn number; the first entries are the plainest
def menu(op, flags, path, n, wr):
    if path == "<stderr>":
        return [(FAIL, "EIO"), (CRASH, ""), (INTR, "")]
    if path == "<stdout>":
        if op == WRITE:
            return [(FAIL, "ENOSPC"), (SHORT, ""), (CRASH, ""), (FAIL, "EPIPE"), (FAIL, "EINTR"), (INTR, "")]
        return [(CRASH, "")]
    if op == OPEN:
        if flags & WRITING:
            return [(FAIL, "ENOSPC"), (CRASH, ""), (AFTER, ""), (FAIL, "EACCES"), (FAIL, "EMFILE"), (FAIL, "EIO"), (INTR, ""), (FAIL, "EDQUOT"), (FAIL, "EINTR"), (FAIL, "EROFS")]
        return [(FAIL, "EIO"), (CRASH, ""), (FAIL, "EACCES"), (FAIL, "EMFILE"), (INTR, ""), (FAIL, "EINTR")]
    if op == READ:
        return [(FAIL, "EIO"), (SHORT, ""), (CRASH, ""), (INTR, ""), (FAIL, "EINTR")]
    if op == WRITE:
        return [(FAIL, "ENOSPC"), (TEAR, ""), (SHORT, ""), (CRASH, ""), (AFTER, ""), (FAIL, "EIO"), (INTR, ""), (FAIL, "EINTR"), (FAIL, "EDQUOT")]
    if op == CLOSE:
        return ([(LOSE, "EIO")] if wr else []) + [(FAIL, "EIO"), (CRASH, ""), (AFTER, ""), (INTR, "")] + ([(LOSE, "ENOSPC")] if wr else [])
    if op == RENAME:
        return [(FAIL, "EIO"), (CRASH, ""), (AFTER, ""), (FAIL, "EXDEV"), (FAIL, "EACCES"), (INTR, ""), (FAILAFTER, "EIO")]
    if op in (UNLINK, TRUNC, LINK, MKDIR):
        return [(FAIL, "EIO"), (CRASH, ""), (AFTER, ""), (FAIL, "EACCES"), (INTR, "")]
    if op == CHMOD:
        return [(FAIL, "EPERM"), (CRASH, ""), (AFTER, ""), (INTR, "")]
    return [(CRASH, ""), (INTR, "")]


BENIGN = {(SHORT, ""), (FAIL, "EINTR")}


# far beyond what any program in the simulation needs; reaching one means that it does not stop
CPU_LIMIT, CPU_LIMIT_REPO, WALL_LIMIT, MEM_LIMIT = 8, 60, 300, 2 << 30


class Proc:
    def __init__(self, name, argv, faults):
        self.name, self.argv, self.faults = name, argv, faults
        self.nops = 0
        self.full = False       # a sticky full disk
        self.hits = []          # faults that really happened
        self.req = None
        self.rc = None
        self.killed = False
        self.wrfds = set()
        self.writes = []        # paths this process changed


class Sim:
    def __init__(self, ch, base):
        self.ch = ch
        self.base = base
        self.root = os.path.join(base, "fs")
        self.logs = os.path.join(base, "logs")
        for d in (self.root, self.logs):
            if os.path.isdir(d):
                shutil.rmtree(d)
            os.makedirs(d)
        self.events = []
        self.counts = {}
        self.tags = {}
        self.states = []
        self.names = {}
        self.nproc = 0
        self.cpu = CPU_LIMIT
        self.live = {}          # running processes by pid
        self.simtime = 0.0
        self.umask = os.umask(0o22)
        os.umask(self.umask)
        self.nontrivial = False
        self.watch = None       # called before every operation takes effect
        self.module = "scripts.cogapp"

    # --- bookkeeping
    def ev(self, s):
        self.events.append(s)

    def cnt(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def tag(self, k):
        self.tags[k] = self.tags.get(k, 0) + 1

    def state(self, b):
        self.states.append(hashlib.blake2b(b, digest_size=8).hexdigest())

    def norm(self, p):
        """paths the program invents get stable names"""
        if p in self.names or p.startswith("<"):
            return p
        k = "tmp#%d" % (1 + sum(1 for v in self.names.values() if v.startswith("tmp#")))
        self.names[p] = k
        return k

    def know(self, p):
        self.names[p] = p

    def shown(self, p):
        self.norm(p)
        return self.names.get(p, p)

    # --- files
    def path(self, p):
        return os.path.join(self.root, p)

    def put(self, p, data, old=True, mode=None):
        q = self.path(p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, "wb") as f:
            f.write(data)
        if old:
            os.utime(q, (10 ** 9, 10 ** 9))
        if mode is not None:
            os.chmod(q, mode)
        self.know(p)

    def get(self, p):
        try:
            with open(self.path(p), "rb") as f:
                return f.read()
        except (FileNotFoundError, IsADirectoryError, NotADirectoryError):
            return None

    # --- processes
    def start(self, argv, faults=(), pid=None, seed=None, cwd="", root=True, module=None, env=None):
        self.nproc += 1
        p = Proc("p%d" % self.nproc, argv, sorted(faults, key=lambda f: f.at))
        p.outf = os.path.join(self.logs, p.name + ".out")
        p.errf = os.path.join(self.logs, p.name + ".err")
        r1, w1 = os.pipe()      # requests
        r2, w2 = os.pipe()      # answers
        pid_ = pid if pid is not None else 1000 + self.nproc
        seed_ = seed if seed is not None else self.nproc * 7919
        k = os.fork()
        if k == 0:
            resource.setrlimit(resource.RLIMIT_CPU, (self.cpu, self.cpu + 5))
            resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
            signal.signal(signal.SIGINT, signal.default_int_handler)
            os.close(r1)
            os.close(w2)
            o = os.open(p.outf, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            e = os.open(p.errf, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            i = os.open("/dev/null", os.O_RDONLY)
            os.dup2(i, 0)
            os.dup2(o, 1)
            os.dup2(e, 2)
            os.chdir(os.path.join(self.root, cwd))
            sys.stdin = io.TextIOWrapper(io.BufferedReader(io.FileIO(0, closefd=False)), encoding="utf-8")
            sys.stdout = io.TextIOWrapper(io.BufferedWriter(io.FileIO(1, "w", closefd=False)), encoding="utf-8")
            sys.stderr = io.TextIOWrapper(io.BufferedWriter(io.FileIO(2, "w", closefd=False)), encoding="utf-8", errors="backslashreplace", line_buffering=True)
            sys.__stdout__, sys.__stderr__, sys.__stdin__ = sys.stdout, sys.stderr, sys.stdin
            for a, b in (env or {}).items():
                os.environ[a] = b
            shim.shim_on(r2, w1, self.root.encode(), pid_, seed_, 1 if root else 0)
            raise BecomeChild(list(argv), module or self.module)
        os.close(w1)
        os.close(r2)
        p.pid, p.rq, p.wq = k, r1, w2
        self.live[k] = p
        self.cnt("processes")
        self.recv(p)
        return p

    def recv(self, p):
        b = b""
        while len(b) < REQ.size:
            if not select.select([p.rq], [], [], WALL_LIMIT)[0]:
                raise Violation("does not stop", "process %s does nothing and does not end: %s" % (p.name, " ".join(p.argv)))
            c = os.read(p.rq, REQ.size - len(b))
            if not c:
                break
            b += c
        if len(b) < REQ.size:
            os.close(p.rq)
            os.close(p.wq)
            _, st = os.waitpid(p.pid, 0)
            self.live.pop(p.pid, None)
            p.req = None
            if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGXCPU:
                raise Violation("does not stop", "process %s computes for more than %d s: %s" % (p.name, self.cpu, " ".join(p.argv)))
            if os.WIFSIGNALED(st):
                s = os.WTERMSIG(st)
                if s == signal.SIGKILL:
                    p.killed = True
                p.rc = -s
            else:
                p.rc = os.WEXITSTATUS(st)
            self.ev("%s: %s" % (p.name, "killed" if p.killed else "exit status %d" % p.rc))
            with open(p.outf, "rb") as f:
                p.out = f.read()
            with open(p.errf, "rb") as f:
                p.err = f.read()
            return
        op, fd, flags, _, n, a, b2 = REQ.unpack(b)
        p.req = (op, fd, flags, n, a.split(b"\0")[0].decode("utf-8", "replace"), b2.split(b"\0")[0].decode("utf-8", "replace"))

    def answer(self, p):
        op, fd, flags, n, path, path2 = p.req
        if self.watch:
            self.watch()
        p.nops += 1
        self.simtime += 0.001
        act, err, arg = GO, 0, 0
        wr = op == OPEN and flags & WRITING
        if op == CLOSE:
            wr = fd in p.wrfds
            p.wrfds.discard(fd)
        if p.full and (op == WRITE or wr and op == OPEN) and not path.startswith("<stderr"):
            act, err = FAIL, EN["ENOSPC"]
            self.cnt("fault.fail.%s.ENOSPC(full disk)" % OPN[op])
        elif p.faults and p.faults[0].at <= p.nops:
            f = p.faults.pop(0)
            m = menu(op, flags, path, n, wr)
            act, e = m[f.kind % len(m)]
            err = EN.get(e, 0)
            if act in (SHORT, TEAR):
                arg = self.ch.pick(n + (act == TEAR)) if n > 1 else 0
                if act == SHORT and (arg == 0 or n <= 1):
                    act = GO
            elif act == LOSE:
                arg = self.ch.pick(100)
            if act != GO:
                p.hits.append((op, act, e))
                self.cnt("fault.%s.%s%s" % (ACT[act], OPN[op], "." + e if e else ""))
                if f.sticky and e == "ENOSPC":
                    p.full = True
        if wr and op == OPEN and act == GO:
            self.pending_open = True
        if op in (WRITE, RENAME, UNLINK, TRUNC, LINK) or wr and op == OPEN:
            if not path.startswith("<"):
                p.writes.append(path2 if op == RENAME else path)
        s = "%s: %s %s%s%s%s" % (p.name, OPN[op] if op < len(OPN) else op, self.shown(path), (" -> " + self.shown(path2)) if path2 else "",
                                 " %d" % n if n and path != "<stderr>" else "", " [w]" if wr else "")
        if act != GO:
            s += " => %s%s%s" % (ACT[act], " " + ENN.get(err, "") if err else "", " %d" % arg if arg else "")
        self.ev(s)
        try:
            os.write(p.wq, RSP.pack(act, err, arg))
        except BrokenPipeError:
            raise Harness("simulated process vanished")
        was = (op, wr and act == GO)
        self.recv(p)
        if was[0] == OPEN and was[1]:
            # the descriptor shows up in the next request on it; remember by number when seen
            p.maybe_wr = path
        if p.req and p.req[0] in (WRITE,) and p.req[1] > 2:
            p.wrfds.add(p.req[1])

    def run(self, procs, interleave=True):
        """Runs the processes to their end, one operation at a time."""
        live = [p for p in procs if p.req]
        while live:
            p = live[self.ch.pick(len(live))] if interleave else live[0]
            self.answer(p)
            if not p.req:
                live = [q for q in live if q is not p]
            if sum(q.nops for q in procs) > 20000:
                raise Violation("does not stop", "more than 20000 operations: " + " and ".join(" ".join(q.argv) for q in procs))
        if self.watch:
            self.watch()

    def call(self, argv, **kw):
        w, self.watch = self.watch, kw.pop("watch", self.watch)
        p = self.start(argv, **kw)
        self.run([p], False)
        self.watch = w
        return p

    def kill_all(self):
        """what a violation left running"""
        for p in list(self.live.values()):
            try:
                os.kill(p.pid, signal.SIGKILL)
                os.waitpid(p.pid, 0)
                os.close(p.rq)
                os.close(p.wq)
            except OSError:
                pass
        self.live = {}


def draw_faults(ch, sim, span=14):
    """0 to 3 faults at drawn operations"""
    n = ch.of([1, 1, 1, 2, 0, 3])
    return [Fault(1 + ch.pick(span), ch.pick(60), ch.chance(1, 3)) for _ in range(n)]


def child_main(argv, module):
    """What `python -m module` does, with the parts of interpreter shutdown a program can notice:
    exit handlers, collection of unreferenced files, the flush of the standard streams and its status."""
    import atexit, gc, runpy, traceback
    sys.argv = argv
    rc = 0
    try:
        runpy.run_module(module, run_name="__main__", alter_sys=True)
    except SystemExit as e:
        c = e.code
        if c is None:
            rc = 0
        elif isinstance(c, int):
            rc = c & 0xff
        else:
            print(c, file=sys.stderr)
            rc = 1
    except KeyboardInterrupt:
        rc = 130
    except BaseException:
        try:
            traceback.print_exc()
        except BaseException:
            pass
        rc = 1
    try:
        sys.last_value = None
        atexit._run_exitfuncs()
        gc.collect()
    except BaseException:
        pass
    try:
        if sys.stdout is not None and not sys.stdout.closed:
            sys.stdout.flush()
    except BaseException:
        rc = 120
    try:
        sys.stderr.flush()
    except BaseException:
        pass
    os._exit(rc)
