"""Starts and merges the workers that simulate the code generator (same interface as run.py's Engine)."""
import hashlib, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import vbuild

PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else "python3"
HERE = os.path.dirname(os.path.abspath(__file__))
HASHSEEDS = [0, 1, 42, 7, 12345, 99, 3, 2024]


class PyEngine:
    def __init__(self, work, c):
        self.work, self.stubs, self.failed = work, [], {}
        t0 = time.time()
        # replay files carry a violation's choices; the hash seed of its worker is the first of them
        self.tree = os.path.join(work, "tree")
        vbuild.copy_tree(self.tree)
        self.shim = os.path.join(work, "shim.so")
        vbuild.sh(["gcc", "-O2", "-w", "-shared", "-fPIC", "-o", self.shim, os.path.join(HERE, "shim.c"), "-ldl"])
        self.repo = None
        if c.get("repo"):
            self.repo = self.prepare_repo()
        self.n = 0
        self.build_s = {"tree and shim": round(time.time() - t0, 1)}

    # --- the repository's own templates, each generated alone in a fresh ordinary process
    def prepare_repo(self):
        tree = self.tree
        self.getter()
        files = []
        for d, _, fs in os.walk(tree):
            if "/build" in d:
                continue
            files += [os.path.relpath(os.path.join(d, f), tree) for f in fs if f.endswith(".ccog")]
        files.sort()
        args = []
        for k, f in enumerate(("tuned_args.json", "default_args.json", "tuned_args_peters_mac.json", None, None)):
            # every build has its own argument file, all of the same name
            a = os.path.join(self.work, "args%d" % k, "args.json")
            if f and not os.path.exists(os.path.join(tree, "src", f)):
                continue
            os.makedirs(os.path.dirname(a))
            if f:
                shutil.copyfile(os.path.join(tree, "src", f), a)
            else:
                json.dump(vbuild.drawn_args(tree, "%s/gen%d" % (os.environ.get("VERIF_SEED", "1"), k - 3), k == 3), open(a, "w"))
            args.append(a)
        ref = {}
        refdir = os.path.join(self.work, "ref")
        os.makedirs(refdir)
        jobs = [(a, f) for a in args for f in files]

        def one(j):
            a, f = j
            o = os.path.join(refdir, hashlib.md5(repr((a, f)).encode()).hexdigest())
            from .families import repo_args
            e = vbuild.env()
            e.update({"PYTHONPATH": tree, "PYTHONHASHSEED": "0"})
            p = subprocess.run([PY, "-W", "ignore", "-m", "scripts.cogapp"] + repo_args(tree, f, a, os.path.join(tree, "src/params.json"), "generate") + ["-o", o, os.path.join(tree, f)],
                               cwd=tree, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
            if p.returncode or not os.path.exists(o):
                return j, None
            return j, {"file": o, "md5": hashlib.md5(open(o, "rb").read()).hexdigest()}
        with ThreadPoolExecutor(8) as ex:
            for (a, f), r in ex.map(one, jobs):
                ref.setdefault(a, {})[f] = r
        ok = [f for f in files if all(ref[a].get(f) for a in args)]
        if len(ok) < len(files) // 2:
            raise vbuild.BuildError("most of the repository's templates could not be generated")
        targets = [f for f in ok if "generate.generate(" in open(os.path.join(tree, f), encoding="utf-8", errors="replace").read()]
        # registries of a few groups of targets, each built by ordinary processes with hash seed 0
        import random
        rng = random.Random("%s/registry" % os.environ.get("VERIF_SEED", "1"))
        groups = [sorted(rng.sample(targets, min(len(targets), n))) for n in (1, 2, 2, 3, 3, 4, 5, 6)] if targets else []

        def registry(kg):
            k, g = kg
            o = os.path.join(refdir, "registry%d.json" % k)
            e = vbuild.env()
            e.update({"PYTHONPATH": tree, "PYTHONHASHSEED": "0"})
            from .families import repo_args
            for f in g:
                subprocess.run([PY, "-W", "ignore", "-m", "scripts.cogapp"] + repo_args(tree, f, args[0], o, "params") + [os.path.join(tree, f)],
                               cwd=tree, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
            return {"files": g, "file": o}
        with ThreadPoolExecutor(8) as ex:
            groups = [r for r in ex.map(registry, enumerate(groups)) if os.path.exists(r["file"])]
        return {"tree": tree, "files": ok, "args": args, "ref": ref, "targets": targets, "groups": groups}

    def getter(self):
        """scripts/getter.json tells the generators about the build; made as the build makes it"""
        o = os.path.join(self.tree, vbuild.SUB, "scripts/obj/getter")
        vbuild.sh(["make", "-j16", "-s", o], cwd=self.tree)
        g = subprocess.run([o], stdout=subprocess.PIPE, check=True).stdout
        open(os.path.join(self.tree, "scripts/getter.json"), "wb").write(g)

    def launch(self, cfg, hashseed):
        self.n += 1
        k = self.n
        f = os.path.join(self.work, "cfg%d.json" % k)
        cfg = dict(cfg, tree=self.tree, out=os.path.join(self.work, "res%d.json" % k), scratch=os.path.join(self.work, "sim%05d" % k), repo=self.repo,
                   path=[os.path.join(self.tree, p) for p in ("include", "scripts", "src/gen")] if self.repo else [])
        json.dump(cfg, open(f, "w"))
        e = vbuild.env()
        e.update({"LD_PRELOAD": self.shim, "PYTHONHASHSEED": str(hashseed)})
        e.pop("PYTHONPATH", None)
        try:
            p = subprocess.run([PY, "-W", "ignore", os.path.join(HERE, "worker.py"), f], env=e, cwd=self.tree, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=cfg.get("cap", 60) + 240)
        except subprocess.TimeoutExpired:
            raise RuntimeError("the simulator did not stop")
        if not os.path.exists(cfg["out"]):
            raise RuntimeError("a simulator worker wrote nothing: %s" % p.stdout[-1500:].decode("utf-8", "replace"))
        r = json.load(open(cfg["out"]))
        os.unlink(cfg["out"])
        if "error" in r:
            raise RuntimeError("simulator error: " + r["error"][-2500:])
        return r

    def batch(self, fam, prof, variants, seed, runs, cap, workers=8, frm=0, det=False, known=()):
        stop = os.path.join(self.work, "stop")
        if os.path.exists(stop):
            os.unlink(stop)
        t0 = time.time()
        W = len(HASHSEEDS)
        cfgs = [{"family": fam, "profile": prof, "seed": seed, "start": frm + w, "stop": frm + runs, "step": W, "cap": cap, "stopfile": stop, "det": det, "known": list(known)} for w in range(W)]
        with ThreadPoolExecutor(workers) as ex:
            rs = list(ex.map(lambda wc: self.launch(wc[1], HASHSEEDS[wc[0]]), enumerate(cfgs)))
        tot = {"runs": 0, "nontrivial": 0, "simtime": 0.0, "counts": {}, "tags": {}, "samples": [], "hashes": [], "capped": False}
        tr, st = set(), set()
        for w, r in enumerate(rs):
            for k in ("runs", "nontrivial", "simtime"):
                tot[k] += r[k]
            for k in ("counts", "tags"):
                for a, b in r[k].items():
                    tot[k][a] = tot[k].get(a, 0) + b
            tot["samples"] += r["samples"][:1]
            tot["hashes"] += r["hashes"]
            tot["capped"] |= r["capped"]
            tr.update(r["traces"])
            st.update(r["states"])
            if "violation" in r and ("violation" not in tot or r["violation"]["run"] < tot["violation"]["run"]):
                v = dict(r["violation"])
                v["choices"] = [HASHSEEDS[w]] + v["choices"]
                tot["violation"] = v
        tot.update(distinct_traces=len(tr), distinct_states=len(st), wall=time.time() - t0, harness="")
        return tot

    def replay(self, fam, prof, variants, choices, known=()):
        return self.launch({"family": fam, "profile": prof, "replay": choices[1:], "known": list(known), "cap": 60, "stopfile": ""}, choices[0])
