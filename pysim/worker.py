"""Runs simulated executions of the code generator; started by engine.py with the shim preloaded."""
import gc, hashlib, json, os, random, re, shutil, sys, time, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pysim import core, families, templates


def mix(*a):
    return int.from_bytes(hashlib.blake2b(repr(a).encode(), digest_size=8).digest(), "little")


def execute(fam, prof, scratch, seed=None, fixed=None, known=()):
    ch = core.Ch(seed, fixed)
    sim = core.Sim(ch, scratch)
    if families.REPO["tree"]:
        sim.cpu = core.CPU_LIMIT_REPO
    cls = detail = ""
    try:
        families.FAMILIES[fam](sim, ch, prof)
    except core.Violation as v:
        cls, detail = fam + "." + re.sub(r"[^a-z]+", "-", v.cls), v.detail
        if any(k in cls + " " + detail for k in known):
            cls = detail = ""
    except core.BecomeChild:
        raise
    except BaseException:
        sim.kill_all()
        raise
    sim.kill_all()
    return sim, ch, cls, detail


def trace_hash(sim):
    return hashlib.blake2b("\n".join(sim.events).encode("utf-8", "replace"), digest_size=8).hexdigest()


def shrink(fam, prof, scratch, choices, cls, known, limit=25.0):
    """shortlex: shorter choice lists first, then smaller numbers"""
    t0 = time.time()
    best = list(choices)

    def fails(c):
        sim, ch, k, _ = execute(fam, prof, scratch, fixed=c, known=known)
        return (k == cls), ch.out

    def trim(c):
        while c and c[-1] == 0:
            c = c[:-1]
        return c
    ok, out = fails(best)
    if not ok:
        return best
    best = trim(best)
    moved = True
    while moved and time.time() - t0 < limit:
        moved = False
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() - t0 < limit:
            i = 0
            while i < len(best) and time.time() - t0 < limit:
                c = best[:i] + best[i + size:]
                if fails(c)[0]:
                    best, moved = trim(c), True
                else:
                    i += size
            size //= 2
        for i in range(len(best)):
            for v in (0, best[i] // 2, best[i] - 1):
                if i < len(best) and 0 <= v < best[i] and time.time() - t0 < limit:
                    c = best[:i] + [v] + best[i + 1:]
                    if fails(c)[0]:
                        best, moved = trim(c), True
                        break
    return best


def main(cfg):
    scratch = cfg["scratch"]
    os.makedirs(scratch, exist_ok=True)
    families.REPO.update(cfg.get("repo") or {})
    fam, prof, known = cfg["family"], cfg["profile"], cfg.get("known", [])
    r = {"runs": 0, "nontrivial": 0, "simtime": 0.0, "traces": [], "states": [], "counts": {}, "tags": {}, "samples": [], "hashes": [], "capped": False}
    if cfg.get("replay") is not None:
        sim, ch, cls, detail = execute(fam, prof, scratch, fixed=cfg["replay"], known=known)
        return {"class": cls, "detail": detail, "events": sim.events}
    t0 = time.time()
    for i in range(cfg["start"], cfg["stop"], cfg["step"]):
        if time.time() - t0 > cfg["cap"] or os.path.exists(cfg["stopfile"]):
            r["capped"] = True
            break
        seed = mix(cfg["seed"], fam, prof, i)
        sim, ch, cls, detail = execute(fam, prof, scratch, seed=seed, known=known)
        r["runs"] += 1
        r["simtime"] += sim.simtime
        for k, v in sim.counts.items():
            r["counts"][k] = r["counts"].get(k, 0) + v
        for k, v in sim.tags.items():
            r["tags"][k] = r["tags"].get(k, 0) + v
        r["states"] += sim.states
        if sim.nontrivial:
            r["nontrivial"] += 1
            if len(r["samples"]) < 1:
                r["samples"].append({"run": i, "seed": "%016x" % seed, "trace": sim.events[:40]})
        h = trace_hash(sim)
        r["traces"].append(h)
        if cfg.get("det"):
            r["hashes"].append("%d %s" % (i, h))
        if cls:
            open(cfg["stopfile"], "w").close()
            # a run that does not stop costs its whole time limit at every attempt
            small = ch.out if cls.endswith("does-not-stop") else shrink(fam, prof, scratch, ch.out, cls, known)
            sim2, _, cls2, detail2 = execute(fam, prof, scratch, fixed=small, known=known)
            r["violation"] = {"class": cls, "detail": detail2 or detail, "run": i, "run_seed": "%016x" % seed, "original_choices": len(ch.out),
                              "minimised_choices": len(small), "choices": small, "events": sim2.events}
            break
    if cfg.get("full"):
        r["events"] = sim.events
    r["wall"] = time.time() - t0
    return r


if __name__ == "__main__":
    child = None
    cfg = json.load(open(sys.argv[1]))
    sys.path.insert(0, cfg["tree"])
    for p in cfg.get("path", []):
        sys.path.append(p)
    core.load_shim()
    import scripts.cogapp.cogapp
    if cfg.get("repo"):
        import config, scripts.terminal
    try:
        import tempfile, codecs, encodings.latin_1, encodings.utf_8, encodings.ascii, shlex, traceback
        gc.collect()
        gc.freeze()
        res = main(cfg)
    except core.BecomeChild as e:
        child = e
    except BaseException:
        res = {"error": traceback.format_exc()}
    if child:
        core.child_main(child.argv, child.module)
    t = cfg["out"] + ".tmp"
    json.dump(res, open(t, "w"))
    os.replace(t, cfg["out"])
    shutil.rmtree(cfg["scratch"], ignore_errors=True)
