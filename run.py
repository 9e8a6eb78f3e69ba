#!/usr/bin/env python3
"""run.py CHECK quick|thorough      run one registered check
run.py --replay FILE              rebuild from /repo and replay a recorded violation
Exit 0: held; 1 and a VIOLATION line: broken; 2: the check itself failed."""
import json, os, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import vbuild
from checks import CHECKS, FAULT_PREFIXES

EVID = os.path.join(HERE, "evidence")
T0 = time.time()


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"known": [], "fixed": []}


class Engine:
    """The C simulator: library variants built from /repo plus the families a check needs."""

    def __init__(self, work, variants, fams):
        self.work = work
        jobs = max(3, 16 // (len(variants) + 1))
        self.sos = {}
        self.failed = {}
        self.build_s = {}
        with ThreadPoolExecutor(len(variants) + 1) as ex:
            fo = ex.submit(vbuild.build_sim, work, fams)
            fl = {v: ex.submit(vbuild.make_variant, work, v, None, jobs) for v in variants}
            for v, f in fl.items():
                try:
                    so, s = f.result()
                    self.sos[v] = so
                    self.build_s[v] = round(s, 1)
                except vbuild.BuildError as e:
                    self.failed[v] = str(e)
            objs = fo.result()
        if variants[0] not in self.sos:
            raise vbuild.BuildError("the default build failed: " + self.failed[variants[0]])
        self.exe, self.stubs = vbuild.link_sim(work, objs, list(self.sos.values()))
        for v in variants:
            t = os.path.join(work, "tree_" + v)
            shutil.rmtree(t, ignore_errors=True)

    def args(self, fam, prof, variants):
        a = [self.exe, "--family", fam, "--profile", prof]
        for v in variants:
            if v in self.sos:
                a += ["--lib", "%s=%s" % (v, self.sos[v])]
        return a

    def batch(self, fam, prof, variants, seed, runs, cap, workers=8, frm=0, det=False, known=()):
        out = os.path.join(self.work, "out.json")
        if os.path.exists(out):
            os.unlink(out)
        a = self.args(fam, prof, variants) + ["--seed", str(seed), "--runs", str(runs), "--cap", str(cap), "--workers", str(workers), "--from", str(frm), "--out", out]
        if det:
            a.append("--det")
        for k in known:
            a += ["--known", k]
        try:
            p = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=cap + 240)
        except subprocess.TimeoutExpired:
            raise RuntimeError("simulator did not stop within its time cap")
        if not os.path.exists(out):
            raise RuntimeError("simulator wrote nothing (exit %d): %s" % (p.returncode, p.stdout[-1500:]))
        r = json.load(open(out))
        if p.returncode not in (0, 10) or (r.get("harness") and "violation" not in r):
            raise RuntimeError("simulator error (exit %d): %s %s" % (p.returncode, r.get("harness"), p.stdout[-1500:]))
        return r

    def replay(self, fam, prof, variants, choices, known=()):
        f = os.path.join(self.work, "choices.txt")
        open(f, "w").write(" ".join(map(str, choices)))
        a = self.args(fam, prof, variants) + ["--replay", f]
        for k in known:
            a += ["--known", k]
        p = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=240)
        if p.returncode != 0:
            raise RuntimeError("replay error: " + p.stderr[-500:])
        return json.loads(p.stdout)


def make_engine(work, c):
    if c.get("engine") == "py":
        from pysim import engine
        return engine.PyEngine(work, c)
    return Engine(work, c["variants"], c["families"])


def merge(tot, r):
    for k in ("runs", "nontrivial", "simtime", "wall", "distinct_traces", "distinct_states"):
        tot[k] = tot.get(k, 0) + r.get(k, 0)
    for k in ("counts", "tags"):
        d = tot.setdefault(k, {})
        for a, b in r.get(k, {}).items():
            d[a] = d.get(a, 0) + b
    tot.setdefault("samples", []).extend(r.get("samples", [])[:2])


def write_evidence(pid, c, tier, seed, tot, det, viol, extra):
    wall = max(tot.get("wall", 0), 1e-6)
    counts = tot.get("counts", {})
    faults = {k: v for k, v in sorted(counts.items()) if k.startswith(FAULT_PREFIXES)}
    probes = {k: v for k, v in sorted(counts.items()) if not k.startswith(FAULT_PREFIXES)}
    cov = {
        "evaluations": int(tot.get("runs", 0)),
        "distinct_nontrivial": int(min(tot.get("nontrivial", 0), tot.get("distinct_traces", 0))),
        "rule": c["rule"],
        "samples": tot.get("samples", [])[:6],
        "runs_per_hour": int(tot.get("runs", 0) / wall * 3600),
        "seeds": "run i of a batch uses the seed mix(VERIF_SEED, part, i); %d runs this time" % tot.get("runs", 0),
        "simulated_seconds": round(tot.get("simtime", 0), 3),
        "simulation_wall_s": round(wall, 2),
        "faults_injected": faults,
        "probes": probes,
        "workload_mix": tot.get("tags", {}),
        "distinct_schedules": int(tot.get("distinct_traces", 0)),
        "distinct_schedules_measure": "distinct 64-bit hashes of the full event trace (steps, deliveries, faults) of a run",
        "distinct_states": int(tot.get("distinct_states", 0)),
        "distinct_states_measure": c.get("state_rule", "distinct 64-bit hashes of the reference-model accumulator state at a checkpoint of the run"),
        "determinism": det,
        "real_code": c["real"],
        "stubbed": c["stub"],
        "parts": tot.get("parts", []),
    }
    cov.update(extra)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": c.get("assumptions", []),
          "wall_s": round(time.time() - T0, 2), "violations": viol}
    os.makedirs(EVID, exist_ok=True)
    p = os.path.join(EVID, pid + ".json")
    tmp = p + ".tmp%d" % os.getpid()
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, p)


def report(pid, part, c, eng, v, seed, known):
    """Replay the minimised schedule in a fresh process, save it, print the violation."""
    fam, prof = part["family"], part["profile"]
    variants = part.get("variants", c["variants"] if "variants" in c else [])
    rp = eng.replay(fam, prof, variants, v["choices"], known)
    same = rp.get("class") == v["class"]
    d = os.path.join(EVID, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s.json" % pid)
    json.dump({"property": pid, "family": fam, "profile": prof, "variants": variants, "class": v["class"], "detail": rp.get("detail") or v["detail"],
               "run": v["run"], "run_seed": v["run_seed"], "verif_seed": seed, "choices": v["choices"], "original_choices": v.get("original_choices"),
               "minimised_choices": v.get("minimised_choices"), "replays_exactly": same, "trace": rp.get("events") or v.get("events")}, open(path, "w"), indent=1)
    print("violation class: %s" % v["class"])
    print("detail: %s" % (rp.get("detail") or v["detail"]))
    print("run %s, seed %s; %s choices minimised to %s; replay in a fresh process %s" % (v["run"], v["run_seed"], v.get("original_choices"), v.get("minimised_choices"), "reproduces it" if same else "DIFFERS"))
    for e in (rp.get("events") or [])[-40:]:
        print("  | " + e[:300])
    print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)


def run_check(pid, tier):
    c = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    kf = known_findings()
    knowns = [k for k in kf["known"] if k["property"] == pid]
    sigs = [k["signature"] for k in knowns if k.get("signature")]
    work = tempfile.mkdtemp(prefix="verif_%s_" % pid, dir="/tmp")
    tot = {"parts": []}
    try:
        eng = make_engine(work, c)
        log("built", getattr(eng, "build_s", ""))
        if getattr(eng, "failed", None):
            log("variants that did not build:", {k: v[-300:] for k, v in eng.failed.items()})
        stubs = getattr(eng, "stubs", [])
        # listed findings
        for k in knowns:
            if "choices" in k:
                r = eng.replay(k["family"], k["profile"], k.get("variants", c.get("variants", [])), k["choices"])
                if r.get("class") == k["class"]:
                    print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]), flush=True)
        # determinism of the simulator itself, on this tree
        det = {"runs_compared": 0, "divergences": 0}
        viol = None
        for i, part in enumerate(c["parts"]):
            fam, prof = part["family"], part["profile"]
            variants = part.get("variants", c.get("variants", []))
            s = seed * 1000003 + i
            n = part.get("det", 300)
            if n:
                a = eng.batch(fam, prof, variants, s, n, 60, workers=8, det=True, known=sigs)
                b = eng.batch(fam, prof, variants, s, n, 60, workers=3, det=True, known=sigs) if "violation" not in a else a
                if "violation" not in a and "violation" not in b:
                    ha, hb = sorted(a["hashes"]), sorted(b["hashes"])
                    if a.get("capped") or b.get("capped"):
                        m = set(h.split()[0] for h in ha) & set(h.split()[0] for h in hb)
                        ha = [h for h in ha if h.split()[0] in m]
                        hb = [h for h in hb if h.split()[0] in m]
                    det["runs_compared"] += len(ha)
                    if ha != hb:
                        det["divergences"] += sum(1 for x, y in zip(ha, hb) if x != y) or 1
            q = part[tier] if tier in part else part["quick"]
            left = c["budget"][tier] - (time.time() - T0)
            r = eng.batch(fam, prof, variants, s, q["runs"], min(q["cap"], max(3, left)), known=sigs)
            merge(tot, r)
            tot["parts"].append({"family": fam, "profile": prof, "variants": variants, "runs": r["runs"], "planned": q["runs"], "wall_s": r["wall"], "capped": r.get("capped", False)})
            log("%s/%s: %d runs, %d distinct traces, %.1fs" % (fam, prof, r["runs"], r["distinct_traces"], r["wall"]), "VIOLATION" if "violation" in r else "")
            if "violation" in r:
                viol = (part, r["violation"])
                break
        extra = {"build_s": getattr(eng, "build_s", {}), "stub_mpi_entry_points": stubs}
        if getattr(eng, "failed", None):
            extra["variants_not_built"] = sorted(eng.failed)
        write_evidence(pid, c, tier, seed, tot, det, 1 if viol else 0, extra)
        if viol:
            report(pid, viol[0], c, eng, viol[1], seed, sigs)
            return 1
        if det["divergences"]:
            log("the simulator itself diverged between two executions of the same seeds")
            return 2
        if tot["runs"] == 0:
            log("nothing was explored")
            return 2
        log("%s held on %d runs (%d distinct schedules)" % (pid, tot["runs"], tot["distinct_traces"]))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run_replay(path):
    r = json.load(open(path))
    pid = r["property"]
    c = dict(CHECKS[pid])
    os.environ["VERIF_SEED"] = str(r.get("verif_seed", 1))
    if "variants" in c:
        c["variants"] = list(dict.fromkeys([c["variants"][0]] + r["variants"]))
    kf = known_findings()
    sigs = [k["signature"] for k in kf["known"] if k["property"] == pid and k.get("signature")]
    work = tempfile.mkdtemp(prefix="verif_replay_", dir="/tmp")
    try:
        eng = make_engine(work, c)
        o = eng.replay(r["family"], r["profile"], r["variants"], r["choices"], sigs)
        for e in o.get("events", []):
            print("  | " + e[:400])
        print("class: %s\ndetail: %s" % (o["class"] or "(held)", o["detail"]))
        if o["class"]:
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return run_replay(sys.argv[2])
    if len(sys.argv) >= 2 and sys.argv[1] == "--selftest":
        print("checks:", " ".join(sorted(CHECKS)))
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return run_check(sys.argv[1], tier)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        print("check error: %s" % e)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
