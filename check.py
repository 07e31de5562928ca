#!/usr/bin/env python3
"""Decides one property by deterministic simulation.

  check.py C01                     quick (or VERIF_TIER) exploration
  check.py C01 --tier thorough
  check.py --replay FILE           re-executes a replay file (exit 1: reproduced)

Exit 0: held on every simulated run. Exit 1 with a VIOLATION line: broken; the
replay file reproduces it. Anything else: an error of the check itself.
"""
import argparse, collections, json, os, re, shutil, subprocess, sys, tempfile
import time
from concurrent.futures import ThreadPoolExecutor

import buildlib, props

VERIF = buildlib.VERIF
T0 = time.time()


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def strip0(v):
    v = list(v)
    while v and v[-1] == 0:
        v.pop()
    return v


class Server:
    """One --serve process: executes (W,S) choice lists."""

    def __init__(self, exe, prop, cpu, scratch):
        self.dir = tempfile.mkdtemp(prefix="s", dir=scratch)
        self.p = subprocess.Popen(
            [exe, "--serve", "--prop", prop, "--cpu", str(cpu), "--scratch",
             self.dir, "--out", self.dir + "/out", "--wall", "300"],
            stdin=subprocess.PIPE, stdout=subprocess.DEVNULL,
            stderr=subprocess.DEVNULL, text=True)
        self.f = None

    def run(self, W, S, trace=False):
        self.p.stdin.write("%s%s|%s\n" % ("T" if trace else "R",
                                          " ".join(map(str, W)),
                                          " ".join(map(str, S))))
        self.p.stdin.flush()
        t = time.time()
        while self.f is None:
            try:
                self.f = open(self.dir + "/out")
            except OSError:
                time.sleep(0.002)
            if self.p.poll() is not None and time.time() - t > 2:
                raise RuntimeError("server died")
        buf = ""
        while not buf.endswith("\n"):
            x = self.f.readline()
            if not x:
                if self.p.poll() is not None:
                    raise RuntimeError("server died")
                if time.time() - t > 400:
                    raise RuntimeError("server hangs")
                time.sleep(0.001)
            buf += x
        return json.loads(buf)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(20)
        except Exception:
            self.p.kill()
            self.p.wait()
        if self.f:
            self.f.close()


def minimise(exe, prop, v, scratch, budget, ncpu):
    """Shrinks both choice lists while the violation class persists."""
    W, S = strip0(v["W"]), strip0(v["S"])
    cls = v["cls"]
    servers = [Server(exe, prop, i, scratch) for i in range(ncpu)]
    pool = ThreadPoolExecutor(ncpu)
    end = time.time() + budget
    best = None
    n_eval = 0

    def evaluate(cands):
        nonlocal n_eval
        n_eval += len(cands)
        return list(pool.map(lambda i: servers[i].run(*cands[i]),
                             range(len(cands))))

    def try_all(cands):
        """first candidate (in order) that still fails; None otherwise"""
        nonlocal W, S, best
        it = iter(cands)
        while time.time() < end:
            batch = []
            for c in it:
                batch.append(c)
                if len(batch) == ncpu:
                    break
            if not batch:
                return False
            for c, r in zip(batch, evaluate(batch)):
                if r["verdict"] == "violation" and r["cls"] == cls:
                    nw, ns = strip0(r["W"]), strip0(r["S"])
                    if (len(nw) + len(ns), sum(nw) + sum(ns)) < \
                            (len(W) + len(S), sum(W) + sum(S)):
                        W, S, best = nw, ns, r
                        return True
        return False

    def cuts(L):
        n = len(L)
        size = n
        while size >= 1:
            i = 0
            while i < n:
                z = L[:i] + [0] * (min(n, i + size) - i) + L[i + size:]
                if strip0(z) != L:
                    yield strip0(z)
                d = L[:i] + L[i + size:]
                if d != L:
                    yield d
                i += size
            size //= 2

    def lowers(L):
        for i, x in enumerate(L):
            if x > 0:
                for y in sorted({0, 1, x // 2, x - 1}):
                    if y < x:
                        yield L[:i] + [y] + L[i + 1:]

    try:
        progress = True
        while progress and time.time() < end:
            progress = False
            for gen in (lambda: ((W, s) for s in [[]] if S),
                        lambda: ((w, S) for w in cuts(W)),
                        lambda: ((W, s) for s in cuts(S)),
                        lambda: ((w, S) for w in lowers(W)),
                        lambda: ((W, s) for s in lowers(S))):
                while time.time() < end and try_all(gen()):
                    progress = True
        final = servers[0].run(W, S, trace=True)
    finally:
        for s in servers:
            s.close()
        pool.shutdown()
    return W, S, final, n_eval


def fresh(exe, prop, W, S, scratch, cpu=0):
    s = Server(exe, prop, cpu, scratch)
    try:
        return s.run(W, S, trace=True)
    finally:
        s.close()


def load_known():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: "):
                m = re.match(r"known: property=(\S+) cls=(\S+) match=/(.*?)/ (.*)", l)
                if not m:
                    raise RuntimeError("bad known-findings line: " + l)
                out.append(m.groups())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--time", type=float)
    ap.add_argument("--replay")
    a = ap.parse_args()
    scratch = tempfile.mkdtemp(prefix="vsim")
    try:
        if a.replay:
            return replay(a.replay, scratch)
        return check(a, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path, scratch):
    r = json.load(open(path))
    exe = buildlib.build(*props.BUILDS[props.PROPS[r["property"]]["build"]])
    d = fresh(exe, r["property"], r["W"], r["S"], scratch)
    print("\n".join(d.get("log", []) + d.get("trace", [])))
    print("verdict %s %s: %s (hash %s, recorded %s)" %
          (d["verdict"], d["cls"], d["msg"], d["hash"], r["hash"]))
    if d["verdict"] == "violation" and d["cls"] == r["cls"]:
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    return 0


def check(a, scratch):
    P = props.PROPS[a.prop]
    known = [k for k in load_known() if k[0] == a.prop]
    log("property", a.prop, "tier", a.tier, "VERIF_SEED", a.seed)
    exe = buildlib.build(*props.BUILDS[P["build"]])
    t_build = time.time() - T0
    log("built", exe)
    ncpu = os.cpu_count() or 1
    dur = a.time or P["thorough" if a.tier == "thorough" else "quick"]
    rechecks = P.get("recheck", 6)
    procs, outs = [], []
    for i in range(ncpu):
        d = os.path.join(scratch, "w%d" % i)
        os.mkdir(d)
        o = os.path.join(scratch, "o%d" % i)
        outs.append(o)
        procs.append(subprocess.Popen(
            [exe, "--batch", "--prop", a.prop, "--base", str(a.seed),
             "--start", str(i), "--stride", str(ncpu), "--time", str(dur),
             "--recheck", str(rechecks), "--out", o, "--cpu", str(i),
             "--wall", str(P.get("wall", 200)), "--scratch", d],
            stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
            stderr=subprocess.PIPE, text=True))
    t1 = time.time()
    bad = []
    for i, p in enumerate(procs):
        err = p.communicate()[1]
        if p.returncode != 0:
            bad.append("worker %d exit %s: %s" % (i, p.returncode, err[-500:]))
    t_run = time.time() - t1
    # ------------------------------------------------------------- gather
    n = jobs = ops = msgs = simns = rec_ok = 0
    faults, probes = collections.Counter(), collections.Counter()
    sigs, orders, hashes = set(), set(), set()
    viol, errors, samples = [], [], []
    for o in outs:
        if not os.path.exists(o):
            continue
        for l in open(o):
            d = json.loads(l)
            if d["verdict"] == "recheck_ok":
                rec_ok += 1
                continue
            if d["verdict"] == "nondeterminism":
                errors.append("same seed, different event log: seed %s" % d["seed"])
                continue
            n += 1
            if "hash" in d:
                jobs += d["jobs"]
                ops += d["ops"]
                msgs += d["msgs"]
                simns += d["sim_ns"]
                faults.update(d["faults"])
                probes.update(d["probes"])
                orders.add(d["order"])
                hashes.add(d["hash"])
                if d["nontrivial"]:
                    sigs.add(d["sig"])
                if d.get("log") and len(samples) < 3:
                    samples.append({"seed": d["seed"], "workload": d["log"][:12]})
            if d["verdict"] == "violation":
                viol.append(d)
            elif d["verdict"] == "error":
                errors.append("seed %s: %s" % (d["seed"], d["msg"]))
    log("%d runs, %d violations, %d errors in %.1fs" %
        (n, len(viol), len(errors), t_run))
    errors += bad
    # -------------------------------------------------- known vs reported
    def is_known(d):
        for k in known:
            if re.fullmatch(k[1], d["cls"]) and re.search(k[2], d["msg"]):
                return k
        return None

    new = [d for d in viol if not is_known(d)]
    hit_known = {}
    for d in viol:
        k = is_known(d)
        if k:
            hit_known.setdefault(k, d)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k[3]), flush=True)
    reported = []
    by_cls = collections.OrderedDict()
    for d in sorted(new, key=lambda d: len(d["W"]) + len(d["S"])):
        by_cls.setdefault(d["cls"], []).append(d)
    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    total_min = 300 if a.tier == "thorough" else P.get("min_budget", 60)
    ncl = min(3, len(by_cls))
    for cls in list(by_cls)[:3]:
        ok = False
        for v in by_cls[cls][:3]:
            # gate: the same choices must reproduce, twice, in fresh processes
            r1 = fresh(exe, a.prop, v["W"], v["S"], scratch, 0)
            r2 = fresh(exe, a.prop, v["W"], v["S"], scratch, 1)
            if not (r1["verdict"] == r2["verdict"] == "violation" and
                    r1["cls"] == r2["cls"] == cls and
                    r1["hash"] == r2["hash"] == v["hash"]):
                errors.append("violation %s (seed %s) does not replay: %s %s / %s %s"
                              % (cls, v["seed"], r1["verdict"], r1["cls"],
                                 r2["verdict"], r2["cls"]))
                continue
            W, S, f, ne = minimise(exe, a.prop, v, scratch,
                                   total_min / ncl, ncpu)
            g = fresh(exe, a.prop, W, S, scratch, 2)
            if not (f["verdict"] == g["verdict"] == "violation" and
                    g["cls"] == cls and g["hash"] == f["hash"]):
                # fall back to the unminimised, already confirmed trace
                W, S, g = v["W"], v["S"], r1
            if is_known(g) and not is_known(v):
                W, S, g = v["W"], v["S"], r1
            path = os.path.join(rdir, "%s-%s-%s.json" %
                                (a.prop, re.sub(r"\W+", "_", cls)[:40],
                                 g["hash"][:8]))
            json.dump({"property": a.prop, "cls": cls, "msg": g["msg"],
                       "seed": v["seed"], "VERIF_SEED": a.seed,
                       "hash": g["hash"], "W": W, "S": S,
                       "workload": g.get("log"), "trace": g.get("trace"),
                       "original_choices": [len(v["W"]), len(v["S"])],
                       "minimiser_runs": ne,
                       "faults": g.get("faults"),
                       "how": "python3 /verif/check.py --replay <this file>"},
                      open(path, "w"), indent=1)
            log("violation class %s seed %s: %s" % (cls, v["seed"], g["msg"][:1200]))
            log("workload:", "; ".join(g.get("log", []))[:1500])
            reported.append((cls, path))
            ok = True
            break
    # ----------------------------------------------------------- evidence
    wall = time.time() - T0
    cov = {
        "evaluations": n,
        "distinct_nontrivial": len(sigs),
        "rule": P["rule"],
        "samples": samples,
        "simulated_runs": n,
        "simulated_jobs": jobs,
        "seeds_per_hour": round(n / max(t_run, 1e-9) * 3600),
        "simulated_operations": ops,
        "simulated_messages": msgs,
        "simulated_seconds_covered": round(simns * 1e-9, 3),
        "distinct_event_logs": len(hashes),
        "distinct_interleavings_message_match_order": len(orders),
        "faults_fired": dict(faults),
        "probes": dict(probes),
        "same_seed_twice_identical": rec_ok,
        "real_code": P["real"],
        "stubbed": P.get("stub", props.STUB),
        "build_s": round(t_build, 1),
        "violation_classes": sorted(by_cls),
        "errors": errors[:10],
    }
    ev = {"property": a.prop, "tier": a.tier, "seed": a.seed,
          "level": "exploration", "coverage": cov,
          "assumptions": P.get("assume", []) + props.ASSUME,
          "wall_s": round(wall, 1), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % a.prop)
    json.dump(ev, open(tmp, "w"), indent=1)
    os.rename(tmp, os.path.join(VERIF, "evidence", a.prop + ".json"))
    for cls, path in reported:
        print("VIOLATION property=%s replay=%s" % (a.prop, path), flush=True)
    if reported:
        return 1
    if errors:
        for e in errors[:10]:
            print("ERROR:", e[:1000])
        return 3
    if n == 0:
        print("ERROR: no simulated run completed")
        return 3
    for pr in P.get("must_probe", []):
        if not probes.get(pr):
            log("note: probe never reached:", pr)
    log("held on %d simulated runs" % n)
    return 0


if __name__ == "__main__":
    sys.exit(main())
