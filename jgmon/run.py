"""Runs one property's monitors: python -m jgmon.run C01 [--tier quick] ; --replay FILE re-runs a witness."""

import argparse
import collections
import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"

MODULES = {}
for _f in sorted(os.listdir(os.path.join(ROOT, "jgmon", "props"))):
    if _f[0] == "c" and _f.endswith(".py"):
        MODULES[_f.split("_")[0].upper()] = _f[:-3]


def worker_env(x64=True):
    env = dict(os.environ)
    env.update(
        JAX_PLATFORMS="cpu",
        PYTHONNOUSERSITE="1",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        MPLBACKEND="Agg",
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
        JAX_COMPILATION_CACHE_DIR="",
        TF_CPP_MIN_LOG_LEVEL="3",
        JGMON_X64="1" if x64 else "0",
        PYTHONPATH=ROOT,
    )
    env.pop("JAX_COMPILATION_CACHE_DIR", None)
    return env


def group_specs(module):
    """Read the group table without importing jax: run a tiny subprocess."""
    code = (
        "import json,sys;from jgmon import worker;worker.setup();import importlib;"
        f"m=importlib.import_module('jgmon.props.{module}');"
        "print(json.dumps({'groups':{g:{k:v for k,v in d.items() if k!='fn'} for g,d in m.GROUPS.items()},"
        "'assumptions':getattr(m,'ASSUMPTIONS',[]),'rule':getattr(m,'RULE',''),'level':getattr(m,'LEVEL','exploration')}))"
    )
    p = subprocess.run([PY, "-c", code], env=worker_env(), capture_output=True, text=True, timeout=300)
    if p.returncode:
        sys.stderr.write(p.stderr[-4000:])
        raise SystemExit(3)
    return json.loads(p.stdout.strip().splitlines()[-1])


def known_findings(prop):
    path = os.path.join(ROOT, "KNOWN_FINDINGS.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith("fixed:"):
                d = json.loads(line)
                if d["property"] == prop:
                    out.append(d)
    return out


def plan(groups, tier, nworkers, scale=1.0):
    """Split each group's quota into shards, and spread shards over workers by estimated cost."""
    shards = []
    for g, d in groups.items():
        n = d["quick"] if tier == "quick" else d.get("thorough", d["quick"] * 8)
        n = max(1, int(round(n * scale)))
        warm = d.get("warm", 3.0)
        cost = d.get("cost", 0.1)
        # a shard pays the warm-up (compilation) once
        k = max(1, min(nworkers, int((n * cost) // max(warm, 4.0)) or 1, n))
        if d.get("shards"):
            k = max(1, min(n, d["shards"]))
        for s in range(k):
            idx = list(range(s, n, k))
            shards.append((warm + cost * len(idx), [(g, i) for i in idx], d.get("x64", True)))
    shards.sort(key=lambda s: -s[0])
    load = [[0.0, [], None] for _ in range(nworkers)]
    f32 = [s for s in shards if not s[2]]
    f64 = [s for s in shards if s[2]]
    nf32 = 0
    if f32:
        nf32 = max(1, min(nworkers - 1, round(nworkers * sum(s[0] for s in f32) / sum(s[0] for s in shards))))
    for i in range(nworkers):
        load[i][2] = i >= nf32
    for kind, lst in ((False, f32), (True, f64)):
        mine = [w for w in load if w[2] == kind]
        for s in lst:
            w = min(mine, key=lambda w: w[0])
            w[0] += s[0]
            w[1].append(s[1])
    jobs = []
    for c, lists, x64 in load:
        if not lists:
            continue
        # round-robin over the shards so that a deadline does not starve a group
        seq = []
        pos = 0
        while any(pos < len(x) for x in lists):
            for x in lists:
                if pos < len(x):
                    seq.append(x[pos])
            pos += 1
        jobs.append((seq, x64))
    return jobs


HANG = float(os.environ.get("JGMON_HANG", "300"))  # a single case takes seconds


class W(threading.Thread):
    """Feeds a list of cases to worker processes: a worker that grows too big hands over to a fresh one, and a worker
    that dies (killed for memory, native crash in the libraries underneath) is replaced, up to MAXDEATHS times."""

    MAXDEATHS = 3

    def __init__(self, job, x64, hard):
        super().__init__(daemon=True)
        self.job, self.x64, self.hard = job, x64, hard
        self.rows, self.err, self.ended, self.current = [], "", False, None
        self.stopped, self.killed, self.deaths, self.rc = None, False, [], None
        self.begun, self.hung = time.time(), False
        self.lines = {}
        self.p = None
        self.start()

    def _drain(self, p):
        for line in p.stderr:
            self.err = (self.err + line)[-6000:]

    def run(self):
        pos = 0
        cases = self.job["cases"]
        while not self.killed:
            self.p = p = subprocess.Popen(
                [PY, "-m", "jgmon.worker"],
                stdin=subprocess.PIPE,
                stdout=subprocess.PIPE,
                stderr=subprocess.PIPE,
                env=worker_env(self.x64),
                cwd=ROOT,
                text=True,
                start_new_session=True,
            )
            threading.Thread(target=self._drain, args=(p,), daemon=True).start()
            handover = False
            try:
                p.stdin.write(json.dumps(dict(self.job, cases=cases[pos:])))
                p.stdin.close()
                for line in p.stdout:
                    try:
                        r = json.loads(line)
                    except ValueError:
                        continue
                    if "begin" in r:
                        self.current, self.begun = r["begin"], time.time()
                    elif "lines" in r:
                        for f, n in r["lines"].items():
                            self.lines.setdefault(f, set()).update(n)
                    elif "end" in r:
                        self.ended = True
                    elif "handover" in r:
                        handover = True
                    elif "stopped" in r:
                        self.stopped = r["stopped"]
                    else:
                        self.rows.append(r)
                        self.current = None
                        pos += 1
            except Exception as e:
                self.err += repr(e)
            self.rc = p.wait()
            if self.ended or self.killed:
                return
            if self.hung and self.current:
                g, i = self.current
                d = {"error": f"the case had not finished after {HANG} s; cases take seconds", "where": "", "tb": ""}
                self.rows.append(
                    dict(group=g, index=i, status="hung", evals={"returns": 1}, events={}, margins={}, info={}, t=HANG,
                         violations=[{"monitor": "returns", "mech": "hang", "detail": d}])
                )
                return
            if not handover:
                self.deaths.append([self.rc, self.current, self.err[-300:]])
                # a positive exit code is a Python-level failure of the worker itself: not worth retrying
                if self.rc > 0 or len(self.deaths) > self.MAXDEATHS:
                    return

    def watch(self):
        """Ends a worker that is stuck in one case."""
        if self.is_alive() and self.current and not self.hung and time.time() - self.begun > HANG:
            self.hung = True
            self._kill()

    def kill(self):
        self.killed = True
        self._kill()

    def _kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except (OSError, AttributeError):
            pass


def function_lines(path):
    """The lines of the functions of a source file."""
    out = set()

    def walk(code, inside):
        if inside:
            out.update(n for _, _, n in code.co_lines() if n and n != code.co_firstlineno)
        for c in code.co_consts:
            if hasattr(c, "co_lines"):
                walk(c, inside or bool(c.co_flags & 2))  # functions have fast locals, class bodies do not

    with open(path) as f:
        walk(compile(f.read(), path, "exec"), False)
    return out


def library_lines(ws):
    """How many lines of the functions of the library were executed in the workers, by file."""
    root = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "jax_galsim")
    got, by_file = {}, {}
    for w in ws:
        for f, n in w.lines.items():
            got.setdefault(f, set()).update(n)
    for f in sorted(got):
        try:
            have = function_lines(os.path.join(root, f))
        except (OSError, SyntaxError):
            continue
        hit = have & got[f]
        if hit:
            by_file[f] = f"{len(hit)}/{len(have)}"
    if os.environ.get("JGMON_LINES"):
        with open(os.environ["JGMON_LINES"], "w") as out:
            json.dump({f: sorted(n) for f, n in got.items()}, out)
    return by_file


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="comma-separated groups")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--workers", type=int, default=int(os.environ.get("JGMON_WORKERS", "8")))
    a = ap.parse_args()
    t0 = time.time()

    if a.replay:
        return replay(a.replay)

    prop = a.prop
    module = MODULES[prop]
    spec = group_specs(module)
    groups = spec["groups"]
    if a.only:
        keep = a.only.split(",")
        groups = {g: d for g, d in groups.items() if any(g.startswith(k) for k in keep)}
    soft = 420.0 if a.tier == "quick" else 2700.0
    hard = 780.0 if a.tier == "quick" else 3400.0
    jobs = plan(groups, a.tier, a.workers, a.scale)
    ws = [
        W(
            dict(module=module, prop=prop, seed=a.seed, tier=a.tier, cases=c, deadline=t0 + soft),
            x64,
            t0 + hard,
        )
        for c, x64 in jobs
    ]
    while any(w.is_alive() for w in ws) and time.time() < t0 + hard:
        for w in ws:
            w.watch()
        time.sleep(0.2)
    inconclusive = []
    for w in ws:
        if w.is_alive():
            inconclusive.append(f"a worker was still in case {w.current} after {hard:.0f} s")
            w.kill()
            w.join(10)
        elif not w.ended and not w.hung:
            inconclusive.append(
                f"a worker ended early (rc={w.rc}) in case {w.current}: {w.err[-800:]}"
            )
    rows = [r for w in ws for r in w.rows]

    known = known_findings(prop)
    by_group = collections.Counter(r["group"] for r in rows if r["status"] != "aborted")
    evals, events, margins = collections.Counter(), collections.Counter(), {}
    distinct, tgroup = set(), collections.Counter()
    viol, hit_known = [], {}
    for r in rows:
        evals.update(r["evals"])
        events.update(r["events"])
        tgroup[r["group"]] += r["t"]
        for k, v in r["margins"].items():
            margins[k] = max(margins.get(k, 0.0), v)
        if r["evals"]:
            distinct.add(
                hashlib.sha1(json.dumps([r["group"], r["info"]], sort_keys=True, default=str).encode()).hexdigest()
            )
        for v in r["violations"]:
            for k in known:
                if k["monitor"] == v["monitor"] and k["mech"] == v["mech"] and k.get("group", r["group"]) == r["group"]:
                    hit_known.setdefault(k["id"], (k, r, v))
                    break
            else:
                viol.append((r, v))
    for g in groups:
        if by_group[g] == 0:
            inconclusive.append(f"group {g} completed no case")
    # every monitor a group declares must have been evaluated
    for g, d in groups.items():
        for m in d.get("must", []):
            if evals.get(m, 0) == 0:
                inconclusive.append(f"monitor {m} was never evaluated")

    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    printed = set()
    paths = []
    for r, v in viol:
        key = (r["group"], v["monitor"], v["mech"])
        if key in printed:
            continue
        printed.add(key)
        h = hashlib.sha1(json.dumps([prop, *key, r["index"], a.seed]).encode()).hexdigest()[:10]
        path = os.path.join(ROOT, "replays", f"{prop}-{h}.json")
        with open(path, "w") as f:
            json.dump(
                {
                    "property": prop,
                    "module": module,
                    "group": r["group"],
                    "index": r["index"],
                    "seed": a.seed,
                    "tier": a.tier,
                    "x64": groups[r["group"]].get("x64", True),
                    "case": r["info"],
                    "violation": v,
                },
                f,
                indent=1,
                default=str,
            )
        paths.append((path, r, v))
    for k, r, v in hit_known.values():
        print(f"KNOWN-FINDING: property={prop} {k['id']}: {k['what']}")
    for path, r, v in paths[: 200 if a.verbose else 20]:
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  group={r['group']} index={r['index']} monitor={v['monitor']} mech={v['mech']}")
        print(f"  case={json.dumps(r['info'], default=str)[:600]}")
        print(f"  detail={json.dumps(v['detail'], default=str)[: 2500 if a.verbose else 700]}")

    ran = [r for r in rows if r["status"] != "aborted" and r["evals"]]
    pick = ran[:: max(1, len(ran) // 6)][:6]
    ev = {
        "property": prop,
        "tier": a.tier,
        "seed": a.seed,
        "level": spec["level"],
        "coverage": {
            "evaluations": len(rows),
            "distinct_nontrivial": len(distinct),
            "rule": spec["rule"]
            + " Each case draws its inputs from a generator seeded by (VERIF_SEED, group, index); it is non-trivial"
            " when at least one oracle compared an observed value, and distinct by its recorded parameters.",
            "oracle_evaluations": int(sum(evals.values())),
            "oracle_evaluations_by_monitor": dict(sorted(evals.items())),
            "events_observed": dict(sorted(events.items())),
            "cases_by_group": dict(sorted(by_group.items())),
            "aborted_cases": sum(r["status"] == "aborted" for r in rows),
            "library_lines_executed": library_lines(ws),
            "worst_error_over_tolerance": {k: round(v, 4) for k, v in sorted(margins.items()) if v > 0},
            "workers_replaced_after_dying": [d[:2] for w in ws for d in w.deaths],
            "cut_short_by_deadline": [w.stopped for w in ws if w.stopped],
            "known_findings_seen": sorted(hit_known),
            "inconclusive": inconclusive,
            "samples": [{"group": r["group"], "index": r["index"], "case": r["info"], "oracles": r["evals"]} for r in pick],
        },
        "assumptions": spec["assumptions"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(paths),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if a.verbose:
        print("time by group:", {k: round(v, 1) for k, v in tgroup.most_common()})
        first = {}
        for r in sorted(rows, key=lambda r: r["index"]):
            first.setdefault(r["group"], []).append(r["t"])
        print("max/median:", {g: (round(max(t), 2), round(sorted(t)[len(t) // 2], 3)) for g, t in first.items()})
        print("margins:", {k: round(v, 4) for k, v in sorted(margins.items(), key=lambda kv: -kv[1])[:40]})
    print(
        f"{prop} {a.tier} seed={a.seed}: {len(rows)} cases, {len(distinct)} distinct, {sum(evals.values())} oracle"
        f" evaluations, {len(paths)} violations, {len(hit_known)} known findings, {time.time() - t0:.1f} s"
    )
    if paths:
        return 1
    if inconclusive:
        for i in inconclusive:
            print("INCONCLUSIVE:", i)
        return 2
    return 0


def replay(path):
    d = json.load(open(path))
    env = worker_env(d.get("x64", True))
    code = (
        "import json,sys,importlib;from jgmon import worker;worker.setup();"
        f"m=importlib.import_module('jgmon.props.{d['module']}');"
        f"r=worker.run_case(m,{d['property']!r},{d['group']!r},{d['index']!r},{d['seed']!r},{d['tier']!r});"
        "print(json.dumps(r,indent=1,default=str));sys.stdout.flush();import os;os._exit(1 if r['violations'] else 0)"
    )
    return subprocess.run([PY, "-c", code], env=env, cwd=ROOT).returncode


if __name__ == "__main__":
    sys.exit(main())
