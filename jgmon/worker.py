"""One worker process: runs the cases it is given, one JSON result per line."""

import importlib
import json
import os
import sys
import threading
import time
import warnings
import zlib


def setup():
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path.insert(0, repo)
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    import jax

    jax.config.update("jax_enable_x64", os.environ.get("JGMON_X64", "1") == "1")
    import jax_galsim

    here = os.path.realpath(jax_galsim.__file__)
    if not here.startswith(os.path.realpath(repo) + os.sep):
        raise SystemExit(f"jax_galsim imported from {here}, not {repo}")


def observe_lines():
    """Records which lines of the library's functions the workload executed (each line reports once, then costs nothing)."""
    import jax_galsim

    root = os.path.dirname(os.path.realpath(jax_galsim.__file__)) + os.sep
    seen = {}
    m = sys.monitoring

    def line(code, n):
        if code.co_filename.startswith(root):
            seen.setdefault(code.co_filename[len(root) :], set()).add(n)
        return m.DISABLE

    try:
        m.use_tool_id(m.COVERAGE_ID, "jgmon")
    except ValueError:  # someone else is observing
        return seen
    m.register_callback(m.COVERAGE_ID, m.events.LINE, line)
    m.set_events(m.COVERAGE_ID, m.events.LINE)
    return seen


def case_rng(seed, group, index):
    import numpy as np

    return np.random.default_rng([seed, zlib.crc32(group.encode()), index])


def run_case(mod, prop, group, index, seed, tier):
    from jgmon.mon import Abort, Mon

    fn = mod.GROUPS[group]["fn"]
    rng = case_rng(seed, group, index)
    mon = Mon(prop, group, index, seed, tier, rng)
    t0 = time.time()
    try:
        fn(mon, rng)
        status = "done"
    except Abort as e:
        status = "aborted"
        mon.note(aborted=str(e))
    except Exception as e:
        status = "crashed"
        mon.crash(e, getattr(e, "_jgmon_mech", "unexpected-exception"))
    r = mon.result()
    r["status"] = status
    r["t"] = time.time() - t0
    return r


def rss_mb():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * os.sysconf("SC_PAGE_SIZE") / 2**20


def orphan_watch(parent):
    while os.getppid() == parent:
        time.sleep(2)
    os._exit(1)


def main():
    threading.Thread(target=orphan_watch, args=(os.getppid(),), daemon=True).start()
    job = json.load(sys.stdin)
    setup()
    mod = importlib.import_module(f"jgmon.props.{job['module']}")
    seen = observe_lines()
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)  # anything the code under test prints goes to stderr
    deadline = job["deadline"]

    def report_lines():
        out.write(json.dumps({"lines": {f: sorted(n) for f, n in list(seen.items())}}) + "\n")

    for group, index in job["cases"]:
        if time.time() > deadline:
            out.write(json.dumps({"stopped": [group, index]}) + "\n")
            out.flush()
            break
        out.write(json.dumps({"begin": [group, index], "at": time.time()}) + "\n")
        out.flush()
        r = run_case(mod, job["prop"], group, index, job["seed"], job["tier"])
        out.write(json.dumps(r) + "\n")
        out.flush()
        if rss_mb() > 2200:  # compiled code accumulates: hand over to a fresh process
            report_lines()
            out.write(json.dumps({"handover": [group, index]}) + "\n")
            out.flush()
            os._exit(0)
    report_lines()
    out.write(json.dumps({"end": True}) + "\n")
    out.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
