"""python -m ttv.prove_main PROP ROOT OUT.json quick|thorough

Generates the obligations of one property from the source below ROOT and discharges them, one process per contract."""
import importlib
import json
import os
import resource
import signal
import sys
import time

MODULES = ("props_a", "props_b", "props_c", "props_d", "props_e", "props_f", "props_g", "props_u", "props_v", "props_x")


def load():
    here = os.path.dirname(os.path.abspath(__file__))
    for m in MODULES:
        if os.path.exists(os.path.join(here, m + ".py")):
            importlib.import_module("ttv." + m)


class Tracker:
    """names of the functions of the code under test whose bodies were verified"""

    def __init__(self):
        self.seen = set()
        mon = sys.monitoring
        mon.use_tool_id(mon.PROFILER_ID, "ttv")
        mon.set_events(mon.PROFILER_ID, mon.events.PY_START)
        mon.register_callback(mon.PROFILER_ID, mon.events.PY_START, self.start)

    def start(self, code, off):
        if code.co_filename.startswith("<repo>"):
            q = code.co_qualname
            if not any(x in q for x in ("<lambda>", "<listcomp>", "<genexpr>", "<module>", "<dictcomp>")):
                self.seen.add(code.co_filename[7:] + ":" + q.replace("<locals>.", ""))
        return sys.monitoring.DISABLE


def run_one(s, root, limit):
    if getattr(s, "direct", None):
        return s.direct(root, limit)
    from . import core, snp
    from .core import cx
    from .symenv import SymEnv
    t0 = time.time()
    tr = Tracker()
    env = SymEnv(root)
    wit = [False, False]

    def run():
        env.begin()
        s.fn(env)
        if not wit[0]:
            r = cx.solver.check()
            wit[0] = str(r) == "sat"
            wit[1] = wit[1] or str(r) == "unknown"
    cx.reset_all()
    r = core.explore(run, deadline=t0 + limit)
    verdict, detail = r.verdict, r.detail
    if verdict == "proved" and not wit[0] and not wit[1]:
        verdict, detail = "undecided", "vacuous: no path satisfies the precondition"
    if verdict == "proved" and not cx.stats.names:
        verdict, detail = "undecided", "vacuous: no obligation"
    return dict(verdict=verdict, detail=str(detail), obl=r.name, sizes=r.sizes, value_path=r.value_path, paths=r.paths,
                open_sizes=r.open_sizes,
                names=cx.stats.names, backend=cx.stats.backend, by=cx.stats.by, z3=cx.stats.z3_time, queries=cx.stats.z3_queries,
                trusted=sorted(snp.TRUST), functions=sorted(tr.seen), wall=time.time() - t0)


def child(s, root, limit, wfd):
    signal.alarm(int(limit) + 15)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(4000)
    try:
        r = run_one(s, root, limit)
    except MemoryError:
        r = dict(verdict="undecided", detail="memory limit")
    except BaseException as e:
        import traceback
        r = dict(verdict="undecided", detail=f"verifier error {type(e).__name__}: {e} {traceback.format_exc()[-400:]}")
    with os.fdopen(wfd, "w") as f:
        json.dump(r, f, default=repr)


def main():
    prop, root, out, tier = sys.argv[1:5]
    t0 = time.time()
    load()
    from .scen import SCEN
    per, total = (60, 170) if tier == "quick" else (300, 1000)
    scs = [s for s in SCEN.get(prop, []) if tier == "thorough" or s.tier == "quick"]
    todo = list(enumerate(scs))
    res = [None] * len(scs)
    run = {}
    nproc = int(os.environ.get("TTV_JOBS", "7"))
    while todo or run:
        while todo and len(run) < nproc:
            i, s = todo.pop(0)
            left = total - (time.time() - t0)
            if left < 2:
                res[i] = dict(verdict="undecided", detail="time limit of the whole check")
                continue
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                child(s, root, min(per, left), w)
                os._exit(0)
            os.close(w)
            run[pid] = (i, r, time.time(), min(per, left))
        # drain: results can exceed the pipe buffer, so read from whoever is ready
        import select
        if run:
            fds = {r: pid for pid, (i, r, _, _) in run.items()}
            ready, _, _ = select.select(list(fds), [], [], 0.2)
            for fd in ready:
                pid = fds[fd]
                i, r, st, lim = run.pop(pid)
                with os.fdopen(r) as f:
                    txt = f.read()
                os.waitpid(pid, 0)
                try:
                    res[i] = json.loads(txt)
                except ValueError:
                    res[i] = dict(verdict="undecided", detail="the verifier process ended without an answer (time or memory limit)")
            for pid, (i, r, st, lim) in list(run.items()):
                if time.time() - st > lim + 10:
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except OSError:
                        pass
    write(prop, scs, res, out, tier, t0)


def write(prop, scs, res, out, tier, t0):
    obl, fns, trusted, by, z3t, log = [], set(), set(), {}, 0.0, []
    for s, r in zip(scs, res):
        bounded = not s.unbounded
        fns.update(r.get("functions", []))
        trusted.update(r.get("trusted", []))
        z3t += r.get("z3", 0.0)
        fn = ", ".join(s.fns)
        if r["verdict"] == "proved":
            for n, c in r["names"].items():
                obl.append(dict(name=f"{s.name}: {n}", function=fn, status="discharged", bounded=bounded,
                                backend=r["backend"].get(n), detail=f"{c} instances"))
            obl.append(dict(name=f"{s.name}: no exception, every array access in range", function=fn, status="discharged", bounded=bounded,
                            backend="path exploration + z3", detail=f"{r.get('paths', 0)} paths"))
            for k, v in r.get("by", {}).items():
                by[k] = by.get(k, 0) + v
        elif r["verdict"] == "refuted":
            definite = r.get("definite", not r.get("value_path") and r.get("obl") != "no-exception")
            hint = r.get("hint")
            obl.append(dict(name=f"{s.name}: {r.get('obl')}", function=fn, status="refuted", bounded=bounded, backend="tensor normaliser + z3",
                            detail=r["detail"], hint=hint or dict(contract=s.name, sizes=r.get("sizes") or {}), definite=definite,
                            runnable=s.concrete or bool(hint)))
            log.append(f"{s.name}: refuted {r.get('obl')}: {r['detail']} sizes {r.get('sizes')}")
        else:
            obl.append(dict(name=s.name, function=fn, status="undecided", bounded=bounded, backend=None, detail=r["detail"],
                            hints=[dict(contract=s.name, sizes=z) for z in r.get("open_sizes", [])] if s.concrete else []))
            log.append(f"{s.name}: undecided: {r['detail']}")
    json.dump(dict(obligations=obl, functions=sorted(fns), trusted=sorted(trusted), assumptions=ASSUME, backends=by, solver_s=round(z3t, 2),
                   wall=round(time.time() - t0, 2), log="\n".join(log)[-8000:], contracts=len(scs),
                   contracts_discharged=sum(r["verdict"] == "proved" for r in res)), open(out, "w"), default=repr)


ASSUME = ["floating point arithmetic is treated as real arithmetic, numpy integers as mathematical integers (see DESIGN.md)",
          "the contracts in ttv/arr.py and ttv/snp.py for the numpy and scipy functions that the code calls"]

if __name__ == "__main__":
    main()
