#!/opt/veriftools/pyvenv/bin/python
"""python3-vt run_check.py C01 [--tier quick|thorough]

Decides one property of /repo's current working tree:
  1. contracts: the verifier in ttv/ (and pyxv/ for the Cython part) generates proof obligations from the current source
     and discharges them; see ttv/props.py for the contracts of each property;
  2. the same contracts are evaluated at run time on the real, freshly built code (concrete/), also to replay what the
     verifier refutes.
Exit 0: held on everything explored; 1: violation (VIOLATION line); 2: no answer."""
import argparse, glob, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("TTV_REPO", "/repo")
PY = "/opt/venv/bin/python"
PYV = "/opt/veriftools/pyvenv/bin/python"
ENV = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PIP_NO_INDEX="1")


def inputs_hash(root):
    cmd = ("find setup.py pyproject.toml tt_sketch \\( -name '*.pyx' -o -name '*.pxd' -o -name '*.pxi' -o -name '*.h' -o -name setup.py "
           "-o -name pyproject.toml \\) -type f -print0 | sort -z | xargs -0 sha256sum")
    return subprocess.run(cmd, shell=True, cwd=root, capture_output=True, text=True).stdout.strip()


def build(scratch):
    """Copy the working tree to a scratch folder and build the extension there if the one in /repo is not current."""
    ign = shutil.ignore_patterns(".git", "__pycache__", "*.pyc", "build", "docs", "notebooks", "*.ipynb", "results")
    shutil.copytree(REPO, scratch, ignore=ign, dirs_exist_ok=True, symlinks=True)
    try:
        stamp = open(os.path.join(REPO, "build/vp-inputs.sha256")).read().strip()
    except OSError:
        stamp = ""
    have = glob.glob(os.path.join(scratch, "tt_sketch/drm/fast_lazy_gaussian*.so"))
    if stamp and stamp == inputs_hash(scratch) and have:
        return "extension reused (inputs unchanged since the last build)"
    for f in have:
        os.remove(f)
    for f in glob.glob(os.path.join(scratch, "tt_sketch/**/*.pyx"), recursive=True):
        c = f[:-4] + ".c"
        if os.path.exists(c):
            os.remove(c)
    r = subprocess.run([PY, "setup.py", "-q", "build_ext", "--inplace", "--force"], cwd=scratch, env=ENV, capture_output=True, text=True)
    if r.returncode:
        print(r.stdout[-2000:], r.stderr[-2000:])
        raise SystemExit(2)
    return "extension rebuilt from the current source"


def start_concrete(prop, scratch, work, seed, budget, n, hint=None, tag="c"):
    ps = []
    for k in range(n):
        out = os.path.join(work, f"{tag}{k}.json")
        prog = os.path.join(work, f"{tag}{k}.progress")
        env = dict(ENV, PYTHONPATH=f"{VERIF}:{scratch}", TTV_PROGRESS=prog)
        cmd = [PY, "-m", "concrete.main", "--prop", prop, "--seed", str(seed * 1000 + k), "--budget", str(budget), "--out", out]
        if hint:
            cmd += ["--hint", json.dumps(hint)]
        p = subprocess.Popen(cmd, cwd=work, env=env, stdout=subprocess.DEVNULL, stderr=open(os.path.join(work, f"{tag}{k}.err"), "w"))
        ps.append((p, out, prog, os.path.join(work, f"{tag}{k}.err")))
    return ps


def collect(ps, limit):
    res = dict(evaluations=0, distinct=0, fails=[], samples=[], counts={}, errors={}, skipped=0)
    t0 = time.time()
    crash = []
    for p, out, prog, err in ps:
        try:
            p.wait(max(1, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            crash.append("time limit of the run-time part reached")
            continue
        if p.returncode != 0 or not os.path.exists(out):
            msg = open(err).read()[-1500:]
            if p.returncode < 0 and -p.returncode in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
                try:
                    rec = json.loads(open(prog).read().strip())
                except (OSError, ValueError):
                    rec = {}
                rec["what"] = f"the interpreter died with signal {-p.returncode} (memory error in compiled code)"
                rec.setdefault("input", [])
                res["fails"].append(rec)
            else:
                crash.append(f"run-time part ended with {p.returncode}: {msg}")
            continue
        r = json.load(open(out))
        res["evaluations"] += r["evaluations"]
        res["distinct"] += r["distinct"]
        res["skipped"] += r["skipped"]
        res["fails"] += r["fails"]
        res["errors"].update(r["errors"])
        res["samples"] = res["samples"] or r["samples"]
        for k, v in r["counts"].items():
            res["counts"][k] = res["counts"].get(k, 0) + v
    res["crash"] = crash
    return res


def known(prop):
    out = []
    try:
        for line in open(os.path.join(VERIF, "known_findings")):
            line = line.strip()
            if line.startswith(f"known: property={prop} "):
                out.append(line[len(f"known: property={prop} "):])
    except OSError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--no-symbolic", action="store_true")
    ap.add_argument("--no-concrete", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    prop, thorough = a.prop, a.tier == "thorough"
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f"ttv-{prop}-")
    scratch = os.path.join(work, "repo")
    try:
        code = decide(a, prop, thorough, work, scratch, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def decide(a, prop, thorough, work, scratch, t0):
    built = build(scratch)
    sym_out = os.path.join(work, "sym.json")
    sp = None
    if not a.no_symbolic:
        env = dict(ENV, PYTHONPATH=VERIF)
        sp = subprocess.Popen([PYV, "-m", "ttv.prove_main", prop, scratch, sym_out, "thorough" if thorough else "quick"], cwd=work, env=env,
                              stdout=open(os.path.join(work, "sym.log"), "w"), stderr=subprocess.STDOUT)
    n = 4 if thorough else 2
    budget = 240 if thorough else 20
    ps = [] if a.no_concrete else start_concrete(prop, scratch, work, a.seed, budget, n)
    con = collect(ps, 500 if thorough else 240)
    sym = None
    if sp is not None:
        try:
            sp.wait(1500 if thorough else max(60, 600 - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            sp.kill()
            sp.wait()
        if os.path.exists(sym_out):
            sym = json.load(open(sym_out))
        else:
            sym = dict(obligations=[], functions=[], trusted=[], error=open(os.path.join(work, "sym.log")).read()[-3000:], wall=0)
    else:
        sym = dict(obligations=[], functions=[], trusted=[], wall=0)
    obl = sym["obligations"]
    refuted = [o for o in obl if o["status"] == "refuted"]
    # replay what the verifier refuted on the real code, with the sizes the solver found
    if refuted and not con["fails"] and not a.no_concrete:
        for i, o in enumerate(refuted[:4]):
            if not o.get("hint") or not o.get("runnable", True):
                continue
            ps = start_concrete(prop, scratch, work, a.seed + 17 + i, 12, 4, hint=o["hint"], tag=f"h{i}")
            r = collect(ps, 200)
            o["replayed"] = r["counts"].get("contract", 0)
            con["evaluations"] += r["evaluations"]
            con["distinct"] += r["distinct"]
            con["fails"] += r["fails"]
            con["errors"].update(r["errors"])
            if con["fails"]:
                break
    # Paths that the verifier could not follow are run with sizes that reach them.
    hints = [h for o in obl if o["status"] == "undecided" for h in o.get("hints", [])]
    if hints and not con["fails"] and not a.no_concrete:
        r = collect(start_concrete(prop, scratch, work, a.seed + 31, 12, 4, hint=dict(any=hints[:400]), tag="u"), 200)
        for k in ("evaluations", "distinct", "fails"):
            con[k] += r[k]
        con["errors"].update(r["errors"])
        for o in obl:
            if o.get("hints"):
                o["detail"] = f"{o.get('detail')}; run on the real code with {len(o['hints'])} choices of sizes that reach the open paths"
    # A refutation the replay does not confirm is reported on its own only if the verifier's answer is definite: no decision on
    # uninterpreted values on the path, and either the sizes the solver found are beyond what can be run, or the contract cannot be
    # evaluated at run time.  Everything else (typically: the rules for numpy functions were too weak) is listed as undischarged.
    for o in refuted:
        if not con["fails"] and not (o.get("definite") and not o.get("replayed") and not con["crash"]):
            o["status"] = "refuted, not reproduced"
    refuted = [o for o in refuted if o["status"] == "refuted"]
    lines, viol = [], 0
    rdir = os.path.join(VERIF, "evidence", "replays")
    kn = known(prop)
    fresh = []
    for f in con["fails"]:
        hit = [k for k in kn if k.split(" :: ")[0] == f.get("case") and (k.split(" :: ") + [""])[1] in f["what"]]
        if hit:
            continue
        fresh.append(f)
    code = 0
    if fresh or refuted:
        os.makedirs(rdir, exist_ok=True)
        for old in glob.glob(os.path.join(rdir, f"{prop}-*.json")):
            os.remove(old)
        path = os.path.join(rdir, f"{prop}-1.json")
        rec = dict(property=prop, how=f"PYTHONPATH={VERIF}:{REPO} {PY} -m concrete.main --prop {prop} --replay {path}",
                   failing_input=fresh[0] if fresh else None,
                   failed_obligations=[{k: o.get(k) for k in ("name", "function", "detail", "hint", "backend")} for o in refuted][:20],
                   verifier_output=sym.get("log", "")[-4000:])
        json.dump(rec, open(path, "w"), indent=1, default=repr)
        if fresh:
            print(f"{prop}: {fresh[0].get('case')}: {fresh[0]['what']}")
            print("input: " + json.dumps(fresh[0].get("input"), default=repr)[:1500])
        for o in refuted[:5]:
            print(f"{prop}: obligation failed: {o['name']}: {str(o.get('detail'))[:600]}")
        print(f"VIOLATION property={prop} replay={path}" + ("" if fresh else " no-failing-input-found"))
        viol = max(1, len(fresh) + len(refuted))
        code = 1
    for k in kn:
        print(f"KNOWN-FINDING: property={prop} {k}")
    disch = [o for o in obl if o["status"] == "discharged"]
    unb = [o for o in disch if not o.get("bounded")]
    open_ = [o for o in obl if o["status"] not in ("discharged", "refuted")]
    level = LEVELS.get(prop, "other")
    cov = dict(
        obligations=len(obl), discharged=len(disch), discharged_without_bound=len(unb), discharged_bounded=len(disch) - len(unb),
        undischarged=[dict(name=o["name"], why=str(o.get("detail"))[:300]) for o in open_][:60],
        checker_cmd=f"python3-vt {VERIF}/run_check.py {prop} --tier {a.tier}",
        trusted_base=sym.get("trusted", []),
        functions_under_contract=sym.get("functions", []),
        backends=sym.get("backends", {}), solver_time_s=sym.get("solver_s", 0.0), verifier_wall_s=sym.get("wall", 0.0),
        obligation_samples=[dict(name=o["name"], status=o["status"], bounded=bool(o.get("bounded")), backend=o.get("backend")) for o in obl][:400],
        evaluations=con["evaluations"], distinct_nontrivial=con["distinct"],
        rule="run-time contract evaluations on the real code: seeded random inputs in every format, rank and shape regime (sizes 1 included), compared with numpy oracles; "
             "distinct = different (case, input description)",
        samples=con["samples"][:6], cases=con["counts"], skipped=con["skipped"], case_errors=con["errors"], runtime_part=con.get("crash", []),
        build=built,
        explanation=sym.get("explanation", "contracts discharged per function from the current source; the run-time evaluations only supplement the undischarged parts"),
    )
    if sym.get("error"):
        cov["verifier_error"] = sym["error"]
    ev = dict(property=prop, tier=a.tier, seed=a.seed, level=level, coverage=cov, assumptions=sym.get("assumptions", []) + sym.get("trusted", []),
              wall_s=round(time.time() - t0, 2), violations=viol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w"), indent=1, default=repr)
    if code == 0:
        if con["evaluations"] == 0 and not disch:
            print(f"{prop}: nothing could be decided", con.get("crash"), con["errors"], sym.get("error"))
            return 2
        for o in open_[:8]:
            print(f"{prop}: not discharged: {o['name']}: {str(o.get('detail'))[:300]}")
        if sym.get("error"):
            print(f"{prop}: verifier error: {sym['error'][-600:]}")
        print(f"{prop}: {len(disch)}/{len(obl)} obligations discharged ({len(unb)} for every tensor order), {con['evaluations']} run-time evaluations, held")
    return code


LEVELS = {}
try:
    LEVELS = json.load(open(os.path.join(VERIF, "levels.json")))
except (OSError, ValueError):
    pass

if __name__ == "__main__":
    main()
