"""Entry point under the repository's interpreter: python -m concrete.main --prop C01 --seed 1 --budget 10 [--hint JSON]"""
import argparse, importlib, json, os, sys
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
import warnings
warnings.simplefilter("ignore")


def load():
    from . import common
    for m in ("cases_tensor", "cases_utils", "cases_sketch", "cases_hash", "cases_seed", "cases_gmres", "cases_stale", "cases_scale", "cases_args"):
        p = os.path.join(os.path.dirname(__file__), m + ".py")
        if os.path.exists(p):
            try:
                importlib.import_module("concrete." + m)
            except (ImportError, AttributeError) as e:
                common.LOAD_ERRORS.append(f"{m}: {e}")
    try:
        importlib.import_module("concrete.contracts")
    except (ImportError, AttributeError) as e:
        common.LOAD_ERRORS.append(f"contracts: {e}")
    return common


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=10)
    ap.add_argument("--rounds", type=int, default=3)
    ap.add_argument("--max-rounds", type=int, default=10**6)
    ap.add_argument("--hint")
    ap.add_argument("--replay")
    ap.add_argument("--out")
    a = ap.parse_args()
    import io, contextlib
    c = load()
    if a.replay:
        rec = json.load(open(a.replay))["failing_input"]
        f = {n: f for n, f, _ in c.REG[a.prop]}[rec["case"]]
        r, g = c.run_one(a.prop, rec["case"], f, rec["seed"], rec.get("hint"))
        print("reproduced: " + r if r else "not reproduced")
        sys.exit(1 if r else 0)
    hint = json.loads(a.hint) if a.hint else None
    if a.prop not in c.REG:
        res = dict(errors={"load": "; ".join(c.LOAD_ERRORS)}, counts={}, skipped=0, fails=[], samples=[], evaluations=0, distinct=0, wall=0)
        open(a.out, "w").write(json.dumps(res))
        return
    with contextlib.redirect_stdout(io.StringIO()):
        res = c.run(a.prop, a.seed, a.budget, hint, min_rounds=a.rounds, max_rounds=a.max_rounds)
    s = json.dumps(res, default=repr)
    if a.out:
        open(a.out, "w").write(s)
    else:
        print(s)


if __name__ == "__main__":
    main()
