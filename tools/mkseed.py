"""Confirm a planted bug and keep it under /verif/seeded/<id>/.

usage: mkseed.py SPEC.py   (SPEC defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)])
Works on scratch copies under /tmp only.
"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile

PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg")


def sh(c, cwd, **k):
    return subprocess.run(c, cwd=cwd, env=dict(ENV, PYTHONPATH=cwd), capture_output=True, text=True, **k)


def tests(cwd):
    r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "8", "--timeout=300", "-x"], cwd)
    return r.returncode == 0, r.stdout[-600:]


def main(spec):
    s = importlib.util.spec_from_file_location("spec", spec)
    m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    only = sys.argv[2:]
    for S in m.SEEDS:
        if only and S["id"] not in only:
            continue
        d = tempfile.mkdtemp(prefix="seed-")
        w = os.path.join(d, "repo")
        shutil.copytree("/repo", w, symlinks=True)
        out = f"/verif/seeded/{S['id']}"
        try:
            demo = S["demo"]
            f = os.path.join(d, "demo.py")
            open(f, "w").write(demo)
            r0 = sh([PY, f], w, timeout=300)
            if r0.returncode != 0:
                print(S["id"], "REJECT demo fails on the unchanged tree", r0.stdout[-500:], r0.stderr[-800:]); continue
            ok = True
            for (fn, old, new) in S["edits"]:
                p = os.path.join(w, fn)
                t = open(p).read()
                if t.count(old) != 1:
                    print(S["id"], "REJECT edit matches", t.count(old), fn); ok = False; break
                open(p, "w").write(t.replace(old, new))
            if not ok:
                continue
            if any(fn.endswith("pyx") for fn, *_ in S["edits"]):
                b = sh([PY, "setup.py", "-q", "build_ext", "--inplace", "--force"], w)
                if b.returncode:
                    print(S["id"], "REJECT build", b.stderr[-600:]); continue
            diff = sh(["git", "diff", "--", "tt_sketch"], w).stdout
            base = sh(["git", "show", "--stat", "--oneline", "HEAD"], w)
            ok, o = tests(w)
            if not ok:
                print(S["id"], "REJECT tests fail", o[-400:]); continue
            r1 = sh([PY, f], w, timeout=300)
            if r1.returncode == 0:
                print(S["id"], "REJECT demo passes with the change", r1.stdout[-300:]); continue
            os.makedirs(out, exist_ok=True)
            open(out + "/patch.diff", "w").write(diff)
            open(out + "/demo.py", "w").write(demo)
            open(out + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1\n'
                                              'PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            json.dump({"property": S["property"], "needs": S["needs"], "what_it_breaks": S["breaks"]},
                      open(out + "/meta.json", "w"), indent=1)
            print(S["id"], "KEPT:", ((r1.stdout + r1.stderr).strip().splitlines() or ["(no output)"])[-1][:160])
        finally:
            shutil.rmtree(d)


main(sys.argv[1])
