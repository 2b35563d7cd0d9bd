"""The contracts of ttv/props_*.py evaluated at run time on the real code: replays what the verifier refutes, and cross-checks the
contracts themselves."""
import importlib
import os
import random

from . import common
from ttv import concenv
from ttv.scen import SCEN

for m in ("props_a", "props_b", "props_c", "props_d", "props_e", "props_f", "props_g"):
    if os.path.exists(os.path.join(os.path.dirname(concenv.__file__), m + ".py")):
        importlib.import_module("ttv." + m)


def _case(prop):
    scs = [s for s in SCEN[prop] if s.concrete]
    names = {s.name: s for s in scs}

    def contract(g):
        h = g.hint or {}
        rng = random.Random(int(g.r.integers(2**60)))
        if "any" in h:
            h = rng.choice(h["any"])
        sizes, kinds = None, concenv.KINDS
        if "contract" in h:
            if h["contract"] not in names:
                raise common.Skip()
            s = names[h["contract"]]
            sizes = h.get("sizes") if rng.random() < 0.7 else None
            if sizes is not None and rng.random() < 0.4:
                sizes = {k: max(min(1, v), v + rng.choice([0, 0, 1, 2])) for k, v in sizes.items()}
        else:
            s = rng.choice(scs)
        kind = rng.choice(kinds)
        small = rng.choice([2, 3, 4, 5])
        r = concenv.run_scenario(s.fn, rng, sizes, kind, small)
        g.log.append(["contract", s.name, kind, small])
        if r[0] == "skip":
            raise common.Skip()
        if r[0] == "fail":
            g.log.append(r[3])
            raise common.Viol(f"contract '{s.name}': {r[1]}: {r[2]}")
        g.log.append(r[1])
    return contract


for p in SCEN:
    if any(s.concrete for s in SCEN[p]):
        common.REG.setdefault(p, []).append(("contract", _case(p), 4.0))
