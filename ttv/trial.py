"""development driver: python -m ttv.trial PROP [filter]"""
import sys, time, os, importlib, z3
from . import core
from .core import cx
from .symenv import SymEnv
from .scen import SCEN
from .prove_main import load
load()
root=os.environ.get("TTV_ROOT","/repo")
tb = "-v" in sys.argv
args=[a for a in sys.argv[1:] if a!="-v"]
for s in SCEN[args[0]]:
    if len(args)>1 and args[1] not in s.name: continue
    env=SymEnv(root)
    def run():
        env.begin(); 
        try: s.fn(env)
        except BaseException as e:
            if tb and not isinstance(e,(core.PathDone,core.Restart)):
                import traceback; traceback.print_exc()
            raise
    cx.reset_all()
    t=time.time()
    try: r=core.explore(run, deadline=time.time()+60)
    except Exception as e:
        import traceback; traceback.print_exc(); r=core.Result("CRASH",repr(e)[:200])
    print(f"{r.verdict:9s} {s.name:40s} {time.time()-t:6.2f}s q={cx.stats.z3_queries} obl={cx.stats.dis} {r.name or ''} {r.detail[:int(os.environ.get("DL","230"))] if r.verdict!='proved' else r.detail} {r.sizes or ''}",flush=True)
