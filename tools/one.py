#!/usr/bin/env python3-vt
"""development aid: explore one harness configuration in this process; one.py PROP harness [cfg] [seconds]"""
import faulthandler, json, os, sys, time
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import runner, loader
import symx.runner as R
from symx import reg
prop, name = sys.argv[1], sys.argv[2]
ci = int(sys.argv[3]) if len(sys.argv) > 3 else 0
sec = float(sys.argv[4]) if len(sys.argv) > 4 else 30
os.environ['SYMX_DEBUG'] = '1'
faulthandler.dump_traceback_later(sec * 1.5, exit=True)
loader.install_sym()
hs = reg.load(prop)
w = R.Worker(prop, hs, os.environ.get('VERIF_TIER', 'quick'), 1, True)
hi = [i for i, h in enumerate(hs) if h.name == name][0]
prof = None
if os.environ.get('PROF'):
    import cProfile
    prof = cProfile.Profile(); prof.enable()
out = w.slice(hi, ci, [([], None)], sec, time.time() + sec)
if prof:
    prof.disable()
    import pstats
    pstats.Stats(prof).sort_stats('cumtime').print_stats(45)
out.pop('functions'); out['left'] = len(out['left']); out.pop('samples', None)
print(json.dumps({k: v for k, v in out.items() if k not in ('validate',)}, default=str, indent=1)[:6000])
