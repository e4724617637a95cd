#!/bin/bash
# prof.sh PROP NAME : profile one contract
export PYTHONPATH=${VERIF_REPO:-/repo} MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC
/opt/venv/bin/python - "$1" "$2" <<'P'
import sys,os,cProfile,pstats
sys.path.insert(0,'/verif')
prop,name=sys.argv[1:]
from pyvc import worker
sys.path.append(worker.VT)
from pyvc import instr, runtime, engine
instr.install(runtime.rt, os.environ.get('VERIF_REPO','/repo'))
engine.E_CUR[0]=engine.Engine()
c=[c for c in worker.load_contracts(prop) if c.name==name][0]
import contracts.preload
contracts.preload.sym(prop)
p=cProfile.Profile()
import signal
def stop(*a):
    raise SystemExit
signal.signal(signal.SIGALRM,stop)
signal.alarm(int(os.environ.get('S','120')))
r=None
try:
    r=p.runcall(worker.run_sym,c,300)
except SystemExit:
    import traceback
    traceback.print_exc()
if r: print(r['paths'],r['wall_s'],r['stats'])
pstats.Stats(p).sort_stats('cumtime').print_stats(45)
P
