import sys; import os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.core import *
import importlib
m=importlib.import_module('props.'+sys.argv[1])
sel=sys.argv[2:] 
jobs=[j for j in m.JOBS if not sel or any(s in j.name for s in sel)]
os.makedirs('/tmp/x/w',exist_ok=True)
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(8) as ex:
  for r in ex.map(lambda j: run_job(j,'/tmp/x/w'), jobs):
    print(r.job.name,r.status,r.obligations,r.discharged,'%.1f'%r.secs,r.detail[-1500:]); 
    for f in r.failed[:12]: print('   ',f)
    print('   slow:',getattr(r,'slow',None))
    if r.inputs: print('   in:',str(r.inputs)[:1500])
