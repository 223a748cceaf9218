import sys; import os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.core import *
import importlib
m=importlib.import_module('props.'+sys.argv[1]); s=float(sys.argv[2]) if len(sys.argv)>2 else 5
os.makedirs('/tmp/x/nw',exist_ok=True)
for i,n in enumerate(m.NATIVE):
    r=native_run(n,'n%d'%i,'/tmp/x/nw',int(sys.argv[3]) if len(sys.argv)>3 else 1,s)
    b=r.pop('replay',b''); print(n.src,r['status'],r.get('cases'),r.get('why','')[-1500:]); 
    if r['status']=='fail': print(b[:200].hex(), r.get('log','')[-1800:])
