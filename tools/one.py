"""one.py DRIVER SCENARIO SEED: run one scenario and print its events (GENF)."""
import sys,os,json
sys.path.insert(0,'/verif/harness'); import numpy as np, importlib
d=importlib.import_module(sys.argv[1]); k=int(sys.argv[2])
scs=d.scenarios("quick",1,os.environ.get("GENF"))
class R:
    sc=k
    def ev(self,n,**kw): print(n,json.dumps(kw)[:1500])
d.run(scs[k],R(),np.random.default_rng([1,k]))
