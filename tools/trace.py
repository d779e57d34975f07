import sys,os
sys.path.insert(0,'/verif'); sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from symex import core, worker
import traceback
worker.fmt_exc = lambda e: "".join(traceback.format_exception(e))[-3000:]
from symex import api
def call(self, fn, *a, **k):
    try:
        return api.Outcome(fn(*a, **k))
    except Exception as e:
        if 1: sys.__stderr__.write("".join(traceback.format_exception(e)))
        return api.Outcome(exc=e)
    except SystemExit as e:
        return api.Outcome(exc=e)
api.Base.call=call
s=worker.Session(sys.argv[1])
sh=s.shapes("quick")
i=[k for k,x in enumerate(sh) if x["name"]==sys.argv[2]][0]
r=worker.explore(s,dict(shape=i,prefix=[],model={},eager=len(sys.argv)>3),sh,3,10,2)
for c in r.candidates[:2]+r.unsupported[:2]: print(c["msg"])
