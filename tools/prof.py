"""Where a check's paths fork: python tools/prof.py ID SHAPE [seconds]"""
import collections
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from symex import core, worker  # noqa: E402

cnt = collections.Counter()
orig = core.Engine.decide


def decide(self, f, hint=None):
    n = len(self.pending)
    r = orig(self, f, hint)
    if len(self.pending) > n:
        fr = [x for x in traceback.extract_stack()[:-1] if "symex" not in x.filename]
        key = " < ".join(f"{os.path.basename(x.filename)}:{x.lineno}" for x in reversed(fr[-3:]))
        cnt[key + " | " + traceback.extract_stack()[-3].name] += 1
    return r


core.Engine.decide = decide
check, shape = sys.argv[1], sys.argv[2]
tier = os.environ.get("VERIF_TIER", "quick")
s = worker.Session(check)
sh = s.shapes(tier)
i = [k for k, x in enumerate(sh) if x.get("name") == shape or str(k) == shape][0]
t = time.time()
r = worker.explore(s, dict(shape=i, prefix=[], model={}), sh, float(sys.argv[3]) if len(sys.argv) > 3 else 10, 3, 3)
print(r.stats, "open", len(r.more), "time", round(time.time() - t, 1))
for u in r.unsupported[:3]:
    print("UNSUPPORTED", u["msg"])
for c in r.candidates[:3]:
    print("CAND", {k: v for k, v in c.items() if k != "pc"})
print(r.covers)
for k, v in cnt.most_common(25):
    print(v, k)
