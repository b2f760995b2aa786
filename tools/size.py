"""prints the size of the state graphs of a property's jobs: size.py PROP [thorough]"""
import sys, time
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import jobs
from types import SimpleNamespace
from concurrent.futures import ThreadPoolExecutor
ctx = SimpleNamespace(thorough="thorough" in sys.argv, seed=1)
def one(pj):
    p, j = pj
    t = time.time()
    g = j.model(ctx)
    return p, j.name, (len(g.edges), len(g.out)) if hasattr(g, "edges") else ("paths", len(g or ())), round(time.time() - t, 1)
only = [a[1:] for a in sys.argv[1:] if a.startswith('@')]
todo = [(p, j) for p in sys.argv[1:] if p in jobs.JOBS for j in jobs.JOBS[p] if (ctx.thorough or not j.thorough_only) and j.spec and (not only or j.name in only)]
with ThreadPoolExecutor(4) as ex:
    for r in ex.map(one, todo):
        print(*r, flush=True)
