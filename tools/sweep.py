"""tools/sweep.py PROP [quick|thorough] [filter]: runs each job of a check in its own process, with time and memory"""
import sys, os, json, time, resource, multiprocessing as mp
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
import checks
def go(b, e, c, q, lim):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    from explore import Engine
    from sym import Stats
    E = Engine(b, None)
    st = Stats(); work = [[]]; t = time.time(); n = 0; viol = {}; err = {}
    while work and n < lim:
        n += 1
        pre = work.pop()
        try:
            alts, out = E.run_path(e, pre, c, st)
        except Exception as x:
            m = "%s %s @ %s" % (type(x).__name__, str(x)[:150], E.I.ctx.stack[-3:])
            err[m] = err.get(m, 0) + 1
            alts = E.I.ctx.alts
        else:
            if out["kind"] not in ("ok", "infeasible"):
                k = (out["kind"], out["msg"])
                if k not in viol: viol[k] = json.dumps(out.get("inputs"), ensure_ascii=False)[:300]
        work.extend(alts)
    q.put((n, len(work), time.time() - t, st.steps, resource.getrusage(resource.RUSAGE_SELF).ru_maxrss >> 10, viol, err))
b = json.load(open("/tmp/b.json"))
spec = checks.CHECKS[sys.argv[1]]
tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
flt = sys.argv[3] if len(sys.argv) > 3 else ""
lim = int(sys.argv[4]) if len(sys.argv) > 4 else 20000
q = mp.Queue(); 
from explore import Engine
ent = sorted(Engine(b, None).entries)
jobs = [j for j in spec["jobs"](tier, ent) if flt in j[0]]
from concurrent.futures import ThreadPoolExecutor
def run(j):
    q = mp.Queue()
    p = mp.get_context("fork").Process(target=go, args=(b, j[0], j[1], q, lim)); p.start()
    try:
        r = q.get(timeout=300)
    except Exception:
        r = None
    p.kill(); p.join()
    return j, r
with ThreadPoolExecutor(6) as ex:
    for j, r in ex.map(run, jobs):
        if r is None: print("DEAD", j); continue
        if r[1] or r[5] or r[6] or r[2] > 5 or r[4] > 1000 or "-a" in sys.argv:
            print(j[0], json.dumps(j[1]), "paths %d left %d %.1fs steps %d mem %dMB" % r[:5])
            for k, v in r[5].items(): print("    ", k, v)
            for k, v in r[6].items(): print("    E", v, k)
