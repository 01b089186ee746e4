"""tools/selftest.py [filter]: the engine's models of std against the real std (harness/src/selftest.rs); prints per case what fails"""
import sys, os, json, subprocess
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "engine"))
import check
from explore import Engine
import sym
from sym import Stats
b = json.loads(subprocess.run(["python3", os.path.join(R, "engine/build.py")], capture_output=True, text=True).stdout)
E = Engine(b, None)
o = sym.Unsupported.__init__
def ini(self, *a):
    o(self, *a)
    self.st = list(E.I.ctx.stack) if getattr(E.I, "ctx", None) else []
sym.Unsupported.__init__ = ini
src = open(os.path.join(R, "harness/src/selftest.rs")).read()
for e in sorted(E.entries):
    if not e.startswith("st_") or "{" in e or len(sys.argv) > 1 and sys.argv[1] not in e:
        continue
    body = src[src.index("fn %s(" % e):]
    work, n, seen, good = [[]], 0, set(), 0
    while work and n < 600:
        n += 1
        pre = work.pop()
        try:
            alts, out = E.run_path(e, pre, {"params": {}}, Stats())
            msg = None if out["kind"] in ("ok", "infeasible") else "%s %s %s" % (out["kind"], out["msg"], json.dumps(out.get("inputs"), ensure_ascii=False)[:150])
        except Exception as x:
            alts = E.I.ctx.alts
            msg = "%s: %s | %s" % (type(x).__name__, str(x)[:120], [str(s)[:90] for s in getattr(x, "st", [])[-4:]])
        ks = E.I.ctx.inputs.get("case") if hasattr(E.I.ctx, "inputs") else None
        try:
            k = E.I.ctx.norm(ks[0])
        except Exception:
            k = None
        if msg and (k, msg[:25]) not in seen:
            seen.add((k, msg[:25]))
            if msg.startswith("violation"):
                json.dump({"property": "SELF", "entry": e, "conf": {"params": {}}, "inputs": out["inputs"]}, open("/tmp/st_case.json", "w"))
                msg = "%s native: %s" % (msg, check.replay(b["replay"], "/tmp/st_case.json")[0])
            line = ""
            if type(k) is int:
                i = body.find("if k == %d {" % k)
                line = body[i:body.index("\n", i)][:150]
            print("%s %s\n    %s" % (e, line, msg))
        good += not msg
        work.extend(alts)
    print(e, "paths", n, "left", len(work), "good", good, flush=True)
