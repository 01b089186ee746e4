"""Path exploration by re-execution, and the worker processes."""
import json, os, sys, time, traceback
sys.setrecursionlimit(int(os.environ.get("JLX_REC","20000")))
from sym import *
from vals import *
import models, lazies
from interp import Interp
from lazies import Violation, Conc
from mirsrv import Mir


def new_ctx(I, prefix, conf, stats):
    c = Ctx(prefix, stats, conf.get("max_steps", 400000))
    c.conf = conf
    if conf.get("budget") is not None:
        c.budget = [conf["budget"]]
    c.mir_entry = None
    return c


def subrun(I, go, conf, limit):
    """explore go() (a callable using I.ctx) on the side, outside the current path; False if cut off"""
    saved, sd = I.ctx, I.depth
    work = [[]]
    n = 0
    try:
        while work and n < limit:
            pre = work.pop()
            c = new_ctx(I, pre, conf, Stats())
            I.ctx = c
            I.depth = 0
            n += 1
            try:
                go()
            except (PathEnd, Panic, Diverge):
                pass
            work.extend(c.alts)
    finally:
        I.ctx, I.depth = saved, sd
    return not work


class Engine:
    def __init__(self, b, log=None):
        os.chdir(b["cwd"])
        env = dict(os.environ)
        env.update(b["env"])
        self.mir = Mir(b["cmd"], env=env, log=log)
        self.I = Interp(self.mir)
        models.install(self.I)
        lazies.install(self.I)
        self.I.char_class = lambda c: lazies.char_class(self.I, c)
        self.entries = {}
        for e in self.mir.entries():
            p = e["path"]
            if p.startswith("harness::"):
                q = p.split("::")
                self.entries[q[-1]] = e["inst"]
                if len(q) > 2:
                    self.entries["::".join(q[-2:])] = e["inst"]

    def run_path(self, entry, prefix, conf, stats, sample=False):
        """run one path; returns (alternatives, outcome dict or None)"""
        I = self.I
        c = new_ctx(I, prefix, conf, stats)
        I.ctx = c
        I.depth = 0
        out = None
        try:
            I.call_raw(self.entries[entry], [])
            out = {"kind": "ok"}
            if sample:
                m = c.extract()
                if m is None:
                    out = {"kind": "infeasible"}
                else:
                    out["inputs"] = self.concrete(m)
        except PathEnd:
            out = {"kind": "infeasible"}
        except Violation as v:
            out = {"kind": "violation", "what": "check", "msg": v.msg}
            out["inputs"] = self.concrete(v.model)
        except (Panic, Diverge, RecursionError) as e:
            k = "panic" if isinstance(e, Panic) else "diverge"
            out = {"kind": "violation", "what": k, "msg": str(e), "stack": list(c.stack[-6:])}
            if isinstance(e, Panic) and e.where:
                out["where"] = e.where
            # the path to it must be satisfiable: the solver decides
            stats.checks += 1
            m = None
            if not isinstance(e, RecursionError):
                m = c.extract()
                if m is None:
                    return c.alts, {"kind": "infeasible"}
                out["inputs"] = self.concrete(m)
            else:
                out = {"kind": "error", "msg": "recursion limit of the engine"}
        stats.steps += c.steps
        stats.paths += 1
        return c.alts, out

    def concrete(self, model):
        try:
            return Conc(self.I, model).inputs()
        except Unsupported as e:
            return {"$unsupported": str(e)}


def worker(conn, b, log):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (7 << 29, 7 << 29))
    try:
        E = Engine(b, log)
        conn.send(("ready", sorted(E.entries)))
    except Exception:
        conn.send(("fatal", traceback.format_exc()))
        return
    while True:
        job = conn.recv()
        if job is None:
            break
        jid, entry, conf, prefixes, slice_s = job
        stats = Stats()
        t0 = time.time()
        work = list(prefixes)
        outs = []
        samples = []
        errs = []
        err = None
        npaths = 0
        while work:
            pre = work.pop()
            try:
                npaths += 1
                alts, out = E.run_path(entry, pre, conf, stats, sample=(npaths == 1 or npaths % 97 == 0))
            except Unsupported as e:
                err = "unsupported: %s | at %s" % (e, " > ".join(E.I.ctx.stack[-5:]))
                alts = E.I.ctx.alts
                if os.environ.get("JLX_TRACE"):
                    err += traceback.format_exc()
            except Exception:
                err = "engine error: " + traceback.format_exc()[-3000:] + " | at " + " > ".join(E.I.ctx.stack[-5:])
                alts = []
            else:
                if out["kind"] in ("violation", "error"):
                    out["prefix"] = list(E.I.ctx.decisions)
                    outs.append(out)
                elif "inputs" in out and len(samples) < 4:
                    samples.append(out["inputs"])
            if err:
                # the rest is still explored: a violation elsewhere is worth reporting
                errs.append(err)
                err = None
                if len(errs) > 3:
                    work = []
                    break
            work.extend(alts)
            if time.time() - t0 > slice_s:
                break
        conn.send(("done", jid, stats.as_dict(), outs, work, errs, samples))
    E.mir.close()
