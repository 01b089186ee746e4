"""Client for the MIR server (driver/main.rs)."""
import json, os, subprocess


class Mir:
    def __init__(self, cmd, env=None, log=None):
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=open(log, "wb") if log else subprocess.DEVNULL, env=env)
        line = self.p.stdout.readline()
        while line and line.strip() != b"READY":
            line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("MIR server did not start: %s (log %s)" % (" ".join(cmd[:3]), log))
        self._ty, self._body, self._lay, self._alloc, self._res, self._inst, self._sig = {}, {}, {}, {}, {}, {}, {}

    def q(self, **kw):
        self.p.stdin.write((json.dumps(kw) + "\n").encode())
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("MIR server died on %r" % (kw,))
        return json.loads(line)

    def ty(self, t):
        r = self._ty.get(t)
        if r is None:
            r = self._ty[t] = self.q(q="ty", ty=t)
            if "inst" in r and r["inst"]:
                self._inst[r["inst"]["inst"]] = r["inst"]
        return r

    def layout(self, t):
        if t not in self._lay:
            self._lay[t] = self.q(q="layout", ty=t)
        return self._lay[t]

    def alloc(self, a):
        if a not in self._alloc:
            self._alloc[a] = self.q(q="alloc", id=a)
        return self._alloc[a]

    def body(self, i):
        return self.q(q="body", inst=i)

    def inst(self, i):
        r = self._inst.get(i)
        if r is None:
            r = self._inst[i] = self.q(q="inst", inst=i)
        return r

    def sig(self, i):
        if i not in self._sig:
            self._sig[i] = self.q(q="sig", inst=i)
        return self._sig[i]

    def entries(self):
        r = self.q(q="entries")
        for x in r:
            self._inst[x["inst"]] = x
        return r

    def resolve(self, trait, method, tys):
        k = (trait, method, tuple(tys))
        if k not in self._res:
            r = self.q(q="resolve", trait=trait, method=method, tys=list(tys))
            if "err" in r:
                r = None
            else:
                self._inst[r["inst"]] = r
            self._res[k] = r
        return self._res[k]

    def close(self):
        try:
            self.p.stdin.close()
            self.p.kill()
        except Exception:
            pass
