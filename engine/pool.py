"""Master side: distributes path prefixes over worker processes."""
import multiprocessing as mp, os, time
from multiprocessing.connection import wait
from explore import worker


class Job:
    def __init__(self, jid, entry, conf):
        self.jid, self.entry, self.conf = jid, entry, conf
        self.work = [[]]
        self.running = 0
        self.stats = None
        self.outs = []
        self.err = None
        self.errs = []
        self.samples = []
        self.seconds = 0.0
        self.stop = False
        self.truncated = False

    def done(self):
        return self.running == 0 and (not self.work or self.stop or self.err)


def merge_stats(a, d):
    if a is None:
        return dict(d)
    for k, v in d.items():
        if isinstance(v, dict):
            x = dict(a.get(k, {}))
            for q, n in v.items():
                x[q] = x.get(q, 0) + n
            a[k] = x
        else:
            a[k] = a.get(k, 0) + v
    return a


class Pool:
    def __init__(self, b, n=None, log=None):
        self.n = n or min(8, os.cpu_count() or 1)
        ctx = mp.get_context("fork")
        self.ws = []
        for i in range(self.n):
            a, c = ctx.Pipe()
            p = ctx.Process(target=worker, args=(c, b, "%s.%d" % (log, i) if log else None), daemon=True)
            p.start()
            c.close()
            self.ws.append([a, p, None])
        self.entries = None
        for w in self.ws:
            m = w[0].recv()
            if m[0] != "ready":
                raise RuntimeError("worker failed to start:\n" + str(m[1]))
            self.entries = m[1]

    def run(self, jobs, deadline=None, max_viol=8, progress=None, slice_s=0.4):
        """explore all jobs completely (or until the deadline: truncated is set)"""
        jobs = list(jobs)
        idle = [w for w in self.ws]
        busy = {}
        while True:
            if deadline and time.time() > deadline:
                for j in jobs:
                    if j.work and not j.stop and not j.err:
                        j.truncated = True
                        j.stop = True
            # hand out work
            progressed = True
            while idle and progressed:
                progressed = False
                for j in jobs:
                    if not idle:
                        break
                    if j.work and not j.stop and not j.err:
                        share = max(1, min(len(j.work) // (len(idle) + 1), 64)) if len(j.work) > 1 else 1
                        pre = j.work[:share] if j.running else j.work[-share:]
                        if j.running:
                            j.work = j.work[share:]
                        else:
                            j.work = j.work[:-share]
                        w = idle.pop()
                        # short slices while there is little to distribute
                        sl = slice_s if len(j.work) >= self.n or len(jobs) >= self.n else 0.1
                        w[0].send((j.jid, j.entry, j.conf, pre, sl))
                        w[2] = j
                        j.running += 1
                        busy[w[0]] = w
                        progressed = True
            if not busy:
                break
            for c in wait(list(busy), timeout=5):
                w = busy.pop(c)
                try:
                    m = c.recv()
                except EOFError:
                    w[2].err = "worker process died"
                    w[2].running -= 1
                    self.ws.remove(w)
                    continue
                j = w[2]
                _, jid, st, outs, work, errs, samples = m
                j.running -= 1
                j.stats = merge_stats(j.stats, st)
                j.outs.extend(outs)
                j.errs.extend(errs)
                j.samples.extend(samples[:max(0, 40 - len(j.samples))])
                if len(j.errs) > 20:
                    j.stop = True
                j.work.extend(work)
                if len(j.outs) >= max_viol:
                    j.stop = True
                idle.append(w)
            if progress:
                progress(jobs)
        return jobs

    def close(self):
        for w in self.ws:
            try:
                w[0].send(None)
            except Exception:
                pass
        for w in self.ws:
            w[1].join(2)
            if w[1].is_alive():
                w[1].terminate()
