"""Pool of explorer processes."""
import json, queue, subprocess, threading, time


class Pool:
    """Feeds (scenario, pmin, pmax, smax, seconds) jobs to `n` explorer processes.

    on_result(job, result) is called under a lock; it may append jobs with `put` and stop the pool.
    A job is a tuple starting with a sortable priority."""

    def __init__(self, exe, n, on_result):
        self.exe, self.n, self.on_result = exe, n, on_result
        self.q = queue.PriorityQueue()
        self.lock = threading.Lock()
        self.stop = False
        self.inflight = 0
        self.errors = []
        self.main = 0
        self.cv = threading.Condition(self.lock)

    def put(self, prio, job):
        self.q.put((prio, job))

    def limit(self, prio, job):
        """may change a job which is about to start, or drop it by returning None"""
        return job

    def _spawn(self):
        p = subprocess.Popen([self.exe, "worker"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, bufsize=1)
        p.errtail = []

        def drain():
            for l in p.stderr:
                p.errtail.append(l.rstrip())
                del p.errtail[:-40]

        threading.Thread(target=drain, daemon=True).start()
        l = p.stdout.readline()
        if l:
            self.main = json.loads(l)["main"]
        return p

    def _work(self):
        p = None
        while True:
            with self.cv:
                while self.q.empty() and self.inflight and not self.stop:
                    self.cv.wait(0.2)
                if self.stop or (self.q.empty() and not self.inflight):
                    break
                prio, job = self.q.get()
                job = self.limit(prio, job)
                if job is None:
                    continue
                self.inflight += 1
            res = None
            try:
                if p is None or p.poll() is not None:
                    p = self._spawn()
                p.stdin.write(" ".join(map(str, job)) + "\n")
                p.stdin.flush()
                line = p.stdout.readline()
                if line:
                    res = json.loads(line)
                    if res["violation"]:
                        res["main"] = self.main
                        p.wait()
                        p = None
                else:
                    p.wait()
                    time.sleep(0.1)
                    self.errors.append((job, p.returncode, p.errtail[-12:]))
                    p = None
            except Exception as e:  # noqa
                self.errors.append((job, -1, [repr(e)]))
                p = None
            with self.cv:
                self.inflight -= 1
                if res is not None and not self.stop:
                    self.on_result(job, res)
                self.cv.notify_all()
        if p is not None:
            p.kill()
            p.wait()

    def run(self):
        ts = [threading.Thread(target=self._work) for _ in range(self.n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
