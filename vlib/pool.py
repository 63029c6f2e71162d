"""Distributes path exploration over worker processes, with a watchdog for paths that hang."""
import collections
import gc
import multiprocessing as mp
import multiprocessing.connection
import os
import signal
import threading
import time
import traceback

SLICE_S = 1.0


def _worker(conn, jobs):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    from vlib import env, symex

    env.prepare_worker()
    # A collection in one thread would free terms of the solver while another thread is inside it: only between paths.
    gc.collect()
    gc.freeze()
    gc.disable()
    paths = 0
    lock = threading.Lock()
    state = {"start": None, "timeout": 30.0, "path": None, "job": None}

    def send(obj):
        with lock:
            conn.send(obj)

    def watch():
        while True:
            time.sleep(0.25)
            s = state["start"]
            if s is not None and time.time() - s > state["timeout"]:
                path = symex.CURRENT
                try:
                    a = path.assignment() if path is not None else None
                except BaseException as e:  # noqa
                    a = None
                import faulthandler, tempfile

                with tempfile.TemporaryFile("w+") as f:
                    faulthandler.dump_traceback(f)
                    f.seek(0)
                    tb = f.read()
                send(("hang", {"assignment": a, "job": state["job"], "stacks": tb[-6000:]}))
                os._exit(77)

    threading.Thread(target=watch, daemon=True).start()
    funcs = env.FunctionRecorder()
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            return
        if msg is None:
            return
        ji, prefixes, slice_s = msg
        job = jobs[ji]
        state["timeout"] = job.path_timeout
        state["job"] = ji
        stats = symex.Stats()
        todo = [tuple(map(tuple, p)) for p in prefixes]
        t0 = time.time()
        violations, errors, inconclusive, samples, tags = [], [], [], [], {}
        while todo and time.time() - t0 < slice_s:
            prefix = todo.pop()
            paths += 1
            if paths % 32 == 0:
                gc.collect()
            state["start"] = time.time()
            try:
                if job.kind == "task":
                    p = symex.run_task(job, stats)
                else:
                    p = symex.run_path(job.fn, job.params, prefix, stats)
                for k, v in p.tags.items():
                    tags[k] = tags.get(k, 0) + v
                todo.extend(p.pending)
                for v in p.violations:
                    v["job"] = ji
                    violations.append(v)
                if p.inconclusive:
                    inconclusive.append(f"{job.name}: " + "; ".join(p.inconclusive[:3]))
                if len(samples) < 1 and not p.violations:
                    try:
                        samples.append(p.sample())
                    except BaseException:
                        pass
            except BaseException as e:
                symex.CURRENT = None
                errors.append("".join(traceback.format_exception(e))[-4000:])
            finally:
                state["start"] = None
            if errors or len(violations) >= 3:
                break
        send(("done", ji, todo, stats.as_dict(), violations, errors, inconclusive, samples, funcs.take(), tags))


class Pool:
    """Explores all jobs (symbolic harnesses with fixed shape parameters) until exhausted or out of time."""

    def __init__(self, jobs, nworkers, deadline, is_known=lambda v: False, stop_on_violation=True, verbose=False):
        self.jobs = jobs
        self.nworkers = nworkers
        self.deadline = deadline
        self.is_known = is_known
        self.stop_on_violation = stop_on_violation
        self.verbose = verbose

    def run(self):
        from vlib import symex

        ctx = mp.get_context("fork")
        jobs = self.jobs
        queues = [collections.deque() for _ in jobs]
        per_job = [symex.Stats() for _ in jobs]
        outstanding = [0] * len(jobs)
        deaths = [0] * len(jobs)
        for i in range(len(jobs)):
            queues[i].append(())
        result = {
            "violations": [],
            "errors": [],
            "inconclusive": [],
            "hangs": [],
            "samples": {},
            "functions": set(),
            "complete": [False] * len(jobs),
            "tags": {},
        }
        workers = {}

        def spawn():
            a, b = ctx.Pipe()
            p = ctx.Process(target=_worker, args=(b, jobs), daemon=True)
            p.start()
            b.close()
            workers[a] = [p, None, 0.0]

        for _ in range(self.nworkers):
            spawn()
        order = 0
        stop = False

        def next_task():
            # Round robin over jobs with work, small slices first so that work spreads.
            nonlocal order
            n = len(jobs)
            for k in range(n):
                ji = (order + k) % n
                if queues[ji]:
                    order = ji + 1
                    q = queues[ji]
                    take = max(1, min(len(q) // (2 * self.nworkers) + 1, 64))
                    return ji, [q.popleft() for _ in range(take)]
            return None

        try:
            while True:
                now = time.time()
                if now > self.deadline:
                    stop = True
                if not stop:
                    for c, w in workers.items():
                        if w[1] is None:
                            t = next_task()
                            if t is None:
                                break
                            w[1] = t
                            w[2] = now
                            outstanding[t[0]] += 1
                            total = sum(len(q) for q in queues)
                            slice_s = 0.1 if total < 2 * self.nworkers else SLICE_S
                            try:
                                c.send((t[0], t[1], slice_s))
                            except OSError:
                                pass  # it is gone, as will be found below
                busy = [c for c, w in workers.items() if w[1] is not None]
                if not busy:
                    break
                ready = mp.connection.wait(busy, timeout=0.5)
                for c in ready:
                    w = workers[c]
                    try:
                        msg = c.recv()
                    except (EOFError, OSError):
                        ji = w[1][0]
                        outstanding[ji] -= 1
                        deaths[ji] += 1
                        if deaths[ji] <= 2 and sum(deaths) <= 8:
                            # (ended by the machine, say) another one explores the same
                            queues[ji].extend(w[1][1])
                        else:
                            w[0].join(2)
                            result["errors"].append(f"worker died (exit {w[0].exitcode}) in {jobs[ji].name}")
                            if len(result["errors"]) > 5:
                                stop = True
                        del workers[c]
                        spawn()
                        break
                    ji = w[1][0]
                    w[1] = None
                    outstanding[ji] -= 1
                    if msg[0] == "hang":
                        result["hangs"].append(msg[1])
                        w[0].join(2)
                        del workers[c]
                        stop = True
                        break
                    _, ji, todo, stats, violations, errors, inconclusive, samples, funcs, tags = msg
                    for k, v in tags.items():
                        result["tags"][k] = result["tags"].get(k, 0) + v
                    queues[ji].extend(todo)
                    per_job[ji].add(stats)
                    result["functions"] |= funcs
                    result["inconclusive"] += inconclusive
                    if samples and len(result["samples"].setdefault(jobs[ji].name, [])) < 3:
                        result["samples"][jobs[ji].name] += samples
                    for v in violations:
                        result["violations"].append(v)
                        if self.stop_on_violation and not self.is_known(v):
                            stop = True
                    if errors:
                        result["errors"] += errors
                        stop = True
                if stop and not any(w[1] is not None for w in workers.values()):
                    break
                if stop and time.time() > self.deadline + 40:
                    break
        finally:
            for c, w in list(workers.items()):
                try:
                    c.send(None)
                except (OSError, ValueError):
                    pass
                w[0].join(0.2)
                if w[0].is_alive():
                    w[0].kill()
                c.close()
        for i in range(len(jobs)):
            result["complete"][i] = not queues[i] and outstanding[i] == 0 and not result["errors"] and not result["hangs"]
        result["per_job"] = per_job
        result["leftover"] = [len(q) for q in queues]
        return result
