# -*- coding: utf-8 -*-
"""Runs the tasks of joblib.Parallel in real threads, one at a time, under the explorer's control.

Workers take tasks in submission order (joblib's queue).  Scheduling points: start of a task, and every line executed in
the files of the code under test named in `files`.  At most `bound` preemptions; every choice is ctx.choose."""
import sys
import threading

from mc import rt


class Runner(object):
    def __init__(self, ctx, bound=1, workers=None, files=(), every=1):
        self.ctx, self.bound, self.workers, self.files, self.every = ctx, bound, workers, tuple(files), every
        self.used = self.points = self.preemptions = 0

    def __call__(self, tasks, n_jobs):
        nw = min(self.workers or (n_jobs if n_jobs and n_jobs > 0 else 1), len(tasks))
        if nw <= 1 or rt.cur_thread[0] == "job":
            return [f(*a, **k) for f, a, k in tasks]
        saved = rt.cur_thread
        results, errors = [None] * len(tasks), []
        queue = list(range(len(tasks)))
        turn = [threading.Semaphore(0) for _ in range(nw)]
        main = threading.Semaphore(0)
        alive = list(range(nw))
        self.running = None
        failure = []

        def choose_next(cur):
            """Index of the worker to run next; cur is None when the current one ended."""
            if not alive:
                return None
            if cur is None:
                return alive[self.ctx.choose(len(alive), "worker")] if len(alive) > 1 else alive[0]
            if len(alive) == 1 or self.used >= self.bound:
                return cur
            others = [a for a in alive if a != cur]
            c = self.ctx.choose(1 + len(others), "preempt")
            if c:
                self.used += 1
                self.preemptions += 1
                return others[c - 1]
            return cur

        def switch(me, nxt):
            if nxt == me:
                return
            rt.cur_thread = ("job", nxt)
            turn[nxt].release()
            turn[me].acquire()
            if failure:
                raise SystemExit

        def point(me):
            self.points += 1
            if self.points % self.every:
                return
            try:
                nxt = choose_next(me)
            except BaseException as e:
                failure.append(e)
                main.release()
                raise SystemExit
            switch(me, nxt)

        def worker(me):
            turn[me].acquire()
            if failure:
                return
            files = self.files

            def local(frame, event, arg):
                if event == "line":
                    point(me)
                return local

            def tracer(frame, event, arg):
                return local if frame.f_code.co_filename.endswith(files) else None
            try:
                while queue and not errors:
                    i = queue.pop(0)
                    f, a, k = tasks[i]
                    sys.settrace(tracer)
                    try:
                        results[i] = f(*a, **k)
                    finally:
                        sys.settrace(None)
                    point(me)
            except SystemExit:
                return
            except BaseException as e:
                errors.append(e)
            alive.remove(me)
            try:
                nxt = choose_next(None)
            except BaseException as e:
                failure.append(e)
                main.release()
                return
            if nxt is None:
                main.release()
            else:
                rt.cur_thread = ("job", nxt)
                turn[nxt].release()

        threads = [threading.Thread(target=worker, args=(w,), daemon=True) for w in range(nw)]
        for t in threads:
            t.start()
        try:
            first = choose_next(None)
            rt.cur_thread = ("job", first)
            turn[first].release()
            main.acquire()
        except BaseException as e:
            failure.append(e)
        finally:
            rt.cur_thread = saved
        if failure:
            for s in turn:
                s.release()
            for t in threads:
                t.join(2)
            raise failure[0]
        for t in threads:
            t.join(10)
        if errors:
            raise errors[0]
        return results
