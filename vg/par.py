"""Runs independent comparisons in forked children: own memory, own time limit."""
import os, pickle, resource, select, signal, time


MEMORY = 7 << 30


def pmap(tasks, fn, timeout, deadline, workers=8, fallback=None):
    """[fn(t) for t in tasks]; a task that runs over its time or dies yields fallback(t, why)"""
    res = {}
    todo = list(enumerate(tasks))[::-1]
    run = {}  # fd -> (pid, index, end, chunks)
    while todo or run:
        now = time.time()
        while todo and len(run) < workers:
            i, t = todo.pop()
            if now > deadline:
                res[i] = fallback(t, "time")
                continue
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
                    try:
                        out = pickle.dumps((True, fn(t)))
                    except BaseException as x:
                        out = pickle.dumps((False, f"{type(x).__name__} {x}"))
                    with os.fdopen(w, "wb") as f:
                        f.write(out)
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            run[r] = [pid, i, min(now + timeout, deadline), []]
        if not run:
            continue
        rd, _, _ = select.select(list(run), [], [], 0.5)
        for fd in rd:
            b = os.read(fd, 1 << 16)
            if b:
                run[fd][3].append(b)
                continue
            pid, i, _, ch = run.pop(fd)
            os.close(fd)
            os.waitpid(pid, 0)
            try:
                ok, v = pickle.loads(b"".join(ch))
            except Exception:
                ok, v = False, "died"
            res[i] = v if ok else fallback(tasks[i], v)
        now = time.time()
        for fd in list(run):
            if now > run[fd][2]:
                pid, i, _, _ = run.pop(fd)
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                res[i] = fallback(tasks[i], "time")
    return [res[i] for i in range(len(tasks))]
