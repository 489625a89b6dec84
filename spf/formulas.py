"""Element formulas of many functions, computed in parallel (one forked process per function, with a time cap)."""
import os, sys, time, threading, traceback, re, json, select, signal
from .algebra import summary, plain
from . import tfhe, algebra

UNRES = re.compile(r"\bmay\(|\balt\(|rec\?|level\?|\?ix|UNKNOWN|pending|\bupd\(|clarg|@\[.*\bcall\b")


def one(prog, fn, level, names=None):
    atoms = tfhe.level2(fn) if level == 2 else tfhe.ATOMS
    out, al = summary(prog, fn, atoms, tfhe.policy3(fn["n"]) if level == 3 else tfhe.mk_policy(atoms), want_alg=True, argnames=names, with_effects=level == 3)
    return {"out": out, "trunc": bool(al.truncated), "blocks": len(al.b.blocks),
            "unknown": sorted(k for k in al.unknown if not k.startswith("core::panicking"))}


def _child(prog, fn, level, names, w):
    res = {}
    sys.setrecursionlimit(10 ** 6)
    threading.stack_size(1 << 30)

    def go():
        t = time.time()
        try:
            try:
                res.update(one(prog, fn, level, names))
            except RecursionError:
                # loops whose variables only settle when what was first believed about them is kept
                algebra.PRUNE = False
                res.update(one(prog, fn, level, names))
        except BaseException as e:
            res["error"] = "%s: %s" % (type(e).__name__, str(e)[:300])
            res["trace"] = traceback.format_exc()[-1500:]
        res["time"] = round(time.time() - t, 2)
    th = threading.Thread(target=go)
    th.start()
    th.join()
    with os.fdopen(w, "wb") as fh:
        fh.write(json.dumps(res).encode())
    os._exit(0)


def compute(prog, jobs, cap=150, workers=None):
    """jobs: [(id, fn, level, names)] -> {id: result}; result has `error` when the function could not be summarised in time"""
    workers = workers or min(8, os.cpu_count() or 4)
    todo = list(jobs)
    run = {}
    res = {}
    while todo or run:
        while todo and len(run) < workers:
            jid, fn, level, names = todo.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    import gc
                    gc.disable()
                    try:
                        import resource
                        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                    except Exception:
                        pass
                    _child(prog, fn, level, names, w)
                finally:
                    os._exit(1)
            os.close(w)
            run[r] = (jid, pid, time.time(), [])
        ready, _, _ = select.select(list(run), [], [], 0.5)
        for r in ready:
            d = os.read(r, 1 << 20)
            if d:
                run[r][3].append(d)
                continue
            jid, pid, t, buf = run.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            try:
                res[jid] = json.loads(b"".join(buf).decode())
            except Exception:
                res[jid] = {"error": "analysis process ended without a result"}
        for r in list(run):
            jid, pid, t, buf = run[r]
            if time.time() - t > cap:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                run.pop(r)
                res[jid] = {"error": "time cap of %d s" % cap}
    return res
