"""run tasks in forked children, with crash isolation and time limits"""
import json, os, resource, signal, sys, time, traceback


def run(tasks, nproc, outdir, mem_gb=None):
    """tasks: list of (key, fn, timeout_s); fn() -> JSON-able.  Returns {key: result dict}."""
    todo = list(tasks)
    live = {}
    res = {}
    while todo or live:
        while todo and len(live) < nproc:
            key, fn, tmo = todo.pop(0)
            path = os.path.join(outdir, "r%d.json" % (len(res) + len(live) + len(todo) * 1000))
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.setpgid(0, 0)
                    if mem_gb:
                        lim = int(mem_gb * 2 ** 30)
                        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
                    r = fn()
                    with open(path + ".tmp", "w") as f:
                        json.dump(r, f)
                    os.rename(path + ".tmp", path)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            live[pid] = (key, path, time.time() + tmo, time.time())
        time.sleep(0.01)
        for pid in list(live):
            key, path, dl, t0 = live[pid]
            p, st = os.waitpid(pid, os.WNOHANG)
            if p == 0:
                if time.time() > dl:
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except Exception:
                        os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    res[key] = {"timeout": True, "secs": time.time() - t0}
                    del live[pid]
                continue
            del live[pid]
            if os.path.exists(path):
                with open(path) as f:
                    res[key] = json.load(f)
                os.unlink(path)
            elif os.WIFSIGNALED(st):
                res[key] = {"signal": os.WTERMSIG(st)}
            else:
                res[key] = {"crash": os.WEXITSTATUS(st)}
            res[key]["secs"] = time.time() - t0
    return res
