"""Fork server.  Imports the working tree once, then runs each requested
program (backy, backy-rbd, backyd, rbd, ... or "py:module:function") in a
forked child with the caller's argv, environment, cwd and stdio.
"""
import array
import ctypes
import gc
import importlib
import os
import selectors
import signal
import socket
import struct
import sys
import traceback


def load_programs(repo):
    import tomllib

    with open(os.path.join(repo, "pyproject.toml"), "rb") as f:
        d = tomllib.load(f)
    return dict(d["tool"]["poetry"]["scripts"]), d["tool"]["poetry"]["plugins"]


def child_setup(env):
    """Per-process knobs, all through the environment of the command."""
    import random

    if "VF_RANDSEED" in env:
        random.seed(int(env["VF_RANDSEED"]))
    else:
        random.seed(os.urandom(16))
    import time

    if "VF_SLEEP" in env:
        limit = float(env["VF_SLEEP"])
        real = time.sleep
        time.sleep = lambda s: real(min(s, limit))
    if "VF_NOW" in env:
        import datetime
        import time as t

        base = datetime.datetime.fromisoformat(env["VF_NOW"])
        t0 = t.monotonic()
        import backy.utils

        backy.utils.now = lambda: base + datetime.timedelta(
            seconds=t.monotonic() - t0
        )
    cfg = env.get("VF_SHIM")
    if cfg:
        only = None
        lines = []
        for line in cfg.split("\n"):
            if line.startswith("prog="):
                only = line[5:].split(",")
            else:
                lines.append(line)
        prog = os.path.basename(sys.argv[0])
        if only is None or prog in only:
            lib = ctypes.CDLL(None)
            if not hasattr(lib, "vf_configure"):
                raise RuntimeError("shim is not preloaded")
            cfg = "\n".join(lines).replace("%PID%", str(os.getpid()))
            cfg = cfg.replace("%GRAND%", os.environ.get("VF_GRAND", "0"))
            lib.vf_configure(cfg.encode())
    if "VF_HOOK" in env:
        for spec in env["VF_HOOK"].split(","):
            m, f = spec.split(":")
            getattr(importlib.import_module(m), f)(env)


def run_child(prog, cwd, argv, env, programs):
    os.chdir(cwd)
    os.environ.clear()
    os.environ.update(env)
    sys.argv = list(argv)
    if prog != "rbd":
        os.environ["VF_GRAND"] = env.get("VF_PARENT", "0")
        os.environ["VF_PARENT"] = str(os.getpid())
    for s in (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD, signal.SIGHUP):
        signal.signal(s, signal.SIG_DFL)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    signal.set_wakeup_fd(-1)
    if prog.startswith("py:"):
        _, m, f = prog.split(":")
        child_setup(env)
        return getattr(importlib.import_module(m), f)(*argv[1:])
    if prog == "rbd":
        from vf import rbdfake

        return rbdfake.main(argv)
    if prog not in programs:
        print("zygote: unknown program", prog, file=sys.stderr)
        return 127
    m, f = programs[prog].split(":")
    child_setup(env)
    return getattr(importlib.import_module(m), f)()


def code_of(e):
    if e.code is None:
        return 0
    if isinstance(e.code, int):
        return e.code & 0xFF
    print(e.code, file=sys.stderr)
    return 1


class Conn:
    def __init__(self, s):
        self.s, self.buf, self.fds, self.need, self.pid = s, b"", [], None, None

    def feed(self):
        """Returns True if closed, and fills the request."""
        try:
            data, anc, _, _ = self.s.recvmsg(1 << 20, socket.CMSG_SPACE(16 * 4))
        except ConnectionError:
            return True
        for lv, ty, d in anc:
            if lv == socket.SOL_SOCKET and ty == socket.SCM_RIGHTS:
                a = array.array("i")
                a.frombytes(d[: len(d) - len(d) % a.itemsize])
                self.fds += list(a)
        if not data:
            return True
        self.buf += data
        if self.need is None and len(self.buf) >= 4:
            self.need = struct.unpack("=I", self.buf[:4])[0]
            self.buf = self.buf[4:]
        return False

    def ready(self):
        return (
            self.pid is None
            and self.need is not None
            and len(self.buf) >= self.need
        )


def serve(path, repo):
    ctypes.CDLL(None).prctl(1, 9)
    programs, _ = load_programs(repo)
    os.environ.pop("LD_PRELOAD", None)
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    # everything commands need, imported before the first fork
    import asyncio  # noqa
    import multiprocessing  # noqa
    import backy.cli  # noqa
    import backy.daemon  # noqa
    import backy.daemon.api  # noqa
    import backy.daemon.scheduler  # noqa
    import backy.file  # noqa
    import backy.rbd  # noqa
    from vf import rbdfake  # noqa

    for spec in programs.values():
        try:
            importlib.import_module(spec.split(":")[0])
        except Exception:
            pass
    where = os.path.realpath(backy.cli.__file__)
    assert where.startswith(os.path.realpath(repo) + "/"), where
    gc.collect()
    gc.freeze()
    ls = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM | socket.SOCK_CLOEXEC)
    ls.bind(path + ".tmp")
    ls.listen(256)
    ls.setblocking(False)
    os.rename(path + ".tmp", path)
    sel = selectors.DefaultSelector()
    sel.register(ls, selectors.EVENT_READ, None)
    r, w = os.pipe2(os.O_NONBLOCK | os.O_CLOEXEC)
    signal.set_wakeup_fd(w, warn_on_full_buffer=False)
    signal.signal(signal.SIGCHLD, lambda *a: None)
    sel.register(r, selectors.EVENT_READ, "chld")
    pids = {}

    def drop(c):
        try:
            sel.unregister(c.s)
        except (KeyError, ValueError):
            pass
        c.s.close()

    while True:
        for key, _ in sel.select():
            if key.data is None:
                try:
                    s, _ = ls.accept()
                except BlockingIOError:
                    continue
                sel.register(s, selectors.EVENT_READ, Conn(s))
            elif key.data == "chld":
                try:
                    os.read(r, 4096)
                except BlockingIOError:
                    pass
            else:
                c = key.data
                if c.feed():
                    if c.pid:
                        try:
                            os.kill(c.pid, signal.SIGKILL)
                        except ProcessLookupError:
                            pass
                        pids[c.pid] = None
                    for fd in c.fds:
                        os.close(fd)
                    c.fds = []
                    drop(c)
                    continue
                if not c.ready():
                    continue
                parts = [
                    x.decode("utf-8", "surrogateescape")
                    for x in c.buf[: c.need].split(b"\0")[:-1]
                ]
                prog, cwd, n = parts[0], parts[1], int(parts[2])
                argv = parts[3 : 3 + n]
                env = dict(
                    e.split("=", 1) for e in parts[3 + n :] if "=" in e
                )
                pid = os.fork()
                if pid == 0:
                    rc = 1
                    try:
                        ctypes.CDLL(None).prctl(1, 9)  # die with the zygote
                        for i, fd in enumerate(c.fds[:3]):
                            os.dup2(fd, i)
                        os.closerange(3, 200)
                        if env.get("VF_SETSID") == "1":
                            os.setsid()
                        try:
                            rc = run_child(prog, cwd, argv, env, programs)
                            rc = 0 if rc is None else int(rc) & 0xFF
                        except SystemExit as e:
                            rc = code_of(e)
                        except BaseException:
                            traceback.print_exc()
                            rc = 1
                        try:
                            sys.stdout.flush()
                            sys.stderr.flush()
                        except Exception:
                            rc = rc or 120
                        gc.collect()
                    finally:
                        os._exit(rc)
                for fd in c.fds:
                    os.close(fd)
                c.fds = []
                c.pid = pid
                pids[pid] = c
                try:
                    c.s.send(struct.pack("=i", pid))
                except OSError:
                    pass
        while True:
            try:
                pid, st = os.waitpid(-1, os.WNOHANG)
            except ChildProcessError:
                break
            if not pid:
                break
            c = pids.pop(pid, None)
            if c:
                try:
                    c.s.send(struct.pack("=i", st))
                except OSError:
                    pass
                drop(c)


if __name__ == "__main__":
    serve(sys.argv[1], sys.argv[2])
