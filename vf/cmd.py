"""Starting programs in the zygote, and the zygote itself."""
import os
import signal
import socket
import struct
import subprocess
import sys
import tempfile
import time
import select
import array

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
PY = "/opt/venv/bin/python"


class Hang(Exception):
    pass


class Proc:
    """A program running in the zygote."""

    def __init__(self, sock, out, err):
        self.s, self.out_f, self.err_f = sock, out, err
        self.buf = b""
        self.rc = None

    def _read(self, n, timeout):
        end = time.monotonic() + timeout
        while len(self.buf) < n:
            left = end - time.monotonic()
            r, _, _ = select.select([self.s], [], [], max(0, left))
            if not r:
                return False
            d = self.s.recv(64)
            if not d:
                raise RuntimeError("zygote connection lost")
            self.buf += d
        return True

    @property
    def pid(self):
        assert self._read(4, 30)
        return struct.unpack("=i", self.buf[:4])[0]

    def poll(self):
        if self.rc is None and self._read(8, 0.0):
            self._done()
        return self.rc

    def _done(self):
        st = struct.unpack("=i", self.buf[4:8])[0]
        self.rc = os.waitstatus_to_exitcode(st)
        self.s.close()

    def wait(self, timeout=120):
        if self.rc is None:
            if not self._read(8, timeout):
                self.kill()
                raise Hang("no exit within %ss" % timeout)
            self._done()
        return self.rc

    def kill(self, sig=signal.SIGKILL):
        if self.rc is None:
            try:
                os.kill(self.pid, sig)
            except ProcessLookupError:
                pass

    def output(self):
        self.out_f.seek(0)
        return self.out_f.read()

    def errput(self):
        self.err_f.seek(0)
        return self.err_f.read().decode("utf-8", "replace")

    def close(self):
        if self.rc is None:
            self.kill()
            try:
                self.wait(10)
            except Exception:
                pass
        for f in (self.out_f, self.err_f):
            f.close()


class Zygote:
    def __init__(self, work, repo=REPO):
        self.work, self.repo = work, repo
        self.sock = os.path.join(work, "zyg")
        self.bin = os.path.join(work, "bin")
        build(work)
        meta = make_meta(work, repo)
        env = {
            "HOME": work,
            "LANG": "C.UTF-8",
            "TZ": os.environ.get("VF_TZ", "UTC"),
            "PYTHONHASHSEED": "0",
            "PYTHONPYCACHEPREFIX": os.path.join(work, "nopyc"),
            "PYTHONDONTWRITEBYTECODE": "1",
            "PYTHONPATH": ":".join(
                [os.path.join(repo, "src"), meta, os.path.dirname(HERE)]
            ),
            "PATH": "/usr/bin:/bin",
            "LD_PRELOAD": os.path.join(work, "libvf.so"),
            "BACKY_EXTRACT": "backy-extract",
        }
        self.base_env = {
            k: v
            for k, v in env.items()
            if k not in ("LD_PRELOAD", "PATH")
        }
        self.base_env["PATH"] = self.bin + ":/opt/venv/bin:/usr/bin:/bin"
        self.base_env["VF_ZYGOTE"] = self.sock
        self.base_env["VF_REPO"] = repo
        self.base_env["VF_SLEEP"] = "0"
        self.log = open(os.path.join(work, "zygote.log"), "wb")
        self.p = subprocess.Popen(
            [PY, "-B", "-s", os.path.join(HERE, "zygote.py"), self.sock, repo],
            env=env,
            stdin=subprocess.DEVNULL,
            stdout=self.log,
            stderr=self.log,
            cwd=work,
        )
        end = time.monotonic() + 60
        while not os.path.exists(self.sock):
            if self.p.poll() is not None or time.monotonic() > end:
                raise RuntimeError(
                    "zygote did not start:\n"
                    + open(os.path.join(work, "zygote.log")).read()[-3000:]
                )
            time.sleep(0.01)

    def start(self, prog, *argv, env=None, cwd=None, stdin=None, stdout=None):
        e = dict(self.base_env)
        if env:
            for k, v in env.items():
                if v is None:
                    e.pop(k, None)
                else:
                    e[k] = str(v)
        out = stdout or tempfile.TemporaryFile(dir=self.work)
        err = tempfile.TemporaryFile(dir=self.work)
        inp = stdin or open("/dev/null", "rb")
        parts = [prog, cwd or self.work, str(len(argv) + 1), prog]
        parts += [str(a) for a in argv]
        parts += ["%s=%s" % i for i in e.items()]
        msg = b"".join(
            p.encode("utf-8", "surrogateescape") + b"\0" for p in parts
        )
        s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        for i in range(50):
            try:
                s.connect(self.sock)
                break
            except (BlockingIOError, ConnectionRefusedError):
                time.sleep(0.02)
        s.sendmsg(
            [struct.pack("=I", len(msg))],
            [
                (
                    socket.SOL_SOCKET,
                    socket.SCM_RIGHTS,
                    array.array(
                        "i", [inp.fileno(), out.fileno(), err.fileno()]
                    ),
                )
            ],
        )
        s.sendall(msg)
        if stdin is None:
            inp.close()
        return Proc(s, out, err)

    def run(self, prog, *argv, timeout=120, **kw):
        """-> (rc, stdout bytes, stderr text)"""
        p = self.start(prog, *argv, **kw)
        try:
            rc = p.wait(timeout)
            return rc, p.output(), p.errput()
        finally:
            p.close()

    def close(self):
        self.p.kill()
        self.p.wait()
        self.log.close()


def build(work):
    """Native helpers are always built afresh into the scratch directory."""
    for src, out, flags in (
        ("shim.c", "libvf.so", ["-shared", "-fPIC", "-ldl"]),
        ("zrun.c", "zrun", []),
    ):
        dst = os.path.join(work, out)
        if not os.path.exists(dst):
            subprocess.run(
                ["gcc", "-O1", "-w", "-o", dst + ".tmp",
                 os.path.join(HERE, "native", src)] + flags,
                check=True,
            )
            os.rename(dst + ".tmp", dst)
    b = os.path.join(work, "bin")
    os.makedirs(b, exist_ok=True)
    for n in ("backy", "backy-rbd", "backy-s3", "backy-file", "backyd", "rbd"):
        if not os.path.lexists(os.path.join(b, n)):
            os.symlink("../zrun", os.path.join(b, n))


def make_meta(work, repo):
    """dist-info with the entry points of the current pyproject.toml."""
    import tomllib

    with open(os.path.join(repo, "pyproject.toml"), "rb") as f:
        d = tomllib.load(f)["tool"]["poetry"]
    m = os.path.join(work, "meta")
    di = os.path.join(m, "backy-0.dist-info")
    os.makedirs(di, exist_ok=True)
    with open(os.path.join(di, "METADATA"), "w") as f:
        f.write("Metadata-Version: 2.1\nName: backy\nVersion: 0\n")
    with open(os.path.join(di, "entry_points.txt"), "w") as f:
        for g, eps in d["plugins"].items():
            f.write("[%s]\n" % g)
            for k, v in eps.items():
                f.write("%s = %s\n" % (k, v))
        f.write("[console_scripts]\n")
        for k, v in d["scripts"].items():
            f.write("%s = %s\n" % (k, v))
    return m
