"""Processes whose file operations below a folder are scheduling and crash points (see shim/shim.c).

The check process runs again under LD_PRELOAD (ensure); a Proc is a forked child which waits before each of its file operations
until the explorer lets it go, or kills it there."""
import ctypes
import hashlib
import os
import pickle
import select
import signal
import subprocess
import sys

SRC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "shim", "shim.c")


def ensure():
    """the shim is loaded in this process (which is replaced by the same command under LD_PRELOAD if it was not)"""
    if os.environ.get("MC_SHIM"):
        return
    d = os.environ["PYTHONPYCACHEPREFIX"]  # folder made and removed by ./check
    so = os.path.join(d, "shim.so")
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, SRC, "-ldl"], check=True)
    os.environ.update(MC_SHIM=so, LD_PRELOAD=so)
    sys.stdout.flush()
    sys.stderr.flush()
    os.execv(sys.executable, sys.orig_argv)


class Proc:
    """runs fn() in a child, its file operations below root one at a time; pending: the next operation, None once it is over"""

    def __init__(self, fn, root):
        o, self._out = os.pipe()
        i, self._in = os.pipe()
        r, self._res = os.pipe()
        self.log, self.result, self.killed = [], None, False
        self.pid = os.fork()
        if self.pid == 0:
            os.close(o), os.close(self._in), os.close(r)
            lib = ctypes.CDLL(os.environ["MC_SHIM"])
            ok = True
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                lib.mc_arm(self._out, i, os.fsencode(root))
                val = fn()
            except BaseException as e:  # a report of the command
                ok, val = False, f"{type(e).__name__}: {e}"
                e.__traceback__ = None
            lib.mc_disarm()
            data = pickle.dumps((ok, val))
            while data:
                data = data[os.write(self._res, data):]
            os._exit(0)
        os.close(self._out), os.close(i), os.close(self._res)
        self._o, self._r, self._buf = o, r, b""
        self._next()

    def _next(self, wait=None):
        """wait: seconds after which a process which announces nothing is taken for waiting for the others"""
        while b"\n" not in self._buf:
            if wait is not None and not select.select([self._o], [], [], wait)[0]:
                self.pending = ("waiting", "", 0)
                return
            got = os.read(self._o, 4096)
            if not got:
                return self._end()
            self._buf += got
        line, self._buf = self._buf.split(b"\n", 1)
        op, name, n = line.decode().split(" ")
        self.pending = (op, name, int(n))

    def _end(self):
        self.pending = None
        data = b""
        while True:
            got = os.read(self._r, 65536)
            if not got:
                break
            data += got
        for fd in (self._o, self._in, self._r):
            os.close(fd)
        _, st = os.waitpid(self.pid, 0)
        self.killed = os.WIFSIGNALED(st)
        self.status = st
        if data:
            self.result = pickle.loads(data)

    def _say(self, what):
        if self.pending[0] == "waiting":
            return self._next(2.0)
        try:
            os.write(self._in, what)
        except BrokenPipeError:
            pass
        self._next(10.0)

    def go(self):
        """performs the pending operation"""
        self.log.append(self.pending)
        self._say(b"g\n")

    def kill(self, written=None):
        """the process is killed before its pending operation, or once `written` bytes of it are written"""
        self._say(b"k\n" if written is None else f"t {written}\n".encode())

    def finish(self):
        while self.pending:
            self.go()
        return self.result

    def drop(self):
        if self.pending:
            os.kill(self.pid, signal.SIGKILL)
            self._end()


def digest(data):
    return hashlib.blake2b(data, digest_size=8).hexdigest()
