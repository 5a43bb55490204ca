"""The serving platform's C++ code, compiled from /repo/serving and driven over a pipe.

The sources are compiled as they are (all of core/ and operators/ but the libtorch scorer);
glog, gflags, taskflow and exprtk, which are not installed, are replaced by the small headers
in serving/stubs.  Address sanitizer is on: reading out of bounds ends the driver, and a
driver that ends is a violation of whatever property was being checked.
"""
import atexit
import fcntl
import glob
import hashlib
import json
import os
import select
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

from vlib.core import Violation

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "serving")
STUBS = os.path.join(HERE, "serving", "stubs")
FLAGS = ["-std=c++17", "-O0", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS", "-w"]
INC = ["-I" + STUBS, "-I" + SRC, "-I/usr/include/eigen3"]


def sources():
    out = [os.path.join(HERE, "serving", "driver.cpp")]
    for d in ("core", "operators"):
        out += sorted(glob.glob(os.path.join(SRC, "reagent", "serving", d, "*.cpp")))
    return [p for p in out if not os.path.basename(p).startswith("Pytorch")]


def _hash():
    h = hashlib.sha256(" ".join(FLAGS).encode())
    files = sources() + sorted(glob.glob(os.path.join(SRC, "reagent", "serving", "*", "*.h")) + glob.glob(os.path.join(STUBS, "**", "*.h*"), recursive=True))
    for p in files:
        h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()[:20]


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise RuntimeError("does not compile: %s\n%s" % (cmd[-1], p.stdout[:4000]))


def build():
    """Path of the driver for /repo's current sources."""
    root = os.path.join(HERE, ".cache")
    os.makedirs(root, exist_ok=True)
    with open(os.path.join(root, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        key = _hash()
        exe = os.path.join(root, "driver-" + key)
        if os.path.exists(exe):
            os.utime(exe)
            return exe
        for old in sorted(glob.glob(os.path.join(root, "driver-*")), key=os.path.getmtime)[:-12]:
            os.unlink(old)
        work = tempfile.mkdtemp(prefix="serving-", dir=root)
        try:
            pre = os.path.join(work, "prelude.h")
            shutil.copy(os.path.join(STUBS, "prelude.h"), pre)
            _run(["g++"] + FLAGS + INC + ["-x", "c++-header", pre, "-o", pre + ".gch"])
            srcs = sources()
            objs = [os.path.join(work, "%d.o" % i) for i in range(len(srcs))]
            with ThreadPoolExecutor(8) as pool:
                list(pool.map(lambda so: _run(["g++"] + FLAGS + INC + ["-include", pre, "-o", so[1], "-c", so[0]]), zip(srcs, objs)))
            _run(["g++"] + FLAGS + objs + ["-lboost_filesystem", "-lpthread", "-o", exe + ".new"])
            os.rename(exe + ".new", exe)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        return exe


class Refused(Exception):
    """The service answered a command with an exception."""


class Service:
    def __init__(self, exe):
        self.exe, self.proc = exe, None

    def start(self):
        env = {"ASAN_OPTIONS": "detect_leaks=0:symbolize=0", "PATH": os.environ.get("PATH", "")}
        self.proc = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
        os.set_blocking(self.proc.stderr.fileno(), False)
        self.buf, self.err = b"", b""

    def stop(self):
        if self.proc is not None:
            self.proc.kill()
            self.proc.wait()
            for f in (self.proc.stdin, self.proc.stdout, self.proc.stderr):
                f.close()
            self.proc = None

    def _dead(self, what, command):
        try:
            self.proc.wait(5)
        except subprocess.TimeoutExpired:
            pass
        err = (self.err + (self.proc.stderr.read() or b"")).decode(errors="replace")
        self.stop()
        lines = [x for x in err.splitlines() if x.strip()]
        raise Violation("%s on %s: %s" % (what, command[:200], " | ".join(lines[:4])[:500]))

    def call(self, cmd, **kw):
        if self.proc is None:
            self.start()
        text = json.dumps(dict(kw, cmd=cmd))
        try:
            self.proc.stdin.write(text.encode() + b"\n")
            self.proc.stdin.flush()
        except BrokenPipeError:
            self._dead("the service ended", text)
        fd = self.proc.stdout.fileno()
        while b"\n" not in self.buf:
            if not select.select([fd], [], [], 60)[0]:
                self._dead("no answer for a minute", text)
            self.err = (self.err + (self.proc.stderr.read() or b""))[-20000:]
            part = os.read(fd, 1 << 16)
            if not part:
                self._dead("the service ended", text)
            self.buf += part
        line, self.buf = self.buf.split(b"\n", 1)
        answer = json.loads(line)
        if "error" in answer:
            raise Refused(answer["error"])
        return answer["ok"]


_exe = build()
_by_pid = {}


def service():
    s = _by_pid.get(os.getpid())
    if s is None:
        s = _by_pid[os.getpid()] = Service(_exe)
        atexit.register(s.stop)
    return s


# ------------------------------------------------------------------ helpers
def wrap(v):
    """A Python value as the service's tagged constant (the caller keeps kinds uniform)."""
    if isinstance(v, str):
        return {"string_value": v}
    if isinstance(v, int):
        return {"int_value": v}
    if isinstance(v, float):
        return {"double_value": v}
    if isinstance(v, list):
        e = v[0]
        return {{str: "list_string_value", int: "list_int_value", float: "list_double_value", dict: "ranked_action_list"}[type(e)]: v}
    e = next(iter(v.values()))
    return {{str: "map_string_value", int: "map_int_value", float: "map_double_value", dict: "map_map_double_value"}[type(e)]: v}


def unwrap(j):
    (v,) = j.values()
    return v
