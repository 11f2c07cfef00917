"""Another process on the same machine: booted apart from scratch, with another string hash seed,
time zone and working directory. Runs send it requests; each is answered by a forked child of it."""
import importlib
import os
import pickle
import shutil
import socket
import struct
import subprocess
import sys
import tempfile

PROC = None
PATH = None
ERROR = None


def start(mode):
    """Launches the process; it boots while the caller does."""
    global PROC, PATH
    d = tempfile.mkdtemp(prefix="wwtwin-")
    PATH = os.path.join(d, "s")
    e = dict(os.environ, PYTHONHASHSEED="90125", TZ="Asia/Tokyo")
    r, w = os.pipe()
    PROC = subprocess.Popen([sys.executable, "-m", "sim.twin", mode, PATH, str(r)], env=e, pass_fds=(r,), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    os.close(r)  # w stays open in this process: its end tells the other one to go


def ready():
    """Waits until it answers; False if it never will."""
    line = PROC.stdout.readline()
    return line == b"ready\n"


def stop():
    if PROC:
        PROC.kill()
        PROC.wait()
        shutil.rmtree(os.path.dirname(PATH), ignore_errors=True)


def send(s, o):
    b = pickle.dumps(o)
    s.sendall(struct.pack("<Q", len(b)) + b)


def recv(s):
    def exactly(n):
        out = b""
        while len(out) < n:
            d = s.recv(min(1 << 20, n - len(out)))
            if not d:
                raise EOFError("the other process gave no answer")
            out += d
        return out
    return pickle.loads(exactly(struct.unpack("<Q", exactly(8))[0]))


def ask(fn, *args):
    """fn: 'module:function' -> ('ok', value) or ('raised', text), as computed by the other process."""
    from . import core
    s = socket.socket(socket.AF_UNIX)
    s.settimeout(75)
    try:
        s.connect(PATH)
        send(s, (fn, args))
        return recv(s)
    except (OSError, EOFError) as e:
        raise core.HarnessError("wall clock: other process: %r" % e)
    finally:
        s.close()


def serve(mode, path, fd):
    import select
    from . import env, run
    env.boot(mode)
    run.warm(mode)
    os.chdir(os.path.dirname(path))
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(path)
    srv.listen(64)
    os.write(1, b"ready\n")
    while True:
        r, _, _ = select.select([srv, fd], [], [], 1.0)
        while True:
            try:
                if os.waitpid(-1, os.WNOHANG)[0] == 0:
                    break
            except ChildProcessError:
                break
        if fd in r:
            os._exit(0)
        if srv not in r:
            continue
        c, _ = srv.accept()
        if os.fork():
            c.close()
            continue
        try:
            srv.close()
            c.settimeout(75)
            fn, args = recv(c)
            mod, name = fn.split(":")
            env.reset_run(None)
            try:
                with env.muted():
                    out = ("ok", getattr(importlib.import_module(mod), name)(*args))
            except BaseException as e:
                out = ("raised", "%s: %s" % (type(e).__name__, str(e)[:300]))
            send(c, out)
        finally:
            os._exit(0)


if __name__ == "__main__":
    serve(sys.argv[1], sys.argv[2], int(sys.argv[3]))
