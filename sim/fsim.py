"""Seams for the dataset loaders: file system calls, the network, process boundaries and crashes.

Every file operation below a scratch directory and every HTTP request of the process goes through
HANDLER, which may let it pass, fail it, shorten it, stop the process there, or (when several
simulated processes run) hand control to another one first.  The file system below is the real one."""
import ast
import builtins
import bz2
import email.message
import errno
import gzip
import hashlib
import http.client
import io
import lzma
import os
import random
import re
import shutil
import socket
import struct
import sys
import tempfile
import urllib.error
import urllib.request
import urllib.response
import zipfile

ROOT = None      # operations below this directory are seen
HANDLER = None   # f(op, rel) -> None or a directive tuple
IOBUF = 512      # buffer size of files opened below ROOT, and most bytes per raw write: a file takes several
CHUNK = 700      # bytes per network read
REQUESTS = 0
ONLINE = True

_open = builtins.open
_os = {}


class SimKill(BaseException):
    """Only used where os._exit is not possible."""


def _rel(path):
    if ROOT is None or HANDLER is None:
        return None
    if isinstance(path, int):
        try:
            path = _os["readlink"]("/proc/self/fd/%d" % path)
        except OSError:
            return None
    try:
        p = os.fspath(path)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    p = os.path.abspath(p)
    if p == ROOT:
        return "."
    if p.startswith(ROOT + "/"):
        return p[len(ROOT) + 1:]
    return None


def die():
    os._exit(99)


def _ask(op, rel):
    """Applies a directive that happens before the operation; returns the rest."""
    d = HANDLER(op, rel)
    if d is None:
        return None
    if d[0] == "crash":
        die()
    if d[0] == "err":
        raise OSError(d[1], os.strerror(d[1]) + " (injected)", rel)
    if d[0] == "raise":
        raise {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[d[1]]("injected")
    return d


def _after(d):
    if d is not None and d[0] == "crash_after":
        die()
    if d is not None and d[0] == "err_after":
        raise OSError(d[1], os.strerror(d[1]) + " (injected, operation done)")


class SimFile(io.FileIO):
    rel = None

    def write(self, b):
        if HANDLER is None:
            return io.FileIO.write(self, b)
        d = _ask("write", self.rel)
        if d is not None and d[0] in ("crash_mid", "err_mid", "short"):
            b = memoryview(b).cast("B")
            n = max(1, int(len(b) * d[-1])) if d[0] == "short" else int(len(b) * d[-1])
            n = io.FileIO.write(self, b[:n]) if n else 0
            if d[0] == "crash_mid":
                die()
            if d[0] == "err_mid":
                raise OSError(d[1], os.strerror(d[1]) + " (injected)", self.rel)
            return n
        n = io.FileIO.write(self, memoryview(b).cast("B")[:IOBUF])
        _after(d)
        return n

    def readinto(self, b):
        if HANDLER is None:
            return io.FileIO.readinto(self, b)
        d = _ask("read", self.rel)
        if d is not None and d[0] == "short":
            b = memoryview(b).cast("B")
            return io.FileIO.readinto(self, b[:max(1, int(len(b) * d[-1]))])
        n = io.FileIO.readinto(self, b)
        _after(d)
        return n

    def readall(self):
        if HANDLER is not None:
            _ask("read", self.rel)
        return io.FileIO.readall(self)

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        if HANDLER is not None:
            _ask("read", self.rel)
        return io.FileIO.read(self, n)

    def truncate(self, size=None):
        if HANDLER is not None:
            _after(_ask("truncate", self.rel))
        return io.FileIO.truncate(self, size)

    def close(self):
        if self.closed or HANDLER is None:
            return io.FileIO.close(self)
        w = self.writable()
        try:
            d = _ask("close" if w else "closer", self.rel)
        except BaseException:
            io.FileIO.close(self)
            raise
        io.FileIO.close(self)
        _after(d)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    rel = _rel(file)
    if rel is None:
        return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    write = any(c in mode for c in "wax+")
    op = "open" + ("w" if write else "r")
    d = _ask(op, rel) if not isinstance(file, int) else None
    raw = SimFile(file, "".join(c for c in mode if c in "rwxa+") or "r", closefd, opener)
    raw.rel = rel
    _after(d)
    if buffering == 0:
        return raw
    size = IOBUF if buffering in (-1, 1) else buffering
    if "+" in mode:
        buf = io.BufferedRandom(raw, size)
    elif write:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if "b" in mode:
        return buf
    t = io.TextIOWrapper(buf, io.text_encoding(encoding) if encoding is None else encoding, errors, newline, buffering == 1)
    t.mode = mode
    return t


def _dirpath(path, dir_fd):
    if dir_fd is None or isinstance(path, int):
        return path
    try:
        base = _os["readlink"]("/proc/self/fd/%d" % dir_fd)
    except OSError:
        return path
    return os.path.join(base, os.fsdecode(path))


def _wrap(name, op, two=False):
    real = getattr(os, name)
    _os[name] = real

    def f(path=".", *a, **k):
        if HANDLER is None:
            return real(path, *a, **k)
        p = path
        if not isinstance(path, int):
            fd = k.get("dir_fd", k.get("src_dir_fd"))
            if fd is not None:
                p = _dirpath(path, fd)
        rel = _rel(p)
        if two and rel is None:
            rel = _rel(_dirpath(a[0], k.get("dst_dir_fd")) if a else k.get("dst"))
        if rel is None:
            return real(path, *a, **k)
        d = _ask(op, rel)
        r = real(path, *a, **k)
        _after(d)
        return r
    f.__name__ = name
    setattr(os, name, f)
    # shutil and others ask which functions support dir_fd and fd
    for s in (os.supports_dir_fd, os.supports_fd, os.supports_follow_symlinks, os.supports_effective_ids):
        if real in s:
            s.add(f)


def _os_open(real):
    def f(path, flags, mode=0o777, *, dir_fd=None):
        rel = _rel(_dirpath(path, dir_fd)) if HANDLER is not None else None
        if rel is None:
            return real(path, flags, mode, dir_fd=dir_fd)
        d = _ask("openw" if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT) else "openr", rel)
        r = real(path, flags, mode, dir_fd=dir_fd)
        _after(d)
        return r
    return f


def _os_write(real):
    def f(fd, data):
        rel = _rel(fd) if HANDLER is not None else None
        if rel is None:
            return real(fd, data)
        d = _ask("write", rel)
        if d is not None and d[0] in ("crash_mid", "err_mid", "short"):
            n = real(fd, data[:max(1, int(len(data) * d[-1]))])
            if d[0] == "crash_mid":
                die()
            if d[0] == "err_mid":
                raise OSError(d[1], os.strerror(d[1]) + " (injected)")
            return n
        n = real(fd, data)
        _after(d)
        return n
    return f


class _Hash:
    """sha256 under which each published stand-in file has the checksum the code expects."""

    def __init__(self, data=b"", **k):
        self.h = _sha256(data)

    name, digest_size, block_size = "sha256", 32, 64

    def update(self, b):
        self.h.update(b)

    def copy(self):
        o = _Hash()
        o.h = self.h.copy()
        return o

    def hexdigest(self):
        x = self.h.hexdigest()
        return CHECKSUMS.get(x, x)

    def digest(self):
        return bytes.fromhex(self.hexdigest())


_sha256 = hashlib.sha256
_new = hashlib.new
CHECKSUMS = {}


def _hash_new(name, data=b"", **k):
    if name.lower().replace("-", "") == "sha256":
        return _Hash(data)
    return _new(name, data, **k)


class Body(io.RawIOBase):
    """A response body; reads are short, as a socket's are."""

    def __init__(self, url, data):
        self.url, self.data, self.pos = url, data, 0

    def readable(self):
        return True

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        b = bytearray(n)
        k = self.readinto(b)
        return bytes(b[:k])

    def readinto(self, b):
        d = HANDLER("net_read", self.url) if HANDLER is not None else None
        if d is not None:
            if d[0] == "crash":
                die()
            if d[0] == "raise":
                raise KeyboardInterrupt("injected")
            if d[0] == "net":
                raise {"reset": ConnectionResetError(104, "Connection reset by peer (injected)"),
                       "timeout": socket.timeout("timed out (injected)"),
                       "incomplete": http.client.IncompleteRead(b"", 10)}.get(d[1]) or ConnectionAbortedError(103, "aborted (injected)")
        n = min(len(b), CHUNK, len(self.data) - self.pos)
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


def _net_open(self, fullurl, data=None, timeout=None):
    global REQUESTS
    url = fullurl if isinstance(fullurl, str) else fullurl.full_url
    REQUESTS += 1
    d = HANDLER("net_open", url) if HANDLER is not None else None
    if d is not None and d[0] == "crash":
        die()
    if d is not None and d[0] == "raise":
        raise KeyboardInterrupt("injected")
    if not ONLINE:
        raise urllib.error.URLError(OSError(113, "No route to host (injected)"))
    kind = d[1] if d is not None and d[0] == "net" else None
    frac = d[2] if kind else 0
    if kind == "refused":
        raise urllib.error.URLError(ConnectionRefusedError(111, "Connection refused (injected)"))
    if kind in ("404", "503"):
        raise urllib.error.HTTPError(url, int(kind), "injected", email.message.Message(), io.BytesIO(b"error"))
    if kind == "timeout":
        raise urllib.error.URLError(socket.timeout("timed out (injected)"))
    if url not in PUBLISHED:
        raise urllib.error.HTTPError(url, 404, "not known to the simulated servers", email.message.Message(), io.BytesIO(b""))
    body = PUBLISHED[url]
    length = len(body)
    if kind == "cut":            # connection closed early, length announced
        body = body[:int(len(body) * frac)]
    elif kind == "cut_nolength":  # same, without an announced length
        body = body[:int(len(body) * frac)]
        length = None
    elif kind == "flip":
        k = int((len(body) - 1) * frac)
        body = body[:k] + bytes([body[k] ^ 0x10]) + body[k + 1:]
    elif kind == "html":
        body = b"<html><body>Please log in to the network</body></html>"
        length = len(body)
    elif kind == "dup":          # a block sent twice
        k = int(len(body) * frac)
        body = body[:k] + body[max(0, k - 64):k] + body[k:]
        length = len(body)
    elif kind == "older":        # another version of the file
        body = OLDER[url]() if url in OLDER else body[:-1]
        length = len(body)
    h = email.message.Message()
    if length is not None:
        h["Content-Length"] = str(length)
    return urllib.response.addinfourl(Body(url, body), h, url, 200)


def install():
    """Before wildwood is imported."""
    import fcntl
    for n, op in (("stat", "stat"), ("lstat", "stat"), ("mkdir", "mkdir"), ("rmdir", "rmdir"), ("unlink", "unlink"),
                  ("remove", "unlink"), ("listdir", "list"), ("scandir", "list"), ("truncate", "truncate"),
                  ("chmod", "attr"), ("utime", "attr"), ("access", "stat")):
        _wrap(n, op)
    for n, op in (("rename", "replace"), ("replace", "replace"), ("link", "replace"), ("symlink", "replace")):
        _wrap(n, op, True)
    _os["readlink"] = os.readlink
    for n, mk in (("open", _os_open), ("write", _os_write)):
        real = getattr(os, n)
        new = mk(real)
        setattr(os, n, new)
        if real in os.supports_dir_fd:
            os.supports_dir_fd.add(new)
    builtins.open = io.open = sim_open
    for m in (bz2, lzma):
        if hasattr(m, "_builtin_open"):
            m._builtin_open = sim_open
    tempfile._io.open = sim_open
    shutil._USE_CP_SENDFILE = False
    shutil._use_fd_functions = True
    hashlib.sha256 = _Hash
    hashlib.new = _hash_new
    urllib.request.OpenerDirector.open = _net_open
    real_flock, real_lockf = fcntl.flock, fcntl.lockf

    def lock(real):
        def f(fd, flags, *a):
            if HANDLER is None or flags & (fcntl.LOCK_NB | fcntl.LOCK_UN):
                if HANDLER is not None:
                    HANDLER("lock", "lock")
                return real(fd, flags, *a)
            while True:
                try:
                    HANDLER("lock", "lock")
                    return real(fd, flags | fcntl.LOCK_NB, *a)
                except BlockingIOError:
                    HANDLER("yield", "lock")
        return f
    fcntl.flock, fcntl.lockf = lock(real_flock), lock(real_lockf)


# ------------------------------------------------------------------ published data
PUBLISHED = {}
OLDER = {}
LOADERS = {}   # name -> list of urls
EXPECT = {}    # name -> (columns, rows) a harness-side reading of the published data, for the raw form
NAMES = ("adult", "bank", "car", "amazon", "internet", "kick", "higgs", "epsilon", "default_cb")


def sources(pkg):
    """url -> checksum pairs written in the loaders' source, in order."""
    out = {}
    for fn in sorted(_os_listdir(pkg)):
        if not fn.endswith(".py"):
            continue
        tree = ast.parse(_open(os.path.join(pkg, fn)).read())
        strs = []
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str):
                strs.append((n.lineno, n.col_offset, n.value))
        strs.sort()
        urls = [s for s in strs if re.match(r"https?://\S+$", s[2])]
        for s in strs:
            if re.fullmatch(r"[0-9a-f]{64}", s[2]):
                near = min(urls, key=lambda u: abs(u[0] - s[0]) + (0.5 if u[0] > s[0] else 0), default=None)
                if near:
                    out[near[2]] = s[2]
    return out


_os_listdir = os.listdir

KICK = ["PurchDate", "Auction", "VehYear", "VehicleAge", "Make", "Model", "Trim", "SubModel", "Color", "Transmission",
        "WheelTypeID", "WheelType", "VehOdo", "Nationality", "Size", "TopThreeAmericanName",
        "MMRAcquisitionAuctionAveragePrice", "MMRAcquisitionAuctionCleanPrice", "MMRAcquisitionRetailAveragePrice",
        "MMRAcquisitonRetailCleanPrice", "MMRCurrentAuctionAveragePrice", "MMRCurrentAuctionCleanPrice",
        "MMRCurrentRetailAveragePrice", "MMRCurrentRetailCleanPrice", "PRIMEUNIT", "AUCGUART", "BYRNO", "VNZIP1",
        "VNST", "VehBCost", "IsOnlineSale", "WarrantyCost"]
KICK_INT = {"PurchDate", "VehYear", "VehicleAge", "VehOdo", "WarrantyCost"}
BANK = "age job marital education default balance housing loan contact day month duration campaign pdays previous poutcome y".split()
AMAZON = ["target", "RESOURCE", "MGR_ID", "ROLE_ROLLUP_1", "ROLE_ROLLUP_2", "ROLE_DEPTNAME", "ROLE_TITLE",
          "ROLE_FAMILY_DESC", "ROLE_FAMILY", "ROLE_CODE"]
CB = ["ID", "LIMIT_BAL", "SEX", "EDUCATION", "MARRIAGE", "AGE", "PAY_0", "PAY_2", "PAY_3", "PAY_4", "PAY_5", "PAY_6",
      "BILL_AMT1", "BILL_AMT2", "BILL_AMT3", "BILL_AMT4", "BILL_AMT5", "BILL_AMT6", "PAY_AMT1", "PAY_AMT2", "PAY_AMT3",
      "PAY_AMT4", "PAY_AMT5", "PAY_AMT6", "default payment next month"]


def _biff2(rows):
    b = bytearray(struct.pack("<HHHH", 0x0009, 4, 0x0007, 0x0010))
    for i, row in enumerate(rows):
        for j, v in enumerate(row):
            if isinstance(v, str):
                s = v.encode("latin-1")
                b += struct.pack("<HHHH3sB", 0x0004, 8 + len(s), i, j, b"\0\0\0", len(s)) + s
            else:
                b += struct.pack("<HHHH3sd", 0x0003, 15, i, j, b"\0\0\0", float(v))
    return bytes(b) + struct.pack("<HH", 0x000A, 0)


ROWS = (60, 900, 12000)  # sizes of the published data sets


def make_file(name, version, n=60):
    """The published files of one data set: {part: bytes}, and the rows as the user must get them."""
    rng = random.Random("%s-%d" % (name, version))

    def word():
        return "".join(rng.choice("abcdefghij") for _ in range(rng.randint(2, 5)))
    if name == "adult":
        cols = ["age", "workclass", "fnlwgt", "education", "education-num", "marital-status", "occupation", "relationship",
                "race", "sex", "capital-gain", "capital-loss", "hours-per-week", "native-country", ">50K?"]
        ints = {0, 2, 4, 10, 11, 12}

        def part(k, dot):
            rows, text = [], "|1x3 Cross validator\n"
            for i in range(k):
                r = [rng.randrange(10000) if j in ints else " " + word() for j in range(14)]
                lab = rng.choice((" >50K", " <=50K"))
                rows.append(r + [lab])
                text += ",".join([str(r[0])] + [(" " + str(x) if not isinstance(x, str) else x) for x in r[1:]] + [lab + dot]) + "\n"
            return rows, text.encode()
        r1, t1 = part(n, "")
        r2, t2 = part(n // 2, ".")
        return {"adult.data": t1, "adult.test": t2}, cols, r1 + r2
    if name == "bank":
        ints = {0, 5, 9, 11, 12, 13, 14}
        rows = [[rng.randrange(20, 90000) if j in ints else word() for j in range(16)] + [rng.choice(("yes", "no"))] for _ in range(n)]
        text = ";".join('"%s"' % c for c in BANK) + "\n" + "".join(
            ";".join(str(x) if not isinstance(x, str) else '"%s"' % x for x in r) + "\n" for r in rows)
        f = io.BytesIO()
        z = zipfile.ZipFile(f, "w", zipfile.ZIP_DEFLATED)
        for nm, data in (("bank-full.csv", text), ("bank-names.txt", "names " * 50), ("bank.csv", text[:500])):
            zi = zipfile.ZipInfo(nm, (2014, 3, 1, 0, 0, 0))
            zi.compress_type = zipfile.ZIP_DEFLATED
            z.writestr(zi, data)
        z.close()
        return {"bank.zip": f.getvalue()}, BANK, rows
    if name == "car":
        cols = ["Buying", "Maint", "Doors", "Persons", "LugBoot", "Safety", "Evaluation"]
        rows = [[word() for _ in range(6)] + [rng.choice(("unacc", "acc", "good"))] for _ in range(n)]
        return {"car.data": "".join(",".join(r) + "\n" for r in rows).encode()}, cols, rows
    if name == "amazon":
        rows = [[rng.randrange(2)] + [rng.randrange(100000) for _ in range(9)] for _ in range(n)]
        return {"f": (",".join('"%s"' % c for c in AMAZON) + "\n" + "".join(",".join(map(str, r)) + "\n" for r in rows)).encode()}, AMAZON, rows
    if name == "internet":
        cols = ["Actual_Time"] + ["Q%d" % i for i in range(8)] + ["who"]
        rows = [[rng.choice(("Other", "Consultant", "Sales"))] + [rng.choice((word(), word(), "?")) for _ in range(8)] + ["w%d" % i] for i in range(n)]
        return {"f": (",".join(cols) + "\n" + "".join(",".join("" if x == "?" else x for x in r) + "\n" for r in rows)).encode()}, cols, rows
    if name == "kick":
        cols = ["IsBadBuy"] + KICK
        rows = []
        for _ in range(n):
            r = [rng.randrange(2)]
            for c in KICK:
                if c in KICK_INT:
                    r.append(rng.randrange(10 ** 6))
                elif "Price" in c or c == "VehBCost":
                    r.append(None if rng.random() < 0.1 else rng.randrange(10 ** 6) + 0.5)
                else:
                    r.append(word())
            rows.append(r)
        return {"f": (",".join(cols) + "\n" + "".join(",".join("?" if x is None else str(x) for x in r) + "\n" for r in rows)).encode()}, cols, rows
    if name == "higgs":
        rows = [[float(rng.randrange(2))] + [rng.randrange(-4096, 4096) / 1024 for _ in range(28)] for _ in range(n)]
        return {"HIGGS.csv.gz": gzip.compress("".join(",".join("%.10e" % x for x in r) + "\n" for r in rows).encode(), mtime=0)}, list(range(29)), rows
    if name == "epsilon":
        def part(k):
            rows = [[rng.choice((-1, 1))] + [rng.randrange(1, 4096) / 4096 for _ in range(7)] for _ in range(k)]
            return rows, bz2.compress("".join("%d " % r[0] + " ".join("%d:%r" % (i + 1, x) for i, x in enumerate(r[1:])) + "\n" for r in rows).encode())
        r1, b1 = part(n)
        r2, b2 = part(n // 2)
        rows = [[float(max(0, r[0]))] + r[1:] for r in r1 + r2]
        return {"normalized.bz2": b1, "normalized.t.bz2": b2}, [str(i) for i in range(8)], rows
    if name == "default_cb":
        rows = [[i + 1] + [rng.randrange(-2, 90000) for _ in range(23)] + [rng.randrange(2)] for i in range(n // 2)]
        return {"f": _biff2([["", "X1", "X2"], CB] + rows)}, CB, rows
    raise KeyError(name)


def publish(repo):
    """Stand-in files for every url the loaders know, with the checksums their source expects."""
    global PUBLISHED
    pkg = os.path.join(repo, "wildwood", "datasets")
    sums = sources(pkg)
    keys = {"adult": "/adult.", "bank": "bank.zip", "car": "/car.", "amazon": "phpmPOD5A", "internet": "internet_usage",
            "kick": "kick.arff", "higgs": "HIGGS", "epsilon": "epsilon_normalized", "default_cb": "credit%20card"}
    for name in NAMES:
        SOURCES[name] = sorted((u for u in sums if keys[name] in u), key=len), sums
        LOADERS.update({name: SOURCES[name][0]} if SOURCES[name][0] else {})
        use(name, 0)


SOURCES = {}
SCALE = 0


def use(name, scale):
    """Publishes the data set in this size."""
    files, cols, rows = make_file(name, 1, ROWS[scale])
    urls, sums = SOURCES[name]
    for u in urls:
        k = next((k for k in sorted(files, key=len, reverse=True) if k in u), None) or ("f" if "f" in files else None)
        if k is None:
            continue
        PUBLISHED[u] = files[k]
        OLDER[u] = lambda k=k: make_file(name, 0, ROWS[scale])[0][k]
        CHECKSUMS[_sha256(files[k]).hexdigest()] = sums[u]
    EXPECT[name] = (cols, rows)


def set_scale(scale, names):
    """Larger files travel in larger pieces, so that a load takes about as many operations."""
    global IOBUF, CHUNK, SCALE
    SCALE = scale
    if scale:
        for n in names:
            if n in LOADERS:
                use(n, scale)
        k = ROWS[scale] // ROWS[0]
        IOBUF, CHUNK = 512 * k, 700 * k


def loader(name):
    import importlib
    import wildwood.datasets as d
    f = getattr(d, "load_" + name, None)
    if f is None:
        f = getattr(importlib.import_module("wildwood.datasets._" + name), "load_" + name)
    return f


def canon(v):
    """What a loader returned, as a plain value."""
    import pandas as pd
    import numpy as np

    def col(c):
        return None if c is None else str(c)

    def frame(df):
        if isinstance(df, pd.Series):
            df = df.to_frame()
        out = []
        for j, c in enumerate(df.columns):
            s = df.iloc[:, j]
            vals = [None if isinstance(x, float) and x != x else (x.item() if isinstance(x, np.generic) else x) for x in s.tolist()]
            extra = [str(x) for x in s.cat.categories] if isinstance(s.dtype, pd.CategoricalDtype) else None
            out.append([col(c), str(s.dtype), extra, vals])
        return [len(df), out]
    if isinstance(v, tuple):
        return ["tuple"] + [frame(x) for x in v]
    return ["dataset", v.name, v.task, col(v.label_column), [col(c) for c in v.continuous_columns or []],
            [col(c) for c in v.categorical_columns or []], frame(v.df_raw)]


def agrees(name, raw, c):
    """Compares a canonical result with the harness's own reading of the published rows; None or text."""
    cols, rows = EXPECT[name]
    frames = [f for f in c if isinstance(f, list) and len(f) == 2 and isinstance(f[0], int)]
    got = {}
    for f in frames:
        if f[0] != len(rows):
            return "%d rows instead of the %d published ones" % (f[0], len(rows))
        for i, (nm, _, _, vals) in enumerate(f[1]):
            got[nm] = vals
    drop = {"internet": {"who"}, "default_cb": {"ID"}}.get(name, set())
    if name == "epsilon" and raw:  # two frames with columns 0.. each
        x, y = frames[0][1], frames[1][1]
        got = {"0": y[0][3]}
        got.update({str(int(nm) + 1): v for nm, _, _, v in x})
    for j, cn in enumerate(cols):
        if cn in drop:
            continue
        if str(cn) not in got:
            return "column %r is missing" % cn
        for r, x in zip(rows, got[str(cn)]):
            e = r[j]
            same = (e is None and x is None) or str(e) == str(x)
            if not same:
                try:
                    same = abs(float(e) - float(x)) <= 1e-5 * max(1, abs(float(e)))
                except (TypeError, ValueError):
                    same = False
            if not same:
                return "column %r: %r instead of %r" % (cn, x, e)
    return None


def digest_of(c):
    import json
    return _sha256(json.dumps(c, default=str).encode()).hexdigest()[:24]
