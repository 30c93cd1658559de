# Runs one simulated machine's Python programs. Every file, clock and randomness operation of
# the program goes to the simulator over a pair of pipes; the interpreter itself is real.
import sys, posix

_rfd, _wfd = posix.dup(0), posix.dup(1)
_null = posix.open("/dev/null", 2)
posix.dup2(_null, 0)
posix.dup2(_null, 1)
posix.close(_null)
posix.set_inheritable(_rfd, False)
posix.set_inheritable(_wfd, False)

import os, io, json, builtins, errno, random, stat as _stat
import types, importlib, importlib.machinery, importlib.util, importlib.abc, traceback
# whatever a program may want, loaded while the real machine is still in view
import pathlib, tempfile, shutil, zipfile, tarfile, contextlib, functools, itertools, re, time
import collections, hashlib, base64, csv, email, email.parser, email.message, configparser
import sysconfig, site, string, struct, textwrap, warnings, logging, copy, glob, fnmatch
import inspect, ast, typing, uuid, datetime, subprocess, secrets
import importlib.metadata, importlib.resources, encodings.idna, encodings.latin_1, encodings.ascii
import linecache, tokenize, locale, platform, argparse, shlex, enum, dataclasses, operator, weakref

_dumps, _loads = json.JSONEncoder(ensure_ascii=True).encode, json.JSONDecoder().decode
_write, _read = posix.write, posix.read
_buf = b""


class Abort(BaseException):
    "The simulated process was killed."


def _send(m):
    b = (_dumps(m) + "\n").encode("ascii")
    while b:
        b = b[_write(_wfd, b):]


def _recv():
    global _buf
    while b"\n" not in _buf:
        d = _read(_rfd, 1 << 20)
        if not d:
            posix._exit(0)
        _buf += d
    line, _, _buf = _buf.partition(b"\n")
    return _loads(line.decode("ascii"))


def rpc(op, *a):
    _send([op, *a])
    r = _recv()
    if "v" in r:
        return r["v"]
    if "e" in r:
        path = next((x for x in a if isinstance(x, str)), None)
        raise OSError(r["e"], errno.errorcode.get(r["e"], "?"), path)
    if "x" in r:
        raise _exc(r["x"])
    raise Abort()


def _exc(x):
    if x == "exit":
        return SystemExit(1)
    return RuntimeError(x)


def _p(path):
    if isinstance(path, int):
        return path
    path = os.fspath(path)
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if "\0" in path:
        raise ValueError("embedded null byte")
    return path


def _at(path, dir_fd):
    if dir_fd is not None:
        raise NotImplementedError("dir_fd is not simulated")
    return _p(path)


# ---------------------------------------------------------------- os

def _st(v):
    return os.stat_result((v[0], v[1], v[2], v[3], 0, 0, v[4], v[5], v[5], v[5]))


def s_stat(path, *, dir_fd=None, follow_symlinks=True):
    if isinstance(path, int):
        return _st(rpc("fstat", path))
    return _st(rpc("stat" if follow_symlinks else "lstat", _at(path, dir_fd)))


def s_lstat(path, *, dir_fd=None):
    return _st(rpc("lstat", _at(path, dir_fd)))


def s_open(path, flags, mode=0o777, *, dir_fd=None):
    return rpc("open", _at(path, dir_fd), flags, mode)


def s_read(fd, n):
    return rpc("read", fd, n).encode("latin-1")


def s_write(fd, data):
    return rpc("write", fd, bytes(data).decode("latin-1"))


def s_access(path, mode, **kw):
    try:
        m = s_stat(path).st_mode
    except OSError:
        return False
    return not (mode & os.X_OK) or _stat.S_ISDIR(m) or bool(m & 0o111)


def s_rename(a, b, *, src_dir_fd=None, dst_dir_fd=None):
    rpc("rename", _at(a, src_dir_fd), _at(b, dst_dir_fd))


class Entry:
    def __init__(self, d, name):
        self.name = name
        self.path = os.path.join(d, name)

    def __fspath__(self):
        return self.path

    def __repr__(self):
        return "<DirEntry %r>" % self.name

    def stat(self, *, follow_symlinks=True):
        return s_stat(self.path, follow_symlinks=follow_symlinks)

    def inode(self):
        return s_lstat(self.path).st_ino

    def _is(self, f, follow):
        try:
            return f(s_stat(self.path, follow_symlinks=follow).st_mode)
        except FileNotFoundError:
            return False

    def is_dir(self, *, follow_symlinks=True):
        return self._is(_stat.S_ISDIR, follow_symlinks)

    def is_file(self, *, follow_symlinks=True):
        return self._is(_stat.S_ISREG, follow_symlinks)

    def is_symlink(self):
        return self._is(_stat.S_ISLNK, False)

    def is_junction(self):
        return False


class Scan:
    def __init__(self, d):
        d = _p(d)
        self._it = iter([Entry(d, n) for n in rpc("listdir", d)])

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def _fd_or_path(op):
    def f(path, *a, dir_fd=None, follow_symlinks=True, **kw):
        return rpc(op, _at(path, dir_fd), *a)
    return f


def s_truncate(path, n):
    if isinstance(path, int):
        rpc("ftruncate", path, n)
    else:
        fd = s_open(path, os.O_WRONLY)
        try:
            rpc("ftruncate", fd, n)
        finally:
            rpc("close", fd)


def s_fdopen(fd, mode="r", buffering=-1, encoding=None, *a, **kw):
    return s_iopen(fd, mode, buffering, encoding, *a, **kw)


def _none(*a, **kw):
    return None


def _no(name):
    def f(*a, **kw):
        raise NotImplementedError("%s is not simulated" % name)
    return f


def s_urandom(n):
    return rpc("random", n).encode("latin-1")


_pid = 0
patch = {
    "stat": s_stat,
    "lstat": s_lstat,
    "fstat": lambda fd: _st(rpc("fstat", fd)),
    "open": s_open,
    "read": s_read,
    "write": s_write,
    "close": lambda fd: rpc("close", fd),
    "lseek": lambda fd, off, wh: rpc("lseek", fd, off, wh),
    "fsync": lambda fd: rpc("fsync", fd if isinstance(fd, int) else fd.fileno()),
    "fdatasync": lambda fd: rpc("fsync", fd if isinstance(fd, int) else fd.fileno()),
    "ftruncate": lambda fd, n: rpc("ftruncate", fd, n),
    "truncate": s_truncate,
    "mkdir": lambda path, mode=0o777, *, dir_fd=None: rpc("mkdir", _at(path, dir_fd), mode),
    "rmdir": lambda path, *, dir_fd=None: rpc("rmdir", _at(path, dir_fd)),
    "unlink": lambda path, *, dir_fd=None: rpc("unlink", _at(path, dir_fd)),
    "remove": lambda path, *, dir_fd=None: rpc("unlink", _at(path, dir_fd)),
    "rename": s_rename,
    "replace": s_rename,
    "symlink": lambda src, dst, target_is_directory=False, *, dir_fd=None: rpc("symlink", _p(src), _at(dst, dir_fd)),
    "link": lambda src, dst, **kw: rpc("link", _p(src), _p(dst)),
    "readlink": lambda path, *, dir_fd=None: rpc("readlink", _at(path, dir_fd)),
    "listdir": lambda path=".": rpc("listdir", _p(path)),
    "scandir": lambda path=".": Scan(path),
    "getcwd": lambda: rpc("getcwd"),
    "getcwdb": lambda: rpc("getcwd").encode(),
    "chdir": lambda path: rpc("chdir", _p(path)),
    "access": s_access,
    "chmod": lambda path, mode, **kw: rpc("chmod", _p(path), mode),
    "fchmod": lambda fd, mode: None,
    "chown": _none,
    "lchown": _none,
    "utime": _none,
    "listxattr": lambda *a, **kw: [],
    "urandom": s_urandom,
    "getrandom": lambda n, flags=0: s_urandom(n),
    "getpid": lambda: _pid,
    "fdopen": s_fdopen,
    "sync": _none,
    "umask": lambda m: 0o022,
    "cpu_count": lambda: 1,
}
for n in "fork forkpty posix_spawn posix_spawnp execv execve system popen pipe pipe2 sendfile copy_file_range dup dup2 kill pread pwrite readv writev openpty splice".split():
    patch[n] = _no(n)
patch["_exit"] = lambda code: (_ for _ in ()).throw(SystemExit(code))

real_os = {n: getattr(os, n) for n in patch if hasattr(os, n)}


# ---------------------------------------------------------------- files

class SimRaw(io.RawIOBase):
    def __init__(self, file, mode="r", closefd=True, opener=None):
        self._closefd = closefd
        plus = "+" in mode
        self._r = "r" in mode or plus
        self._w = any(c in mode for c in "wax") or plus
        flags = os.O_CLOEXEC | (os.O_RDWR if plus else os.O_RDONLY if "r" in mode else os.O_WRONLY)
        if "w" in mode:
            flags |= os.O_CREAT | os.O_TRUNC
        if "x" in mode:
            flags |= os.O_CREAT | os.O_EXCL
        if "a" in mode:
            flags |= os.O_CREAT | os.O_APPEND
        self._fd = -1
        if isinstance(file, int):
            self._fd = file
        elif opener is not None:
            self._fd = opener(file, flags)
        else:
            self._fd = s_open(file, flags, 0o666)
        self.name = file
        self.mode = mode.replace("t", "") if "b" in mode else mode.replace("t", "") + "b"
        if not isinstance(file, int) and _stat.S_ISDIR(_st(rpc("fstat", self._fd)).st_mode):
            rpc("close", self._fd)
            self._fd = -1
            raise IsADirectoryError(errno.EISDIR, "Is a directory", file)
        if "a" in mode:
            rpc("lseek", self._fd, 0, 2)

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        return self._fd

    def isatty(self):
        return False

    def readinto(self, b):
        d = s_read(self._fd, len(b))
        b[:len(d)] = d
        return len(d)

    def write(self, b):
        return s_write(self._fd, b)

    def seek(self, off, wh=0):
        return rpc("lseek", self._fd, off, wh)

    def tell(self):
        return rpc("lseek", self._fd, 0, 1)

    def truncate(self, n=None):
        if n is None:
            n = self.tell()
        rpc("ftruncate", self._fd, n)
        return n

    def close(self):
        if not self.closed:
            fd, self._fd = self._fd, -1
            try:
                super().close()
            finally:
                if fd >= 0 and self._closefd:
                    rpc("close", fd)


def s_iopen(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if not isinstance(file, int):
        file = os.fspath(file)
    binary = "b" in mode
    raw = SimRaw(file, mode.replace("b", "").replace("t", "").replace("U", ""), closefd, opener)
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = 8192 if buffering < 2 else buffering
    if "+" in mode:
        b = io.BufferedRandom(raw, size)
    elif raw.writable():
        b = io.BufferedWriter(raw, size)
    else:
        b = io.BufferedReader(raw, size)
    if binary:
        return b
    t = io.TextIOWrapper(b, encoding or "utf-8", errors, newline, buffering == 1)
    t.mode = mode
    return t


# ---------------------------------------------------------------- imports

_codes = {}


def code_of(src, path):
    k = (bytes(src), path)
    if k not in _codes:
        if len(_codes) > 500:
            _codes.clear()
        _codes[k] = compile(src, path, "exec", dont_inherit=True)
    return _codes[k]


class SimLoader(importlib.abc.SourceLoader):
    def __init__(self, name, path):
        self.name, self.path = name, path

    def get_filename(self, name):
        return self.path

    def get_data(self, path):
        with s_iopen(path, "rb") as f:
            return f.read()

    def path_stats(self, path):
        raise OSError("no caching")

    def source_to_code(self, data, path, *, _optimization=-1):
        return code_of(data, path)


class SimFinder:
    "Modules of the simulated machine; the standard library is the interpreter's own."

    @staticmethod
    def find_spec(name, path=None, target=None):
        if name.partition(".")[0] in sys.stdlib_module_names:
            return None
        last = name.rpartition(".")[2]
        for d in (sys.path if path is None else path):
            for p, pkg in ((d + "/" + last + "/__init__.py", True), (d + "/" + last + ".py", False)):
                try:
                    m = s_stat(p).st_mode
                except OSError:
                    continue
                if not _stat.S_ISREG(m):
                    continue
                return importlib.util.spec_from_file_location(
                    name, p, loader=SimLoader(name, p), submodule_search_locations=[d + "/" + last] if pkg else None)
        return None


class StdFinder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name.partition(".")[0] not in sys.stdlib_module_names:
            return None
        return importlib.machinery.PathFinder.find_spec(name, _real_path if path is None else path)


_real_path = [p for p in sys.path if p]
sys.meta_path[:] = [f for f in sys.meta_path if f is not importlib.machinery.PathFinder] + [StdFinder, SimFinder]

_sim = types.ModuleType("_sim")
_sim.call = lambda hook, *a: rpc("call", hook, list(sys.path), *[None if x is None else os.fspath(x) for x in a])
sys.modules["_sim"] = _sim
# no longer in the standard library; a stand-in that can be patched
_du = types.ModuleType("distutils")
_ds = types.ModuleType("distutils.sysconfig")
_ds.get_python_inc = lambda plat_specific=0, prefix=None: "/include"
_ds.get_python_lib = lambda plat_specific=0, standard_lib=0, prefix=None: "/lib"
_du.sysconfig = _ds
_du.__path__ = []
sys.modules["distutils"] = _du
sys.modules["distutils.sysconfig"] = _ds

shutil._use_fd_functions = False
shutil.rmtree.avoids_symlink_attacks = False
shutil._USE_CP_SENDFILE = False
sys.dont_write_bytecode = True

_real_open = builtins.open
_real_FileIO = io.FileIO
_baseline = set(sys.modules)
_real_time = {n: getattr(time, n) for n in ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "sleep")}
_environ = os.environ


class Names:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def __iter__(self):
        return self

    def __next__(self):
        return "".join(self.r.choices("abcdefghijklmnopqrstuvwxyz0123456789_", k=8))


def enter():
    for n, f in patch.items():
        setattr(os, n, f)
    builtins.open = io.open = s_iopen
    io.FileIO = SimRaw
    time.time = lambda: rpc("now") / 1e9
    time.time_ns = lambda: rpc("now")
    time.monotonic = time.perf_counter = lambda: rpc("mono") / 1e9
    time.monotonic_ns = lambda: rpc("mono")
    time.sleep = lambda s: rpc("sleep", float(s))
    # consulted at import time by the library, so recomputed
    os.supports_dir_fd = set()
    os.supports_fd = set()
    os.supports_follow_symlinks = set()


def leave():
    for n in patch:
        if n in real_os:
            setattr(os, n, real_os[n])
    builtins.open = io.open = _real_open
    io.FileIO = _real_FileIO
    for n, f in _real_time.items():
        setattr(time, n, f)


def run(j):
    global _pid
    _pid = j["pid"]
    env = j["env"]
    os.environ = os._Environ({os.fsencode(k): os.fsencode(v) for k, v in env}, os.environ.encodekey, os.environ.decodekey, os.environ.encodevalue, os.environ.decodevalue)
    out = io.StringIO()
    saved = (sys.argv, sys.path, sys.stdout, sys.stderr, sys.prefix, sys.executable, sys.base_prefix)
    main_saved = sys.modules["__main__"]
    rc, msg = 0, ""
    enter()
    try:
        random.seed(j["seed"])
        tempfile._name_sequence = Names(j["seed"])
        tempfile.tempdir = "/tmp"
        sys.stdout = sys.stderr = out
        sys.argv = list(j["argv"])
        sys.executable = j["prog"]
        sys.prefix = sys.base_prefix = j["prefix"]
        sys.path = [j["stdlib"], j["purelib"]]
        try:
            try:
                with s_iopen(j["purelib"] + "/sitecustomize.py", "rb") as f:
                    cust = f.read()
            except FileNotFoundError:
                cust = b""
            add = site.addsitedir
            site.addsitedir = lambda d, known_paths=None: sys.path.append(str(d))
            try:
                exec(code_of(cust, "sitecustomize"), {"__name__": "sitecustomize"})
            finally:
                site.addsitedir = add
            script = sys.argv[0]
            with s_iopen(script, "rb") as f:
                src = f.read()
            sys.path.insert(0, os.path.dirname(script))
            m = types.ModuleType("__main__")
            m.__file__ = script
            sys.modules["__main__"] = m
            exec(code_of(src, script), m.__dict__)
            m = None
        except SystemExit as e:
            rc = 0 if e.code is None else e.code & 0xFF if isinstance(e.code, int) else 1
            msg = "" if e.code is None or isinstance(e.code, int) else str(e.code)
        except Abort:
            rc, msg = 137, "killed"
        except BaseException as e:
            rc, msg = 1, "".join(traceback.format_exception_only(type(e), e)).strip()
            tb = e.__traceback__
            where = []
            while tb is not None:
                where.append("%s:%d" % (os.path.basename(tb.tb_frame.f_code.co_filename), tb.tb_lineno))
                tb = tb.tb_next
            msg += " [" + " ".join(where[-6:]) + "]"
            del tb, e
        # open files are flushed and closed as at the end of a process
        sys.argv, sys.path, sys.stdout, sys.stderr, sys.prefix, sys.executable, sys.base_prefix = saved
        sys.modules["__main__"] = main_saved
        for n in list(sys.modules):
            if n not in _baseline:
                del sys.modules[n]
        importlib.invalidate_caches()
        gc.collect()
    finally:
        leave()
        os.environ = _environ
    return rc, (msg + " | " + out.getvalue())[:600]


import gc
_baseline = set(sys.modules)
# what the interpreter itself consists of need not be looked at again and again
gc.collect()
gc.freeze()
# (a program must not run differently because of what ran before it)
gc.disable()
sys.unraisablehook = lambda a: None
while True:
    j = _recv()
    rc, msg = run(j)
    _send(["exit", rc, msg])
