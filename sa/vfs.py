"""
Abstract file system for the interpreter: paths are concrete strings, file contents are opaque
chunks, every mutation is an event, and the state after each event is what a crash or a concurrent
process can observe.
"""

import posixpath

from .absint import Dom, Exc, PyRaise, vkey


class Blob(Dom):
    """result of serialising a value (the whole value, faithfully)"""

    def __init__(self, v):
        self.v = v
        self.k = "pickle:" + (v.k if isinstance(v, Blob) else repr(v) if isinstance(v, (str, int, bytes)) else vkey(v))

    def __repr__(self):
        return f"<{self.k}>"

    def __eq__(self, o):
        return isinstance(o, Blob) and o.k == self.k

    def __hash__(self):
        return hash(self.k)

    def __getitem__(self, i):
        return repr(self).encode()[i]

    def __len__(self):
        return len(self.k)

    def hex(self):
        return repr(self).encode().hex()

    def __radd__(self, o):
        return (o if isinstance(o, bytes) else str(o).encode()) + repr(self).encode()

    def __add__(self, o):
        return repr(self).encode() + (o if isinstance(o, bytes) else repr(o).encode())

    def decode(self, *a):
        return repr(self)


class VFile(Dom):
    def __init__(self, fs, path, mode, encoding=None):
        self.fs, self.path, self.mode, self.encoding = fs, path, mode, encoding
        self.name = path
        self.closed = False
        self.pending = []

    def dom_enter(self):
        return self

    def __enter__(self):
        return self

    def dom_exit(self):
        self.close()

    def write(self, x):
        if not any(c in self.mode for c in "wax+"):
            raise PyRaise(Exc("UnsupportedOperation"), None)
        # a chunk reaches the file in two observable steps: first a part of it, then all of it
        cur = self.fs.files[self.path]
        self.fs.set(self.path, cur + [("part", x)], "write")
        self.fs.set(self.path, cur + [x], "write")
        return 0

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def read(self, *a):
        c = self.fs.files[self.path]
        self.fs.event("read", self.path)
        if all(isinstance(x, str) for x in c):
            return "".join(c)
        if all(isinstance(x, bytes) for x in c):
            return b"".join(c)
        return c[0] if len(c) == 1 else Blob(tuple(map(vkey, c)))

    def readlines(self):
        return self.read().splitlines(keepends=True)

    def flush(self):
        pass

    def fileno(self):
        return self

    def seek(self, *a):
        return 0

    def close(self):
        if not self.closed:
            self.closed = True
            self.fs.event("close", self.path)


class VPath(Dom):
    def __init__(self, fs, p):
        self.fs, self.p = fs, posixpath.normpath(str(p))

    def __truediv__(self, o):
        return VPath(self.fs, posixpath.join(self.p, str(o)))

    def __rtruediv__(self, o):
        return VPath(self.fs, posixpath.join(str(o), self.p))

    def __str__(self):
        return self.p

    __fspath__ = as_posix = __str__

    def __repr__(self):
        return self.p

    def __eq__(self, o):
        return isinstance(o, VPath) and o.p == self.p

    def __hash__(self):
        return hash(self.p)

    def dom_isinstance(self, names):
        return bool({"Path", "PurePath", "PosixPath"} & set(names))

    @property
    def name(self):
        return posixpath.basename(self.p)

    @property
    def stem(self):
        return posixpath.splitext(self.name)[0]

    @property
    def suffix(self):
        return posixpath.splitext(self.name)[1]

    @property
    def parent(self):
        return VPath(self.fs, posixpath.dirname(self.p))

    @property
    def parts(self):
        return tuple(x for x in self.p.split("/") if x)

    def with_suffix(self, s):
        return VPath(self.fs, posixpath.splitext(self.p)[0] + s)

    def with_name(self, s):
        return VPath(self.fs, posixpath.join(posixpath.dirname(self.p), str(s)))

    def joinpath(self, *a):
        return VPath(self.fs, posixpath.join(self.p, *map(str, a)))

    def exists(self):
        return self.fs.exists(self.p)

    def is_file(self):
        return self.p in self.fs.files

    def is_dir(self):
        return self.p in self.fs.dirs

    def mkdir(self, mode=0o777, parents=False, exist_ok=False):
        self.fs.mkdir(self.p, parents, exist_ok)

    def expanduser(self):
        return self

    resolve = absolute = expanduser

    def open(self, mode="r", buffering=-1, encoding=None, errors=None, newline=None):
        return self.fs.open(self.p, mode, encoding)

    def read_text(self, encoding=None, errors=None):
        return self.fs.open(self.p, "r", encoding).read()

    def read_bytes(self):
        return self.fs.open(self.p, "rb").read()

    def write_text(self, x, encoding=None, errors=None):
        with self.fs.open(self.p, "w", encoding) as f:
            f.write(x)

    def write_bytes(self, x):
        with self.fs.open(self.p, "wb") as f:
            f.write(x)

    def __exit__(self, *a):
        pass

    def unlink(self, missing_ok=False):
        self.fs.unlink(self.p, missing_ok)

    def replace(self, t):
        self.fs.replace(self.p, str(t))
        return VPath(self.fs, t)

    rename = replace

    def touch(self, *a, **k):
        self.fs.set(self.p, self.fs.files.get(self.p, []), "touch")

    def stat(self):
        fs, p = self.fs, self.p

        class St(Dom):
            st_size = sum(len(x) if hasattr(x, "__len__") else 1 for x in fs.files.get(p, []))
            st_mtime = 0.0

        return St()


VFile.__exit__ = lambda self, *a: self.close()


class FS:
    """event log + observable states; `watch` paths have their content recorded after every event"""

    def __init__(self, files=None, pid=4242):
        self.files = {posixpath.normpath(k): list(v) for k, v in (files or {}).items()}
        self.dirs = {"/", "/home", "/home/u", "/tmp", "/proj"}
        self.log = []
        self.observed = {}
        self.pid = pid
        self.serial = 0
        self.popen = []
        self.unpicklable = set()
        self.rc = 0

    def norm(self, p):
        return posixpath.normpath(str(p))

    def event(self, kind, path, *x):
        self.log.append((kind, path) + x)

    def set(self, p, content, kind):
        self.files[p] = content
        self.observed.setdefault(p, []).append(tuple(content))
        self.event(kind, p)

    def exists(self, p):
        p = self.norm(p)
        return p in self.files or p in self.dirs

    def mkdir(self, p, parents=False, exist_ok=False):
        p = self.norm(p)
        if p in self.dirs and not exist_ok:
            raise PyRaise(Exc("FileExistsError"), None)
        while p and p not in self.dirs:
            self.dirs.add(p)
            p = posixpath.dirname(p)
            if not parents:
                break

    def open(self, p, mode="r", encoding=None):
        p = self.norm(p)
        if "r" in mode:
            if p not in self.files:
                raise PyRaise(Exc("FileNotFoundError"), None)
        else:
            if posixpath.dirname(p) not in self.dirs:
                raise PyRaise(Exc("FileNotFoundError"), None)
            if "x" in mode and p in self.files:
                raise PyRaise(Exc("FileExistsError"), None)
            if "a" not in mode or p not in self.files:
                self.set(p, [], "create")
        self.event("open", p, mode, encoding)
        return VFile(self, p, mode, encoding)

    def unlink(self, p, missing_ok=False):
        p = self.norm(p)
        if p not in self.files:
            if missing_ok:
                return
            raise PyRaise(Exc("FileNotFoundError"), None)
        del self.files[p]
        self.observed.setdefault(p, []).append(None)
        self.event("unlink", p)

    def replace(self, a, b):
        a, b = self.norm(a), self.norm(b)
        if a not in self.files:
            raise PyRaise(Exc("FileNotFoundError"), None)
        c = self.files.pop(a)
        self.set(b, c, "replace")

    def copy(self, a, b):
        a, b = self.norm(a), self.norm(b)
        if a not in self.files:
            raise PyRaise(Exc("FileNotFoundError"), None)
        self.set(b, [], "create")
        self.set(b, list(self.files[a]), "write")

    # ------------------------------------------------------------ transfer functions
    def models(self):
        import hashlib as hl

        fs = self

        def enc(x):
            return x if isinstance(x, (bytes, bytearray)) else repr(x).encode()

        def mkhash(alg):
            class H(Dom):
                def __init__(self, data=b""):
                    self.h = hl.new(alg, enc(data) if data != b"" else b"")

                def update(self, d):
                    self.h.update(enc(d))

                def hexdigest(self):
                    return self.h.hexdigest()

                def digest(self):
                    return self.h.digest()

            return lambda I, a, k, n: H(*a[:1])

        class Tmp(VFile):
            pass

        def tmpname(dir=None, prefix="tmp", suffix=""):
            fs.serial += 1
            return posixpath.join(str(dir) if dir else "/tmp", f"{prefix or 'tmp'}u{fs.pid}x{fs.serial}{suffix or ''}")

        def named(I, a, k, n):
            p = tmpname(k.get("dir"), k.get("prefix"), k.get("suffix"))
            f = fs.open(p, k.get("mode", a[0] if a else "w+b"), k.get("encoding"))
            if k.get("delete", True):
                c0 = f.close

                def close():
                    c0()
                    if p in fs.files:
                        fs.unlink(p)

                f.close = close
            return f

        def mkstemp(I, a, k, n):
            p = tmpname(k.get("dir", a[2] if len(a) > 2 else None), k.get("prefix", a[1] if len(a) > 1 else None), k.get("suffix", a[0] if a else None))
            return (fs.open(p, "w+b"), p)

        def load(I, a, k, n):
            c = fs.files.get(a[0].path) if isinstance(a[0], VFile) else None
            if c is None or len(c) != 1 or not isinstance(c[0], Blob):
                raise PyRaise(Exc("EOFError" if not c else "UnpicklingError"), n)
            fs.event("load", a[0].path)
            return c[0].v

        def dumps(I, a, k, n):
            if any(a[0] is u for u in fs.unpicklable):
                raise PyRaise(Exc("PicklingError"), n)
            return Blob(a[0])

        def dump(I, a, k, n):
            a[1].write(dumps(I, a, k, n))

        def loads(I, a, k, n):
            if not isinstance(a[0], Blob):
                raise PyRaise(Exc("UnpicklingError"), n)
            return a[0].v

        class Proc(Dom):
            def __init__(self, args, kw):
                self.args, self.kw = args, kw
                self.returncode = None
                self.stdin = None

            def dom_enter(self):
                return self

            def dom_exit(self):
                pass

            def communicate(self, input=None, timeout=None):
                fs.popen.append((tuple(map(str, self.args)), input))
                self.returncode = fs.rc
                text = isinstance(input, str)
                out, err = (formatted(self.args, input), "") if fs.rc == 0 else ("partial", "boom")
                return (out, err) if text else (out.encode(), err.encode())

            def wait(self, *a, **k):
                return fs.rc

            poll = wait

        def formatted(args, data):
            d = data if isinstance(data, bytes) else str(data).encode()
            return f"formatted[{'|'.join(map(str, args[1:]))}|{hl.sha256(d).hexdigest()[:16]}]"

        def prun(I, a, k, n):
            p = Proc(a[0] if a else k["args"], k)
            o, e = p.communicate(k.get("input"))
            if fs.rc and k.get("check"):
                raise PyRaise(Exc("CalledProcessError"), n)
            p.stdout, p.stderr = o, e
            return p

        class SIO(Dom):
            def __init__(self, init=""):
                self.buf = [init] if init else []

            def write(self, x):
                self.buf.append(x)
                return len(x)

            def getvalue(self):
                return "".join(map(str, self.buf))

            def read(self):
                return self.getvalue()

            def seek(self, *a):
                return 0

            def close(self):
                pass

            def dom_enter(self):
                return self

            def dom_exit(self):
                pass

        self.StringIO = SIO

        def mkdirs(I, a, k, n):
            fs.mkdir(a[0], True, k.get("exist_ok", False))

        def fopen(I, a, k, n):
            return fs.open(a[0] if a else k["file"], k.get("mode", a[1] if len(a) > 1 else "r"), k.get("encoding", a[3] if len(a) > 3 else None))

        m = {
            "builtins.open": fopen, "io.open": fopen,
            "pathlib.Path": lambda I, a, k, n: VPath(fs, posixpath.join(*map(str, a)) if a else "."),
            "pathlib.PurePath": lambda I, a, k, n: VPath(fs, posixpath.join(*map(str, a)) if a else "."),
            "appdirs.user_cache_dir": lambda I, a, k, n: "/home/u/.cache/" + (a[0] if a else k.get("appname", "")),
            "os.path.exists": lambda I, a, k, n: fs.exists(a[0]),
            "os.path.isfile": lambda I, a, k, n: fs.norm(a[0]) in fs.files,
            "os.path.isdir": lambda I, a, k, n: fs.norm(a[0]) in fs.dirs,
            "os.path.abspath": lambda I, a, k, n: posixpath.normpath(posixpath.join("/proj", str(a[0]))),
            "os.path.join": lambda I, a, k, n: posixpath.join(*map(str, a)),
            "os.path.dirname": lambda I, a, k, n: posixpath.dirname(str(a[0])),
            "os.path.basename": lambda I, a, k, n: posixpath.basename(str(a[0])),
            "os.path.getsize": lambda I, a, k, n: VPath(fs, a[0]).stat().st_size,
            "os.makedirs": mkdirs, "os.mkdir": mkdirs,
            "os.replace": lambda I, a, k, n: fs.replace(a[0], a[1]),
            "os.rename": lambda I, a, k, n: fs.replace(a[0], a[1]),
            "os.link": lambda I, a, k, n: fs.set(fs.norm(a[1]), list(fs.files[fs.norm(a[0])]), "replace"),
            "os.unlink": lambda I, a, k, n: fs.unlink(a[0]), "os.remove": lambda I, a, k, n: fs.unlink(a[0]),
            "os.getpid": lambda I, a, k, n: fs.pid,
            "os.fdopen": lambda I, a, k, n: a[0], "os.close": lambda I, a, k, n: a[0].close() if isinstance(a[0], VFile) else None,
            "os.fsync": lambda I, a, k, n: None, "os.chmod": lambda I, a, k, n: None, "os.fspath": lambda I, a, k, n: str(a[0]),
            "shutil.copyfile": lambda I, a, k, n: fs.copy(a[0], a[1]), "shutil.copy": lambda I, a, k, n: fs.copy(a[0], a[1]),
            "shutil.copy2": lambda I, a, k, n: fs.copy(a[0], a[1]), "shutil.move": lambda I, a, k, n: fs.replace(a[0], a[1]),
            "tempfile.NamedTemporaryFile": named, "tempfile.mkstemp": mkstemp, "tempfile.gettempdir": lambda I, a, k, n: "/tmp",
            "uuid.uuid4": lambda I, a, k, n: tmpname("", "uuid"), "uuid.uuid1": lambda I, a, k, n: tmpname("", "uuid"),
            "threading.get_ident": lambda I, a, k, n: 7, "time.time": lambda I, a, k, n: 1.0, "time.time_ns": lambda I, a, k, n: 1,
            "secrets.token_hex": lambda I, a, k, n: tmpname("", "tok"),
            "pickle.dumps": dumps, "pickle.dump": dump, "pickle.load": load, "pickle.loads": loads,
            "subprocess.Popen": lambda I, a, k, n: Proc(a[0] if a else k["args"], k), "subprocess.run": prun,
            "io.StringIO": lambda I, a, k, n: SIO(*a[:1]),
            "difflib.context_diff": lambda I, a, k, n: [], "sys.stdout.writelines": lambda I, a, k, n: None, "sys.stdout.write": lambda I, a, k, n: None,
            "builtins.print": lambda I, a, k, n: k["file"].write(" ".join(map(str, a)) + k.get("end", "\n")) if isinstance(k.get("file"), (VFile, SIO)) else None,
            "inspect.getfile": lambda I, a, k, n: "/proj/x.py",
        }
        for alg in ("sha256", "sha1", "md5", "sha512", "sha384", "sha224", "blake2b", "blake2s", "sha3_256"):
            m["hashlib." + alg] = mkhash(alg)
        m["hashlib.new"] = lambda I, a, k, n: mkhash(a[0])(I, a[1:], k, n)
        m["pkgutil.get_data"] = lambda I, a, k, n: f"data[{a[0]}:{a[1]}]".encode() if "missing" not in a[1] else None
        return m
