"""C11: documentation generation recovers from any crash or partial output.

The real scripts run on a simulated file layer: a scratch directory reached through
patched file primitives, whose listing order, failures, torn writes and crash points the
run's seed decides. Nothing outside the scratch directory can be modified through them.
"""
import builtins
import contextlib
import copy
import errno
import importlib.util
import io
import os
import random
import shutil
import subprocess
import sys
import tempfile


from fsim import core, env

PROPERTY, LEVEL, FAKE_JEIG = "C11", "exploration", False
API, TUT = "gen_API_from_docstrings.py", "gen_tutorials_from_notebooks.py"
ERRNOS = ("ENOSPC", "EIO", "EACCES", "EROFS", "EMFILE", "EDQUOT", "EINTR")


def runs(tier):
    return 24000 if tier == "quick" else 200000


def budget(tier):
    return 60 if tier == "quick" else 1200


# ---------------------------------------------------------------------------
# Simulated file layer
# ---------------------------------------------------------------------------


class SimCrash(BaseException):
    """The process stops here."""


class Escape(BaseException):
    """An attempt to modify something outside the scratch directory."""


class FS:
    on = False

    def __init__(self):
        self.real = {}

    def reset(self, root, seed, fault, ctx):
        self.root = os.path.realpath(root)
        self.r = random.Random(seed)
        self.fault, self.ctx = fault, ctx
        self.n = 0
        self.fired = None      # description of the fault that fired
        self.injected = None   # the injected exception
        self.crashed = False
        self.escaped = None
        self.open_files = []
        self.touched = []      # files modified in this run
        self.log = []

    def inside(self, path):
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(p))), os.path.basename(p))
        return p == self.root or p.startswith(self.root + os.sep)

    def op(self, kind, path, after=None):
        """One file operation: the place where faults strike. Returns True if the caller
        must crash after having performed the operation."""
        if self.crashed:
            raise SimCrash()
        n = self.n
        self.n += 1
        self.ctx.steps += 1
        f = self.fault
        self.log.append((kind, os.path.basename(str(path))))
        if f and n == f["at"] and not self.fired:
            if f["kind"] == "crash":
                self.fired = f"crash at operation {n} ({kind} {os.path.basename(str(path))})"
                self.ctx.fault("crash-" + kind)
                if f.get("after") and kind not in ("read", "open-read", "list", "flush", "truncate"):
                    return True
                self.crash()
            elif f["kind"] == "error":
                self.fired = f"{f['errno']} at operation {n} ({kind} {os.path.basename(str(path))})"
                self.ctx.fault("io-error-" + kind)
                self.injected = OSError(getattr(errno, f["errno"]), "injected failure", str(path))
                raise self.injected
        return False

    def crash(self):
        self.crashed = True
        for f in list(self.open_files):
            f.lose()
        if self.fault.get("power"):
            # not yet synchronised contents are lost, too
            for p in self.touched:
                if self.r.random() < 0.4 and os.path.isfile(p):
                    with self.real["open"](p, "rb") as g:
                        data = g.read()
                    cut = self.r.choice([0, 0, self.r.randrange(len(data) + 1)])
                    with self.real["open"](p, "wb") as g:
                        g.write(data[:cut])
                    self.ctx.fault("lost-write")
        raise SimCrash()

    def deny(self, what, path):
        self.escaped = f"{what} {path}"
        raise Escape(self.escaped)


FSIM = FS()


class SimFile:
    """A file whose written data reach the disk when flushed or closed."""

    def __init__(self, raw, path, mode):
        self._raw, self._path, self._mode = raw, path, mode
        self._writing = any(c in mode for c in "wax+")
        self._buf = []
        self._done = False
        if self._writing:
            FSIM.open_files.append(self)
            FSIM.touched.append(os.path.abspath(path))

    def _persist(self, upto=None):
        data = self._buf
        if data:
            whole = data[0][:0].join(data)
            if upto is not None:
                whole = whole[:upto]
            self._raw.write(whole)
        self._buf = []
        self._raw.flush()

    def lose(self):
        if self._done:
            return
        total = sum(len(x) for x in self._buf)
        cut = FSIM.r.choice([0, FSIM.r.randrange(total + 1), total]) if total else 0
        if total and cut < total:
            FSIM.ctx.fault("torn-write")
        self._persist(cut)
        self._raw.close()
        self._done = True

    def write(self, data):
        if FSIM.crashed:
            raise SimCrash()
        try:
            crash = FSIM.op("write", self._path)
        except OSError:
            self._buf.append(data)
            total = sum(len(x) for x in self._buf)
            self._persist(FSIM.r.randrange(total + 1))
            FSIM.ctx.fault("short-write")
            raise
        self._buf.append(data)
        if crash:
            FSIM.crash()
        return len(data)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def flush(self):
        if self._writing and not self._done:
            FSIM.op("flush", self._path)
            self._persist()

    def read(self, *a):
        FSIM.op("read", self._path)
        self._sync()
        return self._raw.read(*a)

    def readline(self, *a):
        FSIM.op("read", self._path)
        return self._raw.readline(*a)

    def readlines(self, *a):
        FSIM.op("read", self._path)
        return self._raw.readlines(*a)

    def __iter__(self):
        FSIM.op("read", self._path)
        return iter(self._raw)

    def _sync(self):
        if self._writing:
            self._persist()

    def seek(self, *a):
        self._sync()
        return self._raw.seek(*a)

    def tell(self):
        self._sync()
        return self._raw.tell()

    def truncate(self, *a):
        FSIM.op("truncate", self._path)
        self._sync()
        return self._raw.truncate(*a)

    def close(self):
        if self._done:
            return
        if FSIM.crashed or not FSIM.on:
            return self.lose() if FSIM.crashed else self._finish()
        try:
            crash = FSIM.op("close", self._path) if self._writing else False
        except OSError:
            total = sum(len(x) for x in self._buf)
            self._persist(FSIM.r.randrange(total + 1) if total else 0)
            self._raw.close()
            self._done = True
            if self in FSIM.open_files:
                FSIM.open_files.remove(self)
            raise
        self._finish()
        if crash:
            FSIM.crash()

    def _finish(self):
        self._persist()
        self._raw.close()
        self._done = True
        if self in FSIM.open_files:
            FSIM.open_files.remove(self)

    @property
    def closed(self):
        return self._done

    @property
    def name(self):
        return self._path

    @property
    def mode(self):
        return self._mode

    def fileno(self):
        self._sync()
        return self._raw.fileno()

    def writable(self):
        return self._writing

    def readable(self):
        return "r" in self._mode or "+" in self._mode

    @property
    def encoding(self):
        return self._raw.encoding

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()
        return False

    def __del__(self):
        with contextlib.suppress(BaseException):
            self.close()


class SimScandir:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def install():
    R = FSIM.real
    R["open"] = builtins.open
    for n in ("listdir", "scandir", "remove", "unlink", "rename", "replace", "mkdir", "rmdir", "open", "symlink", "link", "truncate", "chmod", "utime", "system"):
        R["os." + n] = getattr(os, n)
    R["Popen"] = subprocess.Popen.__init__

    def sim_open(file, mode="r", *a, **kw):
        if not FSIM.on or isinstance(file, int):
            return R["open"](file, mode, *a, **kw)
        writing = any(c in mode for c in "wax+")
        if not FSIM.inside(file):
            if writing:
                FSIM.deny("open for writing", file)
            return R["open"](file, mode, *a, **kw)
        crash = FSIM.op("open-" + ("write" if writing else "read"), file)
        f = SimFile(R["open"](file, mode, *a, **kw), os.fspath(file), mode)
        if crash:
            FSIM.crash()
        return f

    builtins.open = sim_open
    io.open = sim_open

    def mutating(name, npaths=1):
        real = R["os." + name]

        def call(*a, **kw):
            if not FSIM.on:
                return real(*a, **kw)
            for p in list(a[:npaths]) + [v for k, v in kw.items() if k in ("path", "src", "dst")]:
                if kw.get("dir_fd") is not None or kw.get("src_dir_fd") is not None or isinstance(p, int) or not FSIM.inside(p):
                    FSIM.deny(name, p)
            crash = FSIM.op(name, a[0] if a else "?")
            out = real(*a, **kw)
            if crash:
                FSIM.crash()
            return out

        return call

    for n in ("remove", "unlink", "mkdir", "rmdir", "truncate", "chmod", "utime"):
        setattr(os, n, mutating(n))
    for n in ("rename", "replace", "link", "symlink"):
        setattr(os, n, mutating(n, 2))

    def os_open(path, flags, *a, **kw):
        if FSIM.on and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
            if kw.get("dir_fd") is not None or not FSIM.inside(path):
                FSIM.deny("open for writing", path)
            FSIM.op("open-write", path)
            FSIM.touched.append(os.path.abspath(path))
        return R["os.open"](path, flags, *a, **kw)

    os.open = os_open

    def listdir(path="."):
        if not FSIM.on or isinstance(path, int) or not FSIM.inside(path):
            return R["os.listdir"](path)
        FSIM.op("list", path)
        out = sorted(R["os.listdir"](path))
        FSIM.r.shuffle(out)
        FSIM.ctx.fault("permuted-listing")
        return out

    def scandir(path="."):
        if not FSIM.on or isinstance(path, int) or not FSIM.inside(path):
            return R["os.scandir"](path)
        FSIM.op("list", path)
        with R["os.scandir"](path) as it:
            out = sorted(it, key=lambda e: e.name)
        FSIM.r.shuffle(out)
        FSIM.ctx.fault("permuted-listing")
        return SimScandir(out)

    os.listdir, os.scandir = listdir, scandir

    def system(cmd):
        if FSIM.on:
            FSIM.deny("shell command", cmd)
        return R["os.system"](cmd)

    def popen(self, *a, **kw):
        if FSIM.on:
            FSIM.deny("subprocess", a[:1])
        return R["Popen"](self, *a, **kw)

    os.system = system
    subprocess.Popen.__init__ = popen
    shutil._use_fd_functions = False


# ---------------------------------------------------------------------------
# Inputs
# ---------------------------------------------------------------------------

NAMES = ("alpha", "beta", "gamma", "delta", "eps", "Zeta", "fields", "basis")
CLASSES = ("Solver", "Params", "Box", "Expansion")


def docstring(r, long=False):
    words = ["computes", "returns the", "field", "for each", "layer", "the", "matrix", "vector `x`", "of order 2", "na\u00efve", "(see [1])", "50% of"]
    s = " ".join(r.choice(words) for _ in range(r.randint(2, 6))).capitalize() + "."
    if r.random() < 0.5:
        s += "\n\n" + " ".join(r.choice(words) for _ in range(r.randint(3, 60))) + "."
    if r.random() < 0.5:
        s += "\n\nArgs:\n" + "\n".join(f"    {a}: {r.choice(words)} {r.choice(words)}" for a in r.sample(["x", "y", "wl", "exp"], r.randint(1, 3)))
    if r.random() < 0.4:
        s += "\n\nReturns:\n    " + r.choice(words) + " " + r.choice(words)
    return s


def indent(s, n):
    return "\n".join((" " * n + x) if x else x for x in s.split("\n"))


def function(r, name, pad):
    args = ", ".join(r.sample(["x", "y", "wl", "exp"], r.randint(0, 3)))
    head = ("self, " + args) if pad else args
    out = f"def {name}({head}):\n"
    if r.random() < 0.85:
        out += f'    """{indent(docstring(r), 4).strip()}\n    """\n'
    return indent(out + "    return None\n", pad)


def source_tree(seed, version):
    """{relative path: text}; versions share most of their contents."""
    base = random.Random(f"tree/{seed}")
    tree = {}
    n = base.randint(1, 5)
    dirs = ["", "", "", "sub", "sub/deep", "other"]
    for m in range(n):
        d, name = base.choice(dirs), base.choice(NAMES)
        path = os.path.join(d, name + ".py")
        v = version if base.random() < 0.6 else 0
        r = random.Random(f"module/{seed}/{m}/{v}")
        text = '"""Module."""\nimport os\n\n_PRIVATE = 1\n\n'
        for _ in range(r.randint(0, 4)):
            if r.random() < 0.4:
                text += f"class {r.choice(CLASSES)}:\n" + indent('"""' + indent(docstring(r), 0) + '\n"""', 4) + "\n\n"
                if r.random() < 0.4:
                    text += "    def __init__(self, a, b):\n        '''Initializes it.'''\n        self.a = a\n\n"
                for _ in range(r.randint(0, 3)):
                    text += function(r, r.choice(["run", "_hid", "area", "flip"]), 4) + "\n"
                text += "    z = 1\n\n"
            else:
                text += function(r, r.choice(["solve", "_private", "eig", "norm", "fft"]), 0) + "\n"
        if version and base.random() < 0.15:
            continue  # removed in this version
        tree[path] = text
    if base.random() < 0.5:
        tree["__init__.py"] = '"""Package."""\n'
    tree["notes.txt"] = "not a module\n"
    if base.random() < 0.3:
        tree["sub/data.json"] = "{}"
    return {k: v.encode() for k, v in tree.items()}


def notebooks(seed, version):
    import base64
    import json
    base = random.Random(f"books/{seed}")
    out = {}
    for m in range(base.randint(1, 3)):
        name = base.choice(["intro", "grating", "dipole", "metal grating", "a_1", "a"]) + ".ipynb"
        v = version if base.random() < 0.6 else 0
        r = random.Random(f"book/{seed}/{m}/{v}")
        cells = []
        for _ in range(r.randint(0, 5)):
            if r.random() < 0.4:
                cells.append({"cell_type": "markdown", "source": ["# " + docstring(r)], "metadata": {}})
                continue
            outs = []
            for _ in range(r.randint(0, 2)):
                k = r.random()
                if k < 0.6:
                    data = bytes(r.randrange(256) for _ in range(r.randint(1, 300)))
                    outs.append({"output_type": "display_data", "data": {"image/png": base64.encodebytes(data).decode(), "text/plain": ["<Figure>"]}, "metadata": {}})
                elif k < 0.8:
                    outs.append({"output_type": "stream", "name": "stdout", "text": ["hello\n"]})
                else:
                    outs.append({"output_type": "execute_result", "data": {"text/plain": ["42"]}, "metadata": {}})
            cells.append({"cell_type": "code", "source": ["x = ", str(r.randrange(100))], "outputs": outs, "metadata": {}})
        if version and base.random() < 0.15:
            continue
        out[name] = json.dumps({"cells": cells, "metadata": {}, "nbformat": 4, "nbformat_minor": 5}, indent=1).encode()
    out["readme.txt"] = b"keep\n"
    if base.random() < 0.3:
        out["script.py"] = b"print(1)\n"
    return out


_REAL = {}


def real_inputs(tool):
    if tool not in _REAL:
        base = os.path.join(env.SRC, "fmmax") if tool == "api" else os.path.join(env.REPO, "notebooks")
        tree = {}
        for root, dirs, files in os.walk(base):
            dirs[:] = [d for d in dirs if d != "__pycache__"]
            for f in files:
                p = os.path.join(root, f)
                with open(p, "rb") as g:
                    tree[os.path.relpath(p, base)] = g.read()
        _REAL[tool] = tree
    return _REAL[tool]


def inputs(spec, version):
    if spec["tree"] == "real":
        return real_inputs(spec["tool"])
    return (source_tree if spec["tool"] == "api" else notebooks)(spec["tree"], version)


# ---------------------------------------------------------------------------
# Runs
# ---------------------------------------------------------------------------


def gen(r, i):
    tool = "api" if r.random() < 0.6 else "tut"
    spec = {"tool": tool, "tree": "real" if r.random() < 0.01 else int(r.integers(0, 10**9)), "main": bool(r.random() < 0.2),
            "inplace": bool(tool == "tut" and r.random() < 0.2),
            "outname": str(r.choice(["API", "out", "out dir", "docs [v1]", "a.b"], p=[.4, .2, .15, .15, .1])),
            "slash": bool(r.random() < 0.15), "junk": int(r.integers(0, 10**9)) if r.random() < 0.6 else None, "steps": []}
    n = int(r.integers(1, 4))
    for s in range(n):
        st = {"v": int(r.integers(0, 3)), "seed": int(r.integers(0, 10**9)), "fault": None}
        x = r.random()
        if x < 0.45:
            st["fault"] = {"kind": "crash", "frac": round(float(r.random()), 4), "after": bool(r.random() < 0.5), "power": bool(r.random() < 0.4)}
        elif x < 0.8:
            st["fault"] = {"kind": "error", "frac": round(float(r.random()), 4), "errno": str(r.choice(ERRNOS))}
        elif x < 0.87:
            st["fault"] = {"kind": "torn-input", "frac": round(float(r.random()), 4)}
        spec["steps"].append(st)
    spec["steps"].append({"v": int(r.integers(0, 3)), "seed": int(r.integers(0, 10**9)), "fault": None})
    return spec


def nontrivial(spec):
    return any(s["fault"] for s in spec["steps"]) or spec["junk"] is not None


def setup(ctx):
    fakes = os.path.join(env.VERIF, "fakes_docs")
    if fakes not in sys.path:
        sys.path.insert(0, fakes)
    import docstring_parser  # noqa: F401
    import nbconvert  # noqa: F401
    import nbformat  # noqa: F401
    import runpy  # noqa: F401
    install()
    ctx.mod = {}
    for tool, f in (("api", API), ("tut", TUT)):
        sp = importlib.util.spec_from_file_location("fsim_docs_" + tool, os.path.join(env.REPO, "docs", f))
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        ctx.mod[tool] = m


def write_tree(base, tree):
    for rel, data in tree.items():
        p = os.path.join(base, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)


CLOCK = 10**9  # simulated time of the first step, in seconds


def stamp(bases, now):
    """Gives files modified in the current step their simulated modification time."""
    for base in bases:
        for root, _, files in os.walk(base):
            for f in files:
                p = os.path.join(root, f)
                if not os.path.islink(p) and os.stat(p).st_mtime > 1.5 * CLOCK:
                    os.utime(p, (now, now))


def snapshot(base):
    out = {}
    if os.path.isdir(base):
        for root, dirs, files in os.walk(base):
            for f in files:
                p = os.path.join(root, f)
                with open(p, "rb") as g:
                    out[os.path.relpath(p, base)] = g.read()
            for d in dirs:
                out[os.path.relpath(os.path.join(root, d), base) + "/"] = b""
    return out


class World:
    def __init__(self, root, spec):
        self.root, self.spec = root, spec
        if spec["main"]:
            self.cwd = os.path.join(root, "docs")
            self.inp = os.path.join(root, "src", "fmmax") if spec["tool"] == "api" else os.path.join(root, "notebooks")
            self.out = os.path.join(root, "docs", "docs", "API" if spec["tool"] == "api" else "Tutorials")
        else:
            self.cwd = root
            self.inp = os.path.join(root, "input")
            self.out = self.inp if spec["inplace"] else os.path.join(root, "deep", spec["outname"])
        for p in (self.cwd, self.inp, os.path.join(root, "tmp")):
            os.makedirs(p, exist_ok=True)

    def invoke(self, ctx, seed, fault, extra=None):
        """Runs the tool; returns (result, exception)."""
        import runpy
        FSIM.reset(self.root, seed, fault, ctx)
        old_cwd, old_tmp = os.getcwd(), tempfile.tempdir
        os.chdir(self.cwd)
        tempfile.tempdir = os.path.join(self.root, "tmp")
        buf = io.StringIO()
        res = err = None
        FSIM.on = True
        try:
            with contextlib.redirect_stdout(buf):
                if self.spec["main"]:
                    runpy.run_path(os.path.join(env.REPO, "docs", API if self.spec["tool"] == "api" else TUT), run_name="__main__")
                elif self.spec["tool"] == "api":
                    res = ctx.mod["api"].traverse_directory(self.inp, self.out + ("/" if self.spec["slash"] else ""))
                else:
                    res = ctx.mod["tut"].export_notebooks(self.inp, None if self.spec["inplace"] else self.out + ("/" if self.spec["slash"] else ""))
        except BaseException as e:  # noqa: BLE001
            if isinstance(e, KeyboardInterrupt):
                raise
            if not isinstance(e, SystemExit) or e.code not in (None, 0):
                err = e
        finally:
            FSIM.on = False
            os.chdir(old_cwd)
            tempfile.tempdir = old_tmp
            for f in FSIM.open_files:
                with contextlib.suppress(BaseException):
                    f.lose()
        return res, err


def clean(ctx, spec, version, scratch):
    """What a run into an empty directory leaves, listing in sorted order."""
    key = (spec["tool"], str(spec["tree"]), version, spec["main"], spec["inplace"], spec["slash"], spec["outname"])
    root = os.path.join(scratch, f"clean{version}")
    w = World(root, spec)
    write_tree(w.inp, inputs(spec, version))
    # the reference lists in one fixed order: that of this seed
    res, err = w.invoke(ctx, 12345, None)
    return {"res": res, "err": err, "out": snapshot(w.out), "ops": FSIM.n}


def pages(spec, snap, tree):
    """The generated part of an output directory."""
    if spec["tool"] == "api":
        return {k: v for k, v in snap.items() if k.endswith(".md") and os.sep not in k}
    if spec["inplace"]:
        return {k: v for k, v in snap.items() if k not in tree and not k.endswith("/")}
    return {k: v for k, v in snap.items() if not k.endswith("/")}


def junk(spec, seed, want):
    """Prior contents: torn, empty and stale pages, and files of other kinds."""
    r = random.Random(f"junk/{seed}")
    gen_, keep = {}, {}
    for name in sorted(want):
        x = r.random()
        if x < 0.3:
            gen_[name] = want[name][: r.randrange(len(want[name]) + 1)]
        elif x < 0.45:
            gen_[name] = b""
        elif x < 0.6:
            gen_[name] = want[name] + b"\nold tail"
        elif x < 0.7:
            gen_[name] = bytes(r.randrange(256) for _ in range(30))
        elif x < 0.75:
            gen_[name] = want[name]
    if spec["tool"] == "api":
        for s in ("old.gone.md", "Gone.md", "index.md", "TOC.md"):
            if r.random() < 0.4:
                gen_[s] = b"stale\n" if r.random() < 0.7 else b""
    for s in ("notes.txt", "style.css", "keep.mdx", "sub/keep.txt", "figure.svg", "page.md.bak", "md", ".gitignore", "sub.d/x.json"):
        if r.random() < 0.3:
            keep[s] = b"keep " + s.encode()
    return gen_, keep


def execute(spec, ctx):
    scratch = tempfile.mkdtemp(prefix="fsim-c11-", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    try:
        return _execute(spec, ctx, scratch)
    finally:
        FSIM.on = False
        shutil.rmtree(scratch, ignore_errors=True)


def _execute(spec, ctx, scratch):
    refs = {}

    def ref(v):
        if v not in refs:
            refs[v] = clean(ctx, spec, v, scratch)
        return refs[v]

    first = ref(spec["steps"][0]["v"])
    w = World(os.path.join(scratch, "run"), spec)
    keep = {}
    tree = None
    if spec["junk"] is not None and first["err"] is None:
        gen_, keep = junk(spec, spec["junk"], pages(spec, first["out"], inputs(spec, spec["steps"][0]["v"])))
        if spec["inplace"]:
            keep = {}
        write_tree(w.out, gen_)
        write_tree(w.out, keep)
        # the clock of the machine that left them may have been wrong
        skew = [0, 0, 0, 10**8, -(10**8)][spec["junk"] % 5]
        stamp([w.out], CLOCK + skew)
        if skew:
            ctx.fault("clock-skew")
        ctx.fault("prior-torn-or-stale-output", len(gen_))
    trail, torn_name = [], None
    tname = "API generator" if spec["tool"] == "api" else "tutorial generator"
    for si, st in enumerate(spec["steps"]):
        R = ref(st["v"])
        if R["err"] is not None:
            if isinstance(R["err"], Escape):
                return core.violation("escape", f"{tname}: {R['err']} outside its directories")
            ctx.skipped["clean-run-fails"] += 1
            return None
        new = dict(inputs(spec, st["v"]))
        # install this version of the inputs
        for rel in set(tree or ()) - set(new):
            os.remove(os.path.join(w.inp, rel))
        now = CLOCK + 100 * si
        write_tree(w.inp, {k: v for k, v in new.items() if (tree or {}).get(k) != v or k == torn_name or not os.path.exists(os.path.join(w.inp, k))})
        stamp([w.inp], now - 1000 if si == 0 and spec["steps"][0]["seed"] % 2 else now)
        torn_name = None
        tree = new
        fault = dict(st["fault"]) if st["fault"] else None
        torn = None
        if fault and fault["kind"] == "torn-input":
            cand = [k for k in sorted(new) if k.endswith(".ipynb" if spec["tool"] == "tut" else ".py") and k in new and len(new[k]) > 40]
            if cand:
                k = cand[int(fault["frac"] * len(cand))]
                torn = new[k][: len(new[k]) // 2] + (b"\n)" if spec["tool"] == "api" else b"")
                if spec["tool"] == "api" and parses(torn):
                    torn = b"def (\n"
                write_tree(w.inp, {k: torn})
                stamp([w.inp], now)
                torn_name = k
                ctx.fault("torn-input")
            fault = None
        elif fault:
            fault["at"] = int(fault["frac"] * (R["ops"] + 3))
        ins = snapshot(w.inp)
        res, err = w.invoke(ctx, st["seed"], fault)
        what = f"{tname} step {si} (version {st['v']}, {FSIM.fired or ('torn input' if torn else 'no fault')}, after {trail})"
        if isinstance(err, Escape) or FSIM.escaped:
            return core.violation("escape", f"{what}: {FSIM.escaped}: outside its directories")
        stamp([w.inp, w.out], now + 50)
        after_in = snapshot(w.inp)
        for k, v in ins.items():
            if k in tree or not spec["inplace"]:
                if after_in.get(k) != v:
                    return core.violation("input-modified", f"{what}: input {k} was {'removed' if k not in after_in else 'modified'}")
        if not spec["inplace"] and set(after_in) - set(ins):
            return core.violation("input-modified", f"{what}: files {sorted(set(after_in) - set(ins))[:3]} appeared among the inputs")
        got = snapshot(w.out)
        for k, v in keep.items():
            if got.get(k) != v:
                return core.violation("other-file-modified", f"{what}: {k}, which is not a page, was {'removed' if k not in got else 'modified'}")
        complete = compare(spec, got, R, tree, res if err is None else None, si)
        if torn is not None:
            if err is None:
                return core.violation("bad-input-ignored", f"{what}: an unreadable input was ignored")
        elif isinstance(err, SimCrash) or FSIM.crashed:
            pass
        elif FSIM.injected is not None:
            if err is None and complete:
                return core.violation("error-ignored", f"{what}: the failure was not reported and the output is not complete: {complete}")
            ctx.probe("error-reported" if err is not None else "error-survived")
        elif err is not None:
            return core.violation("rerun-raises", f"{what}: {type(err).__name__}: {str(err)[:300]}")
        elif complete:
            return core.violation(complete.split(":")[0], f"{what}: {complete}")
        else:
            ctx.probe("recovered" if trail or spec["junk"] is not None else "clean")
        trail.append(FSIM.fired or ("torn-input" if torn else "ok"))
    ctx.state(spec["tool"], spec["tree"], spec["main"], spec["inplace"], [t.split(" (")[0] for t in trail], spec["junk"] is not None)
    return None


def parses(text):
    import ast
    try:
        ast.parse(text)
        return True
    except (SyntaxError, ValueError):
        return False


def compare(spec, got, R, tree, res, si):
    """None if the output directory holds exactly what a run into an empty one leaves."""
    want = pages(spec, R["out"], tree)
    have = pages(spec, got, tree)
    for k in sorted(want):
        if k not in have:
            return f"page-missing: {k} is missing"
        if have[k] != want[k]:
            return f"page-differs: {k} differs from that of a run into an empty directory ({len(have[k])} instead of {len(want[k])} bytes)"
    if spec["tool"] == "api":
        extra = sorted(set(have) - set(want))
        if extra:
            return f"stale-page: {extra[:3]} should not exist"
        if res is not None and res != R["res"]:
            return "table-of-contents: the returned table of contents differs from that of a run into an empty directory"
    return None


def shrink(spec):
    for i in range(len(spec["steps"]) - 1):
        s = copy.deepcopy(spec); del s["steps"][i]; yield s
    if spec["junk"] is not None:
        s = copy.deepcopy(spec); s["junk"] = None; yield s
    for k, v in (("main", False), ("slash", False), ("outname", "out"), ("inplace", False)):
        if spec[k] != v:
            s = copy.deepcopy(spec); s[k] = v; yield s
    for i, st in enumerate(spec["steps"]):
        if st["fault"]:
            s = copy.deepcopy(spec); s["steps"][i]["fault"] = None; yield s
            if st["fault"].get("power"):
                s = copy.deepcopy(spec); s["steps"][i]["fault"]["power"] = False; yield s
        if st["v"]:
            s = copy.deepcopy(spec); s["steps"][i]["v"] = 0; yield s


RULE = ("one run = 2-4 executions of one generator on one scratch tree, each at one of three versions of its inputs, all but the last "
        "possibly crashing or failing at a seeded file operation, possibly onto torn, empty or stale prior output; non-trivial if a "
        "fault was injected or prior output existed")
STATES = "distinct (tool, input tree, way of calling, fault sequence with operation numbers, prior output) tuples"
COMPONENTS = {"real": ["docs/gen_API_from_docstrings.py", "docs/gen_tutorials_from_notebooks.py", "the file system under the simulated primitives"],
              "stub": ["docstring_parser, nbformat, nbconvert (not installed; stand-ins in fakes_docs)",
                       "open/read/write/close, directory listing, remove/mkdir/rename primitives (faults, order, buffering, crash)"]}
ASSUMPTIONS = ["written data reach the disk when a file is closed or flushed; a crash keeps an arbitrary prefix",
               "module and class names are identifiers", "the tutorial generator does not remove pages of removed notebooks"]
