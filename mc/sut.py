"""Driver for the code under test (imported from /repo's working tree)."""
import io
import os
import re
import shutil
import signal
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")

_loaded = None


class Hang(BaseException):
    """CPU budget of one run exceeded."""


def load():
    """Import the code under test afresh from the working tree, never from a stale cache."""
    global _loaded
    if _loaded is None:
        sys.dont_write_bytecode = True
        sys.pycache_prefix = "/nonexistent-pycache"
        sys.path.insert(0, REPO)
        import run_conversion
        import converter_top
        import controls
        import gnss_types

        class L:
            pass

        _loaded = L()
        _loaded.rc, _loaded.ct, _loaded.controls, _loaded.types = \
            run_conversion, converter_top, controls, gnss_types
    return _loaded


class Null(io.TextIOBase):
    def write(self, s):
        return len(s)

    def writable(self):
        return True


def scratch_base():
    b = "/dev/shm"
    try:
        st = os.statvfs(b)
        if os.access(b, os.W_OK) and st.f_bavail * st.f_frsize > 256 << 20:
            return b
    except OSError:
        pass
    return tempfile.gettempdir()


RUN = None      # folder of this run of the check: holds all its scratch directories


class Scratch:
    """A scratch directory removed on exit; the process works inside it."""

    def __init__(self):
        self.path = tempfile.mkdtemp(prefix="vmc", dir=RUN or scratch_base())
        self.src = os.path.join(self.path, "s")
        os.mkdir(self.src)
        self.old = os.getcwd()

    def __enter__(self):
        os.chdir(self.path)
        return self

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.path, ignore_errors=True)

    def clean(self):
        shutil.rmtree(self.src, ignore_errors=True)
        os.mkdir(self.src)

    def put(self, rel, data):
        p = os.path.join(self.path, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode())
        return p


def _on_prof(_s, _f):
    raise Hang("no termination within the CPU budget")


class guard:
    """CPU-time limit for code under test; stdout/stderr muted; stdin replaced."""

    def __init__(self, cpu=30.0, answers=None, capture=False):
        self.cpu, self.answers, self.capture = cpu, answers, capture
        self.out = io.StringIO() if capture else Null()

    def __enter__(self):
        self.save = (sys.stdout, sys.stderr, sys.stdin)
        sys.stdout = self.out
        sys.stderr = Null()
        sys.stdin = io.StringIO("" if self.answers is None else self.answers)
        self.oldh = signal.signal(signal.SIGPROF, _on_prof)
        signal.setitimer(signal.ITIMER_PROF, self.cpu)
        return self

    def arm(self, cpu=None):
        """Restart the CPU budget (for loops running many traces under one guard)."""
        signal.setitimer(signal.ITIMER_PROF, cpu or self.cpu)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, self.oldh)
        sys.stdout, sys.stderr, sys.stdin = self.save
        return False


class Crash(Exception):
    """The code under test let an exception escape."""


def main(args, cpu=30.0, answers=None, capture=False, argv=False):
    """Run run_conversion.main(args); returns (exit code or None, captured stdout)."""
    L = load()
    code = None
    with guard(cpu, answers, capture) as g:
        try:
            if argv:
                old = sys.argv
                sys.argv = ["run_conversion.py"] + list(args)
                try:
                    L.rc.main(None)
                finally:
                    sys.argv = old
            else:
                L.rc.main(args)
        except SystemExit as e:
            code = e.code
        except Hang as e:
            raise Crash(str(e)) from None
        except BaseException as e:
            raise Crash(f"{type(e).__name__}: {e} escaped from main()") from e
    return code, (g.out.getvalue() if capture else "")


def read_tree(path):
    """{relative path: bytes} of all files below path ('' entries for empty dirs omitted)."""
    out = {}
    for d, _sub, fs in os.walk(path):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, path)] = h.read()
    return out


class Result:
    """Products and log of one converted source."""

    def __init__(self, folder, name):
        self.exists = os.path.isdir(folder)
        t = read_tree(folder) if self.exists else {}
        self.log = t.pop(name + "-log.txt", None)
        self.files = t

    @property
    def logtext(self):
        return "" if self.log is None else self.log.decode("utf-8", "replace")

    def progress(self):
        """Counts of the last progress line: (messages, parse, decode, print errors)."""
        r = None
        for r in re.finditer(r"(\d+) messages, prs-dec-prnt errors (\d+)-(\d+)-(\d+)", self.logtext):
            pass
        return tuple(int(x) for x in r.groups()) if r else None

    def verdict(self):
        t = self.logtext
        v = []
        if "Finished without errors." in t:
            v.append("ok")
        if "Finished with errors." in t:
            v.append("errors")
        if "terminated" in t or "aborted" in t:
            v.append("terminated")
        return v

    def last_line(self):
        ls = [x for x in self.logtext.splitlines() if x.strip()]
        return ls[-1] if ls else ""


def convert(sc, stream, fmt, cfg, name="a", cpu=30.0):
    """Convert one stream through main() in scratch `sc`; returns Result."""
    sc.clean()
    ini = cfg if isinstance(cfg, str) else cfg.ini()
    if getattr(sc, "_ini", None) != ini:
        sc.put("defaults.ini", ini)
        sc._ini = ini
    p = sc.put(f"s/{name}.rtcm3", stream)
    main(f"-o {fmt} {p}", cpu)
    return Result(os.path.join(sc.src, f"{name}-{fmt}"), name)


def boxed(sc, cfg):
    L = load()
    p = sc.put("box.ini", cfg.ini())
    with guard(10):
        c = L.controls.ConverterControls()
        c.init_from_file(p)
        return c.boxed_controls


def converter(sc, fmt, box):
    """A fresh converter writing to a fresh folder; returns (converter, folder)."""
    L = load()
    d = tempfile.mkdtemp(dir=sc.path)
    with guard(10):
        cv = L.ct.ConverterFactory(fmt)(d, box)
    if cv is None:
        raise Crash(f"no converter for {fmt}")
    return cv, d


def fds():
    out = {}
    for f in os.listdir("/proc/self/fd"):
        try:
            out[f] = os.readlink("/proc/self/fd/" + f)
        except OSError:
            pass
    return out
