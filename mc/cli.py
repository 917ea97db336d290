"""Runs the real command line entry point, in process or as a program."""
import contextlib
import io
import os
import subprocess
import sys

from mc.core import REPO


class Result:
    """code is the exit status (1 with exc set if the command raised)."""

    def __init__(self, code, out, err, exc=None):
        self.code, self.out, self.err, self.exc = code, out, err, exc

    def __repr__(self):
        return f"<exit {self.code} exc={self.exc!r} out={self.out[:200]!r} err={self.err[-200:]!r}>"


def run(*argv):
    """dustmaker.cmd.main with the given arguments, in this process."""
    from dustmaker.cmd import main as M

    out, err = io.StringIO(), io.StringIO()
    old = sys.argv
    sys.argv = ["dustmaker", *[str(a) for a in argv]]
    exc = None
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            code = M.main()
    except SystemExit as e:
        code = e.code
    except Exception as e:  # pylint: disable=broad-except
        exc, code = e, 1
    finally:
        sys.argv = old
    if code is None:
        code = 0
    elif not isinstance(code, int):
        code = 1
    return Result(code, out.getvalue(), err.getvalue(), exc)


def spawn(*argv, cwd=None):
    """python -m dustmaker ... as a separate program."""
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run(
        [sys.executable, "-B", "-m", "dustmaker", *[str(a) for a in argv]],
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, check=False,
    )
    return Result(p.returncode, p.stdout.decode(), p.stderr.decode(errors="replace"))


def standalone(*argv, cwd=None):
    """python -m dustmaker.cmd.<utility> ...: the same command as its own program."""
    module = {"variables": "variables", "thumbnail": "thumbnail", "transform": "transform", "saveconvert": "save_convert"}[argv[0]]
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run(
        [sys.executable, "-B", "-m", "dustmaker.cmd." + module, *[str(a) for a in argv[1:]]],
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, check=False,
    )
    return Result(p.returncode, p.stdout.decode(), p.stderr.decode(errors="replace"))


class FakeImage:
    """Stands in for an image of the Python imaging library: remembers what was done to it."""

    def __init__(self, data, size=(640, 480), log=()):
        self.data, self.size, self.log = data, tuple(size), log
        self.mode, self.format = "RGB", "BMP"

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass

    def load(self):
        pass

    def copy(self):
        return FakeImage(self.data, self.size, self.log)

    def resize(self, size, *_a, **_kw):
        PIL.hit("resize")
        return FakeImage(self.data, size, self.log)

    def save(self, fp, format=None, **_kw):  # pylint: disable=redefined-builtin
        PIL.hit("save")
        data = encoded(self.data, self.size, (format or "?").upper())
        if hasattr(fp, "write"):
            half = len(data) // 2
            fp.write(data[:half])
            PIL.hit("mid save")
            fp.write(data[half:])
        else:
            put(fp, data)


def encoded(data, size, fmt):
    """What the stand-in stores for an image file with the given contents."""
    return f"<{fmt} {size[0]}x{size[1]} ".encode() + data + b">"


class PIL:
    """Context: importing PIL finds the stand-in (or nothing); fail = step that raises."""

    fail = None

    def __init__(self, present=True, fail=None, size=(640, 480)):
        self.present, self.want, self.size = present, fail, size

    @classmethod
    def hit(cls, step):
        if cls.fail == step:
            raise OSError(f"cannot {step} image")

    def __enter__(self):
        import types

        self.saved = {k: sys.modules.get(k, 0) for k in ("PIL", "PIL.Image")}
        PIL.fail = self.want
        if not self.present:
            sys.modules["PIL"] = sys.modules["PIL.Image"] = None
            return self
        top, mod = types.ModuleType("PIL"), types.ModuleType("PIL.Image")
        top.__path__ = []
        top.Image = mod

        def opener(fp, *_a, **_kw):
            PIL.hit("open")
            return FakeImage(fp.read() if hasattr(fp, "read") else get(fp), self.size)

        mod.open = opener
        mod.Image = FakeImage
        sys.modules["PIL"], sys.modules["PIL.Image"] = top, mod
        return self

    def __exit__(self, *a):
        PIL.fail = None
        for k, v in self.saved.items():
            if v == 0:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


def put(path, data):
    with open(path, "wb") as f:
        f.write(data)
    return path


def get(path):
    with open(path, "rb") as f:
        return f.read()


def files(d):
    """{relative path: bytes} of everything below d."""
    out = {}
    for base, _dirs, names in os.walk(d):
        for n in names:
            p = os.path.join(base, n)
            out[os.path.relpath(p, d)] = get(p)
    return out
