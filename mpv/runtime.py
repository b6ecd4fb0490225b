"""Makes the code of /repo's working tree importable.

The package is imported from the working tree itself. If the compiled
extension next to the sources is not the one that belongs to the current
sources, the extension is compiled in a scratch directory and loaded from
there; nothing is written in the repository.
"""
import atexit
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_DEV_REPO", "/repo")
EXT_SOURCES = (".pyx", ".pxd", ".pxi")


class SetupError(Exception):
    """The machinery could not be set up; says nothing about the property."""


def _sha(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def _find(suffixes):
    found = []
    for root, dirs, files in os.walk(os.path.join(REPO, "movement_primitives")):
        dirs[:] = [d for d in dirs if d != "__pycache__"]
        found += [os.path.join(root, f) for f in files if f.endswith(suffixes)]
    return sorted(os.path.relpath(p, REPO) for p in found)


def _extension_up_to_date():
    """Does build/ext.sha256 describe the sources and libraries we see?"""
    try:
        with open(os.path.join(REPO, "build", "ext.sha256")) as f:
            stamp = dict(reversed(l.split(None, 1)) for l in f.read().splitlines())
    except (OSError, ValueError):
        return False
    files = _find(EXT_SOURCES) + _find((".so",))
    files += [f for f in ("setup.py", "setup.cfg", "pyproject.toml")
              if os.path.exists(os.path.join(REPO, f))]
    if not _find((".so",)) or set(files) != set(stamp):
        return False
    return all(_sha(os.path.join(REPO, f)) == stamp[f] for f in files)


class _ExtensionFinder(importlib.abc.MetaPathFinder):
    def __init__(self, modules):
        self.modules = modules

    def find_spec(self, fullname, path=None, target=None):
        if fullname not in self.modules:
            return None
        loader = importlib.machinery.ExtensionFileLoader(
            fullname, self.modules[fullname])
        return importlib.util.spec_from_file_location(
            fullname, self.modules[fullname], loader=loader)


def _build_extension():
    scratch = tempfile.mkdtemp(prefix="mpv-ext-")
    owner = os.getpid()
    atexit.register(
        lambda: os.getpid() == owner and shutil.rmtree(scratch, True))
    work = os.path.join(scratch, "src")
    os.mkdir(work)
    shutil.copytree(
        os.path.join(REPO, "movement_primitives"),
        os.path.join(work, "movement_primitives"),
        ignore=shutil.ignore_patterns("*.so", "*.c", "*.cpp", "__pycache__"))
    for f in ("setup.py", "setup.cfg", "pyproject.toml", "README.md"):
        if os.path.exists(os.path.join(REPO, f)):
            shutil.copy(os.path.join(REPO, f), work)
    env = dict(os.environ, PIP_NO_INDEX="1")
    log = os.path.join(scratch, "build.log")
    with open(log, "w") as f:
        status = subprocess.call(
            [sys.executable, "setup.py", "build_ext", "--inplace"], cwd=work,
            stdout=f, stderr=subprocess.STDOUT, env=env, timeout=600)
    modules = {}
    for root, dirs, files in os.walk(os.path.join(work, "movement_primitives")):
        for f in files:
            if f.endswith(".so"):
                rel = os.path.relpath(os.path.join(root, f), work)
                name = rel.replace(os.sep, ".").split(".cpython")[0]
                modules[name.removesuffix(".so")] = os.path.join(root, f)
    if status != 0 or not modules:
        with open(log) as f:
            tail = f.read()[-3000:]
        raise SetupError("extension does not compile:\n" + tail)
    sys.meta_path.insert(0, _ExtensionFinder(modules))


def setup():
    if "MPLCONFIGDIR" not in os.environ:
        owner, path = os.getpid(), tempfile.mkdtemp(prefix="mpv-mpl-")
        os.environ["MPLCONFIGDIR"] = path
        atexit.register(
            lambda: os.getpid() == owner and shutil.rmtree(path, True))
    sys.dont_write_bytecode = True
    warnings.filterwarnings("ignore", category=SyntaxWarning)
    warnings.filterwarnings("ignore", category=DeprecationWarning)
    sys.path.insert(0, REPO)
    for path in (os.path.join(VERIF, "vendor"),
                 "/opt/veriftools/pyvenv/lib/python3.12/site-packages"):
        if os.path.isdir(path):
            sys.path.append(path)
    if not _extension_up_to_date():
        _build_extension()
    import movement_primitives
    where = os.path.abspath(movement_primitives.__file__)
    if not where.startswith(os.path.join(REPO, "movement_primitives") + os.sep):
        raise SetupError("movement_primitives imported from " + where)
    import movement_primitives.dmp_fast  # noqa: F401
