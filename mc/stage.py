"""Private build of the code under test.

Every check copies the sources from /repo's *working tree* to a scratch
directory of its own, builds the extension module there with the project's own
setup.py, and imports the package from there.  Nothing is written in /repo.
"""

import atexit
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

REPO = pathlib.Path(os.environ.get("HMM_REPO", "/repo"))
_ENV = dict(SETUPTOOLS_SCM_PRETEND_VERSION="0.3.3", PYTHONDONTWRITEBYTECODE="1",
            PIP_NO_INDEX="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
            MKL_NUM_THREADS="1")


class BuildError(Exception):
    pass


def make_scratch(prefix="hmm-mc-"):
    path = pathlib.Path(tempfile.mkdtemp(prefix=prefix))
    owner = os.getpid()

    def cleanup():
        if os.getpid() == owner:
            shutil.rmtree(path, ignore_errors=True)

    atexit.register(cleanup)
    return path


def stage(scratch=None, *, build=True):
    """Copy and build the working tree; return the directory to import from."""
    scratch = make_scratch() if scratch is None else pathlib.Path(scratch)
    root = scratch / "tree"
    root.mkdir()

    def ignore(d, names):
        return {n for n in names
                if n.endswith((".so", ".pyc", ".egg-info"))
                or n in ("__pycache__", "tests")}

    for name in ("src", "ext"):
        shutil.copytree(REPO / name, root / name, ignore=ignore)
    for name in ("setup.py", "pyproject.toml", "README.rst"):
        if (REPO / name).exists():
            shutil.copy(REPO / name, root / name)
    if build:
        proc = subprocess.run(
            [sys.executable, "setup.py", "-q", "build_ext", "--inplace",
             "--force"],
            cwd=root, env={**os.environ, **_ENV},
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if proc.returncode or not list((root / "src/hmmlearn").glob("_hmmc*.so")):
            raise BuildError(proc.stdout[-4000:])
    return root / "src"


def import_staged(src):
    for name in [m for m in sys.modules
                 if m == "hmmlearn" or m.startswith("hmmlearn.")]:
        del sys.modules[name]
    sys.path.insert(0, str(src))
    sys.dont_write_bytecode = True
    import hmmlearn
    import hmmlearn.hmm, hmmlearn.vhmm  # noqa
    for mod in (hmmlearn, hmmlearn.hmm, hmmlearn._hmmc):
        assert str(mod.__file__).startswith(str(src)), mod.__file__


def stage_variant(scratch, name, compile_flags=(), link_flags=()):
    """Build the extension module of the working tree a second time, with extra
    compiler and linker flags; return the directory to import from."""
    scratch = pathlib.Path(scratch) / name
    scratch.mkdir()
    root = stage(scratch, build=False).parent
    for tool in ("gcc", "g++"):
        wrapper = scratch / tool
        wrapper.write_text(
            "#!/bin/bash\n"
            "for a in \"$@\"; do [ \"$a\" = -c ] && "
            f"exec /usr/bin/{tool} \"$@\" {' '.join(compile_flags)}; done\n"
            f"exec /usr/bin/{tool} \"$@\" {' '.join(map(str, link_flags))}\n")
        wrapper.chmod(0o755)
    cc, cxx = str(scratch / "gcc"), str(scratch / "g++")
    env = {**os.environ, **_ENV, "CC": cc, "CXX": cxx,
           "LDSHARED": cc + " -shared", "LDCXXSHARED": cxx + " -shared"}
    proc = subprocess.run(
        [sys.executable, "setup.py", "-q", "build_ext", "--inplace", "--force"],
        cwd=root, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if proc.returncode or not list((root / "src/hmmlearn").glob("_hmmc*.so")):
        raise BuildError(proc.stdout[-4000:])
    return root / "src"
