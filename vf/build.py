"""Builds malstroem from /repo's working tree into a scratch directory (never uses /repo's .so files)."""
import glob, os, shutil, subprocess, sys, sysconfig
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VF_REPO", "/repo")


class BuildError(Exception):
    pass


def _one(pyx, extra):
    c = pyx[:-4] + ".c"
    so = pyx[:-4] + sysconfig.get_config_var("EXT_SUFFIX")
    root = extra["root"]
    p = subprocess.run([sys.executable, "-m", "cython", "-o", c, pyx], cwd=root,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    if p.returncode:
        raise BuildError("cython failed: " + p.stdout[-3000:])
    cmd = ["/usr/bin/gcc", "-shared", "-fPIC", "-O1", "-w", "-fno-strict-aliasing", "-DNDEBUG",
           "-fwrapv"] + ["-I" + i for i in extra["inc"]] + [c, "-o", so]
    p = subprocess.run(cmd, cwd=root, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    if p.returncode:
        raise BuildError("gcc failed: " + p.stdout[-3000:])
    os.remove(c)


def build(scratch):
    """Returns the directory to put first on sys.path."""
    root = os.path.join(scratch, "build")
    src = os.path.join(REPO, "malstroem")
    shutil.copytree(src, os.path.join(root, "malstroem"),
                    ignore=shutil.ignore_patterns("*.so", "*.c", "*.html", "__pycache__", "*.pyc"))
    import numpy
    inc = [sysconfig.get_paths()["include"], numpy.get_include()]
    pyx = sorted(glob.glob(os.path.join(root, "malstroem", "**", "*.pyx"), recursive=True))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda p: _one(p, dict(root=root, inc=inc)), pyx))
    return root
