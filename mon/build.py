"""Scratch build of the current /repo working tree.

Copies the package out of /repo, drops every cached build product and compiles
both extension modules from the sources, so that a run always judges what the
tree contains now, and /repo itself is left untouched.
"""
import os
import shutil
import subprocess

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
BASE_CFLAGS = "-DPyUnicode_GetSize=PyUnicode_GetLength"


class BuildError(Exception):
    pass


def build(dest, sanitize=False):
    """Copy and build /repo in `dest`; returns the directory to put on sys.path."""
    os.makedirs(dest, exist_ok=True)

    def ignore(d, names):
        drop = {n for n in names if n in (".git", "build", "__pycache__", "doc",
                                          "debian", "environment", "dist")
                or n.endswith((".so", ".pyc", ".egg-info"))}
        if os.path.basename(d) == "electrode":
            drop |= {"cexpressions.c"} & set(names)
        return drop

    tree = os.path.join(dest, "tree")
    shutil.copytree(REPO, tree, ignore=ignore, symlinks=True)
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0")
    cfl = BASE_CFLAGS
    if sanitize:
        cfl += (" -fsanitize=address,undefined -fno-sanitize-recover=undefined"
                " -fno-omit-frame-pointer -g -O1 -shared-libasan")
        cfl = cfl.replace(" -shared-libasan", "")
        env["LDFLAGS"] = "-fsanitize=address,undefined"
    env["CFLAGS"] = cfl
    r = subprocess.run([PY, "setup.py", "-q", "build_ext", "--inplace", "--force"],
                       cwd=tree, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=600)
    so = [f for f in os.listdir(os.path.join(tree, "electrode")) if f.endswith(".so")]
    if r.returncode or len(so) < 2:
        raise BuildError("build failed (%s): %s\n%s" % (r.returncode, so,
                         r.stdout.decode(errors="replace")[-4000:]))
    return tree
