"""Builds what a check needs from /repo's working tree, without writing in /repo.

omegaconf/grammar/gen/* is generated by ANTLR and git-ignored, so it may be absent or stale.  The
grammar and the repository's own generator command are copied to a scratch directory, the parser is
generated there, and an import hook serves omegaconf.grammar.gen.* from it.
"""
import hashlib, importlib.util, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV_PY = "/opt/venv/bin/python"
VENV_SITE = "/opt/venv/lib/python3.12/site-packages"

_GEN = r"""
import os, sys
root = sys.argv[1]
os.chdir(root)
sys.path.insert(0, root)
from setuptools import Distribution
from build_helpers.build_helpers import ANTLRCommand
c = ANTLRCommand(Distribution()); c.initialize_options(); c.finalize_options(); c.run()
"""


def _inputs():
    g = os.path.join(REPO, "omegaconf", "grammar")
    files = [os.path.join(g, f) for f in sorted(os.listdir(g)) if f.endswith(".g4")]
    files += [os.path.join(REPO, "build_helpers", "build_helpers.py")]
    return files


def build():
    """Returns the directory holding the generated parser modules (cached by content)."""
    h = hashlib.sha256()
    for f in _inputs():
        h.update(os.path.basename(f).encode() + b"\0" + open(f, "rb").read() + b"\0")
    out = os.path.join(VERIF, ".build", "gen-" + h.hexdigest()[:24])
    if os.path.exists(os.path.join(out, "done")):
        return os.path.join(out, "omegaconf", "grammar", "gen")
    os.makedirs(os.path.join(VERIF, ".build"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=os.path.join(VERIF, ".build"))
    try:
        shutil.copytree(os.path.join(REPO, "build_helpers"), os.path.join(tmp, "build_helpers"),
                        ignore=shutil.ignore_patterns("__pycache__", "tests", "test_*"))
        gdir = os.path.join(tmp, "omegaconf", "grammar")
        os.makedirs(os.path.join(gdir, "gen"))
        open(os.path.join(gdir, "gen", "__init__.py"), "w").close()
        for f in _inputs():
            if f.endswith(".g4"):
                shutil.copy(f, gdir)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        env.pop("PYTHONPATH", None)
        r = subprocess.run([VENV_PY, "-c", _GEN, tmp], env=env, cwd=tmp,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        gen = os.path.join(gdir, "gen")
        if r.returncode or not os.path.exists(os.path.join(gen, "OmegaConfGrammarParser.py")):
            raise RuntimeError("parser generation failed:\n" + r.stdout.decode(errors="replace")[-3000:])
        open(os.path.join(tmp, "done"), "w").close()
        try:
            os.rename(tmp, out)
        except OSError:
            if not os.path.exists(os.path.join(out, "done")):
                raise
    finally:
        if os.path.isdir(tmp):
            shutil.rmtree(tmp, ignore_errors=True)
    return os.path.join(out, "omegaconf", "grammar", "gen")


class _Finder:
    def __init__(self, gen):
        self.gen = gen

    def find_spec(self, name, path=None, target=None):
        pre = "omegaconf.grammar.gen."
        if name.startswith(pre) and "." not in name[len(pre):]:
            f = os.path.join(self.gen, name[len(pre):] + ".py")
            if os.path.exists(f):
                return importlib.util.spec_from_file_location(name, f)
        return None


def activate(extra_venv=False):
    gen = build()
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _Finder(gen))
    sys.path.insert(0, REPO)
    if extra_venv:
        sys.path.append(VENV_SITE)
    import omegaconf
    f = os.path.abspath(omegaconf.__file__)
    if not f.startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError("omegaconf imported from " + f)
    return omegaconf


if __name__ == "__main__":
    print(build())
