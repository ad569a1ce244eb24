"""A throw-away project holding one fixture module (for the engine's self-test)."""
import os
import shutil
import tempfile

from .project import Project


def fixture(src):
    d = tempfile.mkdtemp(prefix="sa-fixture-")
    try:
        os.mkdir(os.path.join(d, "asyncz"))
        for n, s in (("__init__.py", ""), ("fix.py", src)):
            with open(os.path.join(d, "asyncz", n), "w", encoding="utf-8") as f:
                f.write(s)
        return Project(root=d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
