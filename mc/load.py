# -*- coding: utf-8 -*-
"""Puts the environment models and the code under test on the path (import this before convst)."""
import os
import platform
import sys

sys.dont_write_bytecode = True
from mc.engine import REPO, VERIF  # noqa

PYPY = platform.python_implementation() == "PyPy"


def setup():
    paths = [os.path.join(VERIF, "mc", "envs")]
    paths.insert(0, os.path.join(VERIF, "mc", "envs_pypy" if PYPY else "envs_vt"))
    for p in reversed(paths):
        if p not in sys.path:
            sys.path.insert(0, p)
    if REPO not in sys.path:
        sys.path.insert(len(paths), REPO)
    from mc import rt
    rt.install()


setup()
