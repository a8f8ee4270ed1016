#!/usr/bin/env python3
"""run.py <PROPERTY> [--tier quick|thorough] [--replay FILE]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if os.environ.get("VP_REEXEC") != "1":
    # one fixed interpreter and hash seed, whatever started us
    env = dict(os.environ, VP_REEXEC="1", PYTHONHASHSEED="0", PYTHONNOUSERSITE="1",
               PYTHONDONTWRITEBYTECODE="1")
    env.pop("PYTHONPATH", None)
    os.execve(PY if os.path.exists(PY) else sys.executable,
              [PY, os.path.abspath(__file__)] + sys.argv[1:], env)
sys.path.insert(0, HERE)
from vp.boot import boot  # noqa: E402

boot()
from vp.core import main  # noqa: E402

sys.exit(main(sys.argv[1:]))
