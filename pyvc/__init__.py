import os, sys
ROOT = os.environ.get("PYVC_REPO", "/repo")
sys.dont_write_bytecode = True
if ROOT not in sys.path:
    sys.path.insert(0, ROOT)
_V = "/opt/venv/lib/python3.12/site-packages"
if _V not in sys.path:
    sys.path.append(_V)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from . import core, shapes, ops, interp, loops, models, verify   # noqa
interp.INTERP_ROOTS = (os.path.join(ROOT, "yangson"), os.path.join(HERE, "contracts"))
