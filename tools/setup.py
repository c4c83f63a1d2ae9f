"""Nothing is compiled: check that the interpreter, the solver and the repository can be used."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import smt  # noqa: E402

sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import simpeg  # noqa: E402

os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
print("z3", smt.z3.get_version_string(), "simpeg", simpeg.__file__)
