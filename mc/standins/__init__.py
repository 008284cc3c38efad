"""Stand-ins for third-party packages that are not installed here (pandas, scikit-learn, pgmpy, pygraphviz, torch).

`install()` puts them on the import path of a worker process (real packages, if ever present, win for none of them: the harness
must behave the same everywhere), and replaces the torch based part of causalnex.structure by empty placeholders, so that the rest
of the package imports.  See DESIGN.md for what each stand-in models.
"""
import os
import sys
import types

HERE = os.path.dirname(os.path.abspath(__file__))
_done = []


def install(torch=False):
    """torch=True: the torch based part is kept, on the torch stand-in."""
    if _done:
        return
    _done.append(1)
    sys.path.insert(0, HERE)
    for name in ("pandas", "sklearn", "pgmpy", "pygraphviz", "torch"):
        for m in list(sys.modules):
            if m == name or m.startswith(name + "."):
                del sys.modules[m]
    if torch:
        return
    torchy = types.ModuleType("causalnex.structure.pytorch")
    torchy.__path__ = []
    torchy.DAGClassifier = type("DAGClassifier", (), {})
    torchy.DAGRegressor = type("DAGRegressor", (), {})
    sk = types.ModuleType("causalnex.structure.pytorch.sklearn")
    sk.DAGClassifier, sk.DAGRegressor = torchy.DAGClassifier, torchy.DAGRegressor
    torchy.sklearn = sk
    sys.modules["causalnex.structure.pytorch"] = torchy
    sys.modules["causalnex.structure.pytorch.sklearn"] = sk
