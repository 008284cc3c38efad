"""Stand-in for the few parts of scikit-learn used by causalnex (outside its torch based part)."""
from mc.core import StandInGap

__version__ = "0.22+standin"


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    import importlib
    try:
        return importlib.import_module("sklearn." + name)
    except ImportError:
        raise StandInGap("sklearn.%s" % name) from None
