from mc.core import StandInGap

from .validation import check_array, check_consistent_length, check_X_y, column_or_1d  # noqa: F401


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise StandInGap("sklearn.utils.%s" % name)
