"""Stand-in for python-decouple: settings from the environment."""
import os

_none = object()


class UndefinedValueError(Exception):
    pass


def config(name, default=_none, cast=None):
    v = os.environ.get(name, default)
    if v is _none:
        raise UndefinedValueError(name)
    return cast(v) if cast else v
