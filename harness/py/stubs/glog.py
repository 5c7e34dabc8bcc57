"""Stand-in for the glog package: logging to nowhere."""


class FailedCheckException(AssertionError):
    pass


def check(condition, message=None):
    if not condition:
        raise FailedCheckException(message or "Check failed.")


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    return lambda *a, **k: None
