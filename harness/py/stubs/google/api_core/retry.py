"""Stand-in for google.api_core.retry: transient errors are retried until the deadline."""
import functools
import time

from google.api_core import exceptions


def if_exception_type(*types):
    return lambda e: isinstance(e, types)


if_transient_error = if_exception_type(exceptions.InternalServerError, exceptions.TooManyRequests, exceptions.ServiceUnavailable)


class Retry:
    def __init__(self, predicate=if_transient_error, initial=1.0, maximum=60.0, multiplier=2.0, timeout=120.0, on_error=None, deadline=None, **kw):
        self.predicate, self.initial, self.maximum, self.multiplier = predicate, initial, maximum, multiplier
        self.deadline = deadline if deadline is not None else timeout

    def __call__(self, func):
        @functools.wraps(func)
        def wrapped(*a, **k):
            end, pause = time.time() + (self.deadline or 0), self.initial
            while True:
                try:
                    return func(*a, **k)
                except Exception as e:
                    if not self.predicate(e):
                        raise
                    if self.deadline is not None and time.time() + pause > end:
                        raise exceptions.RetryError("Deadline exceeded", e) from e
                time.sleep(pause)
                pause = min(pause * self.multiplier, self.maximum)

        return wrapped
