"""In subprocesses of the box: the world is in a file."""
import os
import sys

if os.environ.get("VERIF_WORLD"):
    import time  # noqa
    import random  # noqa
    import tempfile  # noqa
    import subprocess  # noqa
    import world
    import flow
    import sign  # noqa
    sys.modules["world"] = world
    world.W = flow.FileWorld(os.environ["VERIF_WORLD"])
    world.patch_clock()
