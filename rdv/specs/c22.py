"""C22: memory safety of the native readers, also after failed operations."""
from specs import pfm, pgm, y4m
from specs.stream import TEXT


def tasks(tier):
    ts = pfm.safety_tasks() + y4m.open_tasks() + y4m.seek_tasks() + y4m.read_tasks() + pgm.tasks(tier)
    for t in ts:
        t.opts = dict(nopost=True)
    return ts
