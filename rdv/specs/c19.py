"""C19: seeking."""
from specs import pfm, pgm, y4m, decode
from specs.decode import TEXT


def tasks(tier):
    # the longest first
    return pfm.seek_tasks() + y4m.seek_tasks() + [t for t in pgm.tasks(tier) if 'a named file' in t.name] + decode.seek_tasks()
