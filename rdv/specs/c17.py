from specs import pfm
tasks = pfm.tasks
from specs.stream import TEXT
