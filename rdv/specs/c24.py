"""C24: the PNG and JPEG readers."""
from specs.decode import read_tasks, open_tasks, seek_tasks, TEXT


def tasks(tier):
    return read_tasks() + open_tasks() + seek_tasks()
