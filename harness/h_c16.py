import h_files
from h_files import one


def run(h):
    h_files.go(h)
