import h_ana
from h_ana import one


def run(h):
    h_ana.go(h)
