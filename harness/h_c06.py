import h_meth
one = h_meth.one


def run(h):
    h_meth.go(h, 'sign')
