from specs.meth import *


def tasks(tier):
    return [Task('orig method, %s' % n, t_orig(m)) for m, n in (('x', 'rows'), ('y', 'columns'))]
