from specs.meth import *


def tasks(tier):
    return [Task('zerox method, %s' % n, t_count('zerox', zerox_match, m, False)) for m, n in (('x', 'rows'), ('y', 'columns'))]
