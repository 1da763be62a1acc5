from specs.meth import *


def tasks(tier):
    return [Task('mag method, %s' % n, t_count('mag', mag_match, m, True)) for m, n in (('x', 'rows'), ('y', 'columns'))]
