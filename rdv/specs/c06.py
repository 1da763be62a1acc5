from specs.meth import *


def tasks(tier):
    return [Task('sign method, %s' % n, t_count('sign', sign_match, m, True)) for m, n in (('x', 'rows'), ('y', 'columns'))]
