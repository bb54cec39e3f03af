"""Unexpected-event noise."""
from .common import Inst, big_pomdp, flat, make_pomdp

BOUNDS = ('every model with up to 3x2x2 and 2x2x3 (states x actions x observations; thorough 4x2x3), and models with '
          'up to 12 of each in which one row of each kind is unknown, and every positive noise level.')
ASSUMPTIONS = ['the rows of the model are exact probability vectors']


def smooth(w, ns, na, no, default, big=False):
    m, (T, O, R, b0, g) = (big_pomdp if big else make_pomdp)(w, ns, na, no)
    p = 1e-3 if default else w.real('level')
    w.assume(p > 0)
    if default:
        m.randomize()
    else:
        m.randomize(p)
    for new, old, n in ((m.T, T, ns), (m.O, O, no)):
        w.check(tuple(new.shape) == (na, ns, n), 'shapes are kept')
        for a in range(na):
            for i in range(ns):
                row = flat(new[a, i])
                for j in range(n):
                    w.check(w.eq(row[j] * (1 + n * p), old[a][i][j] + p),
                            'entries are the normalised sums')
                    w.check(row[j] > 0, 'entries become positive')
                w.check(w.eq(sum(row), 1), 'rows sum to one')
    w.check_all_eq(m.R, R, 'rewards are untouched')
    w.check_all_eq(m.start, b0, 'start is untouched')
    w.check(w.eq(m.discount, g), 'discount is untouched')


L = ['entries are the normalised sums', 'entries become positive', 'rows sum to one',
     'rewards are untouched', 'start is untouched', 'discount is untouched']


def instances(tier):
    q = [(2, 1, 2), (3, 2, 2), (2, 2, 3)] + ([(4, 2, 3), (5, 1, 5)] if tier == 'thorough' else [])
    return [Inst('smooth-%dx%dx%d%s' % (s + ('-default' if d else '',)), smooth, L, ns=s[0], na=s[1],
                 no=s[2], default=d) for s in q for d in (False, True)] + [
        Inst('smooth-%dx%dx%d' % s, smooth, L, ns=s[0], na=s[1], no=s[2], default=False, big=True)
        for s in ((11, 2, 12), (3, 12, 4))]
