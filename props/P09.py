"""Loading the files the solver writes."""
from .common import Inst, POMDP_MOD, flat, names

BOUNDS = ('files with up to 2 nodes (thorough 3) over a model with 2 states x 2 actions x 2 '
          'observations (also 3x2x1): every value, action number, node number and successor (or '
          'missing one), blank lines in any place, files of 13 and 121 nodes (the last one unknown), files of different length and missing vectors.')
ASSUMPTIONS = ['numbers in the files are non-negative integers for actions, nodes and successors, '
               'as the solver writes them',
               'unknown numbers are carried through the text as marked numerals']


def load(w, ns, no, na, n1, n2, blanks, cut, big=False):
    mod = w.load(POMDP_MOD)
    import numpy as np
    m = mod.POMDP(w.array(np.full((na, ns, ns), 1. / ns)), w.array(np.full((na, ns, no), 1. / no)),
                  w.array(np.zeros((na, ns, ns, no))), w.array(np.full((ns,), 1. / ns)), 0.9,
                  names('s', ns), names('a', na), names('o', no))
    top = na + 1
    a1 = [w.int('alpha_action%d' % i, 0, top) for i in range(n1)]
    vals = [[w.real('v%d_%d' % (i, j)) for j in range(ns)] for i in range(n1)]
    a2 = [w.int('pg_action%d' % i, 0, top) for i in range(n2)]
    node = [w.int('node%d' % i, 0, n2) for i in range(n2)]
    tr = [[None if w.flag('none%d_%d' % (i, j)) else w.int('next%d_%d' % (i, j), 0, n2 + 1)
           for j in range(no)] for i in range(n2)]
    if big:
        # many nodes; the unknown ones are the last action numbers and successors
        lead = 120 if na > 10 else 12
        n1, n2 = n1 + lead, n2 + lead
        a1 = [(i * 7 + 3) % na for i in range(lead)] + a1
        a2 = [(i * 7 + 3) % na for i in range(lead)] + a2
        vals = [[(i * 10 + j - 7.123456789) / 3. for j in range(ns)] for i in range(lead)] + vals
        node = list(range(lead)) + [w.int('big_node%d' % i, lead + i, lead + i + 1) for i in range(n2 - lead)]
        tr = [[None if (i + j) % 5 == 0 else (i * 11 + j * 5) % lead for j in range(no)]
              for i in range(lead)] + [[None if w.flag('some none%d_%d' % (i, j)) else w.int('big_next%d_%d' % (i, j), 0, n2)
                                        for j in range(no)] for i in range(n2 - lead)]
    nb = 0

    def blank(kinds=('', '\n', ' \n')):
        nonlocal nb
        nb += 1
        if n1 > 1:
            kinds = kinds[:2]
        return w.pick('blank%d' % nb, kinds) if blanks else kinds[1] if nb % 3 == 0 else ''

    def f(x):
        return '%s' % x if not isinstance(x, float) else repr(x)
    alpha = blank()
    for i in range(n1):
        alpha += f(a1[i]) + '\n'
        if cut and i == n1 - 1:
            break
        alpha += ' '.join(f(x) for x in vals[i]) + ' \n' + blank()
    pg = ''
    for i in range(n2):
        pg += '%s %s  %s \n' % (f(node[i]), f(a2[i]), ' '.join('-' if t is None else f(t) for t in tr[i]))
        pg += blank(('', '\n', '  \n'))
    d = w.tmpdir()
    for ext, txt in (('alpha', alpha), ('pg', pg)):
        with open('%s/sol.%s' % (d, ext), 'w') as h:
            h.write(txt)
    try:
        p = m.load_policy_from(d, 'sol')
    except Exception as e:
        p = None
        why = e
    good = [n1 == n2 and not cut]
    if n1 == n2:
        good += [w.eq(x, y) for x, y in zip(a1, a2)]
    good += [x < na for x in a1 + a2]
    good += [w.eq(x, i) for i, x in enumerate(node)]
    good += [t < n2 for r in tr for t in r if t is not None]
    ok = w.conj(good)
    if p is None:
        w.check(w.neg(ok), 'well-formed files are loaded',
                info='%s\n%r\n%r' % (why, alpha, pg))
        return
    w.check(ok, 'malformed files are refused', info='%r\n%r' % (alpha, pg))
    w.check(len(p.actions) == n1, 'one node per line')
    for i in range(n1):
        w.check(w.disj([w.conj([w.eq(a1[i], k), p.actions[i] == 'a%d' % k]) for k in range(na)]),
                'actions are those of the files')
    w.check(list(p.observations) == names('o', no), 'observations are those of the model')
    w.check_all_eq(p.values, vals, 'value vectors are those of the file')
    got = p.transitions.tolist()
    w.check(len(got) == n2 and all(len(x) == no for x in got), 'transitions are those of the file')
    for x, y in zip(got, tr):
        for s, t in zip(x, y):
            if s is None or t is None:
                w.check(s is None and t is None, 'transitions are those of the file')
            else:
                w.check(w.eq(s, t), 'transitions are those of the file')
    w.check(not any(isinstance(x, float) for r in got for x in r if not w.symbolic),
            'successors are node numbers')


L = ['well-formed files are loaded', 'malformed files are refused', 'actions are those of the files',
     'value vectors are those of the file', 'transitions are those of the file']


def instances(tier):
    th = tier == 'thorough'
    out = []
    for ns, no, n, bl in [(2, 2, 1, True), (3, 1, 2, True), (2, 2, 2, False)] + (
            [(2, 1, 3, False)] if th else []):
        out.append(Inst('load-%dx%d-%d%s' % (ns, no, n, '-blanks' if bl else ''), load, L, ns=ns, no=no,
                        na=2, n1=n, n2=n, blanks=bl, cut=False))
    for na, no in [(2, 3), (13, 2)]:
        out.append(Inst('load-many-%d-%d' % (na, no), load, L, ns=2, no=no, na=na, n1=1, n2=1, blanks=False,
                        cut=False, big=True))
    for n1, n2, cut in [(1, 2, False), (2, 1, False), (2, 2, True), (1, 1, True)]:
        out.append(Inst('differ-%d-%d%s' % (n1, n2, '-cut' if cut else ''), load,
                        ['well-formed files are loaded'], ns=2, no=1, na=2, n1=n1, n2=n2,
                        blanks=False, cut=cut))
    return out
