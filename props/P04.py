"""The text written for the external solver, read back by the file format."""
from fractions import Fraction

import numpy as np

from symex import engine as E

from .common import Inst, big_pomdp, POMDP_MOD, flat, make_pomdp, names

BOUNDS = ('every model with 2x1x1, 1x2x2, 2x2x1 (states x actions x observations; thorough also 2x1x2, '
          '3x1x1), named or numbered, and single unknown rows of length 4 (start 5; thorough 6, start 7) and rewards in larger '
          'models, up to 12 of each, and every value of its entries (all roundings to 5 decimals, ties '
          'included). The text is read by a parser of the pomdp-solve format in the harness.')
ASSUMPTIONS = ['the rows of the model are exact probability vectors',
               'unknown numbers are carried through the text as marked numerals']


class Bad(Exception):
    pass


def value(w, tok):
    if w.symbolic:
        v = E.engine().tokens.lookup(tok)
        if v is not None:
            return v
    try:
        return float(tok) if not w.symbolic else Fraction(tok)
    except ValueError:
        raise Bad('not a number: %r' % tok)


def parse(w, text):
    """A reading of the pomdp-solve input grammar (no wildcards)."""
    lines = [l.strip() for l in text.split('\n')]
    lines = [l for l in lines if l and not l.startswith('#')]
    d = dict(T={}, O={}, R={})
    i = 0

    def lst(s):
        toks = s.split()
        if len(toks) == 1 and toks[0].isdigit():
            return [str(k) for k in range(int(toks[0]))]
        return toks

    def rows(n):
        nonlocal i
        out = []
        for _ in range(n):
            if i >= len(lines) or ':' in lines[i]:
                raise Bad('matrix row expected')
            out.append([value(w, t) for t in lines[i].split()])
            i += 1
        return out
    while i < len(lines):
        head, sep, rest = lines[i].partition(':')
        if not sep:
            raise Bad('unexpected line %r' % lines[i])
        head, rest = head.strip(), rest.strip()
        i += 1
        if head == 'discount':
            d['discount'] = value(w, rest)
        elif head == 'values':
            d['values'] = rest
        elif head in ('states', 'actions', 'observations'):
            d[head] = lst(rest)
        elif head == 'start':
            d['start'] = [value(w, t) for t in rest.split()]
        elif head in ('T', 'O'):
            a = rest
            if a in d[head]:
                raise Bad('%s given twice for %s' % (head, a))
            d[head][a] = rows(len(d['states']))
        elif head == 'R':
            a, sep, s = [x.strip() for x in rest.partition(':')]
            if (a, s) in d['R']:
                raise Bad('R given twice')
            d['R'][a, s] = rows(len(d['states']))
        else:
            raise Bad('unknown directive %r' % head)
    return d


def one_row(w, ns, na, no, which):
    """Fixed numbers everywhere but in one unknown row."""
    def fixed(shape, prob):
        a = np.empty(shape, dtype=object)
        for k, i in enumerate(np.ndindex(*shape[:-1])):
            row = [float((k * 3 + j * 5) % 7 + (j + 1)) for j in range(shape[-1])]
            row = [x / 64. for x in row]
            if prob:
                row[0] = 1. - sum(row[1:])
            a[i] = row
        return a
    arrs = dict(T=fixed((na, ns, ns), True), O=fixed((na, ns, no), True),
                R=fixed((na, ns, ns, no), False), start=fixed((1, ns), True)[0])
    a = arrs[which]
    if which == 'start':
        a[:] = flat(w.prob_vector('row', ns))
    elif which == 'R':
        a[-1, 0, -1, :] = w.reals('row', no)
    else:
        a[-1, 0, :] = flat(w.prob_vector('row', a.shape[-1]))
    vals = [arrs[k].tolist() for k in ('T', 'O', 'R', 'start')]
    m = w.load(POMDP_MOD).POMDP(*[w.array(arrs[k]) for k in ('T', 'O', 'R', 'start')], 0.9,
                                states=names('s', ns), actions=names('a', na),
                                observations=names('o', no))
    return m, tuple(vals) + (0.9,)


def text(w, ns, na, no, named, via_file, which=None):
    if which == 'big':
        m, (T, O, R, b0, g) = big_pomdp(w, ns, na, no, rows=max(ns, no) < 4)
    elif which is not None:
        m, (T, O, R, b0, g) = one_row(w, ns, na, no, which)
    else:
        m, (T, O, R, b0, g) = make_pomdp(w, ns, na, no, named=named)
    if via_file:
        path = m.dump_to(w.tmpdir(), 'model')
        with open(path) as f:
            txt = f.read()
        w.check(path.endswith('.pomdp'), 'file extension')
    else:
        txt = m.dump()
    try:
        d = parse(w, txt)
    except Bad as e:
        w.check(False, 'the text follows the format', info=str(e))
        return
    w.check(True, 'the text follows the format')
    st = names('s', ns) if named else [str(k) for k in range(ns)]
    ac = names('a', na) if named else [str(k) for k in range(na)]
    ob = names('o', no) if named else [str(k) for k in range(no)]
    w.check(d.get('states') == st and d.get('actions') == ac and d.get('observations') == ob,
            'names in the text')
    w.check(d.get('values') == 'reward', 'rewards are declared as rewards')
    w.check('discount' in d and w.eq(d['discount'], g), 'discount in the text')

    def row(got, want, label, prob):
        tol = len(want) * 1e-5
        w.check(len(got) == len(want), label)
        for x, y in zip(got, want):
            w.check(w.conj([w.le(x - y, tol), w.le(y - x, tol)]), label)
            if prob:
                w.check(w.le(0, x), 'printed probabilities are non-negative')
        if prob:
            w.check(w.eq(sum(got), 1) if w.symbolic else abs(sum(got) - 1) < 1e-9,
                    'printed probability rows sum to one')
    row(d.get('start', []), b0, 'start in the text', True)
    w.check(set(d['T']) == set(ac) and set(d['O']) == set(ac)
            and set(d['R']) == {(a, s) for a in ac for s in st}, 'every block is printed once')
    for ia, a in enumerate(ac):
        for i, s in enumerate(st):
            row(d['T'][a][i], T[ia][i], 'transition entries in the text', True)
            row(d['O'][a][i], O[ia][i], 'observation entries in the text', True)
            for j in range(ns):
                row(d['R'][a, s][j], R[ia][i][j], 'reward entries in the text', False)


L = ['the text follows the format', 'names in the text', 'discount in the text',
     'start in the text', 'transition entries in the text', 'observation entries in the text',
     'reward entries in the text', 'printed probability rows sum to one',
     'printed probabilities are non-negative']


def instances(tier):
    out = []
    for ns, na, no in [(2, 1, 1), (1, 2, 2), (2, 2, 1)] + (
            [(2, 1, 2), (3, 1, 1)] if tier == 'thorough' else []):
        for named in (True, False):
            out.append(Inst('dump-%dx%dx%d-%s' % (ns, na, no, 'named' if named else 'numbered'),
                            text, L, ns=ns, na=na, no=no, named=named, via_file=named))
    n = 4 if tier == 'quick' else 6
    for which, dims in [('T', (n, 2, 2)), ('O', (2, 2, n)), ('R', (2, 2, n)), ('start', (n, 1, 2))]:
        out.append(Inst('one-row-%s-%d' % (which, n), text, L, ns=dims[0], na=dims[1], no=dims[2],
                        named=True, via_file=False, which=which))
    for dims in ((11, 2, 3), (2, 11, 3), (3, 2, 12)):
        out.append(Inst('large-%dx%dx%d' % dims, text, L, ns=dims[0], na=dims[1], no=dims[2], named=True,
                        via_file=False, which='big'))
    for k in (5,) if tier == 'quick' else (5, 7):
        out.append(Inst('one-row-start-%d' % k, text, L, ns=k, na=1, no=1, named=True, via_file=False,
                        which='start'))
    return out
