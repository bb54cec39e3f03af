"""Integer code of the supportive states."""
import itertools

from .common import Inst

MOD = 'task_models.supportive'
BOUNDS = ('all states and feature values (symbolic integers) for 1 to 5 task nodes, 0 to 3 preferences, '
          '0 to 2 body features and 0 to 4 objects (thorough: up to 7, 3, 3, 6), and all sequences of up '
          'to 3 (thorough 4) updates of unknown features to unknown values; up to 40 task nodes and up to 70 objects '
          'of which up to 7 are unknown.')
ASSUMPTIONS = []


class Ref(object):
    """Features of a state, apart from the code."""

    def __init__(self, htm, prefs, body, objs):
        self.htm, self.prefs, self.body, self.objs = htm, list(prefs), list(body), list(objs)

    def copy(self):
        return Ref(self.htm, self.prefs, self.body, self.objs)


def features(w, tag, nh, npf, nb, no):
    return Ref(w.int(tag + 'htm', 0, nh - 1), [w.int('%sp%d' % (tag, i), 0, 1) for i in range(npf)],
               [w.int('%sb%d' % (tag, i), 0, 1) for i in range(nb)],
               [w.int('%so%d' % (tag, i), 0, 1) for i in range(no)])


def same(w, s, r, label):
    w.check(w.eq(s.htm, r.htm), label, info='task node')
    for g, xs in ((s.has_preference, r.prefs), (s.has_body_feature, r.body), (s.has_object, r.objs)):
        for i, x in enumerate(xs):
            w.check(w.eq(g(i), x), label, info='%s %d' % (g, i))


def assign(s, r, order):
    for kind in order:
        if kind == 'h':
            s.htm = r.htm
        elif kind == 'p':
            for i, x in enumerate(r.prefs):
                s.set_preference(i, x)
        elif kind == 'b':
            for i, x in enumerate(r.body):
                s.set_body_feature(i, x)
        else:
            for i, x in enumerate(r.objs):
                s.set_object(i, x)


def bits(w, s, nh, npf, nb, no):
    w.check(s.n_htm == nh and s.n_preferences == npf and s.n_body_features == nb and s.n_objects == no,
            'sizes are those given')
    w.check(s.n_states == nh * 2 ** (npf + nb + no), 'there is one state per combination')


def codec(w, nh, npf, nb, no, order):
    """Combination -> code -> combination, in any order of assignment."""
    S = w.load(MOD)._SupportivePOMDPState
    s = S(nh, npf, nb, no)
    bits(w, s, nh, npf, nb, no)
    r = features(w, '', nh, npf, nb, no)
    assign(s, r, order)
    same(w, s, r, 'a combination reads back')
    c = s.to_int()
    w.check(w.conj([w.le(0, c), c < s.n_states]), 'codes are below the number of states')
    same(w, S(nh, npf, nb, no, s=c), r, 'a code reads back as its combination')
    w.check(bool(s.is_final()) == bool(w.eq(r.htm, nh - 1)), 'final means the last task node')


def distinct(w, nh, npf, nb, no):
    S = w.load(MOD)._SupportivePOMDPState
    codes = []
    rs = [features(w, t, nh, npf, nb, no) for t in 'xy']
    for r in rs:
        s = S(nh, npf, nb, no)
        assign(s, r, 'hpbo')
        codes.append(s.to_int())
    a, b = rs
    equal = w.conj([w.eq(a.htm, b.htm)] + [w.eq(x, y) for xs, ys in (
        (a.prefs, b.prefs), (a.body, b.body), (a.objs, b.objs)) for x, y in zip(xs, ys)])
    w.check(w.implies(w.eq(codes[0], codes[1]), equal), 'distinct combinations have distinct codes')
    w.check(w.implies(equal, w.eq(codes[0], codes[1])), 'a combination has one code')


def decode(w, nh, npf, nb, no):
    """Every integer below the number of states is the code of what it reads as."""
    S = w.load(MOD)._SupportivePOMDPState
    c = w.int('code', 0, nh * 2 ** (npf + nb + no) - 1)
    s = S(nh, npf, nb, no, s=c)
    w.check(w.conj([w.le(0, s.htm), s.htm < nh]), 'task nodes are in range')
    vals = [s.has_preference(i) for i in range(npf)] + [s.has_body_feature(i) for i in range(nb)] + \
        [s.has_object(i) for i in range(no)]
    w.check(w.conj([w.disj([w.eq(v, 0), w.eq(v, 1)]) for v in vals] or [True]), 'features are bits')
    r = Ref(s.htm, vals[:npf], vals[npf:npf + nb], vals[npf + nb:])
    t = S(nh, npf, nb, no)
    assign(t, r, 'obph')
    w.check(w.eq(t.to_int(), c), 'a code is that of its combination')
    w.check(w.eq(s.to_int(), c), 'reading does not change the state')


def read(s, nh, npf, nb, no):
    return Ref(s.htm, [s.has_preference(i) for i in range(npf)],
               [s.has_body_feature(i) for i in range(nb)], [s.has_object(i) for i in range(no)])


def updates(w, nh, npf, nb, no, steps, fork):
    """Any sequence of updates from any state; a copy in between."""
    S = w.load(MOD)._SupportivePOMDPState
    # every code is htm * 2^k + its bits
    c = w.int('htm', 0, nh - 1)
    for i in reversed(range(npf + nb + no)):
        c = 2 * c + w.int('bit%d' % i, 0, 1)
    s = S(nh, npf, nb, no, s=c)
    r = read(s, nh, npf, nb, no)
    other = None
    options = [('h', 0)] + [('p', i) for i in range(npf)] + [('b', i) for i in range(nb)] + \
        [('o', i) for i in range(no)]
    for t in range(steps):
        if t == fork:
            c = s.copy()
            bits(w, c, nh, npf, nb, no)
            same(w, c, r, 'a copy is equal')
            w.check(w.eq(c.to_int(), s.to_int()), 'a copy is equal')
            w.check(bool(c.is_final()) == bool(s.is_final()), 'a copy is equal')
            if w.flag('which'):
                s, other = c, (s, r.copy(), s.to_int())
            else:
                other = (c, r.copy(), c.to_int())
        kind, i = w.pick('feature%d' % t, options)
        if kind == 'h':
            r.htm = v = w.int('value%d' % t, 0, nh - 1)
            s.htm = v
        else:
            v = w.int('value%d' % t, 0, 1)
            {'p': s.set_preference, 'b': s.set_body_feature, 'o': s.set_object}[kind](i, v)
            {'p': r.prefs, 'b': r.body, 'o': r.objs}[kind][i] = v
        same(w, s, r, 'setting a feature changes that feature only')
        w.check(w.conj([w.le(0, s.to_int()), s.to_int() < s.n_states]), 'codes are below the number of states')
        w.check(bool(s.is_final()) == bool(w.eq(r.htm, nh - 1)), 'final means the last task node')
        if other:
            w.check(w.eq(other[0].to_int(), other[2]), 'a copy is independent')
            same(w, other[0], other[1], 'a copy is independent')


def names(w, nh, npf, nb, no):
    """The name of a state displays its features."""
    S = w.load(MOD)._SupportivePOMDPState
    c = w.int('code', 0, nh * 2 ** (npf + nb + no) - 1).__index__()
    s = S(nh, npf, nb, no, s=c)
    r = read(s, nh, npf, nb, no)
    t = str(s)
    width = len(str(nh * 2 ** (npf + nb + no) - 1))
    want = '<%s: %s %s %s %s>' % (str(c).rjust(width), r.htm, ''.join(map(str, r.prefs)),
                                  ''.join(map(str, r.body)), ''.join(map(str, r.objs)))
    w.check(t == want, 'a state displays its features', info='%r instead of %r' % (t, want))


def far(w, nh, npf, nb, no, where):
    """Large codes: most features are unset, some are unknown."""
    S = w.load(MOD)._SupportivePOMDPState
    s = S(nh, npf, nb, no)
    bits(w, s, nh, npf, nb, no)
    r = Ref(w.int('htm', 0, nh - 1), [0] * npf, [0] * nb, [0] * no)
    s.htm = r.htm
    for i in where:
        r.objs[i] = x = w.int('o%d' % i, 0, 1)
        s.set_object(i, x)
    r.prefs[-1] = x = w.int('p', 0, 1)
    s.set_preference(npf - 1, x)
    same(w, s, r, 'a combination reads back')
    same(w, S(nh, npf, nb, no, s=s.to_int()), r, 'a code reads back as its combination')
    c = s.copy()
    same(w, c, r, 'a copy is equal')
    old = s.to_int()
    for i in where[::2]:
        r.objs[i] = x = w.int('again%d' % i, 0, 1)
        c.set_object(i, x)
    r.htm = w.int('next', 0, nh - 1)
    c.htm = r.htm
    same(w, c, r, 'setting a feature changes that feature only')
    w.check(w.eq(s.to_int(), old), 'a copy is independent')
    w.check(bool(c.is_final()) == bool(w.eq(r.htm, nh - 1)), 'final means the last task node')


def instances(tier):
    th = tier == 'thorough'
    out = []
    sizes = [(1, 0, 0, 0), (2, 1, 1, 0), (3, 1, 1, 2), (5, 3, 2, 4), (4, 2, 0, 1), (2, 0, 1, 3)]
    if th:
        sizes += [(7, 3, 3, 6), (6, 0, 0, 5), (7, 1, 1, 6)]
    for k in sizes:
        t = '-'.join(map(str, k))
        for order in ('hpbo', 'obph') if not th else [''.join(o) for o in itertools.permutations('hpbo')]:
            out.append(Inst('codec-%s-%s' % (t, order), codec,
                            ['a combination reads back', 'a code reads back as its combination',
                             'final means the last task node'], nh=k[0], npf=k[1], nb=k[2], no=k[3],
                            order=order))
        out.append(Inst('distinct-' + t, distinct, ['distinct combinations have distinct codes'], nh=k[0],
                        npf=k[1], nb=k[2], no=k[3]))
        if sum(k[1:]) < 6:
            out.append(Inst('decode-' + t, decode, ['a code is that of its combination'],
                            nh=k[0], npf=k[1], nb=k[2], no=k[3]))
    for k, steps, fork in (((3, 1, 1, 2), 2, 0), ((4, 2, 0, 1), 3, 1), ((2, 0, 1, 3), 2, 1),
                           ((5, 3, 2, 4), 1, 0)) + ((((5, 2, 1, 2), 4, 1), ((3, 1, 1, 5), 3, 2)) if th else ()):
        out.append(Inst('updates-%s-%d-%d' % ('-'.join(map(str, k)), steps, fork), updates,
                        ['setting a feature changes that feature only', 'a copy is equal',
                         'a copy is independent'], nh=k[0], npf=k[1], nb=k[2], no=k[3], steps=steps, fork=fork))
    for k, where in (((3, 1, 1, 36), (0, 15, 16, 30, 31, 32, 35)), ((40, 2, 1, 9), (0, 7, 8)),
                     ((3, 1, 1, 70), (0, 31, 62, 63, 64, 69))):
        out.append(Inst('far-' + '-'.join(map(str, k)), far, [
            'a combination reads back', 'a code reads back as its combination', 'a copy is equal',
            'setting a feature changes that feature only', 'a copy is independent'], nh=k[0], npf=k[1], nb=k[2],
            no=k[3], where=where))
    for k in ((3, 1, 1, 2), (2, 2, 1, 1)):
        out.append(Inst('names-' + '-'.join(map(str, k)), names, ['a state displays its features'], nh=k[0],
                        npf=k[1], nb=k[2], no=k[3]))
    return out
