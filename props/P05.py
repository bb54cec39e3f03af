"""JSON round trips of models and policies."""
from symex import arr as A

from .common import Inst, POMDP_MOD, big_pomdp, flat, make_pomdp, names

BOUNDS = ('every model with up to 2x2x2 and 3x1x2 (states x actions x observations; thorough up to '
          '3x2x3) in both value conventions, named or numbered, and every policy with up to 2 nodes '
          'x 2 observations (thorough 3x2), '
          'missing transitions included; models with up to 12 states, actions and observations and a '
          'policy with 120 nodes in which one row is unknown; through dictionary, text and file.')
ASSUMPTIONS = ['json itself carries finite numbers and strings faithfully; unknown numbers travel '
               'through the text as marked numerals']


def nested(x):
    return A.base(A.obj(x)).tolist()


def same(w, x, y, label):
    x, y = A.base(A.obj(x)), A.base(A.obj(y))
    w.check(x.shape == y.shape, label, info='shapes %s %s' % (x.shape, y.shape))
    for a, b in zip(x.flat, y.flat):
        if a is None or b is None:
            w.check(a is None and b is None, label)
        else:
            w.check(w.eq(a, b) if w.symbolic else a == b, label)


def trip(w, cls, x, via):
    if via == 'dict':
        d = x.to_dict()
        return cls.from_dict(d)
    if via == 'text':
        s = x.as_json() if hasattr(x, 'as_json') else x.to_json()
        w.check(isinstance(s, str), 'json text is text')
        return cls.from_json(s)
    path = w.tmpdir() + '/x.json'
    if w.flag('the file exists'):
        with open(path, 'w') as f:
            f.write('[' * 50)
    x.save_as_json(path)
    return cls.load_from_json(path)


def model(w, ns, na, no, via, values, named, big=False):
    if big:
        m, (T, O, R, b0, g) = big_pomdp(w, ns, na, no)
    else:
        m, (T, O, R, b0, g) = make_pomdp(w, ns, na, no, named=named, values=values)
    mod = w.load(POMDP_MOD)
    m2 = trip(w, mod.POMDP, m, via)
    w.check(isinstance(m2, mod.POMDP), 'a model is loaded')
    st, ac, ob = (names('s', ns), names('a', na), names('o', no)) if named else (
        list(range(ns)), list(range(na)), list(range(no)))
    w.check(list(m2.states) == st and list(m2.actions) == ac and list(m2.observations) == ob,
            'names survive')
    same(w, m2.T, T, 'probabilities survive')
    same(w, m2.O, O, 'probabilities survive')
    same(w, m2.start, b0, 'probabilities survive')
    r = R if values == 'reward' else (-A.obj(R)).tolist()
    same(w, m2.R, r, 'rewards survive')
    w.check(w.eq(m2.discount, g), 'discount survives')
    # the original is untouched
    same(w, m.T, T, 'saving changes nothing')
    same(w, m.R, r, 'saving changes nothing')


def large(w, nn, via):
    """More nodes than a single digit or two can tell."""
    mod = w.load(POMDP_MOD)
    acts, obs = names('a', 3), names('o', 2)
    actions = [acts[i % 3] for i in range(nn)]
    k = w.int('node', 0, nn - 1).__index__() if nn < 20 else w.pick('node', [0, 9, 10, 99, 100, nn - 1])
    tr = [[None if (i + j) % 7 == 0 else (i * 11 + j * 5) % nn for j in range(2)] for i in range(nn)]
    tr[k] = [None if w.flag('none') else w.int('next', 0, nn - 1), 0]
    vals = w.array([[(i - 3.7) / 3., 1e-9 * i] if i != k else [w.real('x'), w.real('y')] for i in range(nn)])
    init = w.pick('init', sorted({0, 7, 10, nn // 2, nn - 2, nn - 1} & set(range(nn))))
    p = mod.GraphPolicy(list(actions), obs, tr, vals, init=init)
    v0 = flat(vals)
    if via == 'text':
        p2 = mod.GraphPolicy.from_json(p.to_json())
    else:
        path = w.tmpdir() + '/p.json'
        p.save_as_json(path)
        p2 = mod.GraphPolicy.load_from_json(path)
    w.check(list(p2.actions) == actions and list(p2.observations) == obs, 'policy names survive')
    w.check(int(p2.init) == init, 'initial node survives', info='%s %s' % (p2.init, init))
    same(w, p2.transitions, tr, 'transitions survive')
    same(w, flat(p2.values), v0, 'values survive')


def policy(w, nn, na, no, via, indent):
    mod = w.load(POMDP_MOD)
    acts = names('a', na)
    actions = [acts[w.int('action%d' % i, 0, na - 1).__index__()] for i in range(nn)]
    obs = names('o', no)
    tr = [[None if w.flag('none%d_%d' % (i, j)) else w.int('next%d_%d' % (i, j), 0, nn - 1)
           for j in range(no)] for i in range(nn)]
    vals = w.real_array('v', (nn, 2))
    how = w.flag('init given')
    init = w.int('init', 0, nn - 1).__index__() if how else None
    start = w.prob_vector('start', 2)
    p = mod.GraphPolicy(list(actions), obs, tr, vals, start=start, init=init)
    v0 = flat(vals)
    i0 = int(p.init)
    if via == 'text':
        p2 = mod.GraphPolicy.from_json(p.to_json(indent=indent))
    elif via == 'file':
        path = w.tmpdir() + '/p.json'
        if w.flag('the file exists'):
            p.save_as_json(path, indent=4)
        p.save_as_json(path, indent=indent)
        p2 = mod.GraphPolicy.load_from_json(path)
    else:
        p2 = mod.GraphPolicy.from_dict(p.to_dict())
    w.check(list(p2.actions) == actions and list(p2.observations) == obs, 'policy names survive')
    w.check(int(p2.init) == i0, 'initial node survives', info='%s %s' % (p2.init, i0))
    same(w, p2.transitions, tr, 'transitions survive')
    same(w, flat(p2.values), v0, 'values survive')
    w.check(A.obj(p2.values).shape == (nn, 2), 'values survive')


M = ['names survive', 'probabilities survive', 'rewards survive', 'discount survives']
G = ['policy names survive', 'initial node survives', 'transitions survive', 'values survive']


def instances(tier):
    out = []
    sizes = [(2, 2, 2), (3, 1, 2), (1, 2, 3)] + ([(3, 2, 3)] if tier == 'thorough' else [])
    for ns, na, no in sizes:
        for via in ('dict', 'text', 'file'):
            for values in ('reward', 'cost'):
                out.append(Inst('model-%dx%dx%d-%s-%s' % (ns, na, no, via, values), model, M, ns=ns,
                                na=na, no=no, via=via, values=values, named=values == 'reward'))
    for via in ('dict', 'text', 'file'):
        for nn, no in [(1, 2), (2, 2)] + ([(3, 2)] if tier == 'thorough' else []):
            out.append(Inst('policy-%dx%d-%s' % (nn, no, via), policy, G, nn=nn, na=2, no=no, via=via,
                            indent=None if nn == 1 else 2))
    for via, ns, na, no in (('dict', 12, 3, 11), ('text', 11, 2, 12), ('file', 3, 12, 4)):
        out.append(Inst('model-%dx%dx%d-%s' % (ns, na, no, via), model, M, ns=ns, na=na, no=no, via=via,
                        values='reward', named=True, big=True))
    for via in ('text', 'file'):
        out.append(Inst('policy-120-' + via, large, G, nn=120, via=via))
    return out
