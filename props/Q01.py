"""Boards: features and placements."""
from symex import arr as A

from .common import Inst, flat

MOD = 'task_models.snap_circuit'
ACT = 'task_models.action'
BOUNDS = ('boards of 1 to 3 rows and columns with up to 2 (thorough 3) parts anywhere; placements anywhere on '
          'boards of up to 2 by 3 between any feature vectors (every other entry an unknown number), and '
          'between boards with any of 4 related parts before and after; conditions over up to 3 (thorough 4) features, any mask '
          'and unknown values and features; the 20 parts and 4 orientations of the code.')
ASSUMPTIONS = ['locations are on the board, feature values are 0 or 1 at the place of a placement, the states of a '
               'placement have its board']


def cell(w, tag, board, turns=4):
    return (w.int(tag + ' row', 0, board[0] - 1).__index__(), w.int(tag + ' column', 0, board[1] - 1).__index__(),
            w.int(tag + ' turn', 0, turns - 1).__index__())


def features(w, n, board, turns=4):
    mod = w.load(MOD)
    P, N = mod.SnapCircuitState.N_PARTS, mod.SnapCircuitState.N_ORIENTATIONS
    placed = []
    for i in range(n):
        k = w.pick('id%d' % i, [0, 7, P - 1]) if i == 0 else w.pick('id%d' % i, [0, 7])
        placed.append((cell(w, 'part%d' % i, board, turns), mod.SnapCircuitPart(k, w.pick('label%d' % i, 'pq') if i else 'p')))
    s = mod.SnapCircuitState(board, placed)
    r, c = board
    want = {}
    for (x, y, o), p in placed:
        want[((p.id * r + x) * c + y) * N + o] = 1
    f = flat(s.get_features())
    w.check(s.get_features().ndim == 1 and len(f) == s.n_dim == P * r * c * N, 'one feature per part and location')
    w.check_conj([w.eq(v, want.get(i, 0)) for i, v in enumerate(f)], 'features are one exactly for the placed parts')
    full = s.features
    w.check(tuple(full.shape) == (P, r, c, N) and s.feature_shape(board) == (P, r, c, N),
            'one feature per part and location')
    w.check_conj([w.eq(v, want.get(i, 0)) for i, v in enumerate(flat(full))],
                 'features are one exactly for the placed parts')
    w.check(set(s.parts) == set(placed) and s.board_rows == r and s.board_cols == c, 'the state has the given parts')
    full[...] = 7.
    w.check_conj([w.eq(v, want.get(i, 0)) for i, v in enumerate(flat(s.features))],
                 'features are one exactly for the placed parts')
    s.get_features()[...] = 7.
    w.check_conj([w.eq(v, want.get(i, 0)) for i, v in enumerate(flat(s.get_features()))],
                 'features are one exactly for the placed parts')
    s.parts.clear()
    w.check(set(s.parts) == set(placed), 'the state has the given parts')


def any_state(w, mod, board, tag, i):
    """A board state with any features, 0 or 1 at index i."""
    class Any(mod.SnapCircuitState):
        @property
        def features(self):
            return self.values.copy()

        def get_features(self):
            return self.values.flatten()
    s = Any(board, [])
    shape = mod.SnapCircuitState.feature_shape(board)
    n = shape[0] * shape[1] * shape[2] * shape[3]
    here = w.int('%s placed' % tag, 0, 1)
    v = [w.real('%s%d' % (tag, k)) for k in range(n)] if w.symbolic else [float(k % 2) for k in range(n)]
    v[i] = here
    s.values = w.array(v).reshape(shape)
    return s, here


def placement(w, board, part):
    """Whatever the other features are."""
    mod = w.load(MOD)
    loc = cell(w, 'place', board)
    shape = mod.SnapCircuitState.feature_shape(board)
    i = ((part * shape[1] + loc[0]) * shape[2] + loc[1]) * shape[3] + loc[2]
    # the same on other boards, and others on this one
    area = board[0] * board[1]
    for r in range(1, area + 1):   # same area
        if area % r == 0 and r != board[0] and loc[0] < r and loc[1] < area // r:
            mod.PlaceAction((r, area // r), mod.SnapCircuitPart(part, 'p'), loc)
    mod.PlaceAction((board[0] + 1, board[1] + 2), mod.SnapCircuitPart(part, 'p'), loc)
    mod.PlaceAction(board, mod.SnapCircuitPart((part + 1) % 20, 'p'), loc)
    a = mod.PlaceAction(board, mod.SnapCircuitPart(part, 'p'), loc)
    mod.PlaceAction((board[0], board[1] + 1), mod.SnapCircuitPart(part, 'p'), loc)
    w.check(a.position == loc[:2] and a.orientation == loc[2] and a.location == loc and a.part.id == part,
            'the action knows its part and place')
    before, b = any_state(w, mod, board, 'before', i)
    after, c = any_state(w, mod, board, 'after', i)
    ok = bool(a.check(before, after))
    w.check(w.conj([b == 0, c == 1]) if ok else w.neg(w.conj([b == 0, c == 1])),
            'placements explain exactly the appearance of their part')
    for x in (before, after):
        w.check(not a.check(x, x), 'placements explain exactly the appearance of their part')
    ok = bool(a.post.check(after))
    w.check(c == 1 if ok else c == 0, 'presence is seen')
    ok = bool(a.pre.check(before))
    w.check(b == 0 if ok else b == 1, 'absence is seen')


def boards(w, board=(3, 2)):
    """Between two boards with related parts."""
    mod = w.load(MOD)
    part, other = mod.SnapCircuitPart(3, 'p'), mod.SnapCircuitPart(4, 'p')
    loc = (1, 1, 2)
    near = w.pick('other location', [(1, 1, 3), (1, 0, 2), (2, 1, 2)])
    pairs = [(loc, part), (loc, other), (near, part), (near, other)]
    a = mod.PlaceAction(board, part, loc)
    sets, there = [], []
    for t in ('before', 'after'):
        has = [w.flag('%s %d' % (t, k)) for k in range(4 if t == 'before' else 3)]
        sets.append(mod.SnapCircuitState(board, [p for p, h in zip(pairs, has) if h]))
        there.append(has[0])
    ok = bool(a.check(*sets))
    w.check(ok == (not there[0] and there[1]), 'placements explain exactly the appearance of their part')


class AnyState(object):
    def __init__(self, v):
        self.v = v
        self.features = v
        self.n_dim = len(v)

    def get_features(self):
        return self.v


def conditions(w, n, kinds=(0, 1)):
    act, st = w.load(ACT), w.load('task_models.state')
    mask = [w.pick('mask%d' % i, list(kinds)) for i in range(n)]
    val = [w.real('value%d' % i) for i in range(n)]
    x = [w.real('x%d' % i) for i in range(n)]
    bad = w.disj([w.neg(w.eq(v, 0)) for v, m in zip(val, mask) if not m])
    try:
        c = act.Condition(w.array(mask), w.array(val))
    except ValueError:
        w.check(bad, 'conditions on masked features are refused')
        return
    w.check(w.neg(bad), 'conditions on masked features are refused')
    state = st.NDimensionalState(w.array(x))
    ok = bool(c.check(state))
    want = w.conj([w.eq(v, y) for v, y, m in zip(val, x, mask) if m])
    w.check(want if ok else w.neg(want), 'conditions hold exactly when the unmasked features agree')
    both = act.PrePostConditionAction(c, act.MatchAllCondition())
    w.check(bool(both.check(state, None)) == ok, 'actions need both conditions')
    both = act.PrePostConditionAction(act.MatchAllCondition(), c)
    w.check(bool(both.check(None, state)) == ok, 'actions need both conditions')
    none = act.PrePostConditionAction(c, act.Condition(w.array(mask), w.array([v + m for v, m in zip(val, mask)])))
    if sum(mask):
        w.check(not none.check(state, state), 'actions need both conditions')
    y = [w.real('y%d' % i) for i in range(n)]
    other = st.NDimensionalState(w.array(y))
    both = act.PrePostConditionAction(c, c)
    w.check(bool(both.check(state, other)) == (ok and bool(c.check(other))), 'actions need both conditions')


def instances(tier):
    th = tier == 'thorough'
    F = ['features are one exactly for the placed parts', 'one feature per part and location', 'the state has the given parts']
    PL = ['placements explain exactly the appearance of their part']
    out = [Inst('features-1-%dx%d' % b, features, F, n=1, board=b) for b in ((1, 1), (2, 3), (3, 2))]
    out += [Inst('features-2', features, F, n=2, board=(1, 2), turns=2 if not th else 4),
            Inst('features-0', features, F, n=0, board=(2, 2))]
    if th:
        out.append(Inst('features-3', features, F, n=3, board=(2, 2), turns=1))
    for b, k in (((2, 2), 0), ((1, 3), 5), ((2, 1), 19)) + ((((2, 3), 12),) if th else ()):
        out.append(Inst('placement-%dx%d-%d' % (b + (k,)), placement, PL + ['presence is seen', 'absence is seen'],
                        board=b, part=k))
    out.append(Inst('boards', boards, PL))
    C = ['conditions hold exactly when the unmasked features agree', 'actions need both conditions',
         'conditions on masked features are refused']
    out += [Inst('conditions-%d' % n, conditions, C, n=n) for n in ((1, 2, 3) + ((4,) if th else ()))]
    return out
