"""A simulator standing for an arbitrary model, and a reference for search trees."""
from symex import engine as E

from .common import flat, names

MCP_MOD = 'task_models.lib.pomcp'


class Fake(object):
    """Every outcome of a call is an unknown; calls are logged."""

    def __init__(self, w, na, no, ns=2, discount=None, start=None, final_states=()):
        self.w = w
        self.actions, self.observations, self.states = names('a', na), names('o', no), names('s', ns)
        self.n_actions, self.n_observations, self.n_states = na, no, ns
        self.discount = w.real('gamma', 0, 1) if discount is None else discount
        self.start = w.array(start or [1. / ns] * ns)
        self.calls = []          # (action, state, new state, observation, reward)
        self.beliefs = {}
        self.fail = lambda a, o, b: None
        self.fix_obs = None
        self.on_call = None
        self.token = 1000        # new states are distinct numbers from here

    def sample_start(self):
        return self.w.draw_index(self.n_states, flat(self.start))

    def sample_transition(self, a, s):
        k = len(self.calls)
        o = self.w.int('o%d' % k, 0, self.n_observations - 1).__index__() \
            if self.fix_obs is None else self.fix_obs(k, a, s)
        ns = self.token + k
        r = self.w.real('r%d' % k)
        self.calls.append((a, s, ns, o, r))
        if self.on_call is not None:
            self.on_call(self.calls[-1])
        return ns, o, r

    def belief_update(self, a, o, b):
        self.fail(a, o, b)
        k = (int(a), int(o), tuple(str(x) for x in flat(b)))
        if k not in self.beliefs:
            n = len(self.beliefs) + 3
            self.beliefs[k] = self.w.array([1. / n, 1 - 1. / n] + [0.] * (self.n_states - 2))
        return self.beliefs[k]

    # supportive-model extras
    def is_final(self, s):
        return False


def obs_children(action_node):
    return list(action_node.children.items())


def nodes(tree):
    """id -> (path, node) for every node, by its first path."""
    out = {}

    def visit(path, n):
        if id(n) in out:
            return
        out[id(n)] = (path, n)
        ch = n.children
        if isinstance(ch, dict):
            for o, c in ch.items():
                visit(path + ('o%d' % int(o),), c)
        else:
            for a, c in enumerate(ch):
                if c is not None:
                    visit(path + ('a%d' % a,), c)
    visit((), tree.root)
    return out


def stats(tree):
    return {i: (n, n.n_simulations, n.value) for i, (p, n) in nodes(tree).items()}


def updated(n, value, alpha, ret):
    """Running average after one more return."""
    mean = (value * n + ret) / (n + 1)
    if E.is_zero(alpha):
        return n + 1, mean
    return n + 1, (1 - alpha) * mean + alpha * ret
