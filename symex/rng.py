"""Randomness as an environment of the code under test.

Demonic mode: a draw returns an arbitrary value within its contract.
Law mode: every alternative of a draw is explored and weighted with its
probability, so that the exact law of the code's result is obtained."""
import types

import numpy as np

from . import engine as E


class UFloat(object):
    """A number a*u+b for a uniform u, for exact laws on the real code."""

    def __init__(self, law, key, a=1., b=0.):
        self.law, self.key, self.a, self.b = law, key, a, b

    def _aff(self, k, c):
        return UFloat(self.law, self.key, self.a * k, self.b * k + c)

    def __add__(self, c):
        return self._aff(1., float(c))
    __radd__ = __add__

    def __sub__(self, c):
        return self._aff(1., -float(c))

    def __rsub__(self, c):
        return self._aff(-1., float(c))

    def __mul__(self, c):
        return self._aff(float(c), 0.)
    __rmul__ = __mul__

    def __truediv__(self, c):
        return self._aff(1. / float(c), 0.)

    def __neg__(self):
        return self._aff(-1., 0.)

    def __lt__(self, c):
        if self.a == 0:
            return self.b < c
        t = (float(c) - self.b) / self.a
        r = self.law.below(self.key, t)     # u < t
        return r if self.a > 0 else not r

    __le__ = __lt__

    def __gt__(self, c):
        return not self.__lt__(c)

    __ge__ = __gt__

    def __eq__(self, c):
        return False

    def __ne__(self, c):
        return True

    __hash__ = None

    def __int__(self):
        k = 0
        lo = min(self.b, self.a + self.b)
        k = int(np.floor(lo))
        while not self < k + 1:
            k += 1
        return k

    __floor__ = __int__
    __trunc__ = __int__


class Law(object):
    """One scripted run; alternatives are pushed on the stack."""

    def __init__(self, script, stack, symbolic):
        self.script, self.stack, self.symbolic = script, stack, symbolic
        self.pos = 0
        self.done = []
        self.weight = 1
        self.uniforms = {}
        self.n_draws = 0

    def pick(self, weights):
        """Index of the alternative taken; weights concrete or symbolic."""
        alts = [i for i, p in enumerate(weights) if not E.is_zero(p)]
        if not alts:
            raise ValueError('probabilities do not sum to 1')
        if self.pos < len(self.script):
            i = self.script[self.pos]
        else:
            i = alts[0]
            for j in alts[:0:-1]:
                self.stack.append(self.done + [j])
        self.pos += 1
        self.done.append(i)
        self.weight = self.weight * weights[i]
        return i

    def uniform(self, name):
        if self.symbolic:
            u = E.SymReal(E.z3.Real(name))
            self.uniforms[u.n.get_id()] = [0, 1, u]
            return u
        self.uniforms[name] = [0., 1., None]
        return UFloat(self, name)

    def below(self, key, t):
        """Splits the law of the uniform at t; True: u < t."""
        lo, hi, _ = iv = self.uniforms[key]
        if bool(t <= lo):
            return False
        if bool(t >= hi):
            return True
        width = hi - lo
        if self.symbolic and isinstance(width, E.Sym):
            ps = [E.div(t - lo, width), E.div(hi - t, width)]
        else:
            ps = [(t - lo) / width, (hi - t) / width]
        i = self.pick(ps)
        iv[i ^ 1] = t
        return i == 0

    def compound(self, eng, e):
        """Decides e by deciding one comparison of a draw inside of it first."""
        z3 = E.z3
        atom = _leaf_atom(e, set(self.uniforms))
        if atom is None or atom.eq(e):
            raise E.Unsupported('condition on random draws: %s' % e)
        d = eng.branch(E.SymBool(atom))
        rest = z3.simplify(z3.substitute(e, (atom, z3.BoolVal(d))))
        return eng.branch(E.SymBool(rest))

    def uniform_branch(self, eng, sb):
        """Decides a symbolic condition that depends on a uniform draw."""
        z3 = E.z3
        ids = _vars(sb.e)
        us = [k for k in ids if k in self.uniforms]
        if not us:
            return None
        if len(us) > 1:
            return self.compound(eng, sb.e)
        key = us[0]
        atom = sb.atom
        if atom is None:
            atom = _atom(sb.e)
        if atom is None or z3.is_int(atom[1]):
            return self.compound(eng, sb.e)
        op, l, r = atom
        u = self.uniforms[key][2].n
        f = l - r
        f0 = z3.simplify(z3.substitute(f, (u, z3.RealVal(0))))
        f1 = z3.simplify(z3.substitute(f, (u, z3.RealVal(1))))
        a = z3.simplify(f1 - f0, som=True)
        chk = z3.simplify(f - (f0 + a * u), som=True)
        if not (z3.is_rational_value(chk) and chk.as_fraction() == 0):
            raise E.Unsupported('non-affine condition on a random draw')
        if op in ('eq', 'ne'):
            return op == 'ne'     # measure zero
        if z3.is_rational_value(a):
            af = a.as_fraction()
            if af == 0:
                return None
            pos = af > 0
            t = E.SymReal(z3.simplify(-f0 / a))
        else:
            pos = bool(E.SymReal(a) > 0)
            t = E.div(-E.SymReal(f0), E.SymReal(a))
        t = _concrete(t)
        less = self.below(key, t)       # u < t  <=> (pos) f < 0
        neg = less if pos else not less   # f < 0
        return neg if op in ('lt', 'le') else not neg


def _leaf_atom(e, draws):
    """A comparison inside of e that depends on draws and has no condition inside."""
    z3 = E.z3
    seen = set()

    def visit(t):
        # (found, t has conditions inside)
        if t.get_id() in seen:
            return None
        seen.add(t.get_id())
        for c in t.children():
            found = visit(c)
            if found is not None:
                return found
        if z3.is_bool(t) and t.num_args() and z3.is_real(t.arg(0)) and _vars(t) & draws:
            return t
        return None
    return visit(e)


def _concrete(t):
    z3 = E.z3
    if isinstance(t, E.SymReal) and t.d is None:
        s = z3.simplify(t.n)
        if z3.is_rational_value(s):
            return s.as_fraction()
    return t


def _atom(e):
    z3 = E.z3
    neg = False
    while z3.is_not(e):
        neg = not neg
        e = e.arg(0)
    for op, f in (('lt', z3.is_lt), ('le', z3.is_le), ('gt', z3.is_gt), ('ge', z3.is_ge),
                  ('eq', z3.is_eq)):
        if f(e):
            return (E._NEG[op] if neg else op), e.arg(0), e.arg(1)
    return None


_VARS = {}


def _vars(e):
    """ids of the real constants in e."""
    z3 = E.z3
    seen = set()
    out = set()
    todo = [e]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(i)
        else:
            todo.extend(x.children())
    return out


class RNG(types.ModuleType):
    """numpy.random as seen by the code under test, over a world's draws."""

    def __init__(self, world):
        types.ModuleType.__init__(self, 'numpy.random')
        self.__dict__['_w'] = world
        self.__dict__['seeds'] = []

    # -- helpers

    def _many(self, f, size):
        if size is None:
            return f()
        shape = tuple(int(x) for x in size) if isinstance(size, (tuple, list)) else (int(size),)
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(shape):
            a[i] = f()
        return self._w.array(a)

    def seed(self, s=None):
        self.seeds.append(s)

    def get_state(self):
        return None

    def set_state(self, s):
        pass

    def RandomState(self, seed=None):
        return self

    default_rng = RandomState

    def random(self, size=None):
        return self._many(self._w.draw_unit, size)

    random_sample = ranf = sample = random

    def rand(self, *shape):
        return self.random(shape or None)

    def uniform(self, low=0., high=1., size=None):
        if size is None:
            return low + (high - low) * self._w.draw_unit()
        return self._many(lambda: low + (high - low) * self._w.draw_unit(), size)

    def randint(self, low, high=None, size=None, dtype=None):
        if high is None:
            low, high = 0, low
        low, high = int(low), int(high)
        if high <= low:
            raise ValueError('low >= high')
        return self._many(lambda: low + self._w.draw_index(high - low), size)

    integers = random_integers = randint

    def binomial(self, n, p, size=None):
        def one():
            k = 0
            for _ in range(int(n)):
                k = k + self._w.draw_index(2, [1 - p, p])
            return k
        return self._many(one, size)

    def choice(self, a, size=None, replace=True, p=None):
        if isinstance(a, (int, np.integer)):
            n = int(a)
            pop = None
            if n <= 0:
                raise ValueError('a must be greater than 0 unless no samples are taken')
        else:
            if isinstance(a, np.ndarray) and a.ndim != 1:
                raise ValueError('a must be 1-dimensional')
            pop = a if isinstance(a, np.ndarray) else list(a)
            n = len(pop)
            if n == 0:
                raise ValueError("'a' cannot be empty unless no samples are taken")
        if p is not None:
            p = list(p)
            if len(p) != n:
                raise ValueError("'a' and 'p' must have same size")
            self._w.check_probabilities(p)

        def one():
            i = self._w.draw_index(n, p)
            return i if pop is None else pop[i]
        if size is not None and not replace:
            raise E.Unsupported('choice without replacement')
        r = self._many(one, size)
        return r

    def multinomial(self, n, pvals, size=None):
        if size is not None:
            raise E.Unsupported('multinomial size')
        pv = list(pvals)
        out = [0] * len(pv)
        for _ in range(int(n)):
            out[int(self._w.draw_index(len(pv), pv))] += 1
        return self._w.array(np.array(out, dtype=object))

    def permutation(self, x):
        l = list(range(x)) if isinstance(x, int) else list(x)
        self.shuffle(l)
        return np.array(l)

    def shuffle(self, l):
        for i in range(len(l) - 1, 0, -1):
            j = int(self._w.draw_index(i + 1))
            l[i], l[j] = l[j], l[i]

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise E.Unsupported('numpy.random.' + n)


class PyRandom(types.ModuleType):
    """The standard random module."""

    def __init__(self, world, rng):
        types.ModuleType.__init__(self, 'random')
        self.__dict__.update(_w=world, _r=rng)

    def random(self):
        return self._w.draw_unit()

    def uniform(self, a, b):
        return self._r.uniform(a, b)

    def randint(self, a, b):
        return self._r.randint(a, b + 1)

    def randrange(self, a, b=None):
        return self._r.randint(a, b)

    def choice(self, seq):
        return seq[self._w.draw_index(len(seq))]

    def choices(self, pop, weights=None, k=1):
        p = None
        if weights is not None:
            t = sum(weights)
            p = [x / t for x in weights]
        return [pop[self._w.draw_index(len(pop), p)] for _ in range(k)]

    def shuffle(self, l):
        self._r.shuffle(l)

    def seed(self, *a):
        pass

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise E.Unsupported('random.' + n)
