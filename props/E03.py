"""Elapsed times of processes."""
import datetime
import os
import subprocess
import types

from symex.engine import Sym
from symex.loader import ModuleProxy

from .common import Inst

MOD = 'task_models.utils.multiprocess'
BOUNDS = ('every time ps prints as minutes and seconds, with hours, or with hours and days (fields are unknown integers: '
          'seconds, minutes below 60, hours below 24, days up to 10^6), padded or not, ended or not by a new line; '
          'for the current process or any other; and the texts of some chosen values digit by digit.')
ASSUMPTIONS = ['ps is replaced by a stand-in printing elapsed times as POSIX says']
UNITS = dict(days=86400, hours=3600, minutes=60, seconds=1, weeks=7 * 86400)


class Delta(object):
    """datetime.timedelta over unknown numbers."""

    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        self.t = (days * 86400 + seconds + minutes * 60 + hours * 3600 + weeks * 7 * 86400 +
                  microseconds / 1000000 + milliseconds / 1000)

    def total_seconds(self):
        return self.t

    def __add__(self, o):
        return Delta(seconds=self.t + o.t)

    __radd__ = __add__

    def __sub__(self, o):
        return Delta(seconds=self.t - o.t)

    def __mul__(self, k):
        return Delta(seconds=self.t * k)

    __rmul__ = __mul__


def ps_stub(w, fields, pids, pad, newline):
    def two(x):
        return str(x) if isinstance(x, Sym) else '%02d' % x

    def text(args):
        if not isinstance(args, (str, bytes)) and not all(isinstance(a, (str, bytes, os.PathLike)) for a in args):
            raise TypeError('expected str, bytes or os.PathLike object')
        args = [a.decode() if isinstance(a, bytes) else str(a) for a in (args.split() if isinstance(args, str) else args)]
        pids.append(args)
        if any('etimes' in a for a in args):
            s = sum(UNITS[k] * v for k, v in fields.items())
            out = str(s)
        else:
            f = [str(fields['days']) + '-'] if 'days' in fields else []
            f += [two(fields['hours']) + ':'] if 'hours' in fields else []
            out = ''.join(f) + two(fields['minutes']) + ':' + two(fields['seconds'])
        return ' ' * pad + out + ('\n' if newline else '')

    def wants_text(kw):
        return kw.get('text') or kw.get('universal_newlines') or kw.get('encoding')

    def check_output(args, *a, **kw):
        t = text(args)
        return t if wants_text(kw) else t.encode()

    def run(args, *a, **kw):
        t = text(args)
        return types.SimpleNamespace(args=args, returncode=0, stderr=None, stdout=t if wants_text(kw) else t.encode(),
                                     check_returncode=lambda: None)
    return ModuleProxy(subprocess, check_output=check_output, run=run)


def elapsed(w, form, given, digits=False):
    if digits:   # texts whose zeros matter
        fields = {k: w.pick(k, v) for k, v in (('seconds', [0, 8, 50]), ('minutes', [0, 9, 59]))}
    else:
        fields = {'seconds': w.int('seconds', 0, 59), 'minutes': w.int('minutes', 0, 59)}
    if form >= 1:
        fields['hours'] = w.pick('hours', [0, 7, 20]) if digits else w.int('hours', 0, 23)
    if form >= 2:
        fields['days'] = w.pick('days', [1, 10, 300]) if digits else w.int('days', 1, 10 ** 6)
    pids = []
    pad = w.pick('padding', [0, 6 - 3 * form] if form < 2 else [0])
    w.loader.stubs['subprocess'] = ps_stub(w, fields, pids, pad, w.flag('newline'))
    if w.symbolic:
        w.loader.stubs['datetime'] = ModuleProxy(datetime, timedelta=Delta)
    given = given and w.pick('pid', [1, 42, 4242, 4194303])
    mod = w.load(MOD)
    t = mod.get_process_elapsed_time(given) if given else mod.get_process_elapsed_time()
    w.check(len(pids) == 1 and any(str(given or os.getpid()) in a for a in pids[0]),
            'the time is that of the process')
    want = sum(UNITS[k] * v for k, v in fields.items())
    w.check(w.eq(t.total_seconds(), want), 'the time is the one printed')


def instances(tier):
    L = ['the time is that of the process', 'the time is the one printed']
    return [Inst('digits-%d' % f, elapsed, L, form=f, given=False, digits=True) for f in range(3)] + [
        Inst('%s-%s' % (n, 'given' if g else 'own'), elapsed, L, form=f, given=g)
            for f, n in enumerate(['minutes', 'hours', 'days']) for g in (False, True)]
