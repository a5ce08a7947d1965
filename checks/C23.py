"""Durations, file sizes and time-left estimates shown to the user are right."""

from fractions import Fraction as Fr
import re
import sys
import types
import numpy as np
from common import *
from simrun import pick
from loader import FRS

BOUNDS = ('durations: any real in [0,10^9] seconds; sizes: any number of bytes up to 2^80; time left: 1-6 frames, first '
          'frame, current frame, total and inversion interval any of these, every list of nonnegative frame times, with '
          'and without compilation; finishing times: any moment and any duration up to 10^8 s')
OUTSIDE = 'negative durations; daylight saving changes'
ASSUMPTIONS = ['rounding of a single number to the requested digits is the interpreter\'s own']

BASE = 10 ** 15


class Shown:
    """Stands in for the interpreter's number formatting: every number that is
    put into a text leaves a mark from which it can be read back."""

    def __init__(self, api):
        self.api, self.kept = api, []

    def __enter__(self):
        if self.api.symbolic:
            self.api.ctx.formatter = self.mark
        return self

    def __exit__(self, *a):
        if self.api.symbolic:
            self.api.ctx.formatter = None
        return False

    def mark(self, x, spec):
        self.kept.append((x, spec))
        k = len(self.kept) - 1
        if spec is None or spec.endswith('d'):
            n = BASE + k
            return n if spec is None else str(n)
        return '@%d@' % k

    def numbers(self, text):
        """(value, absolute error of the shown digits) of each number in it."""
        out = []
        if not self.api.symbolic:
            for t in re.findall(r'-?\d+(?:\.\d+)?(?:e[-+]?\d+)?', text):
                m = re.match(r'-?\d+\.(\d+)', t)
                out.append((float(t), 0.5 * 10.0 ** -len(m.group(1)) if m else 0.0))
            return out
        import sym
        for a, b, c in re.findall(r'@(\d+)@|(1\d{15})|(\d+(?:\.\d+)?)', text):
            if c:
                out.append((self.api.const(Fr(c)), 0))
            elif b:
                x = self.kept[int(b) - BASE][0]
                out.append((sym.sym_trunc(x), 0))
            else:
                x, spec = self.kept[int(a)]
                m = re.search(r'\.(\d+)f$', spec)
                out.append((x, Fr(1, 2 * 10 ** int(m.group(1))) if m else 0))
        return out


PLAIN = re.compile('\033\\[[0-9;]*m')
NUM = r'(?:@\d+@|\d+(?:\.\d+)?)'
FORMS = [(r'^(%s)d\s*(%s):(%s):(%s)$', (86400, 3600, 60, 1)), (r'^(%s):(%s):(%s)$', (3600, 60, 1)),
         (r'^(%s):(%s)$', (60, 1)), (r'^(%s)s$', (1,))]


def read_duration(api, show, text):
    """Seconds stated by the text, and the error of what is shown."""
    t = text.strip()
    for pat, scale in FORMS:
        if re.match(pat.replace('%s', NUM), t):
            v = show.numbers(t)
            return sum((x * s for (x, e), s in zip(v, scale)), api.const(0)), v, scale
    return None, None, None


def duration(api, low, high):
    sh = api.loader().load('functions.shared')
    t = api.real('t', low, high)
    with Shown(api) as show:
        text = sh.format_elapsed_time(t)
        said, v, scale = read_duration(api, show, text)
    api.holds('readable', said is not None)
    e = api.const(Fr(1, 10 ** 6))
    if len(scale) == 1:
        api.holds('tenths shown', v[0][1] <= 0.0501)
        err = api.const(Fr(1, 20)) + e
        api.holds('value', api.And(said - t <= err, t - said <= err))
        return
    api.holds('value', api.And(said <= t + e, t < said + 1 + e))
    for k, (x, _) in enumerate(v):
        top = {3600: 24, 60: 60, 1: 60}
        if scale[k] in top:
            api.holds('field %d in range' % k, api.And(x >= 0, x < top[scale[k]]))


def scalars_time(api):
    """The same for the scripts that generate the scalar tables."""
    mod = api.loader('scalars', roots=[FRS]).load('functions_general')
    t = api.real('t', 0, 10 ** 9)
    with Shown(api) as show:
        text = mod.format_seconds(t)
        ok = re.match('^%sh%sm%ss$' % (NUM, NUM, NUM), text.strip())
        api.holds('readable', ok is not None)
        h, m, s = (x for x, _ in show.numbers(text))
    e = api.const(Fr(1, 10 ** 6))
    said = 3600 * h + 60 * m + s
    api.holds('value', api.And(said <= t + e, t < said + 1 + e))
    api.holds('fields in range', api.And(m >= 0, m < 60, s >= 0, s < 60))


def size(api, low, high):
    sh = api.loader().load('functions.shared')
    b = api.real('bytes', low, high)
    with Shown(api) as show:
        text = sh.sizeof_fmt(b)
        v = show.numbers(text)
    m = re.search(r'([KMGTPEZY]?)B$', text.strip())
    api.holds('readable', len(v) == 1 and m is not None)
    scale = 1024 ** ' KMGTPEZY'.index(m.group(1) or ' ')
    x = v[0][0]
    if api.symbolic:
        api.eq('value', x * scale, b)
    else:
        # as shown: three or four significant digits
        api.eq('value', b, b if abs(x * scale - b) <= 0.006 * abs(b) + 0.06 * scale * (m.group(1) == 'Y') else x * scale)
    if m.group(1) != 'Y':
        api.holds('no more than four digits', x < 1024.5)
    if m.group(1):
        api.holds('largest unit', x >= 1 - Fr(1, 10 ** 9))


def module(api, jit):
    key = 'jit' if jit else 'plain'
    ld = api.loader(key)
    mod = ld.load('functions.timestepping')
    mod.numba.config.DISABLE_JIT = not jit
    return mod


def left(api, every, jit=False, size=5):
    mod = module(api, jit)
    total = pick(api, 'total', 1, size)
    start = pick(api, 'start_%d' % total, 0, total - 1)
    frame = pick(api, 'frame_%d_%d' % (start, total), start, total - 1)
    times = [api.real('t%d' % i, 0, 10 ** 6) if start <= i <= frame else 0 for i in range(total)]
    if not api.symbolic:
        times = [float(x) for x in times]
    val, flags = mod.calculate_time_left(times, frame, total, every, start)
    slow = lambda i: i % every == 0 or i == start
    seen = range(start, frame + 1)
    ls = [times[i] for i in seen if slow(i)]
    ss = [times[i] for i in seen if not slow(i)]
    unsure = False
    if jit:
        if len(ls) > 1:
            ls = ls[1:]
        else:
            unsure = True
    mean = lambda v: sum(v, api.const(0)) / len(v)
    L = mean(ls)
    S = mean(ss) if ss else L
    rest = range(frame + 1, total)
    nl = len([i for i in rest if i % every == 0])
    ns = len([i for i in rest if i % every != 0])
    api.eq('estimate', val, api.const(Fr(103, 100)) * (nl * L + ns * S))
    api.holds('not negative', val >= 0)
    if not nl + ns:
        api.holds('nothing left', val == 0)
    # marks: the compilation is still counted / no quick frame was seen yet
    want = ('<' if unsure else '') + ('<' if frame == start and ns else '')
    api.holds('marks', flags == want)


def shown_left(api):
    mod = module(api, False)
    sh = api.loader('plain').load('functions.shared')
    t = api.real('t', 0, 10 ** 6)
    flags = ['', '<', '<<'][pick(api, 'flags', 0, 2)]
    with Shown(api) as show:
        text = mod.format_time_left(t, flags)
        body = PLAIN.sub('', text)
        api.holds('marks come first', body.startswith(flags) and not body[len(flags):].startswith('<'))
        said, v, scale = read_duration(api, show, body[len(flags):])
    api.holds('readable', said is not None)
    api.holds('value', api.And(said <= t + Fr(51, 1000), t < said + 1 + Fr(1, 1000)))
    api.holds('colour is switched off', text.endswith('\033[0m'))


class Day:
    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return self.n == o.n

    def __ne__(self, o):
        return self.n != o.n

    def __sub__(self, o):
        return types.SimpleNamespace(days=self.n - o.n)


class Delta:
    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        self.s = ((weeks * 7 + days) * 24 + hours) * 3600 + minutes * 60 + seconds


class Moment:
    clock = None

    def __init__(self, s, floor):
        self.s, self.floor = s, floor

    @classmethod
    def now(cls, *a):
        return Moment.clock

    def __add__(self, d):
        return Moment(self.s + d.s, self.floor)
    __radd__ = __add__

    def date(self):
        return Day(self.floor(self.s / 86400))

    def strftime(self, fmt):
        return '{%s|%s}' % (fmt, id(self)) if not Moment.log.append((fmt, self)) else ''


def finish(api, low, high):
    import math
    if api.symbolic:
        import sym
        floor = sym.sym_floor
    else:
        floor = math.floor
    now = api.real('now', 0, 7 * 86400)
    t = api.real('t', low, high)
    ld = api.loader('plain')
    mod = ld.load('functions.timestepping')
    fake = types.ModuleType('datetime')
    fake.datetime, fake.timedelta = Moment, Delta
    Moment.clock, Moment.log = Moment(now, floor), []
    flags = ['', '<'][pick(api, 'flags', 0, 1)]
    old = {}
    for k, v in (('datetime', fake), ('timedelta', Delta)):
        if k in vars(mod):
            old[k] = vars(mod)[k]
            vars(mod)[k] = v if isinstance(old[k], types.ModuleType) or k == 'timedelta' else Moment
    try:
        text = mod.format_finish_time(t, flags)
    finally:
        vars(mod).update(old)
    api.holds('one moment', len(Moment.log) == 1 and text.startswith(flags + '{') and text.endswith('}'))
    fmt, at = Moment.log[0]
    api.eq('moment', at.s, now + t, tol=1e-6)
    d = floor((now + t) / 86400) - floor(now / 86400)
    api.holds('time of day', '%H:%M' in fmt)
    if '%d' in fmt and '%m' in fmt:
        return
    # without the date the reader must be able to tell the day
    if '%a' in fmt or '%A' in fmt:
        api.holds('weekday is enough', api.And(d >= 0, d <= 6))
    else:
        api.holds('today', d == 0)


HARNESSES = [H('duration', duration, low=0, high=10 ** 9), H('size', size, low=0, high=2 ** 80),
             H('size-huge', size, low=2 ** 80, high=2 ** 90), H('shown-left', shown_left), H('scalars-time', scalars_time), H('finish', finish, low=0, high=10 ** 8)]
HARNESSES += [H('left-%d' % e, left, every=e) for e in (1, 2, 3, 5)]
HARNESSES += [H('left-%d-compiled' % e, left, every=e, jit=True) for e in (1, 2, 3)]
HARNESSES += [H('left-long-%d' % e, left, every=e, size=9, tiers=('thorough',), max_paths=600) for e in (1, 2, 4)]
