"""P22: timers account for exactly the time between starts and stops."""
import time
import timeit
import numpy as np
from vlib.core import Check, st
from sporco import util

CHECK = Check('P22', scale=3, rule='the history contains a query of a label that was running for a positive time',
              assumptions=['fake clock: the module clock is replaced by one that advances only between operations; '
                           'if the module does not read it, the real clock is used and readings are bracketed',
                           'list arguments with an unknown label are not generated (how many of the known labels '
                           'are processed before the error is not documented)'])

LBL = ['main', 'a', 'b', 'c', 'zz']
KNOWN = ['main', 'a', 'b']


def ops():
    lab = st.one_of(st.none(), st.sampled_from(LBL), st.lists(st.sampled_from(LBL[:4]), min_size=1, max_size=3))
    one = st.sampled_from(LBL)
    return st.lists(st.one_of(
        st.fixed_dictionaries({'op': st.just('start'), 'l': lab, 'tup': st.booleans()}),
        st.fixed_dictionaries({'op': st.just('stop'), 'l': st.one_of(lab, st.just('ALL')), 'tup': st.booleans()}),
        st.fixed_dictionaries({'op': st.just('reset'), 'l': st.one_of(lab, st.just('ALL')), 'tup': st.booleans()}),
        st.fixed_dictionaries({'op': st.just('start'), 'l': st.one_of(st.none(), st.sampled_from(KNOWN)),
                               'tup': st.just(False)}),
        st.fixed_dictionaries({'op': st.just('tick'), 'd': st.integers(1, 50)}),
        st.fixed_dictionaries({'op': st.just('tick'), 'd': st.integers(1, 50)}),
        st.fixed_dictionaries({'op': st.just('elapsed'), 'l': st.one_of(st.none(), one), 'total': st.booleans()}),
        st.fixed_dictionaries({'op': st.just('elapsed'), 'l': st.one_of(st.none(), one), 'total': st.booleans()}),
        st.fixed_dictionaries({'op': st.just('str')}),
        st.fixed_dictionaries({'op': st.just('enter'), 'l': st.one_of(st.none(), one), 'act': st.booleans(),
                               'own': st.booleans()}),
        st.fixed_dictionaries({'op': st.just('exit'), 'exc': st.booleans()}),
        st.fixed_dictionaries({'op': st.just('ctxelapsed'), 'total': st.booleans()}),
    ), min_size=3, max_size=25)


class Model(object):
    """Interval-valued reference: a reading is (lo, hi)."""

    def __init__(self, labels, dflt, alll):
        self.run = {}
        self.acc = {}
        self.dflt, self.alll = dflt, alll
        for x in labels or []:
            self.run[x], self.acc[x] = None, (0.0, 0.0)

    def names(self, l, forstart=False):
        if l is None:
            l = self.dflt
        if l == self.alll and not forstart:
            return list(self.run)
        return list(l) if isinstance(l, (list, tuple)) else [l]

    def start(self, l, t):
        for x in self.names(l, True):
            if x not in self.run:
                self.run[x], self.acc[x] = None, (0.0, 0.0)
            if self.run[x] is None:
                self.run[x] = t
        return True

    def stop(self, l, t):
        ns = self.names(l)
        if any(x not in self.run for x in ns):
            return False
        for x in ns:
            if self.run[x] is not None:
                s = self.run[x]
                self.acc[x] = (self.acc[x][0] + t[0] - s[1], self.acc[x][1] + t[1] - s[0])
                self.run[x] = None
        return True

    def reset(self, l, t):
        ns = self.names(l)
        if any(x not in self.run for x in ns):
            return False
        for x in ns:
            self.run[x], self.acc[x] = None, (0.0, 0.0)
        return True

    def elapsed(self, l, total, t):
        if l is None:
            l = self.dflt
            if l not in self.run:
                return (0.0, 0.0)
        if l not in self.run:
            return None
        e = (0.0, 0.0)
        if self.run[l] is not None:
            e = (t[0] - self.run[l][1], t[1] - self.run[l][0])
        if total:
            e = (e[0] + self.acc[l][0], e[1] + self.acc[l][1])
        return e


class Clock(object):
    def __init__(self):
        self.t = 1000.0

    def __call__(self):
        return self.t


class Patched(object):
    """Install the fake clock where the module may read it."""

    def __init__(self, clock):
        self.clock = clock

    def __enter__(self):
        self.saved = []
        for mod, name in ((util, 'timer'), (timeit, 'default_timer'), (time, 'perf_counter')):
            f = getattr(mod, name, None)
            if callable(f) and not isinstance(f, type):
                self.saved.append((mod, name, f))
                setattr(mod, name, self.clock)
        return self

    def __exit__(self, *a):
        for mod, name, f in self.saved:
            setattr(mod, name, f)


def fake_works():
    c = Clock()
    with Patched(c):
        x = util.Timer()
        x.start('q')
        c.t += 12345.0
        return x.elapsed('q') == 12345.0


FAKE = None
REAL = time.perf_counter


def run(case, t, clock):
    fake = clock is not None
    dflt = case['dflt']
    alll = case['all']
    lab = case['labels']
    kw = {}
    if dflt != 'main' or case['kw']:
        kw['dfltlbl'] = dflt
    if alll != 'all' or case['kw']:
        kw['alllbl'] = alll
    tm = util.Timer(lab if lab is None else (lab[0] if len(lab) == 1 and case['single'] else list(lab)), **kw)
    m = Model(lab, dflt, alll)
    stack = []
    seen = 0
    eps = 1e-9 if fake else 2e-6

    def call(fn):
        b = clock.t if fake else REAL()
        try:
            r, err = fn(), None
        except KeyError as e:
            r, err = None, e
        a = clock.t if fake else REAL()
        return r, err, (b, a)

    def cmp(r, err, e, what):
        if e is None:
            t.check(err is not None, '%s: unknown label accepted', what)
            return
        t.check(err is None, '%s: label rejected', what)
        t.check(e[0] - eps <= r <= e[1] + eps, '%s: %.9g, expected %.9g to %.9g', what, r, e[0], e[1])

    for i, o in enumerate(case['ops']):
        k = o['op']
        what = 'operation %d (%s)' % (i, k)
        l = o.get('l')
        if l == 'ALL':
            l = alll
        if isinstance(l, list) and o.get('tup'):
            l = tuple(l)
        if k == 'tick':
            if fake:
                clock.t += o['d'] / 8.0
            else:
                time.sleep(o['d'] * 2e-5)
        elif k in ('start', 'stop', 'reset'):
            if k != 'start' and isinstance(l, (list, tuple)) and any(x not in m.run for x in l):
                continue
            arg = () if l is None else (l,)
            r, err, iv = call(lambda: getattr(tm, k)(*arg))
            ok = getattr(m, k)(l, iv)
            t.check((err is None) == ok, '%s: label %s %s', what, l, 'rejected' if ok else 'accepted')
        elif k == 'elapsed':
            r, err, iv = call(lambda: tm.elapsed(l, total=o['total']) if l is not None else tm.elapsed(
                total=o['total']))
            e = m.elapsed(l, o['total'], iv)
            cmp(r, err, e, what + ' ' + str(l))
            seen += e is not None and e[1] > 0
        elif k == 'str':
            s, err, iv = call(lambda: str(tm))
            t.check(err is None and all(str(x) in s for x in m.run), '%s: label missing from the summary', what)
            t.check(set(tm.labels()) == set(m.run), '%s: labels %s, expected %s', what, sorted(tm.labels()),
                    sorted(m.run))
        elif k == 'enter':
            act = 'StartStop' if o['act'] else 'StopStart'
            if o['own'] and o['act']:
                c = util.ContextTimer(label=l)
                mm = Model(None, 'main', 'all')
            else:
                c = util.ContextTimer(tm, l, act)
                mm = m
            r, err, iv = call(c.__enter__)
            ok = (mm.start if o['act'] else mm.stop)(l, iv)
            t.check((err is None) == ok, '%s: label %s', what, l)
            if ok:
                t.check(r is c, '%s: context value', what)
                stack.append((c, mm, l, o['act']))
        elif k == 'exit' and stack:
            c, mm, l, a = stack.pop()
            ei = (ValueError, ValueError('x'), None) if o['exc'] else (None, None, None)
            r, err, iv = call(lambda: c.__exit__(*ei))
            ok = (mm.stop if a else mm.start)(l, iv)
            t.check((err is None) == ok, '%s: exit', what)
            if o['exc']:
                t.check(not r, '%s: exception suppressed', what)
        elif k == 'ctxelapsed' and stack:
            c, mm, l, a = stack[-1]
            r, err, iv = call(lambda: c.elapsed(total=o['total']))
            cmp(r, err, mm.elapsed(l, o['total'], iv), what)
    for l in list(m.run):
        for tot in (True, False):
            r, err, iv = call(lambda: tm.elapsed(l, total=tot))
            e = m.elapsed(l, tot, iv)
            cmp(r, err, e, 'final reading of %s' % l)
            seen += e[1] > 0
    t.nontrivial(seen > 0)


hist = st.fixed_dictionaries({
    'ops': ops(), 'dflt': st.sampled_from(['main', 'main', 'a', 'other']), 'all': st.sampled_from(['all', 'everything']),
    'labels': st.one_of(st.none(), st.lists(st.sampled_from(LBL[:4]), min_size=1, max_size=3, unique=True)),
    'kw': st.booleans(), 'single': st.booleans()})


@CHECK.sub(hist, quick=8000, thorough=100000, shards=8)
def history(case, t):
    global FAKE
    if FAKE is None:
        FAKE = bool(fake_works())
    t.label('fake_clock', FAKE)
    if FAKE:
        c = Clock()
        with Patched(c):
            run(case, t, c)
    else:
        run(case, t, None)


@CHECK.sub(hist, quick=120, thorough=3000, shards=4)
def history_real_clock(case, t):
    run(case, t, None)
