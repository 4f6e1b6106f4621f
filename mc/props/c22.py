"""Inverse reading of a 1D LUT undoes the LUT."""
import bisect
import itertools
import math

import boot
import explore
import refmodel as R
from common import *

reg = boot.lutformats().Registry
clf = boot.fmt_clf()
BOUNDS = """index maps and resampling: every non-decreasing one-component table of 2 to 4 entries (thorough 5) over 6 values and every triple of 6 (thorough 8)
tables of 2 to 4 entries as three components, 5 input ranges; probes on every knot, between, outside and on every resampling position; half domain:
tables with flat bottoms, middles and tops, one and three components, one or two (thorough three) ranges each, at every one of the finite half-floats in the table's range; each as read,
and written and read (half domain: part of the tables)."""
ASSUMPTIONS = ['tables that are constant in every channel have no inverse', 'half-domain inverses are defined on the table\'s own output values']
ALPHA = [-0.5, 0.0, 0.25, 0.5, 1.0, 2.0]
RANGES = [(0.0, 1.0), (-0.25, 1.25), (0.0, 4.0), (0.5, 1.0), (0.0, 0.5)]


def preimage(t, lo, hi, a, b):
    """The inputs for which the table (non-decreasing, clamped) is within [a, b]."""
    n = len(t)

    def inv(x, left):
        if x < t[0] or (x == t[0] and left):
            return 0.0
        if x > t[-1] or (x == t[-1] and not left):
            return n - 1.0
        k = bisect.bisect_left(t, x) if left else bisect.bisect_right(t, x)
        return k - 1 + (x - t[k - 1]) / (t[k] - t[k - 1])
    return tuple(lo + (hi - lo) * i / (n - 1.0) for i in (inv(a, True), inv(b, False)))


def judge(ch, got, tabs, rng, px, what, eps=1e-6, tol=2e-6):
    lo, hi = rng
    for c in range(3):
        t = tabs[c if len(tabs) > 1 else 0]
        x = R.clampf(px[c], t[0], t[-1])
        e = eps * max(1.0, abs(x), abs(t[0]), abs(t[-1]))
        a, b = preimage(t, lo, hi, x - e, x + e)
        w = tol * max(abs(lo), abs(hi), 1.0)
        ch.check(a - w <= float(got[c]) <= b + w, '%s: %r gives %r in channel %d, the table %s over %s has it at %s', what, px[c], float(got[c]), c, t, rng, (a, b))


def spi(tabs, rng):
    n = len(tabs[0])
    return 'Version 1\nFrom %r %r\nLength %d\nComponents %d\n{\n%s\n}\n' % (rng[0], rng[1], n, len(tabs), '\n'.join(' '.join('%r' % t[i] for t in tabs) for i in range(n)))


def both(ch, pl, again):
    yield pl, ''
    if again:
        p = ch.path('i.clf')
        pl.writeFile(p)
        yield clf.ProcessList(p), ', written and read'


def grid(tabs):
    """Where the resampled form is exact."""
    lo, hi = min(t[0] for t in tabs), max(t[-1] for t in tabs)
    m = 2 * len(tabs[0])
    return [lo + (hi - lo) * i / (m - 1.0) for i in range(m)]


def run(ch, tabs, rng, method, again):
    if all(t[0] == t[-1] for t in tabs):
        if len(set(t[0] for t in tabs)) == 1:
            return
    p = write_text(ch.path('l.spi1d'), spi(tabs, rng))
    kw = {'index map': [{}, {'inversesUseIndexMaps': True, 'inversesUseHalfDomain': False}], 'resampled': [{'inversesUseIndexMaps': False, 'inversesUseHalfDomain': False}]}[method]
    g = grid(tabs)
    if method == 'index map':
        # on every knot, four steps between, and outside
        ks = sorted(set(x for t in tabs for x in t))
        xs = sorted(set(ks + [a + (b - a) * i / 4.0 for a, b in zip(ks, ks[1:]) for i in (1, 2, 3)] + [ks[0] - 1.0, ks[-1] + 1.0, -100.0, 100.0] + g))
    else:
        xs = g + [g[0] - 1.0, g[-1] + 2.0]
    m = len(xs)
    pix = [[xs[i], xs[(i + 1) % m], xs[(2 * i + 3) % m]] for i in range(m)] + [[x] * 3 for x in xs]
    for k in kw:
        pl = reg.read(p, inverse=True, **k)
        for l, w in both(ch, pl, again):
            got = chunks(l.process(flat(pix), 3), 3)
            ch.check(len(got) == len(pix), '%d pixels for %d', len(got), len(pix))
            for x, y in zip(pix, got):
                judge(ch, y, tabs, rng, x, '%s%s' % (method, w), eps=2e-6 if w or method == 'resampled' else 1e-6)
            ch.step(len(pix))


def one(ch):
    """Every table."""
    method = ch.choose('method', ['index map', 'resampled'])
    n = ch.choose('length', [2, 3, 4, 5] if ch.thorough else [2, 3, 4])
    rng = ch.choose('range', RANGES)
    first = ch.choose('first', range(len(ALPHA)))
    for rest in itertools.combinations_with_replacement(ALPHA[first:], n - 1):
        t = [ALPHA[first]] + list(rest)
        run(ch, [t], rng, method, again=True)
        ch.state(method, rng, tuple(t))


SETS = {2: [[0.0, 1.0], [0.25, 0.75], [-1.0, 2.0], [0.5, 0.5], [0.0, 0.125], [1.0, 8.0], [-0.5, 0.0], [0.0, 2.0]],
        3: [[0.0, 0.5, 1.0], [0.0, 0.125, 1.0], [0.25, 0.25, 0.5], [-1.0, 0.0, 2.0], [0.0, 1.0, 1.0], [0.5, 0.5, 0.5], [0.0, 0.875, 1.0], [1.0, 2.0, 4.0]],
        4: [[0.0, 0.25, 0.75, 1.0], [0.0, 0.5, 0.5, 1.0], [0.0, 0.0, 0.25, 0.5], [-0.5, 0.0, 1.5, 1.5], [0.0, 0.015625, 0.0625, 1.0], [0.5, 0.5, 0.5, 2.0], [-2.0, -1.0, -0.5, -0.25], [0.0, 1.0, 1.0, 1.0]]}


def three(ch):
    """Every triple of tables."""
    method = ch.choose('method', ['index map', 'resampled'])
    n = ch.choose('length', [2, 3, 4])
    k = 8 if ch.thorough else 6
    i, j = ch.choose('R', range(k)), ch.choose('G', range(k))
    for l in range(k):
        tabs = [SETS[n][i], SETS[n][j], SETS[n][l]]
        for rng in RANGES:
            run(ch, tabs, rng, method, again=rng[0] != 0.0)
            ch.state(method, n, i, j, l, rng)


HALF_T = [[[0.0, 1.0]], [[0.0, 0.25, 1.0]], [[0.25, 0.5, 0.5, 1.0]], [[0.0, 0.0, 1.0, 1.0]], [[-1.0, -0.25, 0.0, 2.0]],
          [[0.0, 0.5, 1.0], [0.0, 0.125, 1.0], [0.0, 0.875, 1.0]], [[0.0, 0.75, 1.0], [0.25, 0.5, 2.0], [-1.0, 0.0, 0.5]], [[0.0, 0.5, 0.5], [0.5, 0.5, 1.0], [0.25, 0.5, 1.0]]]


def half(ch):
    """The half-domain form at every half-float."""
    i = ch.choose('table', range(len(HALF_T)))
    rng = ch.choose('range', RANGES if ch.thorough else RANGES[:2] if i == 1 else [RANGES[(0, 1, 2, 3, 4, 0, 2, 1)[i]]])
    again = ch.flag('written and read')
    if again and not ch.thorough and (i, rng) not in ((1, RANGES[1]), (6, RANGES[2])):
        raise explore.Prune()
    tabs = HALF_T[i]
    pl = reg.read(write_text(ch.path('l.spi1d'), spi(tabs, rng)), inverse=True, inversesUseIndexMaps=False, inversesUseHalfDomain=True)
    if again:
        p = ch.path('i.clf')
        pl.writeFile(p)
        pl = clf.ProcessList(p)
    codes = [c for c in range(65536) if c & 0x7c00 != 0x7c00]
    chans = []
    for c in range(3):
        t = tabs[c if len(tabs) > 1 else 0]
        chans.append([x for x in (R.half_of_code(k) for k in codes) if t[0] <= x <= t[-1]])
    m = max(len(x) for x in chans)
    pix = [[x[k % len(x)] for x in chans] for k in range(m)]
    got = chunks(pl.process(flat(pix), 3), 3)
    ch.check(len(got) == len(pix), '%d pixels for %d', len(got), len(pix))
    for x, y in zip(pix, got):
        # written as raw halfs: the result is a half-float
        judge(ch, y, tabs, rng, x, 'half domain%s' % (', written and read' if again else ''), tol=5e-4 if again else 2e-6)
    ch.step(len(pix))
    ch.state(i, rng, again)


HARNESSES = {'one': one, 'three': three, 'half': half}
