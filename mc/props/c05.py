"""1D LUT lookup."""
import itertools
import math

import boot
import refmodel as R
from common import *

clf = boot.clf()
BOUNDS = """Table lengths 2, 3, 4, 5, 9 (thorough: to 17 and 1024) x 1 or 3 channels x interpolation linear/cubic/
absent/unknown x 36 depth pairs x no, one or three index maps of 2, 3 and 4 points; as set and read from a
file; all tables of up to 3 (thorough 4) entries out of two numbers, both infinities and NaN; inputs at every table position, the quarters between, far beyond both ends, NaN, infinities; 1-5 channel pixels."""


def maps_for(n):
    """Index maps onto a table of n entries, in the units of a given full scale."""
    h = n - 1
    return {
        'none': None,
        'one2': [([0.0, 1.0], [0, h])],
        'one2inner': [([0.25, 0.75], [0, h])],
        'one3': [([0.0, 0.25, 1.0], [0, max(1, h - 1), h])],
        'one4': [([-0.5, 0.0, 0.5, 2.0], [0, 1, h - 1 if h > 1 else 1, h])],
        'flip': [([0.0, 1.0], [h, 0])],
        'over': [([0.0, 0.5, 1.0], [0, h, h + 4])],
        'three': [([0.0, 1.0], [0, h]), ([0.0, 0.5, 1.0], [h, 0, h]), ([-1.0, 0.0, 0.25, 1.0], [0, 0, h, h])],
        'three-a': [([0.5, 1.0], [0, h]), ([0.0, 0.5], [0, h]), ([0.25, 0.5], [0, h])],
    }


def positions(n):
    h = (n - 1) * 4
    return [k / float(h) for k in range(h + 1)] if n <= 17 else [k / float(n - 1) for k in range(0, n, 31)]


EXTRA = [-1.0, -0.0078125, 1.0078125, 1.5, 4.0]


def make(ch, d, how):
    if how == 'set':
        return R.build_list(clf, [d])
    p = write_text(ch.path('l.clf'), R.xml_doc([d]))
    return clf.ProcessList(p)


def lookup(ch):
    n = ch.choose('entries', [2, 3, 4, 5, 9, 17, 1024] if ch.thorough else [2, 3, 4, 5, 9])
    chn = ch.choose('channels', [1, 3])
    mapn = ch.choose('maps', sorted(maps_for(n)))
    interp = ch.choose('interp', ['linear', 'cubic', '', 'nearest'])
    a = ch.choose('in', R.DEPTHS)
    how = ch.choose('how', ['set', 'file'])
    f = R.full(a)
    m = maps_for(n)[mapn]
    if m:
        m = [([x * f for x in i], o) for i, o in m]
    v = [x * 2 - 0.5 for x in lcg(n * chn, 3 + n)]
    for b in (R.DEPTHS if mapn == 'none' and interp in ('linear', 'cubic') else ['16f', '10i']):
        d = R.D('LUT1D', **{'in': a, 'out': b, 'ch': chn, 'v': v, 'interp': interp})
        if m:
            d['imaps'] = m
        pl = make(ch, d, how)
        xs = [x * f for x in positions(n) + EXTRA]
        k = len(xs)
        px = [[xs[i], xs[(i * 3 + 1) % k], xs[(i * 7 + 2) % k]] for i in range(k)]
        check_pixels(ch, pl, [d], px, 'LUT1D', scale=2.0)
        if b in ('16f', '10i'):
            for c in (1, 2, 4, 5):
                check_pixels(ch, pl, [d], [(p + [7.25, -3.5])[:c] for p in px[:9]], 'LUT1D', scale=2.0, single=True)
        # NaN stays NaN
        g = pl.process([float('nan'), xs[1], float('nan'), xs[2]], 4)
        w = R.ref(d, [float('nan'), xs[1], float('nan'), xs[2]])
        compare(ch, g, w, 'NaN pixel', 2.0)
        # so do infinities; the largest finite numbers are clamped
        for q in ([float('inf'), -float('inf'), xs[1]], [3e38, -3e38, 1e30], [xs[1], 2e35, float('inf')]):
            compare(ch, pl.process(q), R.ref(d, q), 'pixel %s' % q, 2.0)
        ch.step()
        for p in px:
            ch.state(n, chn, mapn, interp, a, b, how, tuple(p))


def getters(ch):
    n = ch.choose('entries', [2, 3, 5])
    chn = ch.choose('channels', [1, 3])
    mapn = ch.choose('maps', sorted(maps_for(n)))
    how = ch.choose('how', ['set', 'file', 'roundtrip'])
    enc = ch.choose('enc', ['string', 'hex32bit'])
    m = maps_for(n)[mapn]
    v = lcg(n * chn, 5)
    d = R.D('LUT1D', ch=chn, v=v, interp='linear', enc=enc)
    if m:
        d['imaps'] = m
    pl = make(ch, d, 'set' if how == 'roundtrip' else how)
    if how == 'roundtrip':
        p = ch.path('l.clf')
        pl.writeFile(p)
        pl = clf.ProcessList(p)
    o = pl.getProcesses()[0]
    ch.equal(list(o.getLUTDimensions()), [n, chn], 'getLUTDimensions')
    compare(ch, o.getLUTValues(), v, 'getLUTValues')
    for i, mm in enumerate(m or []):
        dim = o.getIndexMapDimensions(i)
        if isinstance(dim, (list, tuple)):
            dim = dim[0]
        ch.equal(int(dim), len(mm[0]), 'getIndexMapDimensions(%d)' % i)
        g = o.getIndexMapValues(i)
        compare(ch, g[0], mm[0], 'index map %d inputs' % i)
        compare(ch, g[1], mm[1], 'index map %d outputs' % i)
    ch.step(4)
    ch.state(n, chn, mapn, how, enc)


def infinite(ch):
    """Tables holding infinities and NaN: delivered at their positions, interpolated in between."""
    n = ch.choose('entries', [2, 3, 4] if ch.thorough else [2, 3])
    chn = ch.choose('channels', [1, 3])
    how = ch.choose('how', ['set', 'file', 'encoded'])
    a = ch.choose('in', ['16f', '10i'])
    b = ch.choose('out', ['32f', '8i'])
    inf, nan = math.inf, math.nan
    pool = [0.25, 1.5, inf, -inf, nan]
    f = R.full(a)
    first = [ch.choose('entry', pool)]
    for rest in itertools.product(pool, repeat=n - 1):
        t = first + list(rest)
        v = t if chn == 1 else [x for i in range(n) for x in (t[i], t[n - 1 - i], 0.5 + i)]
        d = R.D('LUT1D', **{'in': a, 'out': b, 'ch': chn, 'v': v, 'interp': 'linear'})
        if how == 'encoded':
            p = ch.path('l.clf')
            R.build_list(clf, [dict(d, enc='hex32bit')]).writeFile(p)
            pl = clf.ProcessList(p)
        else:
            pl = make(ch, d, how)
        tb = [v[k::chn] for k in range(chn)] * (3 // chn)
        for x in [k / (2.0 * (n - 1)) for k in range(-1, 2 * n)]:
            pos = x * (n - 1)
            if abs(pos - round(pos)) > 0.01 or f == 1.0 or x <= 0 or x >= 1:
                got = pl.process([x * f] * 3, 3)
                for k in range(3):
                    lo, r = int(math.floor(pos)), pos - math.floor(pos)
                    e0, e1 = [tb[k][min(n - 1, max(0, q))] for q in (lo, lo + 1)]
                    w = e0 if r == 0 or (pos < 0 or pos > n - 1) and not math.isnan(e0) else (1 - r) * e0 + r * e1
                    g = float(got[k])
                    ok = (math.isnan(g) and math.isnan(w)) or g == w or abs(g - w) < 1e-6
                    ch.check(ok, 'table %s (%s, %s to %s), input %r: channel %d is %r, expected %r', t, how, a, b, x, k, g, w)
        ch.step(2 * n + 1)
        ch.state(n, chn, how, a, b, str(t))


HARNESSES = {'lookup': lookup, 'getters': getters, 'infinite': infinite}
