"""Index maps by themselves: evaluation, the cached form, replacement, text form."""
import itertools
import math

import boot
import explore
import refmodel as R
from common import *

clf = boot.clf()
import aces.clf.IndexMap as I
import xml.etree.ElementTree as etree

BOUNDS = """Nine maps of 2-6 points (rising, falling, flat, uneven, negative, beyond the half range, with infinite slopes
excluded); plain: every point, the quarters between, beyond both ends, infinities and NaN; cached, switched on in
four ways: all 65536 half codes and (every eighth; thorough every) midpoint between neighbours; all effective sequences of
3 (thorough 4) operations out of 6 (thorough 8, and from an empty map too) that set, read, switch, process and write; 1 to 40 points written and read;
six spellings of numbers and four separators read."""
ASSUMPTIONS = ["input points strictly rise and table indices are whole numbers, as the format has it",
               "cached evaluation beyond the largest half-float is not judged"]
MAPS = {
    'two': ([0.0, 1.0], [0, 15]),
    'inner': ([0.25, 0.75], [3, 12]),
    'falling': ([-1.0, 0.0, 2.0], [9, 4, 0]),
    'flat': ([-0.5, 0.125, 0.5, 0.75], [2, 7, 7, 8]),
    'uneven': ([0.0, 0.0009765625, 0.03125, 1.0, 64.0], [0, 1, 8, 9, 64]),
    'codes': ([0.0, 64.0, 512.0, 1023.0], [0, 512, 640, 1023]),
    'wide': ([-100000.0, 0.0, 100000.0], [0, 1000, 1001]),
    'below': ([-1.0, 0.0, 2.0], [-3, 4, -1]),
    'six': ([-2.0, -1.0, -0.25, 0.0, 3.0, 60000.0], [0, 5, 1, 30, 2, 65535]),
}


def want(m, x):
    if math.isnan(x) or math.isinf(x):
        return x
    xs, ys = m
    if x <= xs[0]:
        return float(ys[0])
    if x >= xs[-1]:
        return float(ys[-1])
    for k in range(len(xs) - 1):
        if x <= xs[k + 1]:
            t = (x - xs[k]) / (xs[k + 1] - xs[k])
            return ys[k] + t * (ys[k + 1] - ys[k])


def same(g, w, span):
    g = float(g)
    if math.isnan(w):
        return math.isnan(g)
    if math.isinf(w):
        return g == w
    return abs(g - w) <= 2e-6 * max(abs(w), span * 1e-3, 1e-3)


def span(m):
    return float(max(m[1]) - min(m[1]))


def points(m):
    xs = m[0]
    out = [xs[k] + (xs[k + 1] - xs[k]) * q for k in range(len(xs) - 1) for q in (0.0, 0.25, 0.5, 0.75)]
    return out + [xs[-1], xs[0] - 0.5, xs[-1] + 0.5, -1e30, 1e30, 1e-30, -0.0, float('inf'), -float('inf'), float('nan')]


def copy(m):
    return [list(m[0]), list(m[1])]


def text(m):
    return ' '.join('%r@%d' % p for p in zip(*m))


def plain(ch):
    name = ch.choose('map', sorted(MAPS))
    how = ch.choose('how', ['constructed', 'set', 'read', 'off'])
    m = MAPS[name]
    if how == 'constructed':
        o = I.IndexMap(len(m[0]), copy(m))
    elif how == 'set':
        o = I.IndexMap()
        o.setDimension(len(m[0]))
        o.setValues(copy(m))
    elif how == 'read':
        o = I.IndexMap()
        o.read(etree.fromstring('<IndexMap dim="%d">%s</IndexMap>' % (len(m[0]), text(m))))
    else:
        o = I.IndexMap(len(m[0]), copy(m), 'IndexMap', True)
        o.setuseCachedProcess(False)
    ch.equal(bool(o.getUseCachedProcessue()), False, 'cached')
    ch.equal(int(o.getDimension()), len(m[0]), 'getDimension')
    ch.equal(int(o.getDimensions()), len(m[0]), 'getDimensions')
    for x in points(m):
        g = o.process(x)
        if not same(g, want(m, x), span(m)):
            ch.fail('map %s (%s) at %r: got %r, expected %r' % (name, how, x, g, want(m, x)))
        ch.state(name, how, x)
    ch.equal([[float(y) for y in x] for x in o.getValues()], [[float(y) for y in x] for x in m], 'getValues')
    ch.step(len(points(m)))


def cached_of(m, how):
    if how == 'constructed':
        return I.IndexMap(len(m[0]), copy(m), 'IndexMap', True)
    if how == 'switched':
        o = I.IndexMap(len(m[0]), copy(m))
        o.process(m[0][0])
        o.setuseCachedProcess(True)
        return o
    if how == 'set':
        o = I.IndexMap(useCachedProcess=True)
        o.setDimension(len(m[0]))
        o.setValues(copy(m))
        return o
    o = I.IndexMap(useCachedProcess=True)
    o.read(etree.fromstring('<IndexMap dim="%d">%s</IndexMap>' % (len(m[0]), text(m))))
    return o


HALFS = [R.half_of_code(c) for c in range(65536)]


def cached(ch):
    name = ch.choose('map', sorted(MAPS))
    how = ch.choose('how', ['constructed', 'switched', 'set', 'read'])
    m = MAPS[name]
    o = cached_of(m, how)
    ch.equal(bool(o.getUseCachedProcessue()), True, 'cached')
    sp = span(m)
    every = ch.thorough or how == ['constructed', 'switched', 'set', 'read'][sorted(MAPS).index(name) % 4] and (ch.thorough or name != 'below')
    w = [want(m, x) for x in HALFS]
    n = 0
    for c in range(65536) if every else range(0, 65536, 61):
        g = o.process(HALFS[c])
        if not same(g, w[c], sp):
            ch.fail('cached map %s (%s) at half code %d (%r): got %r, expected %r' % (name, how, c, HALFS[c], float(g), w[c]))
        ch.state(name, how, c)
        n += 1
    step = 1 if ch.thorough else 8 if every else 488
    for base in (0, 0x8000):
        for c in range(base, base + 0x7bff, step):
            a, b = HALFS[c], HALFS[c + 1]
            for q in (0.5, 0.25):
                x = a + (b - a) * q
                e = (1 - q) * w[c] + q * w[c + 1]
                g = o.process(x)
                if not same(g, e, sp):
                    ch.fail('cached map %s (%s) at %r, between half codes %d and %d: got %r, expected %r' % (name, how, x, c, c + 1, float(g), e))
                n += 1
            ch.state(name, how, 'mid', c)
    ch.step(n)


A, B = MAPS['inner'], MAPS['six']
OPS = ['set A', 'set B', 'read A', 'read B', 'cache on', 'cache off', 'process', 'write']
PROBE = [0.0, 0.25, 0.3125, 0.5, 0.75, -1.5, -1.0, 2.0, 30000.0]


def history(ch):
    """Whatever the order of calls, results are those of the points set last."""
    start = ch.choose('start', ['A', 'A cached', 'empty', 'empty cached'])
    if not ch.thorough and start.startswith('empty'):
        raise explore.Prune()
    n = 4 if ch.thorough else 3
    ops, pts, on = [], start[0] if start[0] == 'A' else '', 'cached' in start
    for i in range(n):
        o = ch.choose('op%d' % i, OPS if ch.thorough else ['set A', 'set B', 'read B', 'cache on', 'cache off', 'process'])
        # building a cache takes two seconds: sequences are left out if an operation of theirs has no effect, or
        # if they end with the cache off or with what is done after every sequence anyway
        if o[-1] in 'AB':
            if o[-1] == pts and not (ch.thorough and i == n - 1):
                raise explore.Prune()
            pts = o[-1]
        elif o.startswith('cache'):
            if on == (o == 'cache on'):
                raise explore.Prune()
            on = not on
        elif i == n - 1 or ops and o == ops[-1]:
            raise explore.Prune()
        ops.append(o)
    if not on:
        raise explore.Prune()
    if start.startswith('A'):
        o, cur = I.IndexMap(2, copy(A), 'IndexMap', 'cached' in start), A
    else:
        o, cur = I.IndexMap(useCachedProcess='cached' in start), None
    given = []

    def probe(after):
        if cur is None:
            return
        for x in PROBE:
            g = o.process(x)
            if not same(g, want(cur, x), span(cur)):
                ch.fail('%s, then %s: at %r got %r, expected %r' % (start, after, x, float(g), want(cur, x)))
        ch.step(len(PROBE))
        ch.equal([[float(y) for y in x] for x in o.getValues()], [[float(y) for y in x] for x in cur], 'getValues after %s' % after)
    for i, op in enumerate(ops):
        if op.startswith('set'):
            cur = A if op[-1] == 'A' else B
            v = copy(cur)
            given.append((v, copy(cur)))
            if i % 2:
                o.setDimension(len(cur[0]))
            o.setValues(v)
            if not i % 2:
                o.setDimension(len(cur[0]))
        elif op.startswith('read'):
            cur = A if op[-1] == 'A' else B
            o.read(etree.fromstring('<IndexMap dim="%d">%s</IndexMap>' % (len(cur[0]), text(cur))))
        elif op.startswith('cache'):
            o.setuseCachedProcess(op == 'cache on')
        elif op == 'process':
            probe(ops[:i + 1])
        elif cur is not None:
            written(ch, o, cur)
    probe(ops)
    for v, w in given:
        ch.equal(v, w, 'the lists passed to setValues')
    ch.state(start, *ops)


def written(ch, o, m):
    e = o.write(etree.Element('LUT1D'))
    ch.equal(int(e.get('dim')), len(m[0]), 'dim')
    got = [p.split('@') for p in e.text.split()]
    ch.equal([[float(a), int(b)] for a, b in got], [[float(a), b] for a, b in zip(*m)], 'written points')


def roundtrip(ch):
    """Any number of points, whatever the numbers, written and read back."""
    n = ch.choose('points', [2, 3, 4, 7, 14, 15, 16, 40] if ch.thorough else [2, 3, 7, 16])
    k = ch.choose('inputs', ['small', 'large', 'thirds', 'negative'])
    x0, dx = {'small': (0.0, 0.0009765625), 'large': (0.0, 4095.9375), 'thirds': (-1 / 3.0, 1 / 3.0), 'negative': (-70000.0, 123.456789)}[k]
    m = ([x0 + dx * i for i in range(n)], [(i * 37 + 5) % 64 for i in range(n)])
    o = I.IndexMap(n, copy(m))
    t = etree.Element('LUT1D')
    e = o.write(t)
    ch.equal([c.tag for c in t], ['IndexMap'], 'written elements')
    written(ch, o, m)
    o2 = I.IndexMap(useCachedProcess=ch.flag('cached reader'))
    o2.read(etree.fromstring(etree.tostring(e)))
    ch.equal([[float(y) for y in x] for x in o2.getValues()], [[float(y) for y in x] for x in m], 'values read back')
    ch.equal(int(o2.getDimension()), n, 'size read back')
    o2.setuseCachedProcess(False)
    for x in points(m):
        a, b = float(o.process(x)), float(o2.process(x))
        if not same(a, want(m, x), span(m)) or not (a == b or a != a and b != b):
            ch.fail('at %r: %r before, %r after, expected %r' % (x, a, b, want(m, x)))
        ch.state(n, k, x)
    ch.step(len(points(m)))


SPELL = ['%r@%d', '%+r@%+d', '%.12e@%d', '%r@%d.0', '%.1f@%de0', '%r@%05d']


def spelled(ch):
    """Points in any spelling of the numbers and any white space between them."""
    name = ch.choose('map', sorted(MAPS))
    fmt = ch.choose('numbers', SPELL)
    sep = ch.choose('between', [' ', '\n', '  \t', '\r\n    '])
    pad = ch.choose('around', ['', '\n  '])
    m = MAPS[name]
    t = pad + sep.join(fmt % (x, y) for x, y in zip(*m)) + pad
    xs = [float(p.split('@')[0]) for p in t.split()]
    o = I.IndexMap()
    o.read(etree.fromstring('<IndexMap dim="%d">%s</IndexMap>' % (len(xs), t.replace('\r', '&#13;'))))
    ch.equal([[float(y) for y in x] for x in o.getValues()], [xs, [float(y) for y in m[1]]], 'points read from %r' % t)
    ch.equal(int(o.getDimension()), len(xs), 'size')
    if len(set(xs)) == len(xs):
        for x in points((xs, m[1])):
            g = o.process(x)
            if not same(g, want((xs, m[1]), x), span(m)):
                ch.fail('points %r at %r: got %r, expected %r' % (t, x, g, want((xs, m[1]), x)))
            ch.state(name, fmt, x)
        ch.step(len(points(m)))


HARNESSES = {'spelled': spelled, 'plain': plain, 'cached': cached, 'history': history, 'roundtrip': roundtrip}
