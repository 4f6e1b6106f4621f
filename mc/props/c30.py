"""Sampled-function LUTs hold the function at every sample."""
import itertools
import math

import numpy as np

import boot
import explore
import refmodel as R
from common import *

clf = boot.clf()
BOUNDS = """1D: every size from 2 to 33 (thorough 129) and 256, 1024, 4096, with 1 and 3 channels, 6 functions (identity, decreasing, curve, constant,
outside 0..1, a function told apart at every call), default and all 36 depth pairs, arguments by position and by name: every table entry and the
result at every sample, between samples and outside; half domain: all 65536 entries with 1 and 3 channels, with and without rawHalfs, 4 functions
that tell all codes apart (NaN and infinite samples too), every finite half-float processed; 3D: all 64 sizes of
2..5 per axis (thorough 216 of 2..7), 5 functions that tell axes and lattice points apart, list and tuple results and sizes, all depth pairs:
every lattice entry, the result at every lattice point with both interpolations, and the number and the arguments of the calls of the function."""
ASSUMPTIONS = ['one sample per axis or table is not a sampling and is left out',
               'table values are those of the function; they are not scaled to the output depth']

F = {'identity': lambda x: x, 'down': lambda x: 1.0 - 0.5 * x, 'curve': lambda x: x * x * 0.5 + x * 0.25, 'constant': lambda x: 0.375,
     'outside': lambda x: 4.0 * x - 2.0, 'sqrt': lambda x: math.sqrt(x)}
DEPTHS = R.DEPTHS


def f32(x):
    return float(np.float32(x))


class Spy(object):
    def __init__(self, f):
        self.f, self.calls = f, []

    def __call__(self, *a):
        self.calls.append(a)
        return self.f(*a)


def meta(ch, o, kind, want, what):
    ch.equal(o.getNodeType(), kind, what + ': type')
    for k, v in want.items():
        ch.check(o.getAttribute(k) == v and type(o.getAttribute(k)) == type(v), '%s: %s is %r, not %r' % (what, k, o.getAttribute(k), v))


def near(a, b, rel=1e-6):
    a, b = float(a), float(b)
    if math.isnan(b):
        return math.isnan(a)
    return a == b or abs(a - b) <= rel * max(1e-30, abs(b)) + 1e-7


def table1(ch, o, f, n, c, what):
    ch.equal(list(o.getLUTDimensions()), [n, c], what + ': dimensions')
    v = o.getLUTValues()
    ch.equal(len(v), n * c, what + ': length')
    for i in range(n):
        want = f(i / float(n - 1))
        for k in range(c):
            ch.check(near(v[i * c + k], want, 1e-9), '%s: entry %d of channel %d is %r, not %r' % (what, i, k, v[i * c + k], want))


def evaluate1(ch, o, f, n, inb, what):
    """At every sample, half way between them, and outside."""
    top = R.FULL[inb]
    pos = [i / float(n - 1) for i in range(n)]
    xs = pos + [(a + b) / 2 for a, b in zip(pos, pos[1:])] + [-0.25, 1.25]
    want = [f(p) for p in pos] + [(f(a) + f(b)) / 2 for a, b in zip(pos, pos[1:])] + [f(0.0), f(1.0)]
    flat_ = []
    for i in range(len(xs)):                       # three channels with different samples
        flat_ += [xs[i], xs[(i + 1) % len(xs)], xs[(i * 7 + 3) % len(xs)]]
    wants = []
    for i in range(len(xs)):
        wants += [want[i], want[(i + 1) % len(xs)], want[(i * 7 + 3) % len(xs)]]
    got = o.process(np.array([x * top for x in flat_], np.float32), 3)
    span = max(abs(f(p) - f(q)) for p, q in zip(pos, pos[1:])) * n + max(abs(w) for w in want)
    for x, g, w in zip(flat_, got, wants):
        # single precision in the input position shows up scaled by the slope of the table
        ch.check(abs(float(g) - w) <= 4e-7 * span + 1e-7, '%s: at %r the result is %r, not %r' % (what, x, float(g), w))
    ch.step(len(flat_))


def sampled(ch):
    """1D tables of every small size."""
    c = ch.choose('channels', [1, 3])
    name = ch.choose('function', sorted(F))
    for n in list(range(2, 130 if ch.thorough else 34)) + [256, 1024, 4096]:
        f = Spy(F[name])
        what = '%s, %d samples, %d channels' % (name, n, c)
        o = clf.simpleSampledLUT('the id', 'the name', c, n, f)
        meta(ch, o, 'LUT1D', dict(id='the id', name='the name', inBitDepth='16f', outBitDepth='16f', interpolation='linear'), what)
        ch.check(o.getAttribute('halfDomain') is None and o.getAttribute('rawHalfs') is None, what + ': half options')
        table1(ch, o, F[name], n, c, what)
        ch.check(set(round(a[0] * (n - 1), 6) for a in f.calls) == set(float(i) for i in range(n)), what + ': sampled elsewhere')
        if n <= 256:
            evaluate1(ch, o, F[name], n, '16f', what)
        ch.state(name, c, n)
        ch.step(n)


def depths1(ch):
    """1D tables of all depths, with arguments given in every way."""
    inb, outb = ch.choose('in', DEPTHS), ch.choose('out', DEPTHS)
    for c, n in itertools.product((1, 3), (2, 5, 9)):
        for name in sorted(F):
            top = R.FULL[outb]
            f = lambda x: F[name](x) * top
            ways = [clf.simpleSampledLUT('i', 'n', c, n, f, inb, outb),
                    clf.simpleSampledLUT(id='i', transformId='n', channels=c, resolution=n, f=f, inBitDepth=inb, outBitDepth=outb),
                    clf.simpleSampledLUT('i', 'n', c, n, f, outBitDepth=outb, inBitDepth=inb)]
            for o in ways:
                what = '%s %s to %s, %d samples, %d channels' % (name, inb, outb, n, c)
                meta(ch, o, 'LUT1D', dict(id='i', name='n', inBitDepth=inb, outBitDepth=outb), what)
                table1(ch, o, f, n, c, what)
            evaluate1(ch, o, f, n, inb, what)
            ch.state(inb, outb, c, n, name)
        o = clf.simpleSampledLUT('i', 'n', c, n)
        table1(ch, o, F['identity'], n, c, 'no function')
        o = clf.simpleSampledLUT('i', 'n', c, n, inBitDepth=inb, outBitDepth=outb)
        table1(ch, o, F['identity'], n, c, 'no function')
        meta(ch, o, 'LUT1D', dict(inBitDepth=inb, outBitDepth=outb), 'no function')


def hscale(x):
    return x * 0.5


HF = {'identity': lambda x: x, 'half': hscale, 'negative': lambda x: 1.0 - x, 'soft': lambda x: x / (1.0 + abs(x)) if abs(x) < 1e9 else (math.copysign(1.0, x) if x == x else 0.25)}
CODES = [R.half_of_code(i) for i in range(65536)]


def half(ch):
    """All 65536 entries of half-domain tables."""
    c = ch.choose('channels', [1, 3])
    raw = ch.choose('rawHalfs', [None, False, True])
    name = ch.choose('function', sorted(HF))
    way = ch.choose('way', ['position', 'names'])
    if way == 'names' and name != 'soft' and not ch.thorough:
        raise explore.Prune()
    f = Spy(HF[name])
    inb, outb = ('16f', '16f') if way == 'position' else ('32f', '16f')
    what = 'half domain %s, %d channels, rawHalfs %s' % (name, c, raw)
    if way == 'position':
        o = clf.simpleSampledLUTHalfDomain(*(['i', 'n', c, f] + ([] if raw is None else [raw])))
    else:
        kw = {} if raw is None else {'rawHalfs': raw}
        o = clf.simpleSampledLUTHalfDomain(transformId='n', id='i', f=f, channels=c, inBitDepth=inb, outBitDepth=outb, **kw)
    meta(ch, o, 'LUT1D', dict(id='i', name='n', inBitDepth=inb, outBitDepth=outb, interpolation='linear', halfDomain=True), what)
    ch.check(bool(o.getAttribute('rawHalfs')) is bool(raw), what + ': rawHalfs is %r' % o.getAttribute('rawHalfs'))
    ch.equal(list(o.getLUTDimensions()), [65536, c], what + ': dimensions')
    v = o.getLUTValues()
    ch.equal(len(v), 65536 * c, what + ': length')
    for i in range(65536):
        w = HF[name](CODES[i])
        for k in range(c):
            g = float(v[i * c + k])
            ch.check(g == w or (g != g and w != w) or near(g, w), '%s: entry %d of channel %d is %r, not %r' % (what, i, k, g, w))
    ch.step(65536)
    # every finite half-float, in one call, comes out as the function of it
    finite = [i for i in range(65536) if abs(CODES[i]) < 1e6]
    if not ch.thorough:
        finite = finite[::1 if c == 1 and way == 'position' and raw is None else 97]
    vals = []
    for j in range(len(finite)):
        vals += [CODES[finite[j]], CODES[finite[(j * 3 + 1) % len(finite)]], CODES[finite[(j * 5 + 2) % len(finite)]]]
    got = o.process(np.array(vals, np.float32), 3)
    for x, g in zip(vals, got):
        w = HF[name](x)
        ch.check(near(g, w, 1e-6), '%s: at %r the result is %r, not %r' % (what, x, float(g), w))
    ch.step(len(vals))
    ch.state(c, raw, name, way)


F3 = {'identity': lambda x, y, z: [x, y, z], 'turned': lambda x, y, z: [z, x, y], 'mixed': lambda x, y, z: [0.5 * x + 0.25 * y, y * z, 1.0 - z * x],
      'code': lambda x, y, z: [x + 2.0 * y + 4.0 * z, -x, 8.0 * y + z], 'tuple': lambda x, y, z: (y, z, x)}


def table3(ch, o, f, dim, what):
    ch.equal(list(o.getLUTDimensions()), list(dim) + [3], what + ': dimensions')
    v = [float(x) for x in o.getLUTValues()]
    ch.equal(len(v), 3 * dim[0] * dim[1] * dim[2], what + ': length')
    k = 0
    for x, y, z in itertools.product(*[range(d) for d in dim]):
        w = f(x / (dim[0] - 1.0), y / (dim[1] - 1.0), z / (dim[2] - 1.0))
        ch.check(all(near(a, b, 1e-9) for a, b in zip(v[k:k + 3], w)), '%s: lattice point %s holds %s, not %s' % (what, (x, y, z), v[k:k + 3], list(w)))
        k += 3


def evaluate3(ch, o, f, dim, inb, what):
    top = R.FULL[inb]
    pts = [[a / (d - 1.0) for a, d in zip(p, dim)] for p in itertools.product(*[range(d) for d in dim])]
    got = o.process(np.array([x * top for p in pts for x in p], np.float32), 3)
    for i, p in enumerate(pts):
        w = f(*p)
        g = [float(x) for x in got[3 * i:3 * i + 3]]
        size = max(1e-7, max(abs(x) for x in f(1.0, 1.0, 1.0)), max(abs(x) for x in w))
        ch.check(all(abs(a - b) <= 2e-6 * size * max(dim) for a, b in zip(g, w)), '%s: at %s the result is %s, not %s' % (what, p, g, list(w)))
    ch.step(len(pts))


def lattice(ch):
    """3D tables of every small size."""
    name = ch.choose('function', sorted(F3))
    top = 8 if ch.thorough else 6
    dx = ch.choose('x', range(2, top))
    for dy, dz in itertools.product(range(2, top), repeat=2):
        for dim in ([dx, dy, dz], (dx, dy, dz)):
            given = list(dim) if isinstance(dim, list) else dim
            f = Spy(F3[name])
            what = '%s on %s' % (name, dim)
            o = clf.simple3DLUT('the id', 'the name', given, f)
            ch.check(given == dim and type(given) == type(dim), what + ": the caller's sizes became %s" % (given,))
            meta(ch, o, 'LUT3D', dict(id='the id', name='the name', inBitDepth='16f', outBitDepth='16f', interpolation='trilinear'), what)
            table3(ch, o, F3[name], dim, what)
            ch.equal(len(set(f.calls)), dx * dy * dz, what + ': points sampled')
            evaluate3(ch, o, F3[name], dim, '16f', what)
            again = clf.simple3DLUT('the id', 'the name', given, F3[name])       # the same sizes object again
            table3(ch, again, F3[name], dim, what + ' again')
            table3(ch, o, F3[name], dim, what + ' after another')
            o.setAttribute('interpolation', 'tetrahedral')
            evaluate3(ch, o, F3[name], dim, '16f', what + ' tetrahedral')
            ch.state(name, dim)


def depths3(ch):
    """3D tables of all depths, with arguments given in every way."""
    inb, outb = ch.choose('in', DEPTHS), ch.choose('out', DEPTHS)
    for dim in ([2, 3, 4], [3, 3, 3], [4, 2, 2]):
        for name in sorted(F3):
            top = R.FULL[outb]
            f = lambda x, y, z: [v * top for v in F3[name](x, y, z)]
            given = list(dim)
            for o in (clf.simple3DLUT('i', 'n', given, f, inb, outb),
                      clf.simple3DLUT(id='i', transformId='n', resolution=given, f=f, inBitDepth=inb, outBitDepth=outb),
                      clf.simple3DLUT('i', 'n', given, f, outBitDepth=outb, inBitDepth=inb)):
                what = '%s %s to %s, %s' % (name, inb, outb, dim)
                meta(ch, o, 'LUT3D', dict(id='i', name='n', inBitDepth=inb, outBitDepth=outb), what)
                table3(ch, o, f, dim, what)
            evaluate3(ch, o, f, dim, inb, what)
            ch.state(inb, outb, dim, name)
        o = clf.simple3DLUT('i', 'n', given)
        table3(ch, o, F3['identity'], dim, 'no function')
        o = clf.simple3DLUT('i', 'n', given, inBitDepth=inb, outBitDepth=outb)
        table3(ch, o, F3['identity'], dim, 'no function')
        meta(ch, o, 'LUT3D', dict(inBitDepth=inb, outBitDepth=outb), 'no function')
        ch.equal(given, dim, "the caller's sizes")


def shared(ch):
    """Tables built one after the other do not share anything; written and read they stay."""
    kinds = ['1', '3', '1b', '3b']
    order = [ch.choose('build %d' % i, kinds) for i in range(4 if ch.thorough else 3)]
    made = []
    size = [3, 2, 2]
    for i, k in enumerate(order):
        if k[0] == '1':
            n, c = (4, 3) if k == '1' else (5, 1)
            f = lambda x, i=i: x * (i + 1) - 0.5
            made.append((k, clf.simpleSampledLUT('i%d' % i, 'n%d' % i, c, n, f), f, n, c))
        else:
            f = lambda x, y, z, i=i: [x * (i + 1), y - i, z * 0.5]
            dim = size if k == '3' else [2, 2, 3]
            made.append((k, clf.simple3DLUT('i%d' % i, 'n%d' % i, dim, f), f, list(dim), None))
        ch.equal(size, [3, 2, 2], "the caller's sizes")
        for j, (kk, o, g, n, c) in enumerate(made):
            what = 'table %d after %s' % (j, order[:i + 1])
            ch.equal((o.getAttribute('id'), o.getAttribute('name')), ('i%d' % j, 'n%d' % j), what)
            (table1(ch, o, g, n, c, what) if kk[0] == '1' else table3(ch, o, g, n, what))
        ch.step()
    pl = clf.ProcessList()
    for m in made:
        pl.addProcess(m[1])
    p = ch.path('s.clf')
    pl.writeFile(p)
    back = clf.ProcessList(p)
    ch.equal(len(back), len(made), 'read back')
    for (kk, o, g, n, c), r in zip(made, back):
        for a in ('id', 'name', 'inBitDepth', 'outBitDepth', 'interpolation'):
            ch.equal(r.getAttribute(a), o.getAttribute(a), 'read back: ' + a)
        ch.equal(list(r.getLUTDimensions()), list(o.getLUTDimensions()), 'read back: dimensions')
        ch.check(all(abs(a - b) <= 1e-6 for a, b in zip(map(float, r.getLUTValues()), map(float, o.getLUTValues()))), 'read back: values')
    ch.state(order)


HARNESSES = {'sampled': sampled, 'depths 1D': depths1, 'half': half, 'lattice': lattice, 'depths 3D': depths3, 'shared': shared}
