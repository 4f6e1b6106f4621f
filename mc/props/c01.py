"""Composition of a list, pixel independence, strides, verbosity, immutability."""
import itertools

import numpy as np

import explore
import boot
import refmodel as R
from common import *

clf = boot.clf()
BOUNDS = """All sequences of 0..3 nodes (thorough: of the whole alphabet, and 4 from a subset) out of 14 node kinds
with matching and mismatching bit depths, on 6 pixels; each in one call at stride 3, 4, 5, pixel by pixel, in
every rotation and reversed, quiet and verbose, as list, tuple, float32, float64 and integer input, twice; 12 larger nodes on all points of a half-step grid in four orders,
and every ordered pair of 24 (thorough 40) of its pixels in one call, by the same node and by a fresh one."""

ALPHA = {
    'range': R.D('Range', minIn=0.125, maxIn=0.875, minOut=0.0, maxOut=1.0, name='range'),
    'rangeCodes': R.D('Range', **{'in': '16f', 'out': '10i', 'name': 'rc'}),
    'rangeBack': R.D('Range', **{'in': '10i', 'out': '16f', 'name': 'rb', 'style': 'noClamp'}),
    'matrix': R.D('Matrix', dim=[3, 4, 3], v=[0.5, 0.25, 0.125, 0.0625, 0.25, 0.5, 0.25, -0.125, 0.0, 0.25, 0.75, 0.125]),
    'matrix3': R.D('Matrix', dim=[3, 3, 3], v=[0.5, 0.25, 0.25, 0.125, 0.75, 0.125, 0.0, 0.5, 0.5]),
    'lut1': R.D('LUT1D', ch=1, v=[0.0, 0.5, 0.625, 0.75, 1.0], interp='linear'),
    'lut3ch': R.D('LUT1D', ch=3, v=lcg(12, 4), interp='cubic'),
    'lut1map': R.D('LUT1D', ch=3, v=lcg(9, 7), imaps=[([0.0, 1.0], [0, 2]), ([0.0, 0.5], [0, 2]), ([0.25, 1.0], [2, 0])]),
    'lut3d': R.D('LUT3D', dim=[2, 3, 2], v=lcg(36, 2), interp='trilinear'),
    'lut3dt': R.D('LUT3D', dim=[3, 2, 2], v=lcg(36, 6), interp='tetrahedral'),
    'cdl': R.D('CDL', style='Fwd', slope=[1.5, 1.0, 0.5], offset=[0.0, 0.125, 0.25], power=[1.0, 1.0, 1.0], sat=0.75),
    'gamma': R.D('Gamma', style='moncurveFwd', params=[(2.0, 0.125, None), (2.5, 0.25, 'G')]),
    'log': R.D('Log', style='linToLog', params=[(0.6, 685.0, 95.0, 1.0, 0.0, None)]),
    'ec': R.D('EC', style='linear', ecp=(1.0, 1.0, 0.5)),
}
NAMES = sorted(ALPHA)
SMALL = ['range', 'matrix', 'lut3ch', 'lut3d', 'cdl', 'ec']
PIX = [[0.5, 0.25, 0.75], [0.125, 0.375, 0.875], [0.875, 1.0, 0.0625], [0.3125, 0.3125, 0.3125], [0.75, 0.625, 0.1875],
       [1.5, -0.25, 0.5]]
EXTRA = [[-3.0, 9.0], [5.5, 0.5], [0.0, 1.0], [2.0, 4.0], [7.0, -7.0], [1.25, 0.25]]


def ext(px, n, noclampextra=True):
    return [(p + EXTRA[i % 6])[:n] for i, p in enumerate(px)]


def drawn(ch, names, kmax):
    k = ch.choose('length', list(range(kmax + 1)))
    return [ch.choose('node%d' % i, names) for i in range(k)]


def compose(ch):
    if ch.thorough and ch.flag('long'):
        seq = [ch.choose('node%d' % i, SMALL) for i in range(4)]
    else:
        seq = drawn(ch, NAMES, 3)
    nodes = [dict(ALPHA[n], id=n) for n in seq]
    pl = R.build_list(clf, nodes)
    if 'log' in seq and 'rangeCodes' in seq:
        scale = 1023.0 * 4
    else:
        scale = 1023.0 if seq and 'rangeCodes' in seq else 4.0
    rel = 1e-5
    px = PIX
    if 'log' in seq:       # the floor of the log is singular below its black point
        k = len(seq) - 1 - seq[::-1].index('log')
        px = [p for p in PIX if all(x >= 0.05 for x in R.ref_list(nodes[:k], p))]
        if seq.count('log') > 1:
            px = [p for p in px if all(min(R.ref_list(nodes[:j], p)) >= 0.05 for j in range(len(seq)) if seq[j] == 'log')]
        if not px:
            raise explore.Prune()
    # against the model, and against the implementation's own nodes one after another
    got = check_pixels(ch, pl, nodes, px, 'list %s' % seq, rel=rel, scale=scale)
    for p, g in zip(px, got):
        v = np.array(p, np.float32)
        for n in nodes:
            v = R.build(clf, n).process(np.array(v, np.float32), 3)
        ch.check(same_bits(v, g), 'list %s on %s gives %s, its nodes one by one %s', seq, p, g, [float(x) for x in v])
    ch.step(len(px) * max(1, len(seq)))
    ch.state(tuple(seq))


def shapes(ch):
    """Calls of every shape give bit-identical results for each pixel."""
    seq = drawn(ch, NAMES if ch.thorough else NAMES, 2)
    nodes = [dict(ALPHA[n], id=n) for n in seq]
    pl = R.build_list(clf, nodes)
    n = ch.choose('channels', [3, 4, 5])
    px = ext(PIX, n)
    single = [[float(x) for x in pl.process(p)] for p in px]
    want = [R.ref_list(nodes, p) for p in px]
    if 'log' not in seq:
        for p, s, w in zip(px, single, want):
            compare(ch, s, w, 'list %s, pixel %s' % (seq, p), 1023.0, 1e-5)
    orders = [list(range(6)), list(range(5, -1, -1))] + [[(i + k) % 6 for i in range(6)] for k in (1, 2, 4)] + \
        [[0], [0, 0], [3, 3, 1], [5, 4, 3, 2]]
    for o in orders:
        for verbose in (False, True):
            g = chunks(pl.process(flat([px[i] for i in o]), n, verbose), n)
            ch.check(len(g) == len(o), 'list %s: %d pixels in, %d out', seq, len(o), len(g))
            for i, r in zip(o, g):
                ch.check(same_bits(r, single[i]), 'list %s, %d pixels of %d channels in order %s, verbose %s: pixel %s gives %s, alone %s',
                         seq, len(o), n, o, verbose, px[i], r, single[i])
            ch.step(len(o))
            ch.state(tuple(seq), n, tuple(o), verbose)


def inputs(ch):
    """The caller's values are left alone whatever holds them, and asking again gives the same."""
    seq = drawn(ch, NAMES, 2)
    nodes = [dict(ALPHA[n], id=n) for n in seq]
    pl = R.build_list(clf, nodes)
    kind = ch.choose('input', ['list', 'tuple', 'float32', 'float64', 'float16', 'ints', 'view'])
    n = ch.choose('channels', [3, 4])
    px = ext([[0.5, 0.25, 0.75], [0.125, 0.375, 0.875]], n) if kind != 'ints' else [[0, 1, 1, 2][:n], [1, 0, 1, 3][:n]]
    vals = flat(px)
    arg = {'list': list, 'tuple': tuple, 'ints': list,
           'float32': lambda v: np.array(v, np.float32), 'float64': lambda v: np.array(v, np.float64),
           'float16': lambda v: np.array(v, np.float16),
           'view': lambda v: np.array(v + v, np.float32)[:len(v)]}[kind](vals)
    keep = [float(x) for x in arg]
    first = [float(x) for x in pl.process(arg, n)]
    ch.check([float(x) for x in arg] == keep, 'list %s changed its %s argument to %s', seq, kind, list(arg))
    again = [float(x) for x in pl.process(arg, n)]
    ch.check(same_bits(first, again), 'list %s: the second call gives %s, the first %s', seq, again, first)
    base = [float(x) for x in pl.process([float(x) for x in vals], n)]
    ch.check(same_bits(first, base), 'list %s: %s input gives %s, a list %s', seq, kind, first, base)
    # results of one call are not overwritten by the next
    r1 = pl.process(arg, n)
    keep1 = [float(x) for x in r1]
    pl.process([x + 0.25 for x in vals], n)
    ch.check(same_bits(r1, keep1), 'list %s: a later call changed the result returned earlier', seq)
    if kind in ('list', 'float32', 'float64', 'view'):
        for d in nodes:
            R.build(clf, d).process(arg, n)
            ch.check([float(x) for x in arg] == keep, 'node %s changed its %s argument to %s', d['t'], kind, list(arg))
    ch.step(5)
    ch.state(tuple(seq), kind, n)


def wide(ch):
    """Extra channels pass through every node that is not defined on them; 4-channel matrix."""
    n = ch.choose('channels', [4, 5, 6, 7])
    seq = [ch.choose('node%d' % i, [x for x in NAMES if not x.startswith('range')]) for i in range(2)]
    nodes = [dict(ALPHA[x]) for x in seq]
    pl = R.build_list(clf, nodes)
    px = [[0.5, 0.25, 0.75] + [10.0 + i for i in range(n - 3)], [0.25, 0.75, 0.5] + [-20.0 - i for i in range(n - 3)],
          [0.75, 0.5, 0.25] + [0.5 + i for i in range(n - 3)]]
    got = chunks(pl.process(flat(px), n), n)
    for p, g in zip(px, got):
        ch.check(g[3:] == p[3:], 'list %s: extra channels %s became %s', seq, p[3:], g[3:])
        compare(ch, g[:3], [float(x) for x in pl.process(p[:3])], 'list %s with extra channels' % seq, 1.0, 1e-7)
    ch.step(3)
    ch.state(n, tuple(seq))


LARGE = {
    'lut3d 2x3x6': R.D('LUT3D', dim=[2, 3, 6], v=lcg(108, 3), interp='trilinear'),
    'lut3d 6x2x3 tetra': R.D('LUT3D', dim=[6, 2, 3], v=lcg(108, 5), interp='tetrahedral'),
    'lut3d 3x7x2': R.D('LUT3D', dim=[3, 7, 2], v=lcg(126, 8), interp='trilinear'),
    'lut3d 5x5x5': R.D('LUT3D', dim=[5, 5, 5], v=lcg(375, 9), interp='tetrahedral'),
    'lut1d 33': R.D('LUT1D', ch=3, v=lcg(99, 10), interp='linear'),
    'lut1d 40': R.D('LUT1D', ch=1, v=lcg(40, 11), interp='linear'),
    'lut1d map': R.D('LUT1D', ch=3, v=lcg(99, 12), imaps=[([0.0, 0.25, 0.5, 1.0], [0, 3, 30, 32]), ([0.0, 0.5], [0, 32]), ([0.25, 1.0], [32, 0])]),
    'range codes': R.D('Range', **{'in': '8i', 'out': '12i'}),
    'moncurve': R.D('Gamma', style='moncurveRev', params=[(2.0, 0.125, 'R'), (2.5, 0.25, 'G'), (3.0, 0.0625, 'B')]),
    'cdl': R.D('CDL', style='RevNoClamp', slope=[1.5, 1.0, 0.5], offset=[0.0, 0.125, 0.25], power=[1.5, 1.0, 2.0], sat=0.75),
    'log': R.D('Log', style='antiLog10'),
    'ec': R.D('EC', style='log', ecp=(1.0, 1.5, 0.5)),
}


def grid(d):
    ax = [[i / (2.0 * (n - 1)) for i in range(2 * n - 1)] for n in (d['dim'] if d['t'] == 'LUT3D' else [4, 4, 4] if d['t'] != 'LUT1D' else [5, 5, 5])]
    return [list(p) for p in itertools.product(*ax)]


def sweep(ch):
    """Long calls over all cells of larger tables, in several orders, and every ordered pair of pixels in a call of its own."""
    name = ch.choose('node', sorted(LARGE))
    nodes = [LARGE[name]]
    px = grid(nodes[0])
    want = [R.ref_list(nodes, p) for p in px]
    scale, rel = (4095.0, 2e-6) if name == 'range codes' else (4.0, 1e-5)
    if ch.flag('pairs'):
        fresh = ch.flag('a node of its own')
        pick = sorted({(k * 7) % len(px) for k in range(40 if ch.thorough else 24)})
        pl = R.build_list(clf, nodes)
        for i in pick:
            for j in pick:
                if fresh:
                    pl = R.build_list(clf, nodes)
                g = chunks(pl.process(px[i] + px[j], 3), 3)
                compare(ch, g[0], want[i], '%s, %s before %s' % (name, px[i], px[j]), scale, rel)
                compare(ch, g[1], want[j], '%s, %s after %s' % (name, px[j], px[i]), scale, rel)
                ch.state(name, i, j)
        ch.step(len(pick) ** 2)
        return
    n = len(px)
    how = ch.choose('order', ['up', 'down', 'strided', 'shuffled'])
    order = {'up': list(range(n)), 'down': list(range(n))[::-1], 'strided': [(k * 7) % n for k in range(n)] if n % 7 else [(k * 11) % n for k in range(n)],
             'shuffled': [(k * 0x5bd1 + (k >> 2)) % n for k in range(2 * n)]}[how]
    stride = ch.choose('channels', [3, 4])
    pl = R.build_list(clf, nodes)
    for again in range(2):
        got = chunks(pl.process(flat([(px[i] + [0.5])[:stride] for i in order]), stride), stride)
        ch.check(len(got) == len(order), '%s: %d pixels for %d', name, len(got), len(order))
        for i, g in zip(order, got):
            compare(ch, g[:3], want[i], '%s, %s order, pixel %s' % (name, how, px[i]), scale, rel)
    ch.step(2 * len(order))
    ch.state(name, how, stride)


HARNESSES = {'sweep': sweep, 'compose': compose, 'shapes': shapes, 'inputs': inputs, 'wide': wide}
