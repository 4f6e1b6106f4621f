"""Every single-precision number goes through every node, and no pixel touches another."""
import itertools
import math

import numpy as np

import explore
import boot
import refmodel as R
from common import *

clf = boot.clf()
BOUNDS = """Every node kind and variant (about 60: all range shapes, matrices, tables with each interpolation, index maps
and half domains, all CDL, gamma, log and exposure styles, groups), alone, on all triples of 11 (thorough 16) numbers
that include NaN, both infinities, both zeros, subnormals and the largest numbers, in one call, in the opposite order and one at a
time; every pair of a special pixel and an ordinary one in one call at 3, 4 and 5 channels; every ordered pair of 16 (thorough all) nodes
on all triples of 7 numbers; 7 kinds of container."""
ASSUMPTIONS = """What a NaN becomes is not judged, only that the rest is undisturbed. Values enter through ProcessList.process."""

INF, NAN = math.inf, math.nan
BIG, TINY = 3.4028234663852886e38, 2.0 ** -149
ALPHABET = [NAN, INF, -INF, 0.0, 0.25, 0.75, -1.0, 2.5, BIG, -BIG, TINY]
MORE = [-0.0, 1.0, -TINY, 65504.0, 1e-38]
FEW = [NAN, INF, -INF, 0.0, 0.5, BIG, -BIG]
T5 = [0.0, 0.5, 0.625, 0.75, 1.0]
MAPS = [([0.0, 1.0], [0, 2]), ([0.0, 0.5], [0, 2]), ([0.25, 1.0], [2, 0])]


def kinds():
    n = {}
    lims = dict(minIn=0.125, maxIn=0.875, minOut=0.25, maxOut=0.75)
    for st in ('clamp', 'noClamp'):
        n['range all ' + st] = R.D('Range', style=st, **lims)
        n['range min ' + st] = R.D('Range', style=st, minIn=0.125, minOut=0.25)
        n['range max ' + st] = R.D('Range', style=st, maxIn=0.875, maxOut=0.75)
        n['range none ' + st] = R.D('Range', style=st, **{'in': '16f', 'out': '10i'})
    n['range codes'] = R.D('Range', default=True, **{'in': '10i', 'out': '16f'})
    n['matrix'] = R.D('Matrix', dim=[3, 3, 3], v=[0.5, 0.25, 0.25, 0.125, 0.75, 0.125, 0.0, 0.5, 0.5])
    n['matrix4'] = R.D('Matrix', dim=[3, 4, 3], v=[0.5, 0.25, 0.125, 0.0625, 0.25, 0.5, 0.25, -0.125, 0.0, 0.25, 0.75, 0.125])
    n['matrix44'] = R.D('Matrix', dim=[4, 4, 4], v=lcg(16, 5))
    for ip in ('linear', 'cubic', '1D default'):
        n['lut1 ' + ip] = R.D('LUT1D', ch=1, v=T5, interp=ip)
        n['lut1x3 ' + ip] = R.D('LUT1D', ch=3, v=lcg(12, 4), interp=ip)
    n['lut1 two'] = R.D('LUT1D', ch=1, v=[0.25, 0.75], interp='linear', **{'in': '10i', 'out': '12i'})
    n['lut1 map'] = R.D('LUT1D', ch=3, v=lcg(9, 7), imaps=MAPS)
    half = [R.f32(R.half_of_code(c)) if (c & 0x7c00) != 0x7c00 else 0.5 for c in range(65536)]
    n['lut1 half'] = R.D('LUT1D', ch=1, v=half, half=True, interp='linear')
    for ip in ('trilinear', 'tetrahedral', '3D default'):
        n['lut3 ' + ip] = R.D('LUT3D', dim=[2, 3, 2], v=lcg(36, 2), interp=ip)
        n['lut3 map ' + ip] = R.D('LUT3D', dim=[3, 3, 3], v=lcg(81, 3), interp=ip, imaps=MAPS)
    for st in ('Fwd', 'Rev', 'FwdNoClamp', 'RevNoClamp'):
        for sat in (1.0, 0.75):
            n['cdl %s %s' % (st, sat)] = R.D('CDL', style=st, slope=[1.5, 1.0, 0.5], offset=[0.0, 0.125, -0.25], power=[1.0, 1.5, 2.0], sat=sat)
    n['cdl none'] = R.D('CDL', style='Fwd')
    n['cc'] = R.D('CC', slope=[1.5, 1.0, 0.5], sat=0.5)
    for st in ('basicFwd', 'basicRev', 'moncurveFwd', 'moncurveRev'):
        n['gamma ' + st] = R.D('Gamma', style=st, params=[(2.0, 0.125, None), (2.5, 0.25, 'G')])
    n['gamma codes'] = R.D('Gamma', style='basicFwd', params=[(2.0, 0.0, None)], **{'in': '8i', 'out': '16i'})
    for st in ('log10', 'log2', 'antiLog10', 'antiLog2', 'linToLog', 'logToLin'):
        n['log ' + st] = R.D('Log', style=st, params=[(0.6, 685.0, 95.0, 1.0, 0.0, None), (0.5, 700.0, 90.0, 1.0, 0.0, 'B')] if 'Lin' in st or 'lin' in st else [])
    for st in ('linear', 'video', 'log'):
        n['ec ' + st] = R.D('EC', style=st, ecp=(1.0, 1.5, 0.5))
    n['group'] = R.D('Group', nodes=[n['matrix4'], n['lut1 map'], n['ec video']])
    return n


N = kinds()
NAMES = sorted(N)
SUB = ['range all clamp', 'range min noClamp', 'matrix', 'matrix44', 'lut1x3 linear', 'lut1 map', 'lut1 half', 'lut3 trilinear', 'lut3 map tetrahedral',
       'cdl Fwd 0.75', 'cdl RevNoClamp 0.75', 'gamma basicRev', 'gamma moncurveFwd', 'log linToLog', 'log antiLog10', 'ec log']
SEPARATE = ('Range', 'LUT1D', 'Gamma', 'Log', 'EC')


def bounds(d):
    """(low, high) per channel that every finite number is kept within, or None."""
    fo = R.full(d['out'])
    if d['t'] == 'Range' and d.get('style', 'clamp') == 'clamp':
        lo = 0.0 if d.get('default') and d.get('minOut') is None else d.get('minOut')
        hi = fo if d.get('default') and d.get('maxOut') is None else d.get('maxOut')
        if lo is None and hi is None:
            return None
        return [(-INF if lo is None else lo, INF if hi is None else hi)] * 3
    if d['t'] == 'LUT1D':
        return [(min(t), max(t)) for t in R.tables(d)]
    if d['t'] == 'LUT3D':
        return [(min(d['v'][c::3]), max(d['v'][c::3])) for c in range(3)]
    if d['t'] == 'CC' or d['t'] == 'CDL' and d['style'] == 'Fwd':
        return [(0.0, fo)] * 3
    if d['t'] == 'CDL' and d['style'] == 'Rev':
        return [(0.0, fo)] * 3
    return None


def alike(x, y):
    return R.close(x, y, 1.0, 1e-5) and (x == y or math.copysign(1, x) == math.copysign(1, y) or abs(x) < 1e-4)


def same(ch, got, want, fmt, *a):
    ch.check(len(got) == len(want) and all(alike(x, y) for x, y in zip(got, want)), fmt + ': %s instead of %s', *(a + (got, want)))


def run(ch, pl, vals, stride, what):
    try:
        out = pl.process(vals, stride)
    except explore.Prune:
        raise
    except Exception as e:
        ch.fail('%s cannot process %s: %s: %s' % (what, list(vals)[:9], type(e).__name__, e))
    out = [float(x) for x in out]
    ch.check(len(out) == len(vals), '%s: %d values in, %d out', what, len(vals), len(out))
    return [out[i:i + stride] for i in range(0, len(out), stride)]


def finite(px):
    return all(not math.isnan(x) and not math.isinf(x) for x in px)


def everything(ch):
    """All triples of the alphabet through one node: in one call, backwards and alone."""
    name = ch.choose('node', NAMES)
    d = N[name]
    n = 4 if name == 'matrix44' else 3
    pl = R.build_list(clf, [d])
    alpha = ALPHABET + MORE if ch.thorough else ALPHABET
    px = [list(t) + [0.5] * (n - 3) for t in itertools.product(alpha, repeat=3)]
    got = run(ch, pl, flat(px), n, name)
    back = run(ch, pl, flat(px[::-1]), n, name)[::-1]
    for p, g, b in zip(px, got, back):
        same(ch, b, g, '%s on %s with the pixels in the opposite order', name, p)
    for p, g in zip(px, got):
        if n == 3:
            same(ch, run(ch, pl, p, 3, name)[0], g, '%s on %s alone and among others', name, p)
    lim = bounds(d)
    base = {}
    for p, g in zip(px, got):
        if lim and finite(p):
            for c in range(3):
                lo, hi = lim[c]
                e = 1e-5 * max(1.0, abs(lo) if lo > -INF else 1.0, abs(hi) if hi < INF else 1.0)
                ch.check(lo - e <= g[c] <= hi + e, '%s on %s gives %s, which is outside %s..%s', name, p, g, lo, hi)
        if d['t'] in SEPARATE:
            for c in range(3):
                k = (c, repr(p[c]))
                if k not in base:
                    base[k] = (g[c], p)
                ch.check(alike(g[c], base[k][0]), '%s: channel %d is %s for %s and %s for %s', name, c, g[c], p, base[k][0], base[k][1])
        ch.state(name, tuple(map(repr, p)))
    ch.step(3 * len(px))


def neighbours(ch):
    """An ordinary pixel beside a special one, before and after, at several strides."""
    name = ch.choose('node', NAMES)
    n = ch.choose('channels', [3, 4, 5])
    d = N[name]
    if name == 'matrix44' and n == 3:
        raise explore.Prune()
    pl = R.build_list(clf, [d])
    rest = [9.5, -7.25][:n - 3]
    whole = d['t'] == 'Range' or name == 'matrix44'
    ordinary = [p + rest for p in ([0.25, 0.75, 0.5], [0.125, 0.375, 0.875])]
    alone = [run(ch, pl, p, n, name)[0] for p in ordinary]
    for p, a in zip(ordinary, alone):
        ch.check(finite(a), '%s on %s gives %s', name, p, a)
        if not whole:
            ch.check(a[3:] == p[3:], '%s on %s: channels past the third became %s', name, p, a[3:])
    special = [x for x in ALPHABET + MORE]
    spx = [[x] * n for x in special] + [[x, 0.5, 0.5] + rest for x in special] + [[0.5, 0.5, x] + rest for x in special] + \
        [[0.5] * (n - 1) + [x] for x in special]
    for s in spx:
        sa = run(ch, pl, s, n, name)[0]
        if not whole:
            same(ch, sa[3:], s[3:], '%s on %s: channels past the third', name, s)
        for p, a in zip(ordinary, alone):
            g = run(ch, pl, p + s + p, n, name)
            for i, w, q in ((0, a, p), (1, sa, s), (2, a, p)):
                same(ch, g[i], w, '%s on pixel %d of %s', name, i, [p, s, p])
        ch.state(name, n, tuple(map(repr, s)))
    ch.step(3 * len(spx))


def pairs(ch):
    """Two nodes, one after the other."""
    names = NAMES if ch.thorough else SUB
    a = ch.choose('first', names)
    b = ch.choose('second', names)
    n = 4
    nodes = [N[a], N[b]]
    pl = R.build_list(clf, nodes)
    px = [list(t) + [1.5] for t in itertools.product(FEW, repeat=3)]
    what = '%s then %s' % (a, b)
    got = run(ch, pl, flat(px), n, what)
    step = 7 if not ch.thorough else 1
    for k in range(0, len(px), step):
        same(ch, run(ch, pl, px[k], n, what)[0], got[k], '%s on %s alone and among others', what, px[k])
    mid = run(ch, R.build_list(clf, nodes[:1]), flat(px), n, a)
    last = R.build_list(clf, nodes[1:])
    # what one delivers in single precision is what the next one sees
    two = run(ch, last, flat(mid), n, b)
    for p, g, t in zip(px, got, two):
        if finite(p):
            same(ch, t, g, '%s on %s, in one list and in two', what, p)
    ch.step(3 * len(px))
    ch.state(a, b)


def containers(ch):
    """Whatever holds the values, they are the same values."""
    name = ch.choose('node', NAMES)
    d = N[name]
    if name == 'matrix44':
        raise explore.Prune()
    pl = R.build_list(clf, [d])
    vals = [0.5, 2.0, 0.25, NAN, INF, -INF, 0.0, -1.0, 1024.0]
    want = flat(run(ch, pl, vals, 3, name))
    kind = ch.choose('container', ['tuple', 'float16', 'float32', 'float64', 'every other', 'backwards', 'ints'])
    if kind == 'ints':
        vals = [0, 2, 1, -1, 1024, 7]
        want = flat(run(ch, pl, [float(x) for x in vals], 3, name))
        arg = list(vals)
    else:
        arg = {'tuple': tuple, 'float16': lambda v: np.array(v, np.float16), 'float32': lambda v: np.array(v, np.float32),
               'float64': lambda v: np.array(v, np.float64), 'every other': lambda v: np.array([x for y in v for x in (y, 5.0)], np.float32)[::2],
               'backwards': lambda v: np.array(v[::-1], np.float32)[::-1]}[kind](vals)
    same(ch, flat(run(ch, pl, arg, 3, name)), want, '%s on the %s %s', name, kind, vals)
    # the same, told about
    try:
        out = [float(x) for x in pl.process(arg, 3, True)]
    except Exception as e:
        ch.fail('%s cannot process %s verbosely: %s: %s' % (name, vals, type(e).__name__, e))
    same(ch, out, want, '%s verbosely on the %s %s', name, kind, vals)
    ch.step(3)
    ch.state(name, kind)


HARNESSES = {'everything': everything, 'neighbours': neighbours, 'pairs': pairs, 'containers': containers}
BUDGET = {'everything': 200, 'neighbours': 250, 'pairs': 250, 'containers': 100}
