"""Bit-depth conversion: every code of every integer depth, every depth pair, and every
node that takes or delivers codes."""
import boot
import refmodel as R
from common import *

clf = boot.clf()
BOUNDS = """All 36 depth pairs; all codes of 8i, 10i, 12i and 16i through the conversion functions and a
converting Range; the nodes Range, CDL, Gamma, Log, ExposureContrast, LUT1D, LUT3D at all 36 pairs on
code alphabets around 0, 1/2 and full scale."""
ASSUMPTIONS = ['values are compared to 2e-6 of the depth\'s full scale (single precision processing)']
CHUNK = 4096
FLOATS = [-2.0, -1.0, -0.0625, 0.0, 2.0 ** -14, 0.18, 0.25, 0.5, 0.75, 1.0, 1.0009765625, 2.0, 16.0, 65504.0]


def codes_of(ch, d):
    if d in ('16f', '32f'):
        return FLOATS
    n = int(R.FULL[d]) + 1
    k = ch.choose('chunk', list(range((n + CHUNK - 1) // CHUNK)))
    return [float(c) for c in range(k * CHUNK, min(n, (k + 1) * CHUNK))]


def functions(ch):
    d = ch.choose('depth', R.DEPTHS)
    codes = codes_of(ch, d)
    f = R.full(d)
    for c in codes:
        n = clf.bitDepthToNormalized(c, d)
        ch.check(abs(n - c / f) <= 1e-12 * max(1, abs(c)), 'bitDepthToNormalized(%r, %s) = %r, expected %r', c, d, n, c / f)
        b = clf.normalizedToBitDepth(c / f, d)
        ch.check(abs(b - c) <= 1e-9 * max(1, abs(c)), 'normalizedToBitDepth(%r, %s) = %r, expected %r', c / f, d, b, c)
        if c == int(c):
            n = clf.bitDepthToNormalized(int(c), d)
            ch.check(abs(n - c / f) <= 1e-12 * max(1, abs(c)), 'bitDepthToNormalized(int %r, %s) = %r, expected %r', c, d, n, c / f)
        ch.step(2)
        ch.state(d, c)


def conversion(ch):
    a = ch.choose('in', R.DEPTHS)
    b = ch.choose('out', R.DEPTHS)
    codes = codes_of(ch, a)
    d = R.D('Range', **{'in': a, 'out': b})
    pl = R.build_list(clf, [d])
    got = pl.process(codes)
    fa, fb = R.full(a), R.full(b)
    back = None
    if a not in ('16f', '32f') and fb == 1.0 or (a not in ('16f', '32f') and b not in ('16f', '32f') and fb >= fa):
        pl2 = R.build_list(clf, [d, R.D('Range', **{'in': b, 'out': a})])
        back = pl2.process(codes)
    for i, c in enumerate(codes):
        w = c / fa * fb
        if not R.close(got[i], w, fb):
            ch.fail('code %r: %s -> %s gives %r, expected %r' % (c, a, b, float(got[i]), w))
        if back is not None and not (abs(float(back[i]) - c) < 0.05 and int(math.floor(float(back[i]) + 0.5)) == int(c)):
            ch.fail('code %r: %s -> %s -> %s gives %r' % (c, a, b, a, float(back[i])))
        ch.state(a, b, c)
        ch.step(1 + (back is not None))


def node_descs():
    return [
        R.D('Range', minIn=0.25, maxIn=0.75, minOut=0.0, maxOut=0.5, style='clamp'),
        R.D('Range', minIn=0.125, minOut=0.25, style='noClamp'),
        R.D('Range', maxIn=0.75, maxOut=1.0),
        R.D('Range', default=True),
        R.D('CDL', style='Fwd', slope=[1.0, 0.5, 2.0], offset=[0.0, 0.125, -0.25], power=[1.0, 2.0, 1.0], sat=0.75),
        R.D('CDL', style='FwdNoClamp'),
        R.D('CDL', style='FwdNoClamp', slope=[2.0, 0.5, 1.0], offset=[0.25, 0.0, 0.125]),
        R.D('CDL', style='Rev', slope=[2.0, 1.0, 1.0], sat=2.0),
        R.D('CDL', style='RevNoClamp', slope=[0.5, 1.0, 2.0], offset=[0.25, 0.0, 0.125]),
        R.D('Gamma', style='basicFwd', params=[(2.0, 0.0, None)]),
        R.D('Gamma', style='basicRev', params=[(2.0, 0.0, None)]),
        R.D('Gamma', style='moncurveFwd', params=[(2.0, 0.125, None)]),
        R.D('Gamma', style='moncurveRev', params=[(2.0, 0.125, None)]),
        R.D('Log', style='log10'), R.D('Log', style='log2'),
        R.D('Log', style='antiLog10'), R.D('Log', style='antiLog2'),
        R.D('Log', style='linToLog'), R.D('Log', style='logToLin'),
        R.D('EC', style='linear', ecp=(1.0, 1.0, 0.5)),
        R.D('EC', style='video', ecp=(0.5, 1.5, 0.25)),
        R.D('EC', style='log', ecp=(1.0, 1.5, 0.5)),
        R.D('LUT1D', ch=1, v=[0.0, 0.25, 0.5, 0.625, 1.0], interp='linear'),
        R.D('LUT1D', ch=3, v=lcg(15), interp='cubic'),
        R.D('LUT3D', dim=[2, 2, 2], v=lcg(24), interp='trilinear'),
        R.D('LUT3D', dim=[2, 3, 2], v=lcg(36), interp='tetrahedral'),
    ]


NODES = node_descs()


def scaled(d, a, b):
    d = dict(d)
    d['in'], d['out'] = a, b
    if d['t'] == 'Range':
        for k, f in (('minIn', R.full(a)), ('maxIn', R.full(a)), ('minOut', R.full(b)), ('maxOut', R.full(b))):
            if k in d:
                d[k] = d[k] * f
    return d


def code_alphabet(a):
    f = R.full(a)
    if f == 1.0:
        return [0.0, 0.0625, 0.25, 0.5, 0.75, 1.0]
    m = math.floor(f / 2)
    return [0.0, 1.0, m - 1, m, m + 1, f - 1, f]


def nodes(ch):
    k = ch.choose('node', list(range(len(NODES))))
    a = ch.choose('in', R.DEPTHS)
    b = ch.choose('out', R.DEPTHS)
    d = scaled(NODES[k], a, b)
    pl = R.build_list(clf, [d])
    cs = [float(c) for c in code_alphabet(a)]
    px = [[c, cs[(i + 2) % len(cs)], cs[(i + 4) % len(cs)]] for i, c in enumerate(cs)]
    rel = 1e-5 if d['t'] in ('Gamma', 'Log', 'EC') else 3e-6
    lut = d['t'] in ('LUT1D', 'LUT3D')
    scale = 1.0 if lut else R.full(b) * (8 if d['t'] == 'Log' else 1)
    check_pixels(ch, pl, [d], px, '%s %s->%s' % (d['t'], a, b), rel=rel, scale=scale)
    for p in px:
        ch.state(k, a, b, tuple(p))


HARNESSES = {'functions': functions, 'conversion': conversion, 'nodes': nodes}
