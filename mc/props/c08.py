"""ASC CDL."""
import explore
import boot
import refmodel as R
from common import *

clf = boot.clf()
BOUNDS = """8 style keywords x 2 node classes x 36 depth pairs x 12 parameter sets (each parameter given or absent)
x 30 colours (inside, outside and on the clamping limits), 3-5 channel pixels, 1 and many pixels, set or read
from a file; every forward style followed by its inverse on the colours where it is invertible; all sequences
of 3 parameter settings."""
ASSUMPTIONS = ['saturation 0 and slope 0 have no inverse and are outside the inverse part of the property']
STYLES = ['Fwd', 'FwdNoClamp', 'Rev', 'RevNoClamp', 'v1.2_Fwd', 'noClampFwd', 'v1.2_Rev', 'noClampRev']
PARAMS = [
    {},
    {'slope': [2.0, 0.5, 1.25]},
    {'offset': [0.125, -0.25, 0.0625]},
    {'power': [2.0, 0.5, 1.5]},
    {'sat': 0.5},
    {'sat': 2.0},
    {'slope': [1.5, 1.25, 0.75], 'offset': [-0.125, 0.0625, 0.25]},
    {'slope': [1.5, 1.25, 0.75], 'offset': [-0.125, 0.0625, 0.25], 'power': [1.25, 2.0, 0.75]},
    {'slope': [1.5, 1.25, 0.75], 'offset': [-0.125, 0.0625, 0.25], 'power': [1.25, 2.0, 0.75], 'sat': 0.75},
    {'slope': [0.5, 0.5, 0.5], 'offset': [0.25, 0.25, 0.25], 'power': [2.0, 2.0, 2.0], 'sat': 1.5},
    {'power': [1.0, 1.0, 2.0], 'sat': 1.25},
    {'slope': [1.0, 1.0, 1.0], 'offset': [0.0, 0.0, 0.0], 'power': [1.0, 1.0, 1.0], 'sat': 1.0},
]
COLOURS = [[0.5, 0.25, 0.75], [0.75, 0.5, 0.25], [0.25, 0.75, 0.5], [0.5, 0.5, 0.5], [0.875, 0.3125, 0.4375],
           [0.4375, 0.9375, 0.5625], [1.0, 1.0, 1.0], [0.75, 0.8125, 0.6875], [0.3125, 0.4375, 0.375],
           [2.0, 0.5, 0.25], [0.5, 2.0, 3.0], [4.0, 4.0, 4.0], [-0.5, 0.5, 0.75], [0.5, -1.0, 0.25],
           [-2.0, -3.0, -4.0], [0.0, 0.5, 1.0], [1.0, 0.0, 0.5], [0.0, 0.0, 0.0]]


def make(ch, d, how):
    if how == 'set':
        return R.build_list(clf, [d])
    p = write_text(ch.path('c.clf'), R.xml_doc([d]))
    return clf.ProcessList(p)


def well_conditioned(d, p):
    """The reference changes little when every intermediate is moved by single-precision
    rounding: colours at the singular point of a power are left out."""
    fi = R.full(d['in'])
    base = R.ref(d, p)
    for eps in (3e-7, -3e-7):
        for k in range(3):
            q = list(p)
            q[k] = q[k] + eps * fi
            for a, b in zip(R.ref(d, q), base):
                if abs(a - b) > 2e-5 * R.full(d['out']) * max(1.0, abs(b) / R.full(d['out'])):
                    return False
    return True


def styles(ch):
    t = ch.choose('class', ['CDL', 'CC'])
    style = ch.choose('style', STYLES if t == 'CDL' else ['Fwd'])
    prm = ch.choose('params', PARAMS)
    how = ch.choose('how', ['set', 'file'])
    pairs = [(a, b) for a in R.DEPTHS for b in R.DEPTHS] if t == 'CDL' else [('16f', '16f')]
    for a, b in pairs:
        d = R.D(t, **dict(prm, **{'in': a, 'out': b}))
        if t == 'CDL':
            d['style'] = style
        pl = make(ch, d, how)
        f = R.full(a)
        px = [[x * f for x in c] for c in COLOURS]
        px = [p for p in px if well_conditioned(d, p)]
        rel = 1e-5
        check_pixels(ch, pl, [d], px, 'CDL %s %s' % (style, prm), rel=rel)
        check_pixels(ch, pl, [d], [p + [0.75 * f, -3.0] for p in px[:7]], 'CDL 5 channels', rel=rel)
        check_pixels(ch, pl, [d], [p + [1.5] for p in px[:3]], 'CDL 4 channels', rel=rel, single=True)
        for p in px:
            ch.state(t, style, prm, how, a, b, tuple(p))


def few_channels(ch):
    """Fewer than three channels pass through."""
    style = ch.choose('style', STYLES)
    prm = ch.choose('params', PARAMS)
    n = ch.choose('channels', [1, 2])
    k = ch.choose('pixels', [1, 2, 3, 4])
    a = ch.choose('in', ['16f', '10i'])
    d = R.D('CDL', **dict(prm, **{'in': a, 'out': '16f', 'style': style}))
    pl = R.build_list(clf, [d])
    v = [0.5 + i for i in range(n * k)]
    got = [float(x) for x in pl.process(v, n)]
    ch.equal(got, v, 'pixels of %d channels' % n)
    ch.step()
    ch.state(style, prm, n, k, a)


def inverses(ch):
    """Rev undoes Fwd, RevNoClamp undoes FwdNoClamp, in either order, where invertible."""
    fwd, rev = ch.choose('pair', [('Fwd', 'Rev'), ('v1.2_Fwd', 'v1.2_Rev'), ('FwdNoClamp', 'RevNoClamp'),
                                  ('noClampFwd', 'noClampRev'), ('Fwd', 'v1.2_Rev'), ('noClampFwd', 'RevNoClamp')])
    prm = ch.choose('params', PARAMS)
    back = ch.flag('inverse first')
    mid = ch.choose('mid', ['16f', '12i', '16i'])
    a, b = (rev, fwd) if back else (fwd, rev)
    n1 = R.D('CDL', **dict(prm, **{'style': a, 'in': '16f', 'out': mid}))
    n2 = R.D('CDL', **dict(prm, **{'style': b, 'in': mid, 'out': '16f'}))
    pl = R.build_list(clf, [n1, n2])
    done = 0
    for c in COLOURS:
        if not (well_conditioned(n1, c) and well_conditioned(n2, R.ref(n1, c))):
            continue
        want = R.ref_list([n1, n2], c)
        # invertible exactly where the model itself comes back
        if any(abs(x - y) > 1e-9 for x, y in zip(want, c)):
            continue
        got = pl.process(c)
        compare(ch, got, c, '%s then %s on %s with %s' % (a, b, c, prm), 4.0, 1e-5)
        ch.step(2)
        ch.state(fwd, rev, prm, back, mid, tuple(c))
        done += 1


def setters(ch):
    """Parameters set in any order, repeatedly: the last set counts, others stay neutral."""
    style = ch.choose('style', ['Fwd', 'FwdNoClamp', 'Rev', 'RevNoClamp'])
    o = clf.ASCCDL(style=style)
    d = R.D('CDL', style=style)
    for k in range(4 if ch.thorough else 3):
        op = ch.choose('op', ['slope', 'offset', 'power', 'sat', 'slope2', 'offset2', 'power2', 'sat2', 'style'])
        if op.startswith('slope'):
            v = [1.25, 0.75, 1.5] if op == 'slope' else [0.5, 2.0, 1.0]
            o.setSlope(*v)
            d['slope'] = v
        elif op.startswith('offset'):
            v = [0.125, -0.0625, 0.25] if op == 'offset' else [0.25, 0.0, 0.125]
            o.setOffset(*v)
            d['offset'] = v
        elif op.startswith('power'):
            v = [1.5, 2.0, 1.25] if op == 'power' else [1.0, 0.75, 2.0]
            o.setPower(*v)
            d['power'] = v
        elif op.startswith('sat'):
            v = 0.75 if op == 'sat' else 1.25
            o.setSaturation(v)
            d['sat'] = v
        else:
            d['style'] = {'Fwd': 'FwdNoClamp', 'FwdNoClamp': 'Fwd', 'Rev': 'RevNoClamp', 'RevNoClamp': 'Rev'}[d['style']]
            o.setAttribute('style', d['style'])
        pl = clf.ProcessList()
        pl.addProcess(o)
        check_pixels(ch, pl, [d], [c for c in COLOURS[:6] if well_conditioned(d, c)], 'CDL after settings', rel=1e-5)
        ch.state(sorted((k, str(v)) for k, v in d.items()))


HARNESSES = {'styles': styles, 'few_channels': few_channels, 'inverses': inverses, 'setters': setters}
