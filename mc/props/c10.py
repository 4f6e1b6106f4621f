"""Log."""
import boot
import refmodel as R
from common import *

clf = boot.clf()
BOUNDS = """6 styles x 36 depth pairs x 10 parameter lists x inputs including zero, negative, tiny and large;
inverse pairs in both orders; set or read from a file; 1-5 channels; all sequences of 3 settings."""
ASSUMPTIONS = []
STYLES = ['log10', 'log2', 'antiLog10', 'antiLog2', 'logToLin', 'linToLog']
P0 = (0.6, 685.0, 95.0, 1.0, 0.0)
PARAMS = [[], [P0 + (None,)], [(0.5, 685.0, 95.0, 1.0, 0.0, None)], [(0.6, 800.0, 95.0, 1.0, 0.0, None)],
          [(0.6, 685.0, 64.0, 1.0, 0.0, None)], [(0.6, 685.0, 95.0, 2.0, 0.0, None)],
          [(0.6, 685.0, 95.0, 1.0, 0.125, None)],
          [(0.5, 685.0, 95.0, 1.5, 0.0625, 'R'), (0.6, 700.0, 100.0, 1.0, 0.0, 'G'), (0.75, 600.0, 64.0, 0.9, 0.01, 'B')],
          [(0.5, 600, 64, 1, 0, None), (0.75, 800, 95, 2, 0.25, 'G')],
          [(0.75, 800, 95, 2, 0.25, 'G'), (0.5, 600, 64, 1, 0, None)],
          [(0.75, 800.0, 95.0, 2.0, 0.25, 'B'), (0.5, 700.0, 64.0, 1.0, 0.0, 'B')]]
LOGX = [0.0, 2.0 ** -20, 0.0009765625, 0.03125, 0.125, 0.18, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 8.0, 100.0, -0.5, -4.0]
ANTX = [-3.0, -1.5, -0.5, -0.125, 0.0, 0.0625, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 3.0]
CINX = [0.0, 0.0625, 0.09375, 0.125, 0.25, 0.375, 0.5, 0.625, 0.75, 0.875, 1.0]
LINX = [0.015625, 0.0625, 0.125, 0.1875, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 4.0, -8.0, -100.0]


def xs_for(style):
    return LOGX if style in ('log10', 'log2') else ANTX if style.startswith('anti') else CINX if style == 'logToLin' else LINX


def make(ch, d, how):
    if how == 'set':
        return R.build_list(clf, [d])
    p = write_text(ch.path('g.clf'), R.xml_doc([d]))
    return clf.ProcessList(p)


def pixels(style, a, n=3):
    f = R.full(a)
    xs = [x * f for x in xs_for(style)]
    k = len(xs)
    return [[xs[i], xs[(i + 3) % k], xs[(i + 7) % k], 7.5, -2.25][:n] for i in range(k)]


def conditioned(d, p):
    """Leave out inputs where the reference is singular (rounding decides)."""
    base = R.ref(d, p)
    for e in (1e-6, -1e-6):
        q = [x * (1 + e) + e * R.full(d['in']) * 0.01 for x in p[:3]] + p[3:]
        if any(abs(x - y) > 2e-4 * R.full(d['out']) * max(1.0, abs(y) / R.full(d['out'])) for x, y in zip(R.ref(d, q), base)):
            return all(x == 0 or x <= -0.4 for x in p[:3]) or d['style'] in ('log10', 'log2')
    return True


def curves(ch):
    style = ch.choose('style', STYLES)
    prm = ch.choose('params', PARAMS if 'Lin' in style or 'lin' in style else PARAMS[:3])
    how = ch.choose('how', ['set', 'file'])
    for a in R.DEPTHS:
        for b in R.DEPTHS:
            d = R.D('Log', **{'style': style, 'params': prm, 'in': a, 'out': b})
            pl = make(ch, d, how)
            px = [p for p in pixels(style, a) if conditioned(d, p)]
            sc = R.full(b) * 4
            check_pixels(ch, pl, [d], px, 'Log %s %s' % (style, prm), rel=1e-5, scale=sc)
            if (a, b) in (('16f', '16f'), ('10i', '32f')):
                check_pixels(ch, pl, [d], [p + [7.5] for p in px], 'Log', rel=1e-5, scale=sc, single=True)
                check_pixels(ch, pl, [d], [p + [7.5, -2.25] for p in px], 'Log', rel=1e-5, scale=sc)
                for n in (1, 2):
                    check_pixels(ch, pl, [d], [p[:n] for p in px], 'Log on %d channels' % n, rel=1e-5, scale=sc, single=True)
            for p in px:
                ch.state(style, prm, how, a, b, tuple(p))


def inverses(ch):
    s = list(ch.choose('pair', [('log10', 'antiLog10'), ('log2', 'antiLog2'), ('linToLog', 'logToLin')]))
    prm = ch.choose('params', PARAMS)
    if ch.flag('inverse first'):
        s.reverse()
    a = ch.choose('outer', ['16f', '10i'])
    mid = ch.choose('mid', ['16f', '32f', '12i', '16i'])
    nodes = [R.D('Log', **{'style': s[0], 'params': prm, 'in': a, 'out': mid}),
             R.D('Log', **{'style': s[1], 'params': prm, 'in': mid, 'out': a})]
    pl = R.build_list(clf, nodes)
    f = R.full(a)
    for x in xs_for(s[0]):
        if s[0] in ('log10', 'log2') and x <= 0:
            continue
        if s[0] == 'linToLog' and x < 0.3:
            continue
        w = R.ref_list(nodes, [x * f] * 3)
        if any(abs(y - x * f) > 1e-9 * max(1, abs(x * f)) for y in w):
            continue
        got = pl.process([x * f] * 3)
        compare(ch, got, [x * f] * 3, '%s then %s of %r with %s' % (s[0], s[1], x, prm), f * 4, 1e-5)
        ch.step(2)
        ch.state(s, prm, a, mid, x)


def settings(ch):
    style = ch.choose('style', ['logToLin', 'linToLog'])
    o = clf.Log(style=style)
    prm = []
    for k in range(4 if ch.thorough else 3):
        c = ch.choose('channel', [None, 'R', 'G', 'B'])
        what = ch.choose('which', [0, 1, 2, 3, 4])
        p = list(P0)
        p[what] = [0.5, 800, 64, 2.0, 0.125][what] * (1 + 0.125 * k)
        kw = {['gamma', 'refWhite', 'refBlack', 'highlight', 'shadow'][what]: p[what]}
        if c is not None:
            kw['channel'] = c
        o.setLogParams(**kw)
        prm = prm + [tuple(p) + (c,)]
    d = R.D('Log', style=style, params=prm)
    pl = clf.ProcessList()
    pl.addProcess(o)
    px = [p for p in pixels(style, '16f') if conditioned(d, p)][::2]
    check_pixels(ch, pl, [d], px, 'Log after settings %s' % (prm,), rel=1e-5, scale=4.0)
    ch.state(style, tuple(prm))


HARNESSES = {'curves': curves, 'inverses': inverses, 'settings': settings}
