"""Gamma."""
import boot
import refmodel as R
from common import *

clf = boot.clf()
BOUNDS = """4 styles x 36 depth pairs x 12 (moncurve 16) parameter lists of 0-3 settings (all / R / G / B, int and
float gamma, without a power or an offset, in every order) x inputs from -1 to 4 around the break points; forward-reverse pairs; set or read from a file;
1-5 channels; all sequences of 3 settings."""
ASSUMPTIONS = ['moncurve styles need gamma >= 1 and offset >= 0']
STYLES = ['basicFwd', 'basicRev', 'moncurveFwd', 'moncurveRev']
BASIC = [[], [(2.0, 0.0, None)], [(2, 0.0, None)], [(3, 0.0, None)], [(0.5, 0.0, None)],
         [(2.0, 0.0, 'R')], [(2.0, 0.0, 'G')], [(2, 0.0, 'B')],
         [(2.0, 0.0, 'R'), (1.5, 0.0, 'G'), (0.75, 0.0, 'B')],
         [(2.0, 0.0, None), (1.5, 0.0, 'G')], [(1.5, 0.0, 'G'), (2.0, 0.0, None)],
         [(2.0, 0.0, 'B'), (1.25, 0.0, 'B')]]
MON = [[(2.0, 0.125, None)], [(2.4, 0.055, None)], [(3, 0.25, None)], [(3, 1, None)], [(2.2222222, 0.099, None)],
       [(2.0, 0.125, 'R'), (2.4, 0.055, 'G'), (3.0, 0.25, 'B')],
       [(2.0, 0.125, None), (3.0, 0.25, 'G')],
       [(3.0, 0.25, 'G'), (2.0, 0.125, None)],
       [(2.0, 0.125, None), (3.0, 0.25, 'G'), (2.4, 0.055, 'G')],
       # a single segment: no parameters for a channel, no power or no offset
       [], [(2.4, 0.055, 'R')], [(2.4, 0.055, 'B')], [(2.0, 0.0, None)], [(1.0, 0.25, None)], [(1, 0, None)],
       [(1.0, 0.125, 'R'), (3, 0, 'G'), (2.4, 0.055, 'B')]]
XS = [-1.0, -0.25, -0.015625, 0.0, 0.00390625, 0.015625, 0.03125, 0.0625, 0.09375, 0.125, 0.1875, 0.25, 0.375, 0.5,
      0.625, 0.75, 0.875, 1.0, 1.5, 2.0, 4.0]


def make(ch, d, how):
    if how == 'set':
        return R.build_list(clf, [d])
    p = write_text(ch.path('g.clf'), R.xml_doc([d]))
    return clf.ProcessList(p)


def pixels(a, n=3):
    f = R.full(a)
    xs = [x * f for x in XS]
    k = len(xs)
    return [[xs[i], xs[(i + 5) % k], xs[(i + 11) % k], 7.5, -2.25][:n] for i in range(k)]


def safe(d, px):
    """Leave out basicRev at 0 neighbours that rounding can push off zero (never exact 0)."""
    return px


def curves(ch):
    style = ch.choose('style', STYLES)
    prm = ch.choose('params', BASIC if style.startswith('basic') else MON)
    how = ch.choose('how', ['set', 'file'])
    for a in R.DEPTHS:
        for b in R.DEPTHS:
            d = R.D('Gamma', **{'style': style, 'params': prm, 'in': a, 'out': b})
            pl = make(ch, d, how)
            check_pixels(ch, pl, [d], pixels(a), 'Gamma %s %s' % (style, prm), rel=3e-6, scale=R.full(b) * 4)
            if (a, b) in (('16f', '16f'), ('10i', '32f')):
                check_pixels(ch, pl, [d], pixels(a, 4), 'Gamma', rel=3e-6, scale=R.full(b) * 4, single=True)
                for n in (1, 2, 5):
                    check_pixels(ch, pl, [d], pixels(a, n), 'Gamma on %d channels' % n, rel=3e-6, scale=R.full(b) * 4, single=n < 3)
            for p in pixels(a):
                ch.state(style, prm, how, a, b, tuple(p))


def inverses(ch):
    kind = ch.choose('kind', ['basic', 'moncurve'])
    prm = ch.choose('params', BASIC if kind == 'basic' else MON)
    back = ch.flag('inverse first')
    a = ch.choose('outer', ['16f', '12i'])
    mid = ch.choose('mid', ['16f', '16i', '8i', '32f'])
    s = [kind + 'Fwd', kind + 'Rev']
    if back:
        s.reverse()
    nodes = [R.D('Gamma', **{'style': s[0], 'params': prm, 'in': a, 'out': mid}),
             R.D('Gamma', **{'style': s[1], 'params': prm, 'in': mid, 'out': a})]
    pl = R.build_list(clf, nodes)
    f = R.full(a)
    pure = kind == 'basic' or any(p[1] == 0.0 and p[0] != 1.0 for p in prm)      # a power function somewhere
    xs = [x for x in XS if not pure or x >= 0.0625 or x == 0.0]
    for x in xs:
        got = pl.process([x * f] * 3)
        compare(ch, got, [x * f] * 3, '%s then %s of %r with %s' % (s[0], s[1], x, prm), f * 4, 5e-6)
        ch.step(2)
        ch.state(kind, prm, back, a, mid, x)


def settings(ch):
    """Every order of channel settings."""
    style = ch.choose('style', ['basicFwd', 'moncurveRev'])
    o = clf.Gamma(style=style)
    prm = [(2.0, 0.125, None)] if style != 'basicFwd' else []
    for g, off, c in prm:
        o.setGamma(g, off, c)
    for k in range(4 if ch.thorough else 3):
        c = ch.choose('channel', [None, 'R', 'G', 'B'])
        g = ch.choose('gamma', [1.5 + 0.25 * k, 3])
        off = 0.0 if style == 'basicFwd' else 0.0625 * (k + 1)
        if c is None:
            o.setGamma(g, off)
        else:
            o.setGamma(g, off, c)
        prm = prm + [(g, off, c)]
        d = R.D('Gamma', style=style, params=prm)
        pl = clf.ProcessList()
        pl.addProcess(o)
        check_pixels(ch, pl, [d], pixels('16f')[::3], 'Gamma after settings %s' % (prm,), rel=3e-6, scale=4.0)
        ch.state(style, tuple(prm))


HARNESSES = {'curves': curves, 'inverses': inverses, 'settings': settings}
