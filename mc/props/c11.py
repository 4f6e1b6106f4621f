"""ExposureContrast."""
import boot
import refmodel as R
from common import *

clf = boot.clf()
BOUNDS = """3 styles x 36 depth pairs x parameters exposure x contrast x pivot from {not set}, 3x3x3 values and ten far ones (pivots 1e-6 to 16, exposures -8 to 7.5, contrasts 0 to 4) x 12
inputs, 1-6 channels, 1-6 pixels per call with each pixel's own extra channels; set or read from a file."""
STYLES = ['linear', 'video', 'log']
E = [0.0, 1.0, -1.5]
C = [1.0, 1.5, 0.75]
P = [1.0, 0.5, 0.18]
FAR = [(0.0, 1.5, 0.002), (1.0, 0.75, 0.0078125), (0.5, 1.25, 1e-6), (0.0, 1.5, 16.0), (-8.0, 1.0, 0.5), (7.5, 1.5, 4.0), (0.0, 0.01, 0.18), (0.25, 4.0, 0.5),
       (0.0, 0.0, 0.5), (1e-7, 1.0, 0.25)]
XS = [-0.5, 0.0625, 0.125, 0.18, 0.25, 0.375, 0.5, 0.75, 0.9, 1.0, 1.5, 4.0]


def make(ch, d, how):
    if how == 'set':
        return R.build_list(clf, [d])
    p = write_text(ch.path('g.clf'), R.xml_doc([d]))
    return clf.ProcessList(p)


def curves(ch):
    style = ch.choose('style', STYLES)
    ecp = ch.choose('params', [None] + [(e, c, p) for e in E for c in C for p in P] + FAR)
    how = ch.choose('how', ['set', 'file'])
    for a in R.DEPTHS:
        for b in R.DEPTHS:
            d = R.D('EC', **{'style': style, 'in': a, 'out': b})
            if ecp:
                d['ecp'] = ecp
            pl = make(ch, d, how)
            xs = [x * R.full(a) for x in XS]
            px = [[xs[i], xs[(i + 4) % 12], xs[(i + 7) % 12]] for i in range(12)]
            check_pixels(ch, pl, [d], px, 'EC %s %s' % (style, ecp), rel=5e-6, scale=R.full(b) * 4)
            if (a, b) in (('16f', '16f'), ('8i', '10i')):
                check_pixels(ch, pl, [d], px, 'EC', rel=5e-6, scale=R.full(b) * 4, single=True)
            for p in px:
                ch.state(style, ecp, how, a, b, tuple(p))


def channels(ch):
    style = ch.choose('style', STYLES)
    n = ch.choose('channels', [1, 2, 3, 4, 5, 6])
    k = ch.choose('pixels', [1, 2, 3, 6])
    a = ch.choose('in', R.DEPTHS)
    b = ch.choose('out', R.DEPTHS)
    ecp = ch.choose('params', [(1.0, 1.5, 0.5), None])
    d = R.D('EC', **{'style': style, 'in': a, 'out': b})
    if ecp:
        d['ecp'] = ecp
    pl = R.build_list(clf, [d])
    f = R.full(a)
    px = [[XS[(i * 5 + j) % 11 + 1] * f if j < 3 else 100.0 * i + j for j in range(n)] for i in range(k)]
    check_pixels(ch, pl, [d], px, 'EC %s' % style, rel=5e-6, scale=R.full(b) * 4, single=True)
    ch.state(style, n, k, a, b, ecp)


def settings(ch):
    """The last parameters set count; read parameters replace the default."""
    style = ch.choose('style', STYLES)
    o = clf.ExposureContrast(style=style)
    d = R.D('EC', style=style)
    for i in range(3):
        op = ch.choose('op', ['a', 'b', 'c', 'process', 'style'])
        if op == 'process':
            pass
        elif op == 'style':
            d['style'] = STYLES[(STYLES.index(d['style']) + 1) % 3]
            o.setAttribute('style', d['style'])
        else:
            v = {'a': (1.0, 1.5, 0.5), 'b': (-1.0, 0.75, 0.18), 'c': (0.0, 1.0, 1.0)}[op]
            o.setExposureContrastPivot(*v)
            d['ecp'] = v
        pl = clf.ProcessList()
        pl.addProcess(o)
        check_pixels(ch, pl, [d], [[0.25, 0.5, 0.75], [1.0, 0.125, 2.0]], 'EC after settings', rel=5e-6, scale=4.0)
        ch.state(d['style'], d.get('ecp'))


HARNESSES = {'curves': curves, 'channels': channels, 'settings': settings}
