"""Matrix: every coefficient position of every shape, surplus channels, encodings, depths."""
import boot
import refmodel as R
from common import *

clf = boot.clf()
BOUNDS = """Shapes 3x3, 3x4, 4x4, 4x5; unit matrices (one coefficient at a time, so that every coefficient's
position is observed), identity, and a full matrix of distinct coefficients; pixels of rows..rows+2 channels,
1, 2 and 5 pixels per call; 36 depth pairs; string, integer16/32/64bit and hex16/32/64bit encodings, as set and
as written and read back."""
ENCS = ['string', 'integer16bit', 'hex16bit', 'integer32bit', 'hex32bit', 'integer64bit', 'hex64bit']
SHAPES = [(3, 3), (3, 4), (4, 4), (4, 5)]


def patterns(r, c):
    out = []
    for i in range(r):
        for j in range(c):
            v = [0.0] * (r * c)
            v[i * c + j] = 2.0
            out.append(('e%d%d' % (i, j), v))
    ident = [1.0 if i == j else 0.0 for i in range(r) for j in range(c)]
    out.append(('identity', ident))
    # coefficients exact in half-float, all different, so that no two can be exchanged unseen
    out.append(('full', [(-1) ** k * (0.25 + k / 16.0) for k in range(r * c)]))
    out.append(('big', [float(100 + 7 * k) for k in range(r * c)]))
    return out


def pixels(n, k):
    base = [0.5, -0.25, 2.0, 1.5, 0.125, 8.0, -3.0]
    return [[base[(p * 3 + i * 2 + p // 2) % 7] + p for i in range(n)] for p in range(k)] + \
        [[1.0 if i == j else 0.0 for i in range(n)] for j in range(n)]


def product(ch):
    r, c = ch.choose('shape', SHAPES)
    name, v = ch.choose('coefficients', patterns(r, c))
    n = ch.choose('channels', [r, r + 1, r + 2])
    enc = ch.choose('encoding', ENCS)
    how = ch.choose('how', ['set', 'file'])
    d = R.D('Matrix', dim=[r, c, r], v=v, enc=enc, id='m', name='m')
    pl = R.build_list(clf, [d])
    if how == 'file':
        p = ch.path('m.clf')
        pl.writeFile(p)
        pl = clf.ProcessList(p)
    for k in (0, 3):
        check_pixels(ch, pl, [d], pixels(n, k), 'Matrix %s %s' % (name, enc), scale=8.0, single=(enc == 'string'))
    m = pl.getProcesses()[0]
    ch.state(r, c, name, n, enc, how)


def depths(ch):
    r, c = ch.choose('shape', SHAPES)
    a = ch.choose('in', R.DEPTHS)
    b = ch.choose('out', R.DEPTHS)
    how = ch.choose('how', ['set', 'file', 'xml'])
    enc = ch.choose('encoding', ENCS if ch.thorough else ['string', 'hex32bit']) if how == 'file' else 'string'
    v = patterns(r, c)[-2][1]
    d = R.D('Matrix', **{'dim': [r, c, r], 'v': v, 'enc': enc, 'in': a, 'out': b})
    if how == 'xml':
        p = write_text(ch.path('m.clf'), R.xml_doc([d]))
        pl = clf.ProcessList(p)
    else:
        pl = R.build_list(clf, [d])
    if how == 'file':
        p = ch.path('m.clf')
        pl.writeFile(p)
        pl = clf.ProcessList(p)
    px = [[x * R.full(a) for x in p] for p in pixels(r, 3)]
    check_pixels(ch, pl, [d], px, 'Matrix %s->%s' % (a, b), scale=8.0 * R.full(a), rel=1e-6)
    ch.state(r, c, a, b, how, enc)


HARNESSES = {'product': product, 'depths': depths}
