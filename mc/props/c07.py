"""3D LUT lookup."""
import boot
import refmodel as R
from common import *

clf = boot.clf()
BOUNDS = """All 27 lattice sizes from {2,3,4}^3 (thorough: {2,3,4,5,7}^3) x interpolation trilinear, tetrahedral,
absent, empty, unknown x no, one, three index maps; every lattice point, and the 3x3x3 (thorough 4x4x4)
sub-lattice points of every cell, hitting the interior and every face of each of the six tetrahedra; points
outside, up to the largest floats and infinite; 36 depth pairs; 3-5 channels; as set and read from a file."""
SIZES = [2, 3, 4]


def make(ch, d, how):
    if how == 'set':
        return R.build_list(clf, [d])
    p = write_text(ch.path('l.clf'), R.xml_doc([d]))
    return clf.ProcessList(p)


def imaps(kind, dim, f):
    h = [n - 1 for n in dim]
    if kind == 'one':       # one map for all axes can only fit a common size: up to the smallest
        return [([0.0, 0.5 * f, 1.0 * f], [0, 0, min(h)])]
    if kind == 'two-points':
        return [([0.25 * f, 0.75 * f], [0, max(h)])]
    if kind == 'three':
        return [([0.0, 1.0 * f], [0, h[0]]), ([-0.5 * f, 0.25 * f, 1.5 * f], [h[1], 0, h[1]]),
                ([0.0, 0.25 * f, 0.5 * f, 2.0 * f], [0, 0, h[2], h[2]])]
    return None


def grid(dim, sub):
    axes = [[k / float((n - 1) * sub) for k in range((n - 1) * sub + 1)] for n in dim]
    return [[a, b, c] for a in axes[0] for b in axes[1] for c in axes[2]]


def lookup(ch):
    sizes = [2, 3, 4, 5] if ch.thorough else SIZES
    dim = [ch.choose('r', sizes), ch.choose('g', sizes), ch.choose('b', sizes)]
    interp = ch.choose('interp', ['trilinear', 'tetrahedral', None, '', 'bogus'])
    kind = ch.choose('maps', ['none', 'one', 'two-points', 'three'])
    how = ch.choose('how', ['set', 'file'])
    v = [x * 2 - 0.5 for x in lcg(dim[0] * dim[1] * dim[2] * 3, sum(dim))]
    d = R.D('LUT3D', dim=dim, v=v)
    if interp is not None:
        d['interp'] = interp
    if kind != 'none':
        d['imaps'] = imaps(kind, dim, 1.0)
    pl = make(ch, d, how)
    full = kind == 'none' and interp in ('trilinear', 'tetrahedral')
    g = grid(dim, (4 if ch.thorough else 3) if full and dim[0] * dim[1] * dim[2] <= 36 else 2 if full else 1)
    if kind != 'none':
        g = grid([3, 3, 3], 2)
    g += [[-0.5, 0.25, 0.75], [0.25, 1.5, -3.0], [2.0, 2.0, 2.0], [-1.0, -1.0, -1.0], [1.0, 0.5, 1.25]]
    g += [[3e38, 0.375, -3e38], [0.125, 1e36, 0.25], [float('inf'), 0.375, 0.25], [0.625, -float('inf'), float('inf')]]
    check_pixels(ch, pl, [d], g, 'LUT3D %s %s' % (dim, interp), scale=3.0)
    check_pixels(ch, pl, [d], [p + [9.5] for p in g[::7]], 'LUT3D 4ch', scale=3.0, single=True)
    check_pixels(ch, pl, [d], [p + [9.5, -2.25] for p in g[::11]], 'LUT3D 5ch', scale=3.0)
    for p in g:
        ch.state(dim, interp, kind, how, tuple(p))


def depths(ch):
    dim = ch.choose('dim', [[2, 2, 2], [2, 3, 4], [4, 3, 2], [3, 3, 3]])
    interp = ch.choose('interp', ['trilinear', 'tetrahedral'])
    a = ch.choose('in', R.DEPTHS)
    b = ch.choose('out', R.DEPTHS)
    kind = ch.choose('maps', ['none', 'three'])
    how = ch.choose('how', ['set', 'file'])
    f = R.full(a)
    v = [x * R.full(b) for x in lcg(dim[0] * dim[1] * dim[2] * 3, 9)]
    d = R.D('LUT3D', **{'in': a, 'out': b, 'dim': dim, 'v': v, 'interp': interp})
    if kind == 'three':
        d['imaps'] = imaps(kind, dim, f)
    pl = make(ch, d, how)
    g = [[x * f for x in p] for p in grid([3, 2, 3], 2)]
    # off-lattice code values
    g += [[0.3 * f, 0.6 * f, 0.9 * f], [0.9 * f, 0.3 * f, 0.6 * f], [0.6 * f, 0.9 * f, 0.3 * f]]
    check_pixels(ch, pl, [d], g, 'LUT3D %s->%s' % (a, b), scale=R.full(b) * 3)
    for p in g:
        ch.state(dim, interp, a, b, kind, how, tuple(p))


def getters(ch):
    dim = ch.choose('dim', [[2, 2, 2], [2, 3, 4], [4, 2, 3]])
    kind = ch.choose('maps', ['none', 'one', 'two-points', 'three'])
    how = ch.choose('how', ['set', 'file', 'roundtrip'])
    v = lcg(dim[0] * dim[1] * dim[2] * 3, 5)
    d = R.D('LUT3D', dim=dim, v=v, enc=ch.choose('enc', ['string', 'hex32bit']))
    m = imaps(kind, dim, 1.0)
    if m:
        d['imaps'] = m
    pl = make(ch, d, 'set' if how == 'roundtrip' else how)
    if how == 'roundtrip':
        p = ch.path('l.clf')
        pl.writeFile(p)
        pl = clf.ProcessList(p)
    o = pl.getProcesses()[0]
    ch.equal(list(o.getLUTDimensions()), dim + [3], 'getLUTDimensions')
    compare(ch, o.getLUTValues(), v, 'getLUTValues')
    for i, mm in enumerate(m or []):
        k = o.getIndexMapDimensions(i)
        ch.equal(int(k[0] if isinstance(k, (list, tuple)) else k), len(mm[0]), 'getIndexMapDimensions(%d)' % i)
        g = o.getIndexMapValues(i)
        compare(ch, g[0], mm[0], 'index map %d inputs' % i)
        compare(ch, g[1], mm[1], 'index map %d outputs' % i)
    ch.step(4)
    ch.state(dim, kind, how)


HARNESSES = {'lookup': lookup, 'depths': depths, 'getters': getters}
