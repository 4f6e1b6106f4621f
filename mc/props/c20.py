"""Sampling a CLF into a 1D or 3D LUT file stores the transform's values."""
import itertools
import os

import boot
import lutfiles
import refmodel as R
from common import *

reg = boot.lutformats().Registry
clf = boot.fmt_clf()
BOUNDS = """11 transforms (per channel, across channels, outside [0,1], grouped, empty) x spi1d, csp and ctl at 1D resolutions 2 to 9 (thorough also 17, 64,
1024) x 7 input ranges, and spi3d, csp and ctl at 3D resolutions 2 to 5 (thorough also 9, 17) x the ranges; every sample of every file compared with
the model, every file that can be read back read back and compared at every sample; all extension x layout x letter case combinations for dispatch;
the default resolutions once per format."""
ASSUMPTIONS = ['the list works on normalised (floating-point) values', 'resolutions of at least 2']
NODES = {
    'empty': [],
    'matrix': [R.D('Matrix', dim=[3, 4, 3], v=[0.5, 0.25, 0.125, 0.0625, -0.25, 1.5, 0.375, 0.125, 0.0, 0.125, 0.75, -0.25])],
    'lut per channel': [R.D('LUT1D', ch=3, v=lcg(12, 3))],
    'lut 3d': [R.D('LUT3D', dim=[2, 3, 2], v=lcg(36, 4))],
    'cdl': [R.D('CDL', style='FwdNoClamp', slope=[1.25, 0.75, 2.0], offset=[0.125, -0.0625, 0.0], sat=0.5)],
    'gamma': [R.D('Gamma', style='basicFwd', params=[(2.0, 0.0, 'R'), (1.5, 0.0, 'G'), (3.0, 0.0, 'B')])],
    'range': [R.D('Range', minIn=0.0, maxIn=1.0, minOut=-1.0, maxOut=3.0)],
    'wide': [R.D('Matrix', dim=[3, 3, 3], v=[100.0, 0.0, 3.0, 0.0, 1000.0, 0.0, 0.001, 0.0, 0.25])],
    'group': [R.D('Group', nodes=[R.D('CDL', style='FwdNoClamp', slope=[0.5, 0.25, 0.75]), R.D('Matrix', dim=[3, 3, 3], v=lcg(9, 8))])],
    'log': [R.D('Log', style='log2')],
    'chain': [R.D('Matrix', dim=[3, 3, 3], v=lcg(9, 7)), R.D('LUT1D', ch=1, v=[0.0, 0.25, 0.75, 1.0]), R.D('CDL', style='FwdNoClamp', offset=[0.25, 0.5, -0.25])]}
RANGES = [(0.0, 1.0), (-0.25, 1.25), (0.0, 4.0), (0.5, 1.0), (-2.0, -1.0), (0.125, 16.0), (1.0, 0.0)]
R1 = [2, 3, 4, 5, 6, 7, 8, 9]
R3 = [2, 3, 4, 5]
TOL = 6e-7


def positions(n, lo, hi):
    return [lo + (hi - lo) * i / (n - 1.0) for i in range(n)]


def near(ch, got, want, what, tol=TOL, rel=4e-6):
    for c in range(3):
        g, w = float(got[c]), float(want[c])
        if w != w or abs(w) == float('inf'):
            ok = (g != g) == (w != w) and (w != w or g == w)
        else:
            ok = abs(g - w) <= tol + rel * abs(w)
        ch.check(ok, '%s: channel %d is %r, expected %r', what, c, g, w)


def skip(name, lo, hi):
    """Undefined inputs: logs and powers of what is not positive."""
    return (name == 'log' and min(lo, hi) <= 0) or (name == 'gamma' and min(lo, hi) < 0)


def channel_1d(fmt, text, ch, what):
    """-> n, (lo, hi), rows"""
    if fmt == 'spi1d':
        f = lutfiles.spi1d(text)
        return f['n'], f['range'], f['rows']
    if fmt == 'csp':
        f = lutfiles.csp(text)
        ch.equal(f['kind'], '1D', what + ': kind')
        for a, b in f['prelut']:
            ch.check([a, b] == [f['prelut'][0][0], [0.0, 1.0]] and len(a) == 2, '%s: prelut %s', what, f['prelut'])
        return f['n'], tuple(f['prelut'][0][0]), f['rows']
    f = lutfiles.ctl(text)
    rows = []
    for i, c in enumerate('rgb'):
        e = f['outs'][c + 'Out']
        ch.check(e[0] == '1d' and e[4] == ('in', c + 'In'), '%s: %sOut is %s', what, c, e)
        rows.append(f['consts'][e[1]])
        lim = (e[2], e[3])
    ch.equal(f['outs'].get('aOut'), ('in', 'aIn'), what + ': alpha')
    return len(rows[0]), lim, [list(x) for x in zip(*rows)]


def one_d(ch):
    fmt = ch.choose('format', ['spi1d', 'csp', 'ctl'])
    name = ch.choose('transform', sorted(NODES))
    res = ch.choose('resolution', R1 + ([17, 64, 1024] if ch.thorough else []))
    nodes = NODES[name]
    pl = R.build_list(clf, nodes)
    for lo, hi in RANGES:
        if skip(name, lo, hi):
            continue
        what = '%s of %s, %d over %s' % (fmt, name, res, (lo, hi))
        p = ch.path('o.' + fmt)
        reg.write(pl, p, lutDataFormat='1D', lutResolution1d=res, inputMin=lo, inputMax=hi)
        n, lim, rows = channel_1d(fmt, read_bytes(p).decode(), ch, what)
        ch.equal(n, res, what + ': length')
        ch.check(abs(lim[0] - lo) < 1e-6 and abs(lim[1] - hi) < 1e-6, '%s: range %s', what, lim)
        xs = positions(res, lo, hi)
        want = [R.ref_list(nodes, [x] * 3) for x in xs]
        for x, row, w in zip(xs, rows, want):
            near(ch, row, w, '%s at %s' % (what, x))
        if fmt != 'ctl' and lo < hi:
            back = reg.read(p)
            top = max([1.0] + [abs(v) for w in want for v in w if abs(v) < 1e30])
            for i in range(res):
                k = [i, (i + 1) % res, (2 * i + 1) % res]
                near(ch, back.process([xs[j] for j in k]), [want[k[c]][c] for c in range(3)], '%s read back at %s' % (what, [xs[j] for j in k]), tol=TOL + 4e-6 * top, rel=1e-5)
        ch.step(2 * res)
        ch.state(fmt, name, res, lo, hi)


def lattice(fmt, text, ch, what):
    """-> dim, (lo, hi) or None, cells"""
    if fmt == 'spi3d':
        f = lutfiles.spi3d(text)
        return f['dim'], None, f['cells']
    if fmt == 'csp':
        f = lutfiles.csp(text)
        ch.equal(f['kind'], '3D', what + ': kind')
        for a, b in f['prelut']:
            ch.check([a, b] == [f['prelut'][0][0], [0.0, 1.0]] and len(a) == 2, '%s: prelut %s', what, f['prelut'])
        return f['dim'], tuple(f['prelut'][0][0]), f['cells']
    f = lutfiles.ctl(text)
    for i, c in enumerate('rgb'):
        e = f['outs'][c + 'Out']
        ch.check(e[0] == '3d' and e[4] == (('in', 'rIn'), ('in', 'gIn'), ('in', 'bIn')) and e[5] == i, '%s: %sOut is %s', what, c, e)
    ch.check(len(set(e[2])) == 1 and len(set(e[3])) == 1, '%s: limits %s %s', what, e[2], e[3])
    ch.equal(f['outs'].get('aOut'), ('in', 'aIn'), what + ': alpha')
    cube = f['consts'][e[1]]
    dim = [len(cube), len(cube[0]), len(cube[0][0])]
    return dim, (e[2][0], e[3][0]), {(r, g, b): cube[r][g][b] for r in range(dim[0]) for g in range(dim[1]) for b in range(dim[2])}


def three_d(ch):
    fmt = ch.choose('format', ['spi3d', 'csp', 'ctl'])
    name = ch.choose('transform', sorted(NODES))
    res = ch.choose('resolution', R3 + ([9, 17] if ch.thorough else []))
    nodes = NODES[name]
    pl = R.build_list(clf, nodes)
    for lo, hi in RANGES:
        if skip(name, lo, hi):
            continue
        what = '%s of %s, %d over %s' % (fmt, name, res, (lo, hi))
        p = ch.path('o.' + fmt)
        reg.write(pl, p, lutDataFormat='3D', lutResolution3d=res, inputMin=lo, inputMax=hi)
        dim, lim, cells = lattice(fmt, read_bytes(p).decode(), ch, what)
        ch.equal(dim, [res] * 3, what + ': size')
        ch.check(lim is None or (abs(lim[0] - lo) < 1e-6 and abs(lim[1] - hi) < 1e-6), '%s: range %s', what, lim)
        xs = positions(res, lo, hi)
        pix, want = [], []
        for k in itertools.product(range(res), repeat=3):
            x = [xs[i] for i in k]
            w = R.ref_list(nodes, x)
            near(ch, cells[k], w, '%s at %s' % (what, x))
            pix.append(x)
            want.append(w)
        if fmt == 'csp' and lo < hi or fmt == 'spi3d' and (lo, hi) == (0.0, 1.0):
            back = reg.read(p)
            top = max([1.0] + [abs(v) for w in want for v in w])
            for x, g, w in zip(pix, chunks(back.process(flat(pix), 3), 3), want):
                near(ch, g, w, '%s read back at %s' % (what, x), tol=TOL + 8e-6 * top, rel=1e-5)
        ch.step(2 * res ** 3)
        ch.state(fmt, name, res, lo, hi)


WRITERS = {('spi1d', '1D'), ('spi3d', '3D'), ('csp', '1D'), ('csp', '3D'), ('csp', '1D_3D_1D'), ('ctl', '1D'), ('ctl', '3D'), ('clf', '1D_3D_1D')}


def dispatch(ch):
    """Which writer takes what; the list stays what it was."""
    ext = ch.choose('extension', ['spi1d', 'spi3d', 'csp', 'ctl', 'clf', 'spimtx', 'cube', 'lut', '', 'spi'])
    layout = ch.choose('layout', ['1D', '3D', '1D_3D_1D'])
    case = ch.choose('case', [str.lower, str.upper, str.capitalize])
    old = ch.flag('file exists')
    nodes = NODES['chain']
    pl = R.build_list(clf, nodes)
    p = ch.path('o.spi1d.' + case(ext) if ext else 'o')
    if old:
        write_text(p, 'something else')
    reg.write(pl, p, lutDataFormat=layout, lutResolution1d=4, lutResolution3d=3, lutResolution1d3d1d=[4, 3, 2])
    what = '%s as %s' % (ext, layout)
    if (ext, layout) in WRITERS:
        ch.check(os.path.exists(p) and read_bytes(p) != b'something else', '%s wrote nothing', what)
        if layout == '1D':
            n, lim, rows = channel_1d(ext, read_bytes(p).decode(), ch, what)
            for i in range(4):
                near(ch, rows[i], R.ref_list(nodes, [i / 3.0] * 3), '%s sample %d' % (what, i))
        if layout == '3D':
            dim, lim, cells = lattice(ext, read_bytes(p).decode(), ch, what)
            for k in itertools.product(range(3), repeat=3):
                near(ch, cells[k], R.ref_list(nodes, [i / 2.0 for i in k]), '%s sample %s' % (what, k))
    else:
        ch.check(os.path.exists(p) == old and (not old or read_bytes(p) == b'something else'), '%s is not supported but wrote a file', what)
    check_pixels(ch, pl, nodes, [[0.5, 0.25, 0.75], [0.125, 1.0, 0.0]], what + ': the list itself')
    ch.equal(len(pl), len(nodes), what + ': nodes in the list')
    ch.state(ext, layout, case.__name__, old)


def defaults(ch):
    """Nothing but the layout given."""
    fmt, layout = ch.choose('format', sorted(w for w in WRITERS if w[1] != '1D_3D_1D'))
    nodes = NODES['matrix']
    pl = R.build_list(clf, nodes)
    p = ch.path('o.' + fmt)
    what = '%s with defaults' % fmt
    if layout == '1D':
        if ch.flag('layout given'):
            reg.write(pl, p, lutDataFormat=layout)
        else:
            reg.write(pl, p)
        n, lim, rows = channel_1d(fmt, read_bytes(p).decode(), ch, what)
        ch.equal(n, 1024, what + ': length')
        for i in range(n):
            near(ch, rows[i], R.ref_list(nodes, [i / 1023.0] * 3), '%s sample %d' % (what, i))
        ch.step(n)
    else:
        reg.write(pl, p, lutDataFormat=layout)
        dim, lim, cells = lattice(fmt, read_bytes(p).decode(), ch, what)
        ch.equal(dim, [33] * 3, what + ': size')
        for k in cells:
            near(ch, cells[k], R.ref_list(nodes, [i / 32.0 for i in k]), '%s sample %s' % (what, k))
        ch.step(len(cells))
    ch.check(lim is None or tuple(lim) == (0.0, 1.0), '%s: range %s', what, lim)
    ch.state(fmt, layout)


HARNESSES = {'one_d': one_d, 'three_d': three_d, 'dispatch': dispatch, 'defaults': defaults}
