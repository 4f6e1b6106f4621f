"""Sampling functions and format writers take any shape."""
import itertools
import os
import sys

import boot
import explore
import lutfiles
import refmodel as R
from common import *

HERE = os.path.dirname(os.path.abspath(__file__))
if HERE not in sys.path:
    sys.path.insert(0, HERE)
import c20
import c21

lf = boot.lutformats()
reg, clf = lf.Registry, boot.fmt_clf()
SPI, CSP, CTL, CLF = lf.LutFormatSPI, lf.LutFormatCSP, lf.LutFormatCTL, lf.LutFormatCLF
Sampling = lf.Sampling
BOUNDS = """sampling: 6 transforms over lattices of every size 2 to 4 (thorough 5) per axis x 4 input ranges, and through 10 input x 9 output shapers on 5 (thorough all)
lattice shapes; shapers: both directions at 65 positions each; writing: lattices of every size 2 to 4 (thorough 6) per axis as spi3d, csp, csp with
a prelut of 2 to 4 (thorough 6) points, ctl and clf with shapers, distinct values and one-hot; tables of 2 to 6 (thorough 33) entries x 1 to 4 channels x every number of
components a format can hold as spi1d, csp and ctl; each file parsed independently and, where its format has a reader, read and compared at every entry."""
ASSUMPTIONS = ['sizes of at least 2', 'csp and ctl hold one or three components', 'text has six places or more']
RANGES = [(0.0, 1.0), (-0.25, 1.25), (0.5, 4.0), (-2.0, -1.0)]
TRANSFORMS = ['empty', 'matrix', 'lut per channel', 'lut 3d', 'cdl', 'chain']
SHAPERS_AT = [(2, 3, 4), (4, 3, 2), (2, 2, 3), (3, 2, 2), (3, 4, 3)]


def sizes(ch, top):
    return [ch.choose('size %s' % c, range(2, top + 1)) for c in 'RGB']


def sample_3d(ch):
    """A lattice of any size per axis."""
    dim = sizes(ch, 5 if ch.thorough else 4)
    name = ch.choose('transform', TRANSFORMS)
    nodes = c20.NODES[name]
    pl = R.build_list(clf, nodes)
    for lo, hi in RANGES:
        s = Sampling.sample3D(pl, list(dim), lo, hi)
        what = 'sample3D of %s, %s over %s' % (name, dim, (lo, hi))
        ch.check([len(s), len(s[0]), len(s[0][0])] == dim, '%s: shape %s', what, [len(s), len(s[0]), len(s[0][0])])
        for k in itertools.product(*map(range, dim)):
            x = [lo + (hi - lo) * i / (d - 1.0) for i, d in zip(k, dim)]
            compare(ch, s[k[0]][k[1]][k[2]], R.ref_list(nodes, x), '%s at %s' % (what, k), scale=4.0)
        ch.step(dim[0] * dim[1] * dim[2])
        ch.state('3d', dim, name, lo)


def sample_1d(ch):
    """Any number of entries."""
    n = ch.choose('entries', range(2, 34 if ch.thorough else 13))
    for name in TRANSFORMS:
        nodes = c20.NODES[name]
        pl = R.build_list(clf, nodes)
        for lo, hi in RANGES:
            s = Sampling.sample1D(pl, n, lo, hi)
            ch.equal(len(s), 3 * n, 'sample1D of %s: number of values' % name)
            for i in range(n):
                compare(ch, s[3 * i:3 * i + 3], R.ref_list(nodes, [lo + (hi - lo) * i / (n - 1.0)] * 3), 'sample1D of %s, %d over %s at %d' % (name, n, (lo, hi), i), scale=4.0)
            ch.step(n)
            ch.state('1d', n, name, lo)


def sample_131(ch):
    """With shapers."""
    dim = list(ch.choose('lattice', list(itertools.product((2, 3, 4), repeat=3)) if ch.thorough else SHAPERS_AT))
    si = ch.choose('input shaper', c21.INS)
    so = ch.choose('output shaper', c21.OUTS)
    for name in ('offset', 'lattice') if not ch.thorough else sorted(c21.NODES):
        nodes = c21.NODES[name]
        pl = R.build_list(clf, nodes)
        a, i0, i1, s, b, o0, o1 = Sampling.sample1D3D1D(pl, [4, list(dim), 3], list(si), list(so))
        what = 'sample1D3D1D of %s, %s, %s %s' % (name, dim, si, so)
        for end, got, w in (('input', (i0, i1), si), ('output', (o0, o1), so)):
            lo, hi = c21.span(w) if w[0] else (0.0, 1.0)
            ch.check(abs(got[0] - lo) <= 1e-6 * max(1, abs(lo)) and abs(got[1] - hi) <= 1e-6 * max(1, abs(hi)), '%s: %s range %s', what, end, got)
        ch.check((not a) == (si[0] is None) and (not b) == (so[0] is None), '%s: shapers %s %s', what, a, b)
        if a:
            lo, hi = c21.span(si)
            compare(ch, a, [c21.forward(si, lo + (hi - lo) * (i // 3) / 3.0) for i in range(12)], what + ': input shaper', rel=4e-6)
        if b:
            compare(ch, b, [c21.inverse(so, (i // 3) / 2.0) for i in range(9)], what + ': output shaper', scale=max(abs(x) for x in c21.span(so)), rel=4e-6)
        ch.check([len(s), len(s[0]), len(s[0][0])] == dim, '%s: shape %s', what, [len(s), len(s[0]), len(s[0][0])])
        for k in itertools.product(*map(range, dim)):
            x = [c21.inverse(si, i / (d - 1.0)) for i, d in zip(k, dim)]
            # where the output shaper is not clamped its slope bounds the rounding
            compare(ch, s[k[0]][k[1]][k[2]], [c21.forward(so, y) for y in R.ref_list(nodes, x)], '%s at %s' % (what, k), scale=8.0, rel=4e-6)
        ch.step(dim[0] * dim[1] * dim[2])
        ch.state('131', dim, si, so, name)


def shapers(ch):
    """A shaper and its inverse."""
    s = ch.choose('shaper', c21.INS + c21.OUTS)
    f, b, lo, hi = Sampling.createShaper(*s)
    a0, a1 = c21.span(s) if s[0] else (0.0, 1.0)
    ch.check(abs(lo - a0) <= 1e-6 * max(1, abs(a0)) and abs(hi - a1) <= 1e-6 * max(1, abs(a1)), '%s: range %s', s, (lo, hi))
    for i in range(65):
        t = i / 64.0
        x = a0 + (a1 - a0) * t
        y = float(b.process([t] * 3)[0])
        compare(ch, [y], [c21.inverse(s, t)], '%s: inverse of %r' % (s, t), scale=max(abs(a0), abs(a1)), rel=4e-6)
        compare(ch, f.process([x] * 3), [c21.forward(s, x)] * 3, '%s of %r' % (s, x), rel=4e-6)
        compare(ch, f.process([y] * 3), [t] * 3, '%s there and back at %r' % (s, t), rel=6e-6)
        ch.state('shaper', s, i)
    ch.step(195)


def nested(v, dim):
    it = iter(chunks(v, 3))
    return [[[next(it) for _ in range(dim[2])] for _ in range(dim[1])] for _ in range(dim[0])]


def same_cells(ch, got, dim, v, what):
    ch.equal(sorted(got), sorted(itertools.product(*map(range, dim))), what + ': entries')
    for k, w in zip(itertools.product(*map(range, dim)), chunks(v, 3)):
        ch.check(all(abs(float(a) - b) <= 6e-7 + 1e-9 * abs(b) for a, b in zip(got[k], w)), '%s: entry %s is %s, not %s', what, k, got[k], w)


def read_back(ch, p, pre, dim, v, what, pts):
    pl = reg.read(p)
    pix = [list(x) for x in pts]
    want = [R.ref(R.D('LUT3D', dim=dim, v=v), [R.imap(pre[c], x[c]) for c in range(3)]) for x in pix]
    got = chunks(pl.process(flat(pix), 3), 3)
    for x, g, w in zip(pix, got, want):
        compare(ch, g, w, '%s read back at %s' % (what, x), scale=4.0, rel=5e-6)
    ch.step(len(pix))


def write_3d(ch):
    """Lattices as files."""
    fmt = ch.choose('format', ['spi3d', 'csp', 'csp prelut', 'ctl', 'clf'])
    dim = sizes(ch, 6 if ch.thorough else 4)
    n = 3 * dim[0] * dim[1] * dim[2]
    lo, hi = ch.choose('range', RANGES)
    m = ch.choose('prelut points', range(2, 7 if ch.thorough else 5)) if fmt in ('csp prelut', 'clf') else 0
    for k in [None, 0, n // 2, n - 1]:
        v = [round(4 * x - 1, 5) for x in lcg(n, 7)] if k is None else [float(i == k) for i in range(n)]
        data = nested(v, dim)
        p = ch.path('o.' + fmt[:3] if fmt[0] == 'c' else 'o.' + fmt)
        what = '%s %s over %s' % (fmt, dim, (lo, hi))
        pre = [([lo, hi], [0.0, 1.0])] * 3
        corners = [[lo + (hi - lo) * i / (2.0 * d - 2) for i, d in zip(k2, dim)] for k2 in itertools.product(*[range(2 * d - 1) for d in dim])]
        if fmt == 'spi3d':
            SPI.writeSPI3D(p, lo, hi, data, list(dim))
            f = lutfiles.spi3d(read_bytes(p).decode())
            pre = [([0.0, 1.0], [0.0, 1.0])] * 3
            corners = [[(x - lo) / (hi - lo) for x in c] for c in corners]
        elif fmt == 'csp':
            CSP.writeCSP3D(p, lo, hi, data, list(dim))
            f = lutfiles.csp(read_bytes(p).decode())
        elif fmt == 'csp prelut':
            shaped = [[((i + c * 0.25) / (m - 1 + 0.5)) ** 2 for c in range(3)] for i in range(m)]
            CSP.writeCSP1D3D(p, flat(shaped), m, lo, hi, data, list(dim))
            f = lutfiles.csp(read_bytes(p).decode())
            pre = [([lo + (hi - lo) * i / (m - 1.0) for i in range(m)], [s[c] for s in shaped]) for c in range(3)]
            corners = [[pre[0][0][i], pre[1][0][(i + j) % m], pre[2][0][(2 * i + j) % m]] for i in range(m) for j in range(m)]
            if m > 2:
                # the reader's grid has twice as many points: only the ends are on it
                corners = [c for c in corners if all(x in (lo, hi) for x in c)]
        elif fmt == 'ctl':
            CTL.writeCTL3D(p, lo, hi, data, list(dim))
            f = lutfiles.ctl(read_bytes(p).decode())
            e = f['outs']['rOut']
            cube = f['consts'][e[1]]
            f = {'dim': [len(cube), len(cube[0]), len(cube[0][0])], 'cells': {k2: cube[k2[0]][k2[1]][k2[2]] for k2 in itertools.product(*map(range, dim))}}
            for x, y in zip(e[2] + e[3], [lo] * 3 + [hi] * 3):
                ch.check(abs(x - y) < 1e-6, '%s: limits %s', what, e)
        else:
            ins = [i / (m - 1.0) * (1 + c) for i in range(m) for c in range(3)]
            outs = [0.25 + i / (m - 1.0) for i in range(m) for c in range(3)]
            CLF.writeCLF1D3D1D(p, ins, m, lo, hi, data, list(dim), outs, m, 0.0, 1.0)
            nodes = [R.D('Range', minIn=lo, maxIn=hi, minOut=0.0, maxOut=1.0), R.D('LUT1D', ch=3, v=ins), R.D('LUT3D', dim=dim, v=v), R.D('LUT1D', ch=3, v=outs)]
            check_pixels(ch, clf.ProcessList(p), nodes, corners, what, scale=4.0, rel=5e-6)
            ch.state(fmt, dim, lo, m, k)
            continue
        ch.equal(list(f['dim']), dim, what + ': sizes')
        same_cells(ch, f['cells'], dim, v, what)
        if fmt[:3] == 'csp':
            for c in range(3):
                a, b = f['prelut'][c]
                ch.check(len(a) == len(pre[c][0]) and all(abs(x - y) < 1e-6 for x, y in zip(list(a) + list(b), list(pre[c][0]) + list(pre[c][1]))), '%s: prelut %s', what, f['prelut'])
        if fmt != 'ctl' and (k is None or k == n // 2):
            read_back(ch, p, pre, dim, v, what, corners)
        ch.step(n)
        ch.state(fmt, dim, lo, m, k)


def write_1d(ch):
    """Tables as files."""
    fmt = ch.choose('format', ['spi1d', 'csp', 'ctl'])
    n = ch.choose('entries', [2, 3, 4, 5, 6] + ([17, 33] if ch.thorough else []))
    have = ch.choose('channels', [1, 2, 3, 4])
    want = ch.choose('components', [None, 1, 2, 3])
    comp = min(have, 3 if want is None else want)
    if comp == 2 and fmt != 'spi1d':
        raise explore.Prune()
    for lo, hi in RANGES:
        v = [round(4 * x - 1, 5) for x in lcg(n * have, n + have)]
        p = ch.path('o.' + fmt)
        what = '%s of %d x %d, %s components, over %s' % (fmt, n, have, want, (lo, hi))
        f = {'spi1d': SPI.writeSPI1D, 'csp': CSP.writeCSP1D, 'ctl': CTL.writeCTL1D}[fmt]
        f(p, lo, hi, v, n, have, *([] if want is None else [want]))
        text = read_bytes(p).decode()
        rows = [v[i * have:i * have + comp] for i in range(n)]
        rows = [r * 3 if comp == 1 else r for r in rows]
        if fmt == 'spi1d':
            g = lutfiles.spi1d(text)
            ch.equal(text.split('Components')[1].split()[0], '%d' % comp, what + ': components')
            m, lim, got = g['n'], g['range'], g['rows']
        else:
            m, lim, got = c20.channel_1d(fmt, text, ch, what)
        ch.equal(m, n, what + ': entries')
        ch.check(abs(lim[0] - lo) < 1e-6 and abs(lim[1] - hi) < 1e-6, '%s: range %s', what, lim)
        for i in range(n):
            ch.check(len(got[i]) == len(rows[i]) and all(abs(float(a) - b) <= 6e-7 for a, b in zip(got[i], rows[i])), '%s: row %d is %s, not %s', what, i, got[i], rows[i])
        if fmt != 'ctl' and comp != 2:
            pl = reg.read(p)
            for i in range(n):
                x = lo + (hi - lo) * i / (n - 1.0)
                compare(ch, pl.process([x] * 3), rows[i], '%s read back at %r' % (what, x), scale=4.0, rel=5e-6)
        ch.step(n)
        ch.state(fmt, n, have, want, lo)


HARNESSES = {'sample_3d': sample_3d, 'sample_1d': sample_1d, 'sample_131': sample_131, 'shapers': shapers, 'write_3d': write_3d, 'write_1d': write_1d}
