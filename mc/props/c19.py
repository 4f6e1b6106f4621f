"""Cinespace LUT files are read as the lookup they describe."""
import itertools

import boot
import explore
import refmodel as R
from common import *

reg = boot.lutformats().Registry
BOUNDS = """preluts: all triples of per-channel curves (identity, 2 points with other outputs, 3 and 4 points rising, falling, non-monotone and
leaving [0,1]) with the longest of 2, 3 or 4 points, 4 shared input ranges, 1D and 3D tables; all triples of 5 (4) input ranges of single channels on the grid of 6 (8) positions; tables: 1D of 2 to 5 entries and lattices of all sizes
2 to 4 per axis, one-hot and distinct-valued; layouts: blank lines in every single place, every pair of places and everywhere or nowhere optional,
metadata texts, line ends, white space; no interpolation named, each name the readers take and an unknown one. Probes on, between and outside all knots and samples; compared as read and after being written and read."""
ASSUMPTIONS = ['knots lie on the grid of twice the longest prelut that the reader resamples the channels to, over the range of all three together', 'three-channel pixels']
SHAPES = {2: [([0, 3], [0.0, 1.0]), ([0, 3], [0.25, 0.75]), ([0, 3], [1.0, 0.0]), ([0, 3], [-0.5, 1.5]), ([0, 3], [0.5, 0.5])],
          3: [([0, 5], [0.0, 1.0]), ([0, 5], [0.75, 0.25]), ([0, 2, 5], [0.0, 0.25, 1.0]), ([0, 1, 5], [0.0, 1.0, 0.5]), ([0, 4, 5], [1.0, 0.125, 0.0]), ([0, 3, 5], [-0.5, 0.5, 1.5])],
          4: [([0, 7], [0.125, 1.0]), ([0, 3, 7], [0.0, 0.75, 1.0]), ([0, 1, 2, 7], [0.0, 0.5, 0.75, 1.0]), ([0, 2, 5, 7], [0.0, 1.0, 0.0, 1.0]), ([0, 5, 6, 7], [0.0, 0.0, 0.5, 1.0]), ([0, 1, 3, 7], [1.0, 0.75, 0.625, -0.25])]}
RANGES = [(0.0, 1.0), (-0.25, 1.25), (0.0, 8.0), (0.5, 1.0)]
IDENT = [([0.0, 1.0], [0.0, 1.0])] * 3


def csp(kind, prelut, dim, v, blanks=None, meta=(), eol='\n', sep=' '):
    """dim: [n] or [r, g, b]; v in CLF order (blue fastest for 3D)."""
    groups = [['CSPLUTV100', kind], ['BEGIN METADATA'] + list(meta) + ['END METADATA']]
    g = []
    for ins, outs in prelut:
        g += ['%d' % len(ins), sep.join('%r' % x for x in ins), sep.join('%r' % x for x in outs)]
    groups.append(g)
    g = [sep.join('%d' % x for x in dim)]
    if kind == '1D':
        g += [sep.join('%r' % x for x in v[3 * i:3 * i + 3]) for i in range(dim[0])]
    else:
        for b in range(dim[2]):
            for gg in range(dim[1]):
                for r in range(dim[0]):
                    k = 3 * ((r * dim[1] + gg) * dim[2] + b)
                    g.append(sep.join('%r' % x for x in v[k:k + 3]))
    groups.append(g)
    if blanks is None:
        lines = []
        for x in groups:
            lines += x + ['']
    else:
        lines = [l for x in groups for l in x]
        for k in sorted(blanks, reverse=True):
            lines.insert(k, '   ' if k % 3 == 1 else '')
    return eol.join(lines) + eol


def check_file(ch, text, kind, prelut, dim, v, extra, what, again=False, interp=None):
    pl = reg.read(write_text(ch.path('a.csp'), text), **({} if interp is None else {'interpolation': interp}))
    tab = R.D('LUT1D', ch=3, v=v) if kind == '1D' else R.D('LUT3D', dim=dim, v=v, interp='tetrahedral' if interp == 'tetrahedral' else 'trilinear')
    lo, hi = min(x[0][0] for x in prelut), max(x[0][-1] for x in prelut)
    xs = sorted(set([lo - 1.0, hi + 1.0] + [lo + (hi - lo) * i / extra for i in range(extra + 1)]))
    m = len(xs)
    pix = [[xs[i], xs[(2 * i + 1) % m], xs[(3 * i + 2) % m]] for i in range(m)] + [[x] * 3 for x in xs]
    want = [R.ref(tab, [R.imap(prelut[c], p[c]) for c in range(3)]) for p in pix]
    lists = [(what, pl)]
    if again:
        p = ch.path('again.clf')
        pl.writeFile(p)
        lists.append((what + ', written and read', boot.fmt_clf().ProcessList(p)))
    for w, l in lists:
        got = chunks(l.process(flat(pix), 3), 3)
        ch.check(len(got) == len(pix), '%s: %d pixels for %d', w, len(got), len(pix))
        for p, g, x in zip(pix, got, want):
            compare(ch, g, x, '%s pixel %s' % (w, p), scale=max([1.0] + [abs(a) for a in v]), rel=5e-6)
        ch.step(len(pix))


def preluts(ch):
    """Every combination of curves."""
    n = ch.choose('longest', [2, 3, 4])
    kind = ch.choose('kind', ['1D', '3D'])
    s = [ch.choose('curve ' + c, range(len(SHAPES[n]))) for c in 'RGB']
    shapes = [SHAPES[n][i] for i in s]
    if max(len(x[0]) for x in shapes) != n:
        raise explore.Prune()
    dim, v = ([4], lcg(12, 3)) if kind == '1D' else ([2, 3, 4], lcg(72, 5))
    for lo, hi in RANGES:
        prelut = [([lo + (hi - lo) * i / (2.0 * n - 1) for i in x[0]], x[1]) for x in shapes]
        check_file(ch, csp(kind, prelut, dim, v), kind, prelut, dim, v, 3 * (2 * n - 1), '%s prelut %s' % (kind, prelut), again=lo < 0 and s[0] == s[1])
        ch.state(n, kind, s, lo)


INTERPS = [None, 'linear', 'trilinear', 'tetrahedral', 'nearest']


def interpolations(ch):
    """Every name of an interpolation."""
    interp = ch.choose('interpolation', INTERPS)
    kind = ch.choose('kind', ['1D', '3D'])
    pre = ch.choose('prelut', [IDENT, [([-1.0, 3.0], [0.0, 1.0])] * 3, [([0.0, 0.4, 1.0], [0.0, 0.75, 1.0])] * 3])
    for dim in ([[2], [3], [5]] if kind == '1D' else [[2, 2, 2], [3, 3, 3], [2, 3, 4], [4, 2, 2]]):
        n = 3
        for d in dim:
            n *= d
        for k in range(3):
            v = [4 * x - 1 for x in lcg(n, k)]
            check_file(ch, csp(kind, pre, dim, v), kind, pre, dim, v, 24, '%s %s' % (interp, dim), again=k == 0, interp=interp)
            ch.state(interp, kind, pre, dim, k)


SPANS = {3: [(0, 5), (0, 3), (2, 5), (1, 4), (3, 4)], 4: [(0, 7), (0, 3), (4, 7), (2, 6)]}


def spans(ch):
    """Every combination of input ranges, the knots on the common grid."""
    n = ch.choose('longest', [3, 4])
    kind = ch.choose('kind', ['1D', '3D'])
    s = [ch.choose('span ' + c, SPANS[n]) for c in 'RGB']
    g = 2 * n - 1
    if min(x[0] for x in s) or max(x[1] for x in s) != g or len(set(s)) == 1:
        raise explore.Prune()
    dim, v = ([4], lcg(12, 3)) if kind == '1D' else ([2, 3, 4], lcg(72, 5))
    for lo, hi in RANGES if ch.thorough else RANGES[:2]:
        for long in range(3):
            prelut = []
            for c, (a, b) in enumerate(s):
                ins = [a, b] if c != long or b - a < n - 1 else [a] + [a + 1 + i for i in range(n - 2)] + [b]
                outs = [[0.0, 1.0], [0.25, 0.75], [1.0, -0.5]][(c + long) % 3] if len(ins) == 2 else [[0.0, 0.75, 1.0], [0.0, 0.5, 0.25, 1.0]][n - 3]
                prelut.append(([lo + (hi - lo) * i / float(g) for i in ins], outs))
            if max(len(x[0]) for x in prelut) != n:
                continue
            check_file(ch, csp(kind, prelut, dim, v), kind, prelut, dim, v, 3 * g, '%s prelut %s' % (kind, prelut), again=lo < 0 and long == 0)
            ch.state(n, kind, s, lo, long)


def table_1d(ch):
    """Every table position."""
    n = ch.choose('length', [2, 3, 4, 5])
    pre = ch.choose('prelut', [IDENT, [([-1.0, 3.0], [0.0, 1.0])] * 3, [([0.0, 0.4, 1.0], [0.0, 0.75, 1.0])] * 3])
    for k in range(3 * n + 2):
        v = [1.0 if i == k else 0.0 for i in range(3 * n)] if k < 3 * n else [4 * x - 1 for x in lcg(3 * n, k)]
        check_file(ch, csp('1D', pre, [n], v), '1D', pre, [n], v, 4 * (n - 1) * 5, '1D %s' % v, again=k >= 3 * n)
        ch.state(n, pre, k)


def table_3d(ch):
    """Every lattice position."""
    dim = [ch.choose('size %d' % i, [2, 3, 4]) for i in range(3)]
    pre = ch.choose('prelut', [IDENT, [([-1.0, 3.0], [0.0, 1.0])] * 3])
    n = 3 * dim[0] * dim[1] * dim[2]
    one = range(n) if n <= (200 if ch.thorough else 60) and pre is IDENT else range(0, n, 11)
    for k in list(one) + [n, n + 1]:
        v = [1.0 if i == k else 0.0 for i in range(n)] if k < n else [4 * x - 1 for x in lcg(n, k)]
        text = csp('3D', pre, dim, v)
        check_file(ch, text, '3D', pre, dim, v, 12, '3D %s' % dim, again=k >= n)
        pl = reg.read(write_text(ch.path('b.csp'), text))
        lo, hi = pre[0][0]
        pix = [[lo + (hi - lo) * i / (d - 1) for i, d in zip(p, dim)] for p in itertools.product(*[range(d) for d in dim])]
        check_pixels(ch, pl, [R.D('Range', minIn=lo, maxIn=hi, minOut=0.0, maxOut=1.0), R.D('LUT3D', dim=dim, v=v)], pix, '3D %s lattice' % dim, scale=4.0)
        ch.state(dim, pre, k)


METAS = [(), ('a comment',), ('first', '', '  indented', '3', '0.5 0.5 0.5', '1D', 'CSPLUTV100'), ('', '')]


def layout(ch):
    """Blank lines and metadata anywhere."""
    kind = ch.choose('kind', ['1D', '3D'])
    meta = ch.choose('metadata', METAS)
    eol = ch.choose('line end', ['\n', '\r\n'])
    sep = ch.choose('separator', [' ', '  ', '\t'])
    pre = [([0.0, 1.2, 3.0], [0.0, 0.75, 1.0]), ([0.0, 3.0], [0.25, 1.0]), ([0.0, 0.6, 3.0], [0.0, 0.5, 1.0])]
    dim, v = ([3], lcg(9, 3)) if kind == '1D' else ([2, 3, 2], lcg(36, 5))
    n = len(csp(kind, pre, dim, v, blanks=()).splitlines())
    nl = n + len(meta)
    blanks = [None, (), tuple(range(1, nl + 1))] + [(k,) for k in range(1, nl + 1)] + list(itertools.combinations(range(1, nl + 1), 2))
    if not ch.thorough and meta:
        blanks = blanks[:3 + nl]
    for b in blanks:
        text = csp(kind, pre, dim, v, b, meta, eol, sep)
        check_file(ch, text, kind, pre, dim, v, 5, 'file %r' % text)
        ch.state(kind, meta, eol, sep, b)


HARNESSES = {'preluts': preluts, 'interpolations': interpolations, 'spans': spans, 'table_1d': table_1d, 'table_3d': table_3d, 'layout': layout}
