"""SPI LUT files are read as the lookup they describe."""
import itertools

import boot
import refmodel as R
from common import *

reg = boot.lutformats().Registry
BOUNDS = """spi1d: all tables of 2 to 4 entries (one component) over 5 values and every one-hot and a distinct-valued table of 2 to 5 entries (three
components), 6 input ranges, all 24 header orders, up to three header lines after the table, every pair of blank line positions, 4 line end and layout styles; spi3d: all lattices with 2 to 4
points per axis, one-hot and distinct-valued tables, 4 interpolations, line layouts; every extension known or not, in three spellings of case.
Probes on, between and outside all samples; the list is compared as read and (a layout each) after being written and read."""
ASSUMPTIONS = ['entries of an spi3d appear in order, blue fastest (the reader states this assumption)', 'three-channel pixels']
ALPHA = [0.0, 0.25, 1.0, -0.5, 2.0]
RANGES = [(0.0, 1.0), (-0.25, 1.25), (0.0, 4.0), (0.5, 1.0), (0.0, 0.5), (-2.0, -1.0), None]


def spi1d(ch, comp, values, rng, order=(0, 1, 2, 3), blanks=(), eol='\n', indent='    ', sep=' ', late=0):
    n = len(values) // comp
    head = ['Version 1', None if rng is None else 'From %s %s' % rng, 'Length %d' % n, 'Components %d' % comp]
    lines = [head[i].replace(' ', sep) for i in order if head[i]]
    after = lines[len(lines) - late:]
    lines = lines[:len(lines) - late]
    lines += ['{'] + [indent + sep.join('%r' % v for v in values[i * comp:(i + 1) * comp]) for i in range(n)] + ['}'] + after
    for k in sorted(blanks, reverse=True):
        lines.insert(min(k, len(lines)), indent if k % 2 else '')
    return eol.join(lines) + (eol if blanks != (99,) else '')


def descs1(comp, values, rng):
    out = []
    if rng and rng != (0.0, 1.0):
        out.append(R.D('Range', minIn=rng[0], maxIn=rng[1], minOut=0.0, maxOut=1.0))
    return out + [R.D('LUT1D', ch=comp, v=list(values))]


def probes(n, rng, q=4):
    lo, hi = rng or (0.0, 1.0)
    k = (n - 1) * q
    xs = [lo + (hi - lo) * i / k for i in range(-3, k + 4)] + [-1000.0, 1000.0]
    m = len(xs)
    return [[xs[i], xs[(i + 1) % m], xs[(i + 5) % m]] for i in range(m)]


def same(ch, pl, ds, pix, what, again=False):
    scale = max([1.0] + [abs(x) for x in ds[-1]['v']])
    check_pixels(ch, pl, ds, pix, what, scale=scale)
    if again:
        p = ch.path('again.clf')
        pl.writeFile(p)
        check_pixels(ch, boot.fmt_clf().ProcessList(p), ds, pix, what + ', written and read', scale=scale)


def tables_1d(ch):
    """Every table."""
    comp = ch.choose('components', [1, 3])
    rng = ch.choose('range', RANGES)
    n = ch.choose('length', [2, 3, 4, 5] if comp == 3 or ch.thorough else [2, 3, 4])
    if comp == 1:
        first = [ch.choose('v%d' % i, ALPHA) for i in range(min(n, 2))]
        todo = [first + list(rest) for rest in itertools.product(ALPHA, repeat=n - len(first))]
    else:
        todo = [[1.0 if i == k else 0.0 for i in range(3 * n)] for k in range(3 * n)] + [lcg(3 * n, 5), [2 * x - 0.5 for x in lcg(3 * n, 6)]]
    for v in todo:
        pl = reg.read(write_text(ch.path('a.spi1d'), spi1d(ch, comp, v, rng)))
        same(ch, pl, descs1(comp, v, rng), probes(n, rng), 'spi1d %s range %s' % (v, rng), again=v is todo[-1])
        ch.state(comp, rng, tuple(v))


def layout_1d(ch):
    """Every header order and blank line."""
    comp = ch.choose('components', [1, 3])
    order = ch.choose('order', list(itertools.permutations(range(4))))
    eol = ch.choose('line end', ['\n', '\r\n'])
    indent, sep = ch.choose('white space', [('        ', ' '), ('', ' '), ('\t', '\t'), (' ', '   ')])
    late = ch.choose('header lines after the table', [0, 1, 2, 3])
    rng = (-0.25, 1.25)
    v = [2 * x - 0.5 for x in lcg(3 * comp, 6)]
    n = 4 + 3 + 2
    pairs = list(itertools.combinations(range(n + 1), 2)) if ch.thorough or not late else []
    for blanks in [()] + list(itertools.combinations(range(n + 1), 1)) + pairs + [(99,), (0, 1, 2, 3, 4, 5, 6, 7, 8, 9)]:
        text = spi1d(ch, comp, v, rng, order, blanks, eol, indent, sep, late)
        pl = reg.read(write_text(ch.path('a.spi1d'), text))
        same(ch, pl, descs1(comp, v, rng), probes(3, rng, 2), 'spi1d %r' % text)
        ch.state(comp, order, eol, indent, blanks, late)


def spi3d(dim, v, eol='\n', sep=' ', tail=''):
    lines = ['SPILUT 1.0', '3 3', '%d %d %d' % tuple(dim)]
    k = 0
    for r in range(dim[0]):
        for g in range(dim[1]):
            for b in range(dim[2]):
                lines.append(sep.join(['%d' % r, '%d' % g, '%d' % b] + ['%r' % x for x in v[k:k + 3]]))
                k += 3
    return eol.join(lines) + tail


def tables_3d(ch):
    """Every lattice."""
    dim = [ch.choose('size %d' % i, [2, 3, 4]) for i in range(3)]
    n = 3 * dim[0] * dim[1] * dim[2]
    interp = ch.choose('interpolation', [None, 'linear', 'tetrahedral', 'trilinear'])
    eol, sep, tail = ch.choose('layout', [('\n', ' ', '\n'), ('\r\n', ' ', '\r\n'), ('\n', '\t', ''), ('\n', '  ', '\n\n \n')])
    plain = (eol, sep, tail) == ('\n', ' ', '\n')
    one = [[1.0 if i == k else 0.0 for i in range(n)] for k in range(n)] if plain and n <= (200 if ch.thorough else 60) else []
    pts = [[-1.0] + [i / (2.0 * (d - 1)) for i in range(2 * d - 1)] + [2.0] for d in dim]
    if not ch.thorough:
        pts = [[x + 0.0625 / (d - 1) if 0 <= x < 1 and j % 2 else x for j, x in enumerate(p)] for p, d in zip(pts, dim)]
    pix = [list(p) for p in itertools.product(*pts)]
    for v in one + [lcg(n, 3), [4 * x - 1 for x in lcg(n, 4)]]:
        pl = reg.read(write_text(ch.path('a.spi3d'), spi3d(dim, v, eol, sep, tail)), **({} if interp is None else {'interpolation': interp}))
        d = R.D('LUT3D', dim=dim, v=v, interp='tetrahedral' if interp == 'tetrahedral' else 'trilinear')
        same(ch, pl, [d], pix if v not in one else pix[::7], 'spi3d %s %s' % (dim, interp), again=v not in one)
        ch.state(dim, interp, eol, sep, tail, tuple(v))


def dispatch(ch):
    """Extensions."""
    ext = ch.choose('extension', ['spi1d', 'spi3d', 'csp', 'spimtx', 'ctl', 'clf', 'lut', 'cube', '', 'spi', 'spi1', 'spi1dx'])
    case = ch.choose('case', [str.lower, str.upper, str.capitalize])
    nodes = ch.flag('return nodes')
    v1 = [0.0, 0.75, 0.5]
    text = {'spi3d': spi3d([2, 2, 3], lcg(36, 3)),
            'csp': 'CSPLUTV100\n1D\n\nBEGIN METADATA\nEND METADATA\n\n' + '2\n0 1\n0 1\n' * 3 + '\n3\n' + ''.join('%r %r %r\n' % (x, x, x) for x in v1)}.get(
                ext, spi1d(ch, 1, v1, None))
    p = write_text(ch.path('a.b.spi1d.' + case(ext) if ext else 'a.b'), text)
    before = read_bytes(p)
    got = reg.read(p, returnProcessNodes=nodes)
    ch.check(read_bytes(p) == before, 'reading changed the file')
    ch.step()
    ch.state(ext, case.__name__, nodes)
    if ext not in ('spi1d', 'spi3d', 'csp'):
        ch.check(got is None or got == [] or got is False, 'extension %r gave %r', ext, got)
        return
    d = [R.D('LUT1D', ch=1, v=v1)] if ext != 'spi3d' else [R.D('LUT3D', dim=[2, 2, 3], v=lcg(36, 3))]
    if nodes:
        pl = boot.fmt_clf().ProcessList()
        ch.check(isinstance(got, list) and len(got) > 0, 'returnProcessNodes gave %r', got)
        for n in got:
            pl.addProcess(n)
        got = pl
    same(ch, got, d, probes(3, None), 'extension %r' % ext, again=True)


HARNESSES = {'tables_1d': tables_1d, 'layout_1d': layout_1d, 'tables_3d': tables_3d, 'dispatch': dispatch}
