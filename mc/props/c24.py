"""OCIO transforms convert to the same colour operation."""
import itertools
import math
import os
import sys
import xml.etree.ElementTree as ET

import boot
import explore
import fakes
import refmodel as R
from common import *

clf = boot.clf()
world = fakes.Ocio()
O = boot.stub('PyOpenColorIO', world.make())
conv = boot.converter('convertOCIOtoCLF')

BOUNDS = """matrices: every single and paired change of the 16 entries of three base matrices with every subset of offsets; trees: every sequence of 1 to 3
of 14 kinds of transform (quick: sequences of 3 fully in two groupings; thorough: also 4 of 9 kinds) in every grouping with up to two levels of nesting and empty groups; sequences of 1 to 3 in groupings of up to three groups
with every assignment of directions to the groups; every pair of transform lists
as two sources and two destinations; every file format, search path form, interpolation and inverse method; command lines with each option absent.
Each written file is read and compared on probe pixels."""
ASSUMPTIONS = ['PyOpenColorIO is replaced by a stand-in with its version 1 interface', 'inverses of matrices are not supported by the tool (it says so) and contribute no node',
               'the alpha offset of a matrix that leaves alpha alone may be dropped', 'only spi1d files have an inverse']
EPS = 3e-7


# ---- the operation of an OCIO transform, with a bound on rounding -----------------------

class Unknown(Exception):
    pass


def around(f, x, e):
    y = f(x)
    return y, max(abs(f(x + e) - y), abs(f(x - e) - y)) * 1.5 + EPS * abs(y) + 1e-30


def apply(t, px, files, back=False):
    """px: [(value, error)]"""
    if t is None or isinstance(t, (fakes.CDLTransform, fakes.ExponentTransform)):
        return px
    if isinstance(t, fakes.GroupTransform):
        back = back != (t.getDirection() != 'forward')
        for c in t.getTransforms()[::-1 if back else 1]:
            px = apply(c, px, files, back)
        return px
    fwd = (t.getDirection() == 'forward') != back
    if isinstance(t, fakes.MatrixTransform):
        if not fwd:
            return px
        m, o = t.getMatrix(), t.getOffset()
        n = len(px)
        v = [x for x, _ in px]
        out = []
        for i in range(n):
            terms = [m[4 * i + j] * v[j] for j in range(n)] + [o[i]]
            out.append((sum(terms), sum(abs(m[4 * i + j]) * px[j][1] for j in range(n)) + EPS * sum(abs(x) for x in terms) + 2e-9 * (1 + sum(map(abs, v)))))
        return out
    if isinstance(t, fakes.LogTransform):
        b = t.getBase()
        if b not in (2, 10):
            return px

        def f(x):
            if fwd:
                return math.log(max(x, R.FLT_MIN)) / math.log(b)
            if x > 37.0 if b == 10 else x > 120.0:
                raise Unknown()
            return float(b) ** x
        return [around(f, *p) for p in px[:3]] + px[3:]
    if t.getSrc() not in files:
        return px
    kind, data = files[t.getSrc()]
    if kind == '3d':
        dim, v = data
        y = R.lut3(dim, v, [x for x, _ in px[:3]], 'tetrahedral' if t.getInterpolation() == 'tetrahedral' else 'trilinear')
        span = max(v) - min(v)
        e = sum(p[1] * (d - 1) for p, d in zip(px, dim)) * span * 2
        return [(a, e + EPS * (abs(a) + 1.0)) for a in y] + px[3:]
    tabs, (lo, hi) = data
    out = []
    for c in range(3):
        tb = tabs[c if len(tabs) > 1 else 0]
        n = len(tb)
        if fwd:
            f = lambda x: R.lut1(tb, (x - lo) / (hi - lo))
        else:
            f = lambda x: lo + (hi - lo) * R.imap([tb, list(range(n))], x) / (n - 1)
        y, e = around(f, px[c][0], px[c][1] + EPS * (abs(px[c][0]) + 1.0) + 1e-6)
        out.append((y, e))
    return out + px[3:]


def count(t, back=False):
    """The least number of nodes a transform gives."""
    if isinstance(t, fakes.GroupTransform):
        back = back != (t.getDirection() != 'forward')
        return sum(count(c, back) for c in t.getTransforms())
    if t is None or isinstance(t, (fakes.CDLTransform, fakes.ExponentTransform)):
        return 0
    if isinstance(t, fakes.MatrixTransform):
        return int((t.getDirection() == 'forward') != back)
    if isinstance(t, fakes.LogTransform):
        return int(t.getBase() in (2, 10))
    return int(t.getSrc() in KNOWN)


PIX3 = [[0.0, 0.0, 0.0], [1.0, 1.0, 1.0], [0.5, 0.25, 0.125], [0.125, 0.75, 0.375], [0.9375, 0.0625, 0.5], [1.5, -0.25, 0.75], [0.25, 1.0, 0.0], [-0.5, 0.375, 2.0]]
PIX4 = [p + [a] for p, a in zip(PIX3, [0.0, 1.0, 0.5, 0.25, 0.75, 0.125, 2.0, -1.0])]


def judge(ch, path, transforms, files, what, stride=3, alpha=True):
    """The list in path does what the transforms do in order."""
    pl = clf.ProcessList(path)
    pix = PIX3 if stride == 3 else PIX4
    got = chunks(pl.process(flat(pix), stride), stride)
    ch.check(len(got) == len(pix), '%s: %d pixels for %d', what, len(got), len(pix))
    for p, g in zip(pix, got):
        try:
            want = [(x, 0.0) for x in p]
            for t in transforms:
                want = apply(t, want, files)
        except Unknown:
            continue
        for i, ((w, e), x) in enumerate(zip(want, g)):
            if i == 3 and not alpha:
                continue
            ch.check(abs(x - w) <= e, '%s: channel %d of %s gives %r, expected %r (within %.1e)', what, i, p, x, w, e)
    ch.step(len(pix))
    return pl


def here(ch, name=''):
    """A path in this execution's own folder."""
    if getattr(ch, 'folder', None) is None:
        ch.folder = ch.path('')
    return os.path.join(ch.folder, name)


def quiet_remove(p):
    if os.path.exists(p):
        os.remove(p)


def convert(ch, spaces, src, dst, search='', maps=True, half=True, config='c.ocio'):
    out = here(ch, 'out.clf')
    quiet_remove(out)
    cfg = os.path.join(here(ch), config)
    world.files = {cfg: (search, {s.name: s for s in spaces})}
    conv.convertOCIOtoCLF(cfg, list(src), list(dst), out, maps, half)
    return out


# ---- matrices --------------------------------------------------------------------------

IDENT = [1.0, 0, 0, 0, 0, 1.0, 0, 0, 0, 0, 1.0, 0, 0, 0, 0, 1.0]
BASES = {'identity': IDENT, 'plain': [0.5, 0.25, -0.125, 0, 0.0625, 0.75, 0.375, 0, -0.25, 0.1875, 1.5, 0, 0, 0, 0, 1.0],
         'no first': [0.0, 0.5, 0.25, 0, 0.75, -0.5, 0.125, 0, 0.375, 0.625, 0.0, 0, 0, 0, 0, 1.0]}
OFFS = [0.25, -0.125, 0.375, 0.0625]
ZERO = [[0.25, -0.25, 0.0, 0.0], [0.5, 0.0, -0.5, 0.0], [0.0, -0.375, 0.375, 0.0], [0.5, -0.25, -0.25, 0.0]]
LEAVES_ALPHA = (3, 7, 11, 12, 13, 14, 15)


def matrices(ch):
    """Every matrix near the forms the converter tells apart."""
    base = ch.choose('base', sorted(BASES))
    i = ch.choose('first', list(range(-1, 16)))
    off = ch.choose('offsets', range(20))
    second = range(i, 16) if i >= 0 else [-1]
    for j in second:
        m = list(BASES[base])
        for n, k in enumerate((i, j)):
            if k >= 0 and not (n and i == j):
                m[k] = (0.5 if m[k] == 0 else 0.0) if k in LEAVES_ALPHA and k != 15 or m[k] == 0 else (0.5 if k == 15 else (0.0 if n else m[k] * 0.5))
        o = [OFFS[k] if off >> k & 1 else 0.0 for k in range(4)] if off < 16 else list(ZERO[off - 16])
        t = fakes.MatrixTransform(m, o)
        s = fakes.Space('s', to=t, frm=None)
        simple = all(m[k] == IDENT[k] for k in LEAVES_ALPHA)
        p = convert(ch, [s], ['s'], [])
        ch.check(os.path.exists(p), 'matrix %s offset %s: nothing was written', m, o)
        what = 'matrix %s offset %s' % (m, o)
        if simple:
            judge(ch, p, [t], {}, what, 3)
        judge(ch, p, [t], {}, what, 4, alpha=not (simple and o[3]))
        ch.equal((t.getMatrix(), t.getOffset()), (m, o), what + ': the transform itself')
        ch.state(base, i, j, off)


# ---- files -----------------------------------------------------------------------------

T1 = [[0.0, 0.125, 0.5, 1.0]]
T3 = [[0.0, 0.25, 1.0], [0.0625, 0.5, 0.75], [-0.25, 0.75, 1.25]]
V3 = lcg(36, 3)


def spi(tabs, rng):
    n = len(tabs[0])
    return 'Version 1\nFrom %r %r\nLength %d\nComponents %d\n{\n%s\n}\n' % (rng[0], rng[1], n, len(tabs), '\n'.join(' '.join('%r' % t[i] for t in tabs) for i in range(n)))


def spi3(dim, v):
    it = iter(v)
    return 'SPILUT 1.0\n3 3\n%d %d %d\n' % tuple(dim) + ''.join('%d %d %d %r %r %r\n' % (r, g, b, next(it), next(it), next(it))
                                                                for r in range(dim[0]) for g in range(dim[1]) for b in range(dim[2]))


def csp(tabs, rng):
    n = len(tabs[0])
    return 'CSPLUTV100\n1D\n\nBEGIN METADATA\nEND METADATA\n\n' + ('2\n%r %r\n0 1\n' % rng) * 3 + '\n%d\n' % n + ''.join(' '.join('%r' % tabs[c if len(tabs) > 1 else 0][i] for c in range(3)) + '\n' for i in range(n))


FILES = {'one.spi1d': ('1d', (T1, (0.0, 1.0)), spi(T1, (0.0, 1.0))), 'three.spi1d': ('1d', (T3, (-0.25, 1.25)), spi(T3, (-0.25, 1.25))),
         'cube.spi3d': ('3d', ([2, 2, 3], V3), spi3([2, 2, 3], V3)), 'flat.csp': ('1d', (T3, (0.0, 2.0)), csp(T3, (0.0, 2.0)))}
KNOWN = {k: v[:2] for k, v in FILES.items()}


def put(folder):
    if folder and not os.path.isdir(folder):
        os.makedirs(folder)
    for k, v in FILES.items():
        if not os.path.exists(os.path.join(folder, k)):
            write_text(os.path.join(folder, k), v[2])


# ---- trees -----------------------------------------------------------------------------

def leaves():
    M, L, F = fakes.MatrixTransform, fakes.LogTransform, fakes.FileTransform
    return {'matrix': M(BASES['plain']), 'offset': M(BASES['no first'], [0.25, 0.5, 0.125, 0.0]), 'log2': L(2.0), 'log10': L(10.0), 'antilog2': L(2.0, 'inverse'),
            'antilog10': L(10.0, 'inverse'), '1d': F('three.spi1d'), 'inverse 1d': F('three.spi1d', 'linear', 'inverse'), '3d': F('cube.spi3d', 'tetrahedral'),
            'ln': L(math.e), 'inverse matrix': M(BASES['plain'], direction='inverse'), 'cdl': fakes.CDLTransform(), 'other file': F('grade.xyz'), 'csp': F('flat.csp')}


ORDER = ['matrix', 'offset', 'log2', 'log10', 'antilog2', 'antilog10', '1d', 'inverse 1d', '3d', 'ln', 'inverse matrix', 'cdl', 'other file', 'csp']
G = fakes.GroupTransform
SHAPES = {1: [lambda a: a, lambda a: G(a), lambda a: G(G(a)), lambda a: G(G(), a), lambda a: G(a, G()), lambda a: G(None, a)],
          2: [lambda a, b: G(a, b), lambda a, b: G(G(a), b), lambda a, b: G(a, G(b)), lambda a, b: G(G(a, b)), lambda a, b: G(G(a), G(b))],
          3: [lambda a, b, c: G(a, b, c), lambda a, b, c: G(G(a, b), c), lambda a, b, c: G(a, G(b, c)), lambda a, b, c: G(G(a), G(G(b), c)), lambda a, b, c: G(a, G(b), c)],
          4: [lambda a, b, c, d: G(G(a, b), G(c, d)), lambda a, b, c, d: G(a, G(b, G(c, G(d)))), lambda a, b, c, d: G(G(G(a), b, c), d)]}


def trees(ch):
    """Every grouping of every sequence."""
    n = ch.choose('transforms', [1, 2, 3, 4] if ch.thorough else [1, 2, 3])
    a = ch.choose('first', ORDER)
    shapes = ch.choose('grouping', range(len(SHAPES[n])))
    back = ch.choose('direction', ['to reference', 'from reference'])
    put(here(ch, 'luts'))
    ls = leaves()
    pool = ORDER if n < 4 else ORDER[:9]
    if a not in pool:
        raise explore.Prune()
    for rest in itertools.product(pool, repeat=n - 1):
        if n == 3 and not ch.thorough and (shapes > 1 or back != 'to reference') and rest[1] not in ('matrix', 'offset', 'log2', '3d'):
            continue
        t = SHAPES[n][shapes](*[ls[k] for k in (a,) + rest])
        s = fakes.Space('s', to=t) if back == 'to reference' else fakes.Space('s', frm=t)
        what = '%s grouped %d' % ((a,) + rest, shapes)
        p = convert(ch, [s], ['s'] if back == 'to reference' else [], [] if back == 'to reference' else ['s'], 'luts')
        ch.state(n, a, shapes, back, rest)
        if not count(t):
            ch.check(not os.path.exists(p), '%s: a list was written', what)
            ch.step()
            continue
        ch.check(os.path.exists(p), '%s: nothing was written', what)
        judge(ch, p, [t], dict(KNOWN), what)


def GD(direction, *children):
    g = G(*children)
    g._direction = 'inverse' if direction else 'forward'
    return g


TURNED = {1: [(1, lambda d, a: GD(d[0], a)), (2, lambda d, a: GD(d[0], GD(d[1], a))), (3, lambda d, a: GD(d[0], None, GD(d[1], GD(d[2], a))))],
          2: [(1, lambda d, a, b: GD(d[0], a, b)), (2, lambda d, a, b: GD(d[0], GD(d[1], a), b)), (2, lambda d, a, b: GD(d[0], a, GD(d[1], b))),
              (2, lambda d, a, b: GD(d[0], GD(d[1], a, b))), (3, lambda d, a, b: GD(d[0], GD(d[1], a), GD(d[2], b)))],
          3: [(1, lambda d, a, b, c: GD(d[0], a, b, c)), (2, lambda d, a, b, c: GD(d[0], a, GD(d[1], b, c))), (2, lambda d, a, b, c: GD(d[0], GD(d[1], a, b), c)),
              (3, lambda d, a, b, c: GD(d[0], a, GD(d[1], b, GD(d[2], c))))]}


def turned(ch):
    """Groups in either direction."""
    n = ch.choose('transforms', [1, 2, 3])
    pool = [k for k in ORDER if k not in ('3d', 'csp', 'cdl', 'ln')] + ['cdl'] * (n < 3)
    a = ch.choose('first', pool)
    g, shape = ch.choose('grouping', TURNED[n])
    d = [ch.flag('inverse') for _ in range(g)]
    if not any(d):
        raise explore.Prune()
    put(here(ch, 'luts'))
    ls = leaves()
    if n == 3 and not ch.thorough:
        pool = ['matrix', 'log2', '1d', 'inverse matrix'] if sum(d) > 1 else ['log2', 'inverse matrix']
    for rest in itertools.product(pool, repeat=n - 1):
        t = shape(d, *[ls[k] for k in (a,) + rest])
        p = convert(ch, [fakes.Space('s', to=t)], ['s'], [], 'luts')
        what = '%s grouped %s, inverse %s' % ((a,) + rest, [i for i, x in enumerate(TURNED[n]) if x[1] is shape], d)
        ch.state(n, what)
        if not count(t):
            ch.check(not os.path.exists(p), '%s: a list was written', what)
            ch.step()
            continue
        ch.check(os.path.exists(p), '%s: nothing was written', what)
        judge(ch, p, [t], dict(KNOWN), what)


def files(ch):
    """File transforms."""
    src = ch.choose('file', sorted(FILES))
    folder, search, name = ch.choose('place', [('luts', 'luts', ''), ('', '', ''), ('a/b', 'a/b', ''), ('luts/sub', 'luts', 'sub/'), ('luts', '', 'luts/'), ('luts', 'luts/', '')])
    interp = ch.choose('interpolation', ['linear', 'tetrahedral'] if FILES[src][0] == '3d' else ['linear'])
    direction = ch.choose('direction', ['forward', 'inverse'] if src.endswith('spi1d') else ['forward'])
    maps, half = ch.choose('inverses', [(True, False), (True, True), (False, False), (False, True)])
    if (maps, half) == (False, True) and direction == 'inverse' and (folder, search) != ('luts', 'luts'):
        raise explore.Prune()       # 65536 entries: one place is enough
    if src == 'three.spi1d' and direction == 'inverse' and (maps, half) == (False, True) and not ch.thorough:
        raise explore.Prune()
    side = ch.choose('side', ['source', 'destination'] if (folder, search) == ('luts', 'luts') else ['source'])
    put(here(ch, folder))
    t = fakes.FileTransform(name + src, interp, direction)
    if side == 'source':
        p = convert(ch, [fakes.Space('s', to=t)], ['s'], [], search, maps, half)
    else:
        p = convert(ch, [fakes.Space('s', frm=t)], [], ['s'], search, maps, half)
    ch.state(src, folder, search, name, interp, direction, maps, half, side)
    ch.check(os.path.exists(p), 'nothing was written')
    what = '%s in %s, %s %s, %s' % (src, folder, direction, (maps, half), side)
    if direction == 'inverse':
        els = list(ET.parse(p).getroot().iter())
        ch.equal(any(e.get('halfDomain') == 'true' or e.get('halfDomain') == 'True' for e in els), half and not maps, what + ': half-domain tables in the list')
        ch.equal(any(R.local(e.tag) == 'IndexMap' for e in els), maps, what + ': index maps in the list')
    if direction == 'forward' or maps:
        judge(ch, p, [t], {name + k: v for k, v in KNOWN.items()}, what)
        return
    # resampled: it undoes the LUT at the samples of its grid; half domain: at half-floats
    pl = clf.ProcessList(p)
    tabs, (lo, hi) = KNOWN[src][1]
    a, b = min(tb[0] for tb in tabs), max(tb[-1] for tb in tabs)
    k = 2 * len(tabs[0]) - 1
    xs = [a + (b - a) * i / k for i in range(k + 1)] if not half else [x / 64.0 for x in range(int(a * 64), int(b * 64) + 1)]
    for x in xs:
        y = pl.process([x, x, x])
        for c in range(3):
            tb = tabs[c if len(tabs) > 1 else 0]
            w = lo + (hi - lo) * R.imap([tb, list(range(len(tb)))], x) / (len(tb) - 1)
            ch.check(half and not tb[0] <= x <= tb[-1] or abs(float(y[c]) - w) <= (1e-3 if half else 1e-5), '%s: %r gives %r in channel %d, expected %r', what, x, float(y[c]), c, w)
    ch.step(len(xs))


# ---- spaces ----------------------------------------------------------------------------

def sets():
    ls = leaves()
    return {'none': None, 'unsupported': ls['cdl'], 'matrix': ls['matrix'], 'offset': ls['offset'], 'log': ls['log10'], 'pair': G(ls['matrix'], ls['antilog2']),
            'nest': G(ls['cdl'], G(ls['offset'], ls['1d'])), 'empty': G()}


SETS = ['none', 'unsupported', 'matrix', 'offset', 'log', 'pair', 'nest', 'empty']
NAMES = ['ACES - ACEScg', 'lin', u'vd8', 'a/b']


def judge_spaces(ch, p, srcs, dsts, table, what, config):
    """Nodes in order, named and described by their spaces."""
    todo = [('%s to reference - node %d', 'Convert %s to reference', s.name, s.getTransform('to_reference')) for s in srcs] + \
        [('reference to %s - node %d', 'Convert reference to %s', s.name, s.getTransform('from_reference')) for s in dsts]
    total = sum(count(t[3]) for t in todo)
    if not total:
        ch.check(not os.path.exists(p), '%s: a list was written', what)
        return
    ch.check(os.path.exists(p), '%s: nothing was written', what)
    pl = judge(ch, p, [t[3] for t in todo], dict(KNOWN), what)
    root = ET.parse(p).getroot()
    nodes = [el for el in root if R.local(el.tag) not in ('Description', 'Info', 'InputDescriptor', 'OutputDescriptor')]
    k = 0
    for name, about, space, t in todo:
        n = len(nodes) - k if (name, about, space, t) == todo[-1] else None
        i = 0
        while k < len(nodes) and nodes[k].get('name') == name % (space, i):
            texts = [e.text for e in nodes[k] if R.local(e.tag) == 'Description']
            ch.check(about % space in texts, '%s: node %d is described by %s', what, k, texts)
            k, i = k + 1, i + 1
            if i >= count(t) and not any(isinstance(x, fakes.FileTransform) for x in walk(t)):
                break
        ch.check(i >= count(t), '%s: %d nodes for %s of %s, names %s', what, i, count(t), space, [e.get('name') for e in nodes])
    ch.check(k == len(nodes), '%s: nodes %s', what, [e.get('name') for e in nodes])
    text = '\n'.join(e.text or '' for e in root if R.local(e.tag) == 'Description')
    for part in [config] + [s.name for s in srcs + dsts]:
        ch.check(part in text, '%s: the description %r lacks %r', what, text, part)
    ch.check(all(k.get('inBitDepth') == '16f' and k.get('outBitDepth') == '16f' for k in nodes), '%s: depths', what)
    ch.equal(pl.getID(), 'Converted lut', what)


def walk(t):
    yield t
    if isinstance(t, fakes.GroupTransform):
        for c in t.getTransforms():
            for x in walk(c):
                yield x


def spaces(ch):
    """One or two spaces on either side."""
    a, b, = ch.choose('first source', SETS + [None]), ch.choose('second source', SETS + [None])
    if a is None and b is not None:
        raise explore.Prune()
    c = ch.choose('first destination', SETS + [None])
    put(here(ch, 'luts'))
    table = sets()
    for d in SETS + [None] if c else [None]:
        if not ch.thorough and b and d and (SETS.index(b) + SETS.index(d)) % 3:
            continue
        sp = []
        for k, (n, x) in enumerate(zip(NAMES, (a, b, c, d))):
            # the other direction would be noticed
            other = fakes.MatrixTransform([3.0 if i % 5 == 0 else 0.0 for i in range(16)])
            sp.append(None if x is None else fakes.Space(n, to=table[x] if k < 2 else other, frm=other if k < 2 else table[x]))
        srcs, dsts = [s for s in sp[:2] if s], [s for s in sp[2:] if s]
        p = convert(ch, srcs + dsts, [s.name for s in srcs], [s.name for s in dsts], 'luts')
        judge_spaces(ch, p, srcs, dsts, table, 'spaces %s' % ((a, b, c, d),), 'c.ocio')
        ch.state(a, b, c, d)
        ch.step()


def twice(ch):
    """The same space on both sides, or twice on one side."""
    a = ch.choose('space', SETS)
    how = ch.choose('how', ['source twice', 'both sides', 'destination twice'])
    put(here(ch, 'luts'))
    s = fakes.Space('x', to=sets()[a], frm=sets()['log'])
    src = {'source twice': ['x', 'x'], 'both sides': ['x'], 'destination twice': []}[how]
    dst = {'source twice': [], 'both sides': ['x'], 'destination twice': ['x', 'x']}[how]
    p = convert(ch, [s], src, dst, 'luts')
    ts = [s.getTransform('to_reference')] * len(src) + [s.getTransform('from_reference')] * len(dst)
    if sum(count(t) for t in ts):
        judge(ch, p, ts, dict(KNOWN), how)
    else:
        ch.check(not os.path.exists(p), '%s: a list was written', how)
    ch.state(a, how)


def tool(ch):
    """The command line."""
    order = ch.choose('order', list(itertools.permutations(['config', 'source', 'destination', 'output']))[::1 if ch.thorough else 5])
    miss = ch.choose('absent', [None, 'config', 'output', 'source', 'destination', 'both'])
    long = ch.flag('long names')
    inv = ch.choose('inverses', [(), ('--inversesUseIndexMaps',), ('--inversesUseIndexMaps', '--inversesUseHalfDomain')])
    two = ch.flag('two spaces')
    put(here(ch, 'luts'))
    table = sets()
    ls = leaves()
    sp = {'s1': fakes.Space('s1', to=table['pair']), 's2': fakes.Space('s2', to=ls['inverse 1d'] if inv else ls['1d']), 'd1': fakes.Space('d1', frm=table['nest']), 'd2': fakes.Space('d2', frm=table['log'])}
    cfg, out = here(ch, 'config.ocio'), here(ch, 'out.clf')
    world.files = {cfg: ('luts', sp)}
    quiet_remove(out)
    vals = {'config': [cfg], 'output': [out], 'source': ['s1', 's2'][:1 + two], 'destination': ['d1', 'd2'][:1 + two]}
    if miss == 'both':
        vals['source'], vals['destination'] = [], []
    elif miss:
        vals[miss] = []
    argv = ['convertOCIOToCLF'] + list(inv)
    for k in order:
        for v in vals[k]:
            argv += ['--' + k if long else '-' + k[0], v]
    old = sys.argv
    sys.argv = argv
    try:
        conv.main()
    finally:
        sys.argv = old
    ch.state(order, miss, long, inv, two)
    ch.step()
    if miss in ('config', 'output', 'both'):
        ch.check(os.listdir(here(ch)) == ['luts'], '%s wrote %s', argv, os.listdir(here(ch)))
        return
    judge_spaces(ch, out, [sp[k] for k in vals['source']], [sp[k] for k in vals['destination']], table, ' '.join(argv[1:]), cfg)


HARNESSES = {'matrices': matrices, 'trees': trees, 'turned': turned, 'files': files, 'spaces': spaces, 'twice': twice, 'tool': tool}
