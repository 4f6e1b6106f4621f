"""1D/3D/1D conversion: shaper, lattice in shaped space, inverse output shaper."""
import itertools
import math

import boot
import lutfiles
import refmodel as R
from common import *

reg = boot.lutformats().Registry
clf = boot.fmt_clf()
BOUNDS = """clf: input shapers none, 3 linear, 6 log2 x output shapers none, 3 linear, 5 log2 x resolutions 2 to 9 for the input shaper, 2 to 4 for the
lattice, 2 to 5 for the output shaper (quick: a covering part of the resolutions) x 5 transforms; the file's list is compared with the composition of
sampled shaper, lattice and sampled inverse output shaper on probes on, between and outside all shaper samples, and with the original at every lattice
point. csp: the same input shapers x 5 transforms, every prelut value and lattice entry, and read back where the shaper is linear. Default shapers."""
ASSUMPTIONS = ['transform values are positive where the output shaper is logarithmic', 'a csp has no place for an output shaper other than linear 0 to 1']
LIN = lambda lo, hi: ('linear', lo, hi)
LOG = lambda lo, hi: ('log2', lo, hi)
NONE = (None, 0.0, 1.0)
INS = [NONE, LIN(0.0, 1.0), LIN(-0.25, 1.25), LIN(0.0, 8.0), LOG(-4.0, 4.0), LOG(-2.0, 0.0), LOG(0.0, 3.0), LOG(-8.5, 4.0), LOG(-4.0, -2.0), LOG(1.0, 3.0)]
OUTS = [NONE, LIN(0.0, 1.0), LIN(-0.5, 2.0), LIN(0.25, 4.0), LOG(-3.0, 3.0), LOG(-6.0, 0.0), LOG(-1.5, 1.0), LOG(-4.0, -0.5), LOG(0.5, 2.0)]
NODES = {'matrix': [R.D('Matrix', dim=[3, 3, 3], v=[0.5, 0.25, 0.125, 0.0625, 0.75, 0.1875, 0.0, 0.375, 0.5])],
         'offset': [R.D('CDL', style='FwdNoClamp', slope=[0.5, 0.75, 0.25], offset=[0.125, 0.25, 0.5])],
         'lut': [R.D('LUT1D', ch=3, v=[0.125 + x for x in lcg(12, 3)])],
         'lattice': [R.D('LUT3D', dim=[2, 3, 2], v=[0.0625 + x for x in lcg(36, 4)])],
         'wide': [R.D('Matrix', dim=[3, 4, 3], v=[1.0, 0.5, 0.0, 0.25, 0.0, 1.0, 0.25, 0.125, 0.5, 0.0, 1.0, 0.5])]}


def span(s):
    """Input range of the sampled shaper."""
    return (2.0 ** s[1], 2.0 ** s[2]) if s[0] == 'log2' else (s[1], s[2])


def forward(s, x):
    if s[0] is None:
        return x
    if s[0] == 'log2':
        x = math.log2(max(x, R.FLT_MIN))
    return R.clampf((x - s[1]) / (s[2] - s[1]))


def inverse(s, y):
    if s[0] is None:
        return y
    x = s[1] + R.clampf(y) * (s[2] - s[1])
    return 2.0 ** x if s[0] == 'log2' else x


def sampled(s, n):
    """The input shaper as its n samples describe it."""
    lo, hi = span(s)
    tab = [forward(s, lo + (hi - lo) * i / (n - 1.0)) for i in range(n)]
    return lambda x: R.lut1(tab, R.clampf((x - lo) / (hi - lo)))


def lattice(nodes, si, so, n):
    v = []
    for k in itertools.product(range(n), repeat=3):
        v += [forward(so, y) for y in R.ref_list(nodes, [inverse(si, i / (n - 1.0)) for i in k])]
    return v


def model(nodes, si, so, res):
    a, n, b = res
    head = (lambda x: x) if si[0] is None else sampled(si, a)
    cube = lattice(nodes, si, so, n)
    tab = [inverse(so, i / (b - 1.0)) for i in range(b)] if so[0] else None

    def f(px):
        y = R.lut3([n] * 3, cube, [R.clampf(head(x)) for x in px], 'trilinear')
        return [R.lut1(tab, R.clampf(v)) for v in y] if so[0] else y
    return f


def write(ch, name, ext, si, so, res):
    pl = R.build_list(clf, NODES[name])
    p = ch.path('o.' + ext)
    reg.write(pl, p, lutDataFormat='1D_3D_1D', lutResolution1d3d1d=list(res), shaperIn=list(si), shaperOut=list(so))
    check_pixels(ch, pl, NODES[name], [[0.5, 0.25, 0.75]], 'the list itself', scale=4.0)
    return p


def judge(ch, p, nodes, si, so, res, what):
    pl = clf.ProcessList(p)
    f = model(nodes, si, so, res)
    lo, hi = span(si)
    m = (res[0] - 1 if si[0] else 4) * (res[1] - 1) * 2
    m = min(m, 64)
    xs = [lo + (hi - lo) * i / m for i in range(m + 1)]
    xs += [lo - 0.25 * (hi - lo), hi + 1.0] + [inverse(si, i / (res[1] - 1.0)) for i in range(res[1])]
    k = len(xs)
    pix = [[xs[i], xs[(3 * i + 1) % k], xs[(5 * i + 2) % k]] for i in range(k)] + [[x] * 3 for x in xs]
    top = 2.0 ** so[2] if so[0] == 'log2' else max(abs(so[1]), abs(so[2]), 1.0) if so[0] else 16.0
    got = chunks(pl.process(flat(pix), 3), 3)
    ch.check(len(got) == len(pix), '%s: %d pixels for %d', what, len(got), len(pix))
    for x, g in zip(pix, got):
        compare(ch, g, f(x), '%s pixel %s' % (what, x), scale=max(1.0, top), rel=2e-5)
    ch.step(len(pix))
    if si[0] != 'log2' and so[0] != 'log2':
        # exact shapers: the original itself, at every lattice point
        pts = [[inverse(si, i / (res[1] - 1.0)) for i in q] for q in itertools.product(range(res[1]), repeat=3)]
        got = chunks(pl.process(flat(pts), 3), 3)
        for x, g in zip(pts, got):
            w = [R.clampf(y, so[1], so[2]) if so[0] else y for y in R.ref_list(nodes, x)]
            compare(ch, g, w, '%s lattice point %s' % (what, x), scale=max(1.0, top), rel=2e-5)
        ch.step(len(pts))


def to_clf(ch):
    """Every pair of shapers."""
    si = ch.choose('shaper in', INS)
    so = ch.choose('shaper out', OUTS)
    res = ch.choose('resolution', list(itertools.product([2, 3, 4, 5, 9], [2, 3, 4], [2, 3, 4, 5])) if ch.thorough else
                    [(2, 3, 2), (3, 2, 5), (4, 4, 3), (5, 3, 4), (9, 2, 2)])
    for name in sorted(NODES):
        what = 'clf of %s, %s %s %s' % (name, si, so, res)
        judge(ch, write(ch, name, 'clf', si, so, res), NODES[name], si, so, res, what)
        ch.state(si, so, res, name)


def absent(ch):
    """Without a shaper that stage is absent: nothing is clamped or resampled by it."""
    name = ch.choose('transform', sorted(NODES))
    n = ch.choose('lattice', [2, 3, 4, 5])
    a, b = ch.choose('unused resolutions', [(0, 0), (2, 2), (1024, 2), (7, 0)])
    p = write(ch, name, 'clf', NONE, NONE, (a, n, b))
    d = R.D('LUT3D', dim=[n] * 3, v=lattice(NODES[name], NONE, NONE, n))
    ax = [i / (2.0 * (n - 1)) for i in range(2 * n - 1)]
    check_pixels(ch, clf.ProcessList(p), [d], [list(q) for q in itertools.product(ax, repeat=3)], 'clf of %s' % name, scale=4.0)
    ch.state(name, n, a, b)


def to_csp(ch):
    """Prelut and lattice."""
    si = ch.choose('shaper in', INS)
    so = ch.choose('shaper out', [NONE, LIN(0.0, 1.0)])
    a = ch.choose('shaper resolution', [0, 1024] if si[0] is None else [2, 3, 5, 9, 33])
    n = ch.choose('lattice', [2, 3, 4] + ([5, 9] if ch.thorough else []))
    b = ch.choose('unused resolution', [0, 2] if so[0] is None else [2])
    for name in sorted(NODES):
        what = 'csp of %s, %s %s' % (name, si, (a, n, b))
        p = write(ch, name, 'csp', si, so, (a, n, b))
        f = lutfiles.csp(read_bytes(p).decode())
        ch.equal((f['kind'], f['dim']), ('3D', [n] * 3), what)
        lo, hi = span(si)
        for ins, outs in f['prelut']:
            if si[0] is None:
                ch.check(R.mismatch([ins[0], ins[-1]], [0.0, 1.0]) is None and all(abs(x - y) < 2e-6 for x, y in zip(ins, outs)), '%s: prelut %s %s', what, ins, outs)
                continue
            ch.equal(len(ins), a, what + ': prelut points')
            for i in range(a):
                x = lo + (hi - lo) * i / (a - 1.0)
                ch.check(abs(ins[i] - x) < 1e-6, '%s: prelut input %d is %s, expected %s', what, i, ins[i], x)
                ch.check(abs(outs[i] - forward(si, x)) < 1e-6 + 2e-6, '%s: prelut output %d is %s, expected %s', what, i, outs[i], forward(si, x))
        v = lattice(NODES[name], si, so, n)
        for j, k in enumerate(itertools.product(range(n), repeat=3)):
            compare(ch, f['cells'][k], v[3 * j:3 * j + 3], '%s entry %s' % (what, k), scale=1.0, rel=3e-6)
        if si[0] != 'log2':
            back = reg.read(p)
            pts = [[inverse(si, i / (n - 1.0)) for i in q] for q in itertools.product(range(n), repeat=3)]
            for j, (x, g) in enumerate(zip(pts, chunks(back.process(flat(pts), 3), 3))):
                compare(ch, g, v[3 * j:3 * j + 3], '%s read back at %s' % (what, x), scale=16.0, rel=5e-6)
        ch.step(n ** 3)
        ch.state(si, so, a, n, name)


def defaults(ch):
    """Shapers and resolutions left out: linear over [0,1], 1024, 33, 2."""
    name = ch.choose('transform', sorted(NODES))
    which = ch.choose('given', ['nothing', 'resolution'])
    pl = R.build_list(clf, NODES[name])
    p = ch.path('o.clf')
    res = (1024, 33, 2) if which == 'nothing' else (4, 3, 2)
    reg.write(pl, p, lutDataFormat='1D_3D_1D', **({} if which == 'nothing' else {'lutResolution1d3d1d': [4, 3, 2]}))
    sh = LIN(0.0, 1.0)
    back = clf.ProcessList(p)
    n = res[1]
    pts = [[i / (n - 1.0) for i in q] for q in itertools.product(range(0, n, max(1, (n - 1) // 4)), repeat=3)] + [[2.0, -1.0, 0.5]]
    for x, g in zip(pts, chunks(back.process(flat(pts), 3), 3)):
        w = [R.clampf(y) for y in R.ref_list(NODES[name], [R.clampf(i) for i in x])]
        compare(ch, g, w, 'defaults at %s' % x, rel=1e-5)
    dims = [list(map(int, x.getLUTDimensions())) for x in back.getProcesses() if type(x).__name__ == 'LUT3D']
    ch.equal(dims, [[n, n, n, 3]], 'lattice size')
    ch.step(len(pts))
    ch.state(name, which)


HARNESSES = {'to_clf': to_clf, 'absent': absent, 'to_csp': to_csp, 'defaults': defaults}
