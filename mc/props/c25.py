"""The command-line converters do what their options say."""
import itertools
import os

import boot
import explore
import lutfiles
import refmodel as R
from common import *

import props.c21 as shaped

reg = boot.lutformats().Registry
clf = boot.clf()
to_clf = boot.converter('convertLUTtoCLF')
to_lut = boot.converter('convertCLFtoLUT')

BOUNDS = """convertCLFtoLUT: all subsets of the layout flags x each of the resolution, range and shaper options absent or present x 4 formats x 2
transforms, with small resolutions; each default resolution once per format and layout; every order of the options. convertLUTtoCLF: 5 LUT files x all
subsets of the inverse flags x absent file names x option orders and spellings. Every table entry of every written file is compared."""
ASSUMPTIONS = ['the layout flags take precedence in the order 1D, 3D, 1D/3D/1D', 'only spi1d files have an inverse']
NODES = {'matrix': [R.D('Matrix', dim=[3, 4, 3], v=[0.5, 0.25, 0.125, 0.0625, 0.25, 1.5, 0.375, 0.125, 0.0, 0.125, 0.75, 0.25])],
         'chain': [R.D('LUT1D', ch=3, v=[0.125 + x for x in lcg(12, 7)]), R.D('CDL', style='FwdNoClamp', slope=[0.5, 0.75, 1.25], offset=[0.25, 0.5, 0.125])]}


def run(tool, argv, script):
    if script:
        boot.script({'clf': 'convertLUTToCLF', 'lut': 'convertCLFtoLUT'}[tool], argv)
        return
    import sys
    old = sys.argv
    sys.argv = [tool] + argv
    try:
        (to_clf if tool == 'clf' else to_lut).main()
    finally:
        sys.argv = old


# ---- convertCLFtoLUT -------------------------------------------------------------------

def near(ch, got, want, what):
    for c in range(3):
        g, w = float(got[c]), float(want[c])
        ch.check(abs(g - w) <= 7e-7 + 4e-6 * abs(w), '%s: channel %d is %r, expected %r', what, c, g, w)


def judge_1d(ch, ext, text, nodes, n, lo, hi, what):
    if ext == 'spi1d':
        f = lutfiles.spi1d(text)
        got, rng, rows = f['n'], f['range'], f['rows']
    elif ext == 'csp':
        f = lutfiles.csp(text)
        ch.equal(f['kind'], '1D', what)
        got, rng, rows = f['n'], tuple(f['prelut'][0][0]), f['rows']
    else:
        o = lutfiles.ctl(text)
        es = [o['outs'][c + 'Out'] for c in 'rgb']
        ch.check([e[0] for e in es] == ['1d'] * 3, '%s: not a 1D LUT', what)
        rows = [list(x) for x in zip(*[o['consts'][e[1]] for e in es])]
        got, rng = len(rows), (es[0][2], es[0][3])
    ch.check(got == n, '%s: %d entries instead of %d', what, got, n)
    ch.check(abs(rng[0] - lo) < 1e-6 and abs(rng[1] - hi) < 1e-6, '%s: input range %s instead of %s', what, rng, (lo, hi))
    for i in range(n):
        x = lo + (hi - lo) * i / (n - 1.0)
        near(ch, rows[i], R.ref_list(nodes, [x] * 3), '%s: entry %d' % (what, i))
    ch.step(n)


def judge_3d(ch, ext, text, nodes, n, lo, hi, what):
    if ext == 'ctl':
        o = lutfiles.ctl(text)
        es = [o['outs'][c + 'Out'] for c in 'rgb']
        ch.check([e[0] for e in es] == ['3d'] * 3, '%s: not a 3D LUT', what)
        t = o['consts'][es[0][1]]
        cell = lambda r, g, b: t[r][g][b]
        dim = [len(t), len(t[0]), len(t[0][0])]
        rng = (es[0][2][0], es[0][3][0])
        ch.check(abs(rng[0] - lo) < 1e-6 and abs(rng[1] - hi) < 1e-6, '%s: input range %s', what, rng)
    else:
        f = (lutfiles.csp if ext == 'csp' else lutfiles.spi3d)(text)
        if ext == 'csp':
            ch.equal(f['kind'], '3D', what)
            a = f['prelut'][0]
            ch.check(abs(a[0][0] - lo) < 1e-6 and abs(a[0][-1] - hi) < 1e-6 and (a[1][0], a[1][-1]) == (0.0, 1.0), '%s: prelut %s', what, a)
        cell = lambda r, g, b: f['cells'][(r, g, b)]
        dim = f['dim']
    ch.check(list(dim) == [n] * 3, '%s: lattice %s instead of %d', what, dim, n)
    step = 1 if n < 10 else 4
    for k in itertools.product(range(0, n, step), repeat=3):
        near(ch, cell(*k), R.ref_list(nodes, [lo + (hi - lo) * i / (n - 1.0) for i in k]), '%s: entry %s' % (what, k))
    ch.step((n // step) ** 3)


def judge_131(ch, ext, path, nodes, res, si, so, what):
    if ext == 'clf':
        shaped.judge(ch, path, nodes, si, so, res, what)
        return
    f = lutfiles.csp(read_bytes(path).decode())
    ch.equal((f['kind'], f['dim']), ('3D', [res[1]] * 3), what)
    lo, hi = shaped.span(si)
    for ins, outs in f['prelut']:
        if si[0] is None:
            ch.check(R.mismatch([ins[0], ins[-1], outs[0], outs[-1]], [0.0, 1.0, 0.0, 1.0]) is None, '%s: prelut %s %s', what, ins, outs)
            continue
        ch.equal(len(ins), res[0], what + ': prelut points')
        for i in range(res[0]):
            x = lo + (hi - lo) * i / (res[0] - 1.0)
            ch.check(abs(ins[i] - x) < 1e-6 and abs(outs[i] - shaped.forward(si, x)) < 4e-6, '%s: prelut point %d is %s, %s', what, i, ins[i], outs[i])
    v = shaped.lattice(nodes, si, so, res[1])
    for j, k in enumerate(itertools.product(range(res[1]), repeat=3)):
        compare(ch, f['cells'][k], v[3 * j:3 * j + 3], '%s entry %s' % (what, k), rel=3e-6)
    ch.step(res[1] ** 3)


SUPPORTED = {('spi1d', '1D'), ('csp', '1D'), ('ctl', '1D'), ('spi3d', '3D'), ('csp', '3D'), ('ctl', '3D'), ('csp', '1D3D1D'), ('clf', '1D3D1D')}


def expect(ch, path, ext, layout, nodes, o, what):
    if (ext, layout) not in SUPPORTED:
        ch.check(not os.path.exists(path), '%s: a %s cannot hold it, yet it was written', what, ext)
        return
    ch.check(os.path.exists(path), '%s: nothing was written', what)
    lo, hi = o.get('min', 0.0), o.get('max', 1.0)
    if layout == '1D':
        judge_1d(ch, ext, read_bytes(path).decode(), nodes, o.get('r1', 1024), lo, hi, what)
    elif layout == '3D':
        judge_3d(ch, ext, read_bytes(path).decode(), nodes, o.get('r3', 33), lo, hi, what)
    else:
        judge_131(ch, ext, path, nodes, o.get('r131', (1024, 33, 2)), o.get('si', shaped.NONE), o.get('so', shaped.NONE), what)


def words(o, layout_flags, clf_path, lut_path, order=None, fmt=None, long=False):
    """The command line, as a list of option groups."""
    g = []
    if clf_path:
        g.append(['--clf' if long else '-c', clf_path])
    if lut_path:
        g.append(['--lut' if long else '-l', lut_path])
    if 'r1' in o:
        g.append(['--lutResolution1d', '%d' % o['r1']])
    if 'r3' in o:
        g.append(['--lutResolution3d', '%d' % o['r3']])
    if 'r131' in o:
        g.append(['--lutResolution1d3d1d'] + ['%d' % x for x in o['r131']])
    if 'min' in o:
        g.append(['--inputMinValue=%r' % o['min']] if long else ['--inputMinValue', '%r' % o['min']])
    if 'max' in o:
        g.append(['--inputMaxValue', '%r' % o['max']])
    for k, n in (('si', '--shaperIn'), ('so', '--shaperOut')):
        if k in o:
            g.append([n, o[k][0], '%r' % o[k][1], '%r' % o[k][2]])
    g += [[f] for f in layout_flags]
    if fmt:
        g.append(['--format' if long else '-f', fmt])
    if order:
        g = [g[i] for i in order if i < len(g)]
    return [w for x in g for w in x]


def layout_of(flags):
    for f, l in (('--generate1d', '1D'), ('--generate3d', '3D'), ('--generate1d3d1d', '1D3D1D')):
        if f in flags:
            return l
    return '1D'


FLAGS = ['--generate1d', '--generate3d', '--generate1d3d1d']


def options(ch):
    """Every subset of the options."""
    ext = ch.choose('format', ['spi1d', 'spi3d', 'csp', 'ctl', 'clf'])
    flags = ch.choose('flags', [tuple(f for i, f in enumerate(FLAGS) if m >> i & 1) for m in range(8)])
    name = ch.choose('transform', sorted(NODES))
    layout = layout_of(flags)
    o = {}
    if ch.flag('--lutResolution3d'):
        o['r3'] = 3
    if ch.flag('--lutResolution1d3d1d'):
        o['r131'] = (5, 4, 3)
    if layout == '3D' and 'r3' not in o or layout == '1D3D1D' and 'r131' not in o:
        if (ext, layout) in SUPPORTED:
            raise explore.Prune()       # large defaults: see the other harness
    src = write_text(ch.path('a.clf'), R.xml_doc(NODES[name]))
    before = read_bytes(src)
    for r1, (mi, ma), si, so in itertools.product([None, 6], [(None, None), (None, 2.0), (-0.5, None), (-0.5, 2.0), (-0.5, 0.0)], [None, shaped.LIN(-0.25, 1.25), shaped.LOG(-2.0, 1.0)], [None, shaped.LIN(0.0, 1.0), shaped.LOG(-1.5, 1.0)]):
        if ma == 0.0 and not ch.thorough and (layout != '1D' or si or so):
            continue
        q = dict(o)
        for k, v in (('r1', r1), ('min', mi), ('max', ma), ('si', si), ('so', so)):
            if v is not None:
                q[k] = v
        if layout == '1D' and (r1 is None) and (mi is not None or ma is not None) and not ch.thorough:
            continue
        if layout != '1D3D1D' and si and so and not ch.thorough:
            continue
        if ext == 'csp' and layout == '1D3D1D' and so and so[0] == 'log2':
            continue                    # no place for it
        p = ch.path('o.' + ext)
        argv = words(q, flags, src, p)
        run('lut', argv, script=False)
        expect(ch, p, ext, layout, NODES[name], q, ' '.join(argv[4:]) + ' ' + ext)
        ch.state(ext, flags, name, tuple(sorted(o.items())), r1, mi, ma, si, so)
        ch.step()
    ch.check(read_bytes(src) == before, 'the CLF changed')


def defaults(ch):
    """Resolutions left out."""
    ext, layout = ch.choose('what', sorted(SUPPORTED))
    given = ch.choose('given', ['nothing', 'the other resolutions', 'range', 'shapers'])
    flag = {'1D': ch.choose('flag', ['--generate1d', None]) if layout == '1D' else None, '3D': '--generate3d', '1D3D1D': '--generate1d3d1d'}[layout]
    o = {}
    if given == 'the other resolutions':
        o = {'1D': {'r3': 3, 'r131': (4, 2, 5)}, '3D': {'r1': 7, 'r131': (4, 2, 5)}, '1D3D1D': {'r1': 7, 'r3': 3}}[layout]
    elif given == 'range':
        o = {'min': 0.25, 'max': 1.5}
    elif given == 'shapers':
        o = {'si': shaped.LIN(-0.25, 1.25)}
    src = write_text(ch.path('a.clf'), R.xml_doc(NODES['matrix']))
    p = ch.path('o.' + ext)
    run('lut', words(o, [flag] if flag else [], src, p), script=given in ('nothing', 'shapers'))
    expect(ch, p, ext, layout, NODES['matrix'], o, '%s %s with %s' % (ext, layout, o))
    ch.state(ext, layout, given, flag)


def order(ch):
    """The order and spelling of the options; absent files; the unused format option."""
    ext = ch.choose('format', ['csp', 'clf'])
    miss = ch.choose('absent', [None, 'clf', 'lut', 'both'])
    script = ch.flag('script')
    long = ch.flag('long names')
    fmt = ch.choose('--format', [None, 'cinespace'])
    layout = '1D3D1D'
    o = {'r131': (5, 3, 4), 'r1': 6, 'r3': 2, 'min': -0.5, 'si': shaped.LIN(-0.25, 1.25), 'so': shaped.LIN(0.0, 1.0)}
    n = 10
    base = list(range(n))
    perms = [base, base[::-1]] + [base[i:] + base[:i] for i in range(1, n)] + [[(i * 3 + k) % n for i in range(n)] for k in range(3)] + [[(i * 7 + k) % n for i in range(n)] for k in range(3)]
    src = write_text(ch.path('a.clf'), R.xml_doc(NODES['chain']))
    for perm in perms:
        p = ch.path('o.' + ext)
        argv = words(o, ['--generate1d3d1d'], None if miss in ('clf', 'both') else src, None if miss in ('lut', 'both') else p, perm, fmt, long)
        run('lut', argv, script)
        ch.step()
        ch.state(ext, miss, script, long, fmt, perm)
        if miss:
            ch.check(os.listdir(os.path.dirname(p)) == [], '%s wrote %s', argv, os.listdir(os.path.dirname(p)))
        else:
            expect(ch, p, ext, layout, NODES['chain'], o, ' '.join(argv))


# ---- convertLUTtoCLF -------------------------------------------------------------------

T3 = [[0.0, 0.25, 1.0], [0.0625, 0.5, 0.75], [-0.25, 0.75, 1.25]]
V3 = lcg(36, 3)
PRE = '2\n-0.25 1.25\n0 1\n' * 3


def lut_files():
    d3 = [2, 2, 3]
    it = iter(V3)
    cells = [(k, [next(it), next(it), next(it)]) for k in itertools.product(*[range(d) for d in d3])]
    by = dict(cells)
    rng = R.D('Range', minIn=-0.25, maxIn=1.25, minOut=0.0, maxOut=1.0)
    lut3 = R.D('LUT1D', ch=3, v=[t[i] for i in range(3) for t in T3])
    meta = 'BEGIN METADATA\nEND METADATA\n\n'
    return {
        'one.spi1d': ('Version 1\nFrom 0 1\nLength 4\nComponents 1\n{\n 0\n 0.125\n 0.5\n 1\n}\n', [R.D('LUT1D', ch=1, v=[0.0, 0.125, 0.5, 1.0])]),
        'three.spi1d': ('Version 1\nFrom -0.25 1.25\nLength 3\nComponents 3\n{\n%s\n}\n' % '\n'.join(' '.join('%r' % t[i] for t in T3) for i in range(3)), [rng, lut3]),
        'cube.spi3d': ('SPILUT 1.0\n3 3\n2 2 3\n' + ''.join('%d %d %d' % k + ' %r %r %r\n' % tuple(v) for k, v in cells), [R.D('LUT3D', dim=d3, v=V3)]),
        'flat.csp': ('CSPLUTV100\n1D\n\n' + meta + PRE + '\n3\n' + ''.join(' '.join('%r' % t[i] for t in T3) + '\n' for i in range(3)), [rng, lut3]),
        'cube.csp': ('CSPLUTV100\n3D\n\n' + meta + PRE + '\n2 2 3\n' + ''.join('%r %r %r\n' % tuple(by[(r, g, b)]) for b in range(3) for g in range(2) for r in range(2)),
                     [rng, R.D('LUT3D', dim=d3, v=V3)]),
        'other.xyz': ('nothing', None)}


FILES = lut_files()


def convert(ch):
    """LUT to CLF."""
    name = ch.choose('file', sorted(FILES))
    inv = ch.flag('--inverse')
    maps = ch.flag('--inversesUseIndexMaps')
    half = ch.flag('--inversesUseHalfDomain')
    script = ch.flag('script')
    long = ch.flag('long names')
    miss = ch.choose('absent', [None, 'lut', 'clf', 'both'])
    if inv and not name.endswith('.spi1d'):
        raise explore.Prune()
    slow = inv and half and not maps and not miss
    if slow and (long or script) or slow and name != 'one.spi1d' and not ch.thorough:
        raise explore.Prune()
    text, nodes = FILES[name]
    src = write_text(ch.path(name), text)
    flags = [['--inverse']] * inv + [['--inversesUseIndexMaps']] * maps + [['--inversesUseHalfDomain']] * half
    if miss not in ('lut', 'both'):
        flags.append(['--lut' if long else '-l', src])
    k = len(flags)
    for order in list(itertools.permutations(range(k + 1)))[::1 if not slow else 1000]:
        p = ch.path('o.clf')
        g = flags + ([] if miss in ('clf', 'both') else [['--clf' if long else '-c', p]])
        argv = [w for i in order if i < len(g) for w in g[i]]
        run('clf', argv, script)
        ch.step()
        ch.state(name, inv, maps, half, script, long, miss, order)
        if miss or nodes is None:
            ch.check(os.listdir(os.path.dirname(p)) == [], '%s wrote %s', argv, os.listdir(os.path.dirname(p)))
            continue
        ch.check(os.path.exists(p), '%s: nothing was written', argv)
        pl = clf.ProcessList(p)
        if not inv:
            xs = [-1.0, -0.25, -0.125, 0.0, 0.125, 0.25, 0.5, 0.6875, 0.75, 1.0, 1.25, 2.0]
            pix = [[xs[i], xs[(i + 1) % 12], xs[(i + 5) % 12]] for i in range(12)]
            check_pixels(ch, pl, nodes, pix, name, scale=1.25)
            continue
        inverse(ch, pl, nodes, 'maps' if maps else 'half' if half else 'resampled', '%s %s' % (name, argv))
    ch.check(read_bytes(src) == text.encode(), 'the LUT changed')


def inverse(ch, pl, nodes, how, what):
    lut = nodes[-1]
    tabs = R.tables(lut) if lut['ch'] == 3 else [lut['v']]
    lo, hi = (nodes[0]['minIn'], nodes[0]['maxIn']) if len(nodes) > 1 else (0.0, 1.0)
    a, b = min(t[0] for t in tabs), max(t[-1] for t in tabs)
    n = len(tabs[0])
    grid = [a + (b - a) * i / (2.0 * n - 1) for i in range(2 * n)]
    exact = [a + (b - a) * i / 37.0 for i in range(38)]
    kinds = {type(x).__name__ for x in pl.getProcesses()}
    ch.check('LUT1D' in kinds, '%s: nodes %s', what, kinds)
    worst = {'maps': 0.0, 'grid': 0.0, 'half': 0.0}
    xs = {'maps': exact, 'resampled': grid, 'half': [x / 64.0 for x in range(int(a * 64), int(b * 64) + 1)]}[how]
    for x in xs:
        y = pl.process([x, x, x])
        for c in range(3):
            t = tabs[c if len(tabs) > 1 else 0]
            if how == 'half' and not t[0] <= x <= t[-1]:
                continue
            w = lo + (hi - lo) * R.imap([t, list(range(n))], x) / (n - 1.0)
            ch.check(abs(float(y[c]) - w) <= (1e-3 if how == 'half' else 1e-5), '%s: %r gives %r in channel %d, expected %r', what, x, float(y[c]), c, w)
    ch.step(len(xs))
    # the method itself: tables of the sizes the three methods have
    lut = [x for x in pl.getProcesses() if type(x).__name__ == 'LUT1D'][0]
    size = int(lut.getLUTDimensions()[0])
    ch.check({'maps': size == n, 'resampled': n < size < 65536, 'half': size == 65536}[how], '%s: the table has %d entries, not what %s gives', what, size, how)


HARNESSES = {'options': options, 'defaults': defaults, 'order': order, 'convert': convert}
