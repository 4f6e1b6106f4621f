"""Image filtering applies the CLF to every pixel, however rows are scheduled."""
import itertools
import multiprocessing
import sys

import numpy as np

import boot
import explore
import fakes
import refmodel as R
from common import *

clf = boot.clf()
world = fakes.Oiio()
boot.stub('OpenImageIO', world.make())
F = boot.converter('filterImageWithCLF')
pools = fakes.Pools()
F.Pool = pools.pool
multiprocessing.Pool = pools.pool

BOUNDS = """all completion orders of the row tasks of images of 1 to 4 (thorough 5) rows x widths x channels x thread counts, also serially; 7 kinds of input
image x 36 depth pairs of the list x 8 output depths, serially and in parallel; images of up to 250 rows; a failure of each row in each order; NaN and
infinite samples in each place; unreadable inputs and refused outputs; metadata and compression settings; the tool's own options. Every pixel of every image is compared."""
ASSUMPTIONS = ['OpenImageIO and the process pool are replaced by stand-ins that follow their documented behaviour (tasks isolated by pickling, results in task order)']
TYPES = {'8i': ('uint8', None), '10i': ('uint16', 10), '12i': ('uint16', 12), '16i': ('uint16', None), '16i+': ('uint16', 16), '16f': ('half', None), '32f': ('float', None)}
SHIFT = {'10i': 6, '12i': 4}
OTYPE = {'8i': 'uint8', '10i': 'uint16', '12i': 'uint16', '16i': 'uint16', '16f': 'half', '32f': 'float'}
BITS = {'8i': 8, '10i': 10, '12i': 12, '16i': 16, '16f': 16, '32f': 32}
NAMES = ('R', 'G', 'B', 'A', 'Z')
SENTINEL = -77.0


class Fuse(clf.Range):
    """A node that fails on a marked pixel."""

    def process(self, values, stride=0, verbose=False):
        for x in values:
            if float(x) == SENTINEL:
                raise RuntimeError('marked pixel')
        return values


def make(depth, w, h, c, vals, meta=()):
    """An image holding vals (codes of the depth); -> the pixels the list is given."""
    t, bits = TYPES[depth]
    d = depth.rstrip('+')
    codes = list(vals)
    if t != 'half' and t != 'float':
        codes = [int(v) << SHIFT.get(d, 0) for v in vals]
    meta = list(meta)
    if bits:
        meta.append(fakes.Attr('oiio:BitsPerSample', 'int', bits))
    return fakes.Image(t, w, h, c, codes, NAMES[:c], meta)


def values(depth, n, seed):
    d = depth.rstrip('+')
    f = R.FULL[d]
    base = [0.0, 1.0, 0.5, 0.25, 0.75, 0.125, 0.875, 0.0625, 0.40625, 0.59375, 0.3125]
    out = []
    for i in range(n):
        x = base[(i * 7 + seed + i // 11) % 11]
        if d in ('16f', '32f') and i % 13 == 5:
            x = [-0.5, 1.5, 4.0][i % 3]
        out.append(float(int(x * f)) if f > 1 else x)
    return out


LISTS = {'8i': 1}


def node(a, b, c):
    """A list that tells channels and pixels apart, clamped or not."""
    if c < 3:
        return [R.D('LUT1D', **{'ch': 1, 'v': [R.FULL[b] * x for x in (0.125, 0.5, 0.25, 1.0)], 'in': a, 'out': b})]
    return [R.D('CDL', **{'style': 'FwdNoClamp', 'slope': [0.75, 1.5, 0.5], 'offset': [0.0625, -0.125, 0.25], 'sat': 0.75, 'in': a, 'out': b})]


def expect(vals, c, din, nodes, dout):
    a, b = nodes[0]['in'], nodes[-1]['out']
    out = []
    for p in chunks(vals, c):
        q = [x / R.FULL[din] * R.FULL[a] for x in p]
        q = R.ref_list(nodes, q)
        out += [x / R.FULL[b] * R.FULL[dout] for x in q]
    return out


def judge(ch, path, want, w, h, c, dout, what):
    ch.check(path in world.written and world.written[path]['closed'], '%s: no image was written', what)
    o = world.written[path]
    ch.equal((o['width'], o['height'], o['channels'], tuple(o['names'])), (w, h, c, NAMES[:c]), what + ': size and channels')
    ch.equal((o['type'], o['spec']), (OTYPE[dout], OTYPE[dout]), what + ': type')
    got = world.values(path)
    ch.check(len(got) == w * h * c, '%s: %d values', what, len(got))
    full = R.FULL[dout]
    for i, (g, x) in enumerate(zip(got, want)):
        where = '%s: row %d, pixel %d, channel %d' % (what, i // (w * c), i // c % w, i % c)
        if full > 1:
            ch.check(int(g) % (1 << SHIFT.get(dout, 0)) == 0, '%s: code %d is not a shifted one', where, g)
            g = float(int(g) >> SHIFT.get(dout, 0))
            x = R.clampf(x, 0.0, full)
            ch.check(abs(g - x) <= 0.5 + 6e-6 * full, '%s is %r, expected %r', where, g, x)
        elif dout == '16f' and abs(x) > 65400.0:
            ch.check(g * (1 if x > 0 else -1) >= 65400.0, '%s is %r, expected %r', where, g, x)    # beyond half floats
        else:
            e = 4e-6 if dout == '32f' else 2.0 ** -11 * 1.02
            ch.check(abs(g - x) <= e * max(abs(x), 2.0 ** -5), '%s is %r, expected %r', where, g, x)
    ch.step(w * h)


def start(version=10900):
    world.reset()
    world.version = version
    world.module.VERSION = version
    pools.order, pools.made, pools.ran = None, [], []


def schedules(ch):
    """Every completion order."""
    h = ch.choose('rows', [1, 2, 3, 4, 5] if ch.thorough else [1, 2, 3, 4])
    w = ch.choose('width', [1, 2, 3])
    c = ch.choose('channels', [1, 3, 4, 5] if h < 4 or ch.thorough else [3, 5])
    depth = ch.choose('image', ['8i', '16f'])
    threads = ch.choose('threads', [1, 2, 3, 8])
    orders = list(itertools.permutations(range(h))) if threads > 1 else [None]
    verbose = ch.flag('verbose') if h < 3 else False
    nodes = node('16f', '16f', c)
    vals = values(depth, w * h * c, 3)
    want = expect(vals, c, depth, nodes, depth)
    for order in orders:
        start()
        world.disk['in'] = make(depth, w, h, c, vals)
        pools.order = order
        F.filterImageWithCLF('in', 'out', R.build_list(clf, nodes), verbose=verbose, multithreaded=threads)
        judge(ch, 'out', want, w, h, c, depth, '%d threads, order %s' % (threads, order))
        ch.state(h, w, c, depth, threads, order)


def depths(ch):
    """Every combination of depths."""
    img = ch.choose('image', sorted(TYPES))
    out = ch.choose('output', [None, 'what', '8i', '10i', '12i', '16i', '16f', '32f'])
    threads = ch.choose('threads', [1, 2])
    version = ch.choose('library', [10900, 10700])
    w, h, c = 4, 3, ch.choose('channels', [1, 3, 4])
    vals = values(img, w * h * c, 1)
    din = img.rstrip('+')
    dout = out if out in R.DEPTHS else din
    for a in R.DEPTHS:
        for b in R.DEPTHS:
            start(version)
            nodes = node(a, b, c)
            world.disk['in'] = make(img, w, h, c, vals)
            before = list(world.disk['in'].codes)
            F.filterImageWithCLF('in', 'out', R.build_list(clf, nodes), outBitDepth=out, multithreaded=threads)
            judge(ch, 'out', expect(vals, c, din, nodes, dout), w, h, c, dout, '%s image, list %s to %s, output %s' % (img, a, b, out))
            ch.check(before == list(world.disk['in'].codes), 'the input changed')
            ch.state(img, out, threads, version, c, a, b)


def large(ch):
    """Tall and wide images, and results far outside the codes."""
    h = ch.choose('rows', [6, 7, 100, 101, 102, 103, 201, 250])
    w = ch.choose('width', [1, 5])
    threads = ch.choose('threads', [1, 4])
    order = ch.choose('order', ['up', 'down', 'odd first']) if threads > 1 else 'up'
    out = ch.choose('output', ['8i', '10i', '16i', '32f'])
    c = 3
    nodes = [R.D('Matrix', dim=[3, 4, 3], v=[4.0, 0.0, 0.0, -1.0, 0.0, -1.0, 0.0, 0.5, 1000.0, 0.0, 0.0, -100.0])]
    vals = values('32f', w * h * c, 2)
    start()
    world.disk['in'] = make('32f', w, h, c, vals)
    pools.order = {'up': None, 'down': list(range(h))[::-1], 'odd first': list(range(1, h, 2)) + list(range(0, h, 2))}[order]
    F.filterImageWithCLF('in', 'out', R.build_list(clf, nodes), outBitDepth=out, multithreaded=threads)
    judge(ch, 'out', expect(vals, c, '32f', nodes, out), w, h, c, out, '%d rows, %s' % (h, order))
    ch.state(h, w, threads, order, out)


def quietly(ch, fn, what):
    """A failure may be reported or raised; either way there is no image."""
    try:
        fn()
    except Exception as e:
        if isinstance(e, (NameError, UnboundLocalError)) or 'unpack' in str(e):
            raise
    ch.check('out' not in world.written, '%s: an image was written', what)
    ch.step()


def failures(ch):
    """A row that fails, in every order; images that cannot be read or written."""
    what = ch.choose('what', ['row', 'no such image', 'create', 'open', 'write'])
    threads = ch.choose('threads', [1, 3])
    w, h, c = 2, ch.choose('rows', [1, 2, 3, 4]), 3
    vals = values('32f', w * h * c, 4)
    pl = R.build_list(clf, node('32f', '32f', c))
    if what == 'row':
        bad = ch.choose('failing row', range(h))
        ev = ch.choose('at', ['first pixel', 'last pixel'])
        vals[bad * w * c if ev == 'first pixel' else (bad + 1) * w * c - 1] = SENTINEL
        for order in itertools.permutations(range(h)) if threads > 1 else [None]:
            start()
            world.disk['in'] = make('32f', w, h, c, vals)
            pools.order = order
            l = clf.ProcessList()
            l.addProcess(Fuse('32f', '32f'))
            quietly(ch, lambda: F.filterImageWithCLF('in', 'out', l, multithreaded=threads), 'row %d failed, order %s' % (bad, order))
            ch.state(what, threads, h, bad, ev, order)
        # and the same image without the mark is filtered as usual afterwards
        start()
        vals = values('32f', w * h * c, 4)
        world.disk['in'] = make('32f', w, h, c, vals)
        l = clf.ProcessList()
        l.addProcess(Fuse('32f', '32f'))
        F.filterImageWithCLF('in', 'out', l, multithreaded=threads)
        judge(ch, 'out', vals, w, h, c, '32f', 'afterwards')
        return
    start()
    if what != 'no such image':
        world.disk['in'] = make('32f', w, h, c, vals)
        world.refuse = what
    r = F.filterImageWithCLF('in', 'out', pl, multithreaded=threads)
    ch.check(not world.written, '%s: an image was written', what)
    ch.state(what, threads, h)


META = [('Software', 'string', 'x'), ('oiio:BitsPerSample', 'int', None), ('Exposure', 'float', 0.5), ('compression', 'string', 'zip'), ('Orientation', 'int', 1), ('CompressionQuality', 'int', 40)]


def metadata(ch):
    """Attributes, bits per sample and compression."""
    img = ch.choose('image', ['8i', '10i', '12i', '16i', '16f', '32f'])
    out = ch.choose('output', [None] + R.DEPTHS)
    comp = ch.choose('compression', [None, 'rle'])
    qual = ch.choose('quality', [None, -1, 0, 75])
    threads = ch.choose('threads', [1, 2])
    order = ch.choose('attribute order', [1, -1])
    dout = out or img
    w, h, c = 2, 2, 3
    vals = values(img, w * h * c, 6)
    nodes = node('16f', '16f', c)
    for mask in range(1 << len(META)):
        metas = [m for i, m in enumerate(META) if mask >> i & 1]
        start()
        given = {n: v for n, t, v in metas}
        if 'oiio:BitsPerSample' in given:
            given['oiio:BitsPerSample'] = BITS[img]
        if img in SHIFT and 'oiio:BitsPerSample' not in given:
            continue
        im = make(img.replace('10i', '16i').replace('12i', '16i') if img in SHIFT else img, w, h, c, [v * (1 << SHIFT.get(img, 0)) for v in vals])
        im.meta = [fakes.Attr(n, t, given[n]) for n, t, v in metas][::order]
        snapshot = [(m.name, m.type, m.value) for m in im.meta]
        world.disk['in'] = im
        kw = {}
        if comp:
            kw['compression'] = comp
        if qual is not None:
            kw['compressionQuality'] = qual
        F.filterImageWithCLF('in', 'out', R.build_list(clf, nodes), outBitDepth=out, multithreaded=threads, **kw)
        what = 'metadata %s, %s to %s' % (sorted(given), img, dout)
        judge(ch, 'out', expect(vals, c, img, nodes, dout), w, h, c, dout, what)
        got = dict(world.written['out']['meta'])
        want = dict(given)
        if 'oiio:BitsPerSample' in given or dout in ('8i', '10i', '12i', '16i'):
            want['oiio:BitsPerSample'] = BITS[dout]
        else:
            got.pop('oiio:BitsPerSample', None)
        if comp:
            want['compression'] = comp
        if qual is not None and qual > 0:
            want['CompressionQuality'] = qual
        ch.equal(got, want, what)
        ch.equal([(m.name, m.type, m.value) for m in im.meta], snapshot, what + ': the input image')
        ch.state(img, out, comp, qual, threads, order, mask)


def odd_bits(ch):
    """16-bit samples with other bit counts are still 16-bit codes."""
    bits = ch.choose('bits', [9, 10, 11, 12, 13, 14, 15, 16, None])
    threads = ch.choose('threads', [1, 2])
    out = ch.choose('output', [None, '8i', '16f'])
    w, h, c = 2, 2, 3
    vals = values('16i', w * h * c, 6)
    din = {10: '10i', 12: '12i'}.get(bits, '16i')
    if din != '16i':
        vals = values(din, w * h * c, 6)
    start()
    im = make('16i', w, h, c, [v * (1 << SHIFT.get(din, 0)) for v in vals])
    im.meta = [fakes.Attr('oiio:BitsPerSample', 'int', bits)] if bits else []
    world.disk['in'] = im
    nodes = node('16f', '16f', c)
    F.filterImageWithCLF('in', 'out', R.build_list(clf, nodes), outBitDepth=out, multithreaded=threads)
    judge(ch, 'out', expect(vals, c, din, nodes, out or din), w, h, c, out or din, '%s bits' % bits)
    ch.state(bits, threads, out)


def specials(ch):
    """NaN and infinite samples anywhere in an image."""
    img = ch.choose('image', ['16f', '32f'])
    out = ch.choose('output', [None, '8i', '10i', '12i', '16i', '16f', '32f'])
    threads = ch.choose('threads', [1, 2])
    x = ch.choose('value', [float('nan'), float('inf'), float('-inf')])
    w, h, c = 2, 2, ch.choose('channels', [1, 3, 4])
    dout = out or img
    for at in list(range(w * h * c)) + [None]:
        vals = [x if at in (None, i) else v for i, v in enumerate(values(img, w * h * c, 6))]
        start()
        world.disk['in'] = make(img, w, h, c, vals)
        F.filterImageWithCLF('in', 'out', R.build_list(clf, [R.D('Range', **{'in': '32f', 'out': '32f'})]), outBitDepth=out, multithreaded=threads)
        what = '%r at %s, %s to %s' % (x, at, img, dout)
        ch.check('out' in world.written, '%s: no image was written', what)
        got = world.values('out')
        ch.equal(len(got), w * h * c, what)
        for i, (g, v) in enumerate(zip(got, vals)):
            if R.FULL[dout] > 1:
                g = int(g) >> SHIFT.get(dout, 0)
                v = 0.0 if v != v else R.clampf(v, 0.0, 1.0) * R.FULL[dout]
                ch.check(abs(g - v) <= 0.501, '%s: sample %d is %r, expected %r', what, i, g, v)
            elif v != v or abs(v) > 1e9:
                ch.check(g == v or g != g and v != v, '%s: sample %d is %r', what, i, g)
            else:
                ch.check(abs(g - v) <= 2.0 ** -11, '%s: sample %d is %r, expected %r', what, i, g, v)
        ch.step(w * h)
        ch.state(img, out, threads, repr(x), c, at)


def tool(ch):
    """The command line."""
    depth = ch.choose('--outputBitDepth', [None, '8i', '16f', '9i'])
    m = ch.choose('-m', [None, '0', '1', '2', '999'])
    comp = ch.choose('--compression', [None, 'rle'])
    qual = ch.choose('--quality', [None, '0', '75'])
    miss = ch.choose('missing', [None, '-i', '-o', '-c'])
    long = ch.flag('long names')
    start()
    w, h, c = 2, 3, 3
    vals = values('16i', w * h * c, 6)
    nodes = node('8i', '12i', c)
    world.disk['in.tif'] = make('16i', w, h, c, vals)
    p = write_text(ch.path('t.clf'), R.xml_doc(nodes))
    argv = ['filterImageWithCLF']
    for k, l, v in (('-i', '--input', 'in.tif'), ('-o', '--output', 'out'), ('-c', '--clf', p)):
        if k != miss:
            argv += [l if long else k, v]
    for k, v in (('--outputBitDepth', depth), ('--multithreaded' if long else '-m', m), ('--compression', comp), ('--quality', qual)):
        if v is not None:
            argv += [k, v]
    old = sys.argv
    sys.argv = argv
    try:
        F.main()
    finally:
        sys.argv = old
    ch.step()
    ch.state(depth, m, comp, qual, miss, long)
    if miss or depth == '9i':
        ch.check(not world.written, '%s wrote an image', argv)
        return
    dout = depth or '16i'
    judge(ch, 'out', expect(vals, c, '16i', nodes, dout), w, h, c, dout, ' '.join(argv))
    want = {}
    if dout != '16f':
        want['oiio:BitsPerSample'] = BITS[dout]
    if comp:
        want['compression'] = comp
    if qual == '75':
        want['CompressionQuality'] = 75
    ch.equal(world.written['out']['meta'], want, ' '.join(argv))


HARNESSES = {'schedules': schedules, 'depths': depths, 'large': large, 'failures': failures, 'metadata': metadata, 'odd_bits': odd_bits, 'specials': specials, 'tool': tool}
