"""Encoded arrays."""
import gzip
import math
import struct
import xml.etree.ElementTree as etree

import numpy as np

import boot
import explore
import refmodel as R
from common import *

clf = boot.clf()
BOUNDS = """Every one of the 65536 half-float bit patterns, in LUT1D (one and three channels), LUT3D and Matrix, with integer16bit,
hex16bit and the raw-halfs option; 4608 single and 12288 double bit patterns (every exponent, both signs, all-zero, all-one, alternating
and single-bit mantissas, NaNs and infinities) with the 32 and 64 bit encodings in every array node; output depths of integers and floats; values given as Python floats and as
numpy halfs, singles and doubles, values that are not representable (all ties between neighbouring halfs of six binades); plain, gzipped and
grouped; every file parsed independently; own-written files with upper-case hex and leading zeros read back; two generations."""
ASSUMPTIONS = ['any NaN pattern stands for any other']

WIDTH = {'integer16bit': 16, 'hex16bit': 16, 'integer32bit': 32, 'hex32bit': 32, 'integer64bit': 64, 'hex64bit': 64, 'raw': 16}
FMT = {16: ('<e', '<H'), 32: ('<f', '<I'), 64: ('<d', '<Q')}


def pattern(x, width):
    """Bit pattern of the double x rounded to nearest even at this width."""
    f, u = FMT[width]
    try:
        b = struct.pack(f, x)
    except OverflowError:
        b = struct.pack(f, math.copysign(math.inf, x))
    return struct.unpack(u, b)[0]


def value(p, width):
    f, u = FMT[width]
    return struct.unpack(f, struct.pack(u, p))[0]


def is_nan(p, width):
    e, m = {16: (5, 10), 32: (8, 23), 64: (11, 52)}[width]
    return (p >> m) & ((1 << e) - 1) == (1 << e) - 1 and p & ((1 << m) - 1) != 0


def patterns(width, block, blocks):
    if width == 16:
        n = 65536 // blocks
        return list(range(block * n, (block + 1) * n))
    e, m = (8, 23) if width == 32 else (11, 52)
    mant = [0, 1, (1 << m) - 1, 1 << (m - 1), ((1 << m) - 1) // 3, 0x123456 if width == 32 else 0x123456789abcd, 1 << (m // 2), (1 << m) - 2, 5]
    if width == 64:
        mant = mant[:3]
    all_ = [(s << (e + m)) | (x << m) | y for x in range(1 << e) for s in (0, 1) for y in mant]
    n = (len(all_) + blocks - 1) // blocks
    n += -n % 24
    out = all_[block * n:(block + 1) * n]
    while out and len(out) % 24:
        out.append(out[-1])
    return out


def nodes_for(vals, kind, enc, depth='16f'):
    kw = {} if enc in ('string', 'raw') else {'floatEncoding': enc}
    if kind == 'Matrix':
        out = []
        for i in range(0, len(vals), 12):
            n = clf.Matrix('16f', depth, 'm%d' % i, 'm')
            n.setMatrix([3, 4, 3], vals[i:i + 12], **kw) if len(vals[i:i + 12]) == 12 else n.setMatrix([2, 2, 2], vals[i:i + 4], **kw)
            out.append(n)
        return out
    if kind.startswith('LUT1D'):
        n = clf.LUT1D('16f', depth, 'l', 'l', **({'rawHalfs': True} if enc == 'raw' else {}))
        n.setArray(int(kind[-1]), vals, **kw)
        return [n]
    out = []
    for i in range(0, len(vals), 24 * 16):
        c = vals[i:i + 24 * 16]
        n = clf.LUT3D('16f', depth, 'l%d' % i, 'l')
        if len(c) % (24 * 16) == 0:
            n.setArray([2, 2, len(c) // 12, 3][:3], c, **kw)
        else:
            n.setArray([2, 2, len(c) // 12], c, **kw)
        out.append(n)
    return out


def tokens(path, gz):
    data = gzip.decompress(read_bytes(path)) if gz else read_bytes(path)
    out, attrs = [], []
    for el in etree.fromstring(data).iter():
        if R.local(el.tag) == 'Array':
            out += el.text.split()
            attrs.append(el.get('floatEncoding'))
    return out, attrs


def matrix_values(n):
    """A Matrix has no accessor for its table: decode what it writes."""
    el = [x for x in n.write(etree.Element('X')).iter() if R.local(x.tag) == 'Array'][0]
    enc = el.get('floatEncoding')
    if enc is None:
        return [float(t) for t in el.text.split()]
    return [value(int(t, 16 if enc.startswith('hex') else 10), WIDTH[enc]) for t in el.text.split()]


def read_back(path):
    pl = clf.ProcessList(path)
    return pl, values_of(pl)


def values_of(pl):
    vals = []
    todo = list(pl.getProcesses())
    while todo:
        n = todo.pop(0)
        if n.getNodeType() == 'Group':
            todo = list(n.getProcesses()) + todo
        elif n.getNodeType() == 'Matrix':
            vals += matrix_values(n)
        else:
            vals += list(n.getLUTValues())
    return vals


def same(got, pats, width, ch, what):
    ch.check(len(got) == len(pats), '%s: %d values instead of %d', what, len(got), len(pats))
    for g, p in zip(got, pats):
        q = pattern(float(g), width)
        if q != p and not (is_nan(p, width) and is_nan(q, width)):
            ch.fail('%s: value %r (bits %x) read back as %r (bits %x)' % (what, value(p, width), p, float(g), q))
        if not is_nan(p, width) and float(g) != value(p, width):
            ch.fail('%s: value %r came back as %r' % (what, value(p, width), float(g)))


def stored(toks, pats, enc, ch):
    width = WIDTH[enc]
    ch.check(len(toks) == len(pats), '%d values in the file instead of %d', len(toks), len(pats))
    for t, p in zip(toks, pats):
        if enc.startswith('hex'):
            ch.check(len(t) == width // 4, '%s stores %r, expected %d hex digits', enc, t, width // 4)
            q = int(t, 16)
        else:
            ch.check(t.isdigit(), '%s stores %r, expected an unsigned decimal', enc, t)
            q = int(t)
        if q != p and not (is_nan(p, width) and is_nan(q, width)):
            ch.fail('%s stores %r (bits %x) as %r' % (enc, value(p, width), p, t))


def go(ch, kind, enc, vals, pats, gz, group, what, second=True, depth='16f'):
    width = WIDTH[enc]
    before = list(vals)
    nodes = nodes_for(vals, kind, enc, depth)
    pl = clf.ProcessList()
    if group:
        g = clf.Group('16f', '16f')
        for n in nodes:
            g.addProcess(n)
        pl.addProcess(g)
    else:
        for n in nodes:
            pl.addProcess(n)
    p, q = ch.path('e.clf'), ch.path('f.clf')
    pl.writeFile(p, writeGzip=gz)
    t, attrs = tokens(p, gz)
    stored(t, pats, enc, ch)
    if enc != 'raw':
        ch.check(set(attrs) == {enc}, 'floatEncoding attributes %s instead of %s', attrs, enc)
    back, got = read_back(p)
    same(got, pats, width, ch, '%s %s %s' % (enc, kind, what))
    if second:
        back.writeFile(q, writeGzip=gz)
        t2, attrs2 = tokens(q, gz)
        stored(t2, pats, enc, ch)
        ch.equal(attrs2, attrs, 'encodings written the second time')
        same(read_back(q)[1], pats, width, ch, '%s %s %s, second generation' % (enc, kind, what))
    # the original was not changed
    ch.check(len(vals) == len(before) and all(a == b or (a != a and b != b) for a, b in zip(vals, before)),
             "writing changed the caller's values")
    if second:
        r = ch.path('g.clf')
        pl.writeFile(r, writeGzip=gz)
        ch.check(tokens(r, gz) == (t, attrs), 'writing the same list again gives another file')
    ch.step(len(vals))
    return back


def halfs(ch):
    """All 65536 halfs."""
    enc = ch.choose('encoding', ['integer16bit', 'hex16bit', 'raw'])
    kind = ch.choose('node', ['LUT1D1', 'LUT1D3', 'LUT3D', 'Matrix'] if enc != 'raw' else ['LUT1D1', 'LUT1D3'])
    # 3-channel tables need a multiple of 3
    blocks = 32
    b = ch.choose('block', range(blocks))
    pats = patterns(16, b, blocks)
    pats = pats + pats[:(-len(pats)) % 24]
    gz = b % 2 == 1
    go(ch, kind, enc, [R.half_of_code(p) for p in pats], pats, gz, b % 5 == 0, 'block %d' % b, second=b % 4 == 0 or ch.thorough, depth=R.DEPTHS[b % 6])
    ch.state(enc, kind, b)


def wide(ch):
    """32 and 64 bit patterns."""
    enc = ch.choose('encoding', ['integer32bit', 'hex32bit', 'integer64bit', 'hex64bit'])
    kind = ch.choose('node', ['LUT1D1', 'LUT1D3', 'LUT3D', 'Matrix'])
    blocks = 4 if '32' in enc else 8
    b = ch.choose('block', range(blocks))
    depth = ch.choose('depth', R.DEPTHS if b < 2 or ch.thorough else ['16f', '10i'])
    w = WIDTH[enc]
    pats = patterns(w, b, blocks)
    if not pats:
        raise explore.Prune()
    go(ch, kind, enc, [value(p, w) for p in pats], pats, b % 2 == 1, b % 3 == 0, 'block %d' % b, second=b % 2 == 0 or ch.thorough, depth=depth)
    ch.state(enc, kind, b)


ODD = [0.1, -0.1, 1.0 / 3, 2.0 / 3, 1e-5, 1e-8, -1e-8, 1e-9, 65504.0, 65519.9, 65520.0, 1e6, -1e6, 3.4e38, 1e-40, 1e-46, -0.0, 0.0, 1e300, -1e300, 5e-324,
       123456.789, 0.18, 1.0 + 2.0 ** -24, 1.0 + 2.0 ** -11, 1.0 + 3 * 2.0 ** -11, 2.0 ** -25, 3 * 2.0 ** -25, math.inf, -math.inf, math.nan, 2.2]


def rounding(ch):
    """Values that are not representable at the width are rounded to nearest even, whatever Python type holds them."""
    enc = ch.choose('encoding', sorted(WIDTH))
    kind = ch.choose('node', ['LUT1D1', 'LUT1D3', 'LUT3D', 'Matrix'] if enc != 'raw' else ['LUT1D1', 'LUT1D3'])
    typ = ch.choose('type', ['float', 'float16', 'float32', 'float64', 'array16', 'array32', 'array64', 'ints'])
    gz = ch.flag('gzip')
    group = ch.flag('group')
    depth = ch.choose('depth', R.DEPTHS if typ in ('float', 'array32') else ['16f', '12i'])
    w = WIDTH[enc]
    vals = list(ODD)
    for e in (-24, -14, -1, 0, 5, 14):
        for k in (0, 1, 2, 511, 1022):
            h = 2.0 ** e * (1 + k / 1024.0)
            vals += [h + 2.0 ** e / 2048.0, h + 2.0 ** e / 2048.0 * 1.001, h + 2.0 ** e / 2048.0 * 0.999]
    if typ == 'ints':
        vals = [0, 1, 2, 3, 255, 1023, 2049, 2051, 65535, 65504, 16777217, 100000]
    elif typ != 'float':
        t = getattr(np, 'float' + typ[-2:])
        vals = [t(v) for v in vals]
    vals = vals + vals[:(-len(vals)) % 24]
    if typ == 'ints':
        vals = (vals * 2)[:24]
    pats = [pattern(float(v), w) for v in vals]
    if typ.startswith('array'):
        vals = np.array(vals, dtype=getattr(np, 'float' + typ[-2:]))
    go(ch, kind, enc, vals, pats, gz, group, typ, depth=depth)
    ch.state(enc, kind, typ, gz, group)


def plain(ch):
    """Without an encoding: decimals with nine places."""
    kind = ch.choose('node', ['LUT1D1', 'LUT1D3', 'LUT3D', 'Matrix'])
    out = ch.choose('depth', R.DEPTHS)
    gz = ch.flag('gzip')
    vals = [v for v in ODD if not math.isinf(v) and v == v and abs(v) < 1e9] + [1.0, 255.0, 1023.5, 0.123456789, -0.9999999994, 7.0]
    vals = (vals * 5)[:48]
    if kind == 'Matrix':
        nodes = []
        for i in range(0, 48, 12):
            n = clf.Matrix('16f', out, 'i', 'm')
            n.setMatrix([3, 4, 3], vals[i:i + 12])
            nodes.append(n)
    elif kind == 'LUT3D':
        n = clf.LUT3D('16f', out, 'i', 'm')
        n.setArray([2, 2, 4], vals)
        nodes = [n]
    else:
        n = clf.LUT1D('16f', out, 'i', 'm')
        n.setArray(int(kind[-1]), vals)
        nodes = [n]
    pl = clf.ProcessList()
    for n in nodes:
        pl.addProcess(n)
    p = ch.path('p.clf')
    pl.writeFile(p, writeGzip=gz)
    t, attrs = tokens(p, gz)
    ch.equal(set(attrs), {None}, 'floatEncoding')
    ch.equal(len(t), len(vals), 'values in the file')
    for a, v in zip(t, vals):
        ch.check(a.count('.') == 1 and len(a.split('.')[1]) == 9, '%r is stored as %r, not with nine places', v, a)
        ch.check(abs(float(a) - v) <= 5.1e-10 + abs(v) * 1e-15, '%r is stored as %r', v, a)
    got = read_back(p)[1]
    for g, v in zip(got, vals):
        ch.check(abs(float(g) - v) <= 5.1e-10 + 6.1e-8 * abs(v), '%r came back as %r', v, float(g))
    ch.step(len(vals))
    ch.state(kind, out, gz)


def foreign(ch):
    """Files written by others: case, leading zeros, layout; then processed."""
    enc = ch.choose('encoding', sorted(WIDTH))
    kind = ch.choose('node', ['Matrix', 'LUT1D', 'LUT3D'] if enc != 'raw' else ['LUT1D'])
    style = ch.choose('style', ['lower', 'upper', 'mixed'] if enc.startswith('hex') else ['bare', 'zeros'])
    layout = ch.choose('layout', [' ', '\n', '\n\t\t ', '\r\n'])
    gz = ch.flag('gzip')
    w = WIDTH[enc]
    n = {'Matrix': 9, 'LUT1D': 12, 'LUT3D': 24}[kind]
    vals = [value(pattern(v, w), w) for v in lcg(n, 21)]
    vals[3] = value(pattern(0.1, w), w)
    vals[5] = value(pattern(-1.7, w), w)
    pats = [pattern(v, w) for v in vals]
    if enc.startswith('hex'):
        t = ['%0*x' % (w // 4, p) for p in pats]
        if style == 'upper':
            t = [x.upper() for x in t]
        elif style == 'mixed':
            t = [''.join(c.upper() if i % 2 else c for i, c in enumerate(x)) for x in t]
    else:
        t = [('%d' if style == 'bare' else '%020d') % p for p in pats]
    text = layout + layout.join(t) + layout
    fe = '' if enc == 'raw' else ' floatEncoding="%s"' % enc
    dims = {'Matrix': '3 3 3', 'LUT1D': '4 3', 'LUT3D': '2 2 2 3'}[kind]
    order = ch.choose('attribute order', [0, 1])
    depth = ch.choose('depth', ['16f', '10i', '32f', '8i'] if layout == ' ' else ['16f', '12i'])
    arr = '<Array dim="%s"%s>%s</Array>' % (dims, fe, text) if order else '<Array%s dim="%s">%s</Array>' % (fe, dims, text)
    doc = '<?xml version="1.0"?>\n<ProcessList><%s inBitDepth="16f" outBitDepth="%s"%s>%s</%s></ProcessList>' % (
        kind, depth, ' rawHalfs="True"' if enc == 'raw' else '', arr, kind)
    p = ch.path('x.clf')
    if gz:
        with gzip.open(p, 'wb') as f:
            f.write(doc.encode())
    else:
        write_text(p, doc)
    pl, got = read_back(p)
    same(got, pats, w, ch, '%s %s %s' % (enc, kind, style))
    d = {'Matrix': R.D('Matrix', dim=[3, 3, 3], v=vals, out=depth), 'LUT1D': R.D('LUT1D', ch=3, v=vals, out=depth), 'LUT3D': R.D('LUT3D', dim=[2, 2, 2], v=vals, out=depth)}[kind]
    check_pixels(ch, pl, [d], [[0.5, 0.25, 0.75], [0.0, 1.0, 0.3]], '%s %s' % (enc, kind), rel=1e-6)
    boot.features('CLF')
    if not gz:
        pl2 = clf.ProcessList(p)
        boot.features("All")
        got = values_of(pl2)
    same(got, pats, w, ch, '%s %s %s read without extensions' % (enc, kind, style))
    ch.state(enc, kind, style, layout, gz, order)


HARNESSES = {'halfs': halfs, 'wide': wide, 'rounding': rounding, 'plain': plain, 'foreign': foreign}
