"""Reference model: what each transform means, written from the properties in plain
double precision, with no code shared with /repo.  A transform is described by plain
dicts ("descs"); build() makes the ampas/CLF object of a desc through its public API,
ref() says what it must compute, xml() writes a CLF document for it with this file's
own writer, canon() reads a document's element tree into comparable form."""
import math
import struct

DEPTHS = ['8i', '10i', '12i', '16i', '16f', '32f']
FULL = {'8i': 255.0, '10i': 1023.0, '12i': 4095.0, '16i': 65535.0, '16f': 1.0, '32f': 1.0}
EXT_ADSK = ('ExposureContrast', 'Gamma', 'Log', 'Reference')


def clampf(x, lo=0.0, hi=1.0):
    return hi if x > hi else (lo if x < lo else x)


def full(d):
    return FULL.get(d, 1.0)


def f32(x):
    """x rounded to single precision."""
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf


def half_of_code(c):
    """The half-float whose bit pattern is c, as a double, computed by hand."""
    s = -1.0 if c & 0x8000 else 1.0
    e = (c >> 10) & 31
    m = c & 1023
    if e == 31:
        return s * math.inf if m == 0 else math.nan
    if e == 0:
        return s * m * 2.0 ** -24
    return s * (1024 + m) * 2.0 ** (e - 25)


def code_of_half(x):
    """The code of a double that is exactly a half-float."""
    return struct.unpack('<H', struct.pack('<e', x))[0]


# ---- building blocks -------------------------------------------------------------------

def imap(m, x):
    """Clamped piecewise linear map [[ins],[outs]]."""
    ins, outs = m
    if math.isnan(x) or math.isinf(x):
        return x
    if x <= ins[0]:
        return outs[0]
    if x >= ins[-1]:
        return outs[-1]
    for k in range(len(ins) - 1):
        if x <= ins[k + 1]:
            t = (x - ins[k]) / (ins[k + 1] - ins[k])
            return outs[k] + t * (outs[k + 1] - outs[k])


def lut1(table, pos):
    """table: list, pos: 0..1 over it; clamped linear."""
    if math.isnan(pos) or math.isinf(pos):
        return pos
    n = len(table)
    i = pos * (n - 1)
    if i <= 0:
        return table[0]
    if i >= n - 1:
        return table[-1]
    k = int(math.floor(i))
    t = i - k
    if t == 0:
        return table[k]
    return table[k] + t * (table[k + 1] - table[k])


def lut_half(table, x):
    """table: 65536 entries indexed by half code."""
    if math.isnan(x):
        return table[31745]
    if math.isinf(x):
        return table[31744 if x > 0 else 64512]
    neg = math.copysign(1.0, x) < 0
    a = abs(x)
    base = 0x8000 if neg else 0
    if a >= 65504.0:
        return table[base + 0x7bff] if a < 65520.0 else table[base + 0x7c00]
    # the largest half <= a
    lo, hi = 0, 0x7bff
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if half_of_code(mid) <= a:
            lo = mid
        else:
            hi = mid - 1
    h = half_of_code(lo)
    if h == a:
        return table[base + lo]
    t = (a - h) / (half_of_code(lo + 1) - h)
    return (1 - t) * table[base + lo] + t * table[base + lo + 1]


def lut3(dim, v, pos, interp):
    """dim [nr,ng,nb], v flat with blue fastest, pos 0..1 per axis."""
    idx, fr = [], []
    for a in range(3):
        f = clampf(pos[a]) * (dim[a] - 1)
        k = int(math.floor(f))
        if k >= dim[a] - 1:
            k = max(dim[a] - 2, 0)
        idx.append(k)
        fr.append(f - k)

    def at(dr, dg, db):
        r = min(idx[0] + dr, dim[0] - 1)
        g = min(idx[1] + dg, dim[1] - 1)
        b = min(idx[2] + db, dim[2] - 1)
        o = ((r * dim[1] + g) * dim[2] + b) * 3
        return [float(v[o]), float(v[o + 1]), float(v[o + 2])]
    if interp == 'tetrahedral':
        # walk from the low corner to the high corner along the axes in order of
        # decreasing fraction
        order = sorted(range(3), key=lambda a: -fr[a])
        c = [0, 0, 0]
        w_prev, out = 1.0, [0.0, 0.0, 0.0]
        corner = at(*c)
        for a in order:
            w = w_prev - fr[a]
            out = [o + w * x for o, x in zip(out, corner)]
            c[a] = 1
            corner = at(*c)
            w_prev = fr[a]
        return [o + w_prev * x for o, x in zip(out, corner)]
    out = [0.0, 0.0, 0.0]
    for dr in (0, 1):
        for dg in (0, 1):
            for db in (0, 1):
                w = ((fr[0] if dr else 1 - fr[0]) * (fr[1] if dg else 1 - fr[1]) *
                     (fr[2] if db else 1 - fr[2]))
                if w:
                    out = [o + w * x for o, x in zip(out, at(dr, dg, db))]
    return out


def cdl(style, slope, offset, power, sat, rgb):
    """Normalised in and out."""
    def luma(v):
        return 0.2126 * v[0] + 0.7152 * v[1] + 0.0722 * v[2]
    style = {'v1.2_Fwd': 'Fwd', 'v1.2_Rev': 'Rev', 'noClampFwd': 'FwdNoClamp',
             'noClampRev': 'RevNoClamp'}.get(style, style)
    if style == 'Fwd':
        w = [clampf(x * s + o) ** p for x, s, o, p in zip(rgb, slope, offset, power)]
        l = luma(w)
        return [clampf(l + sat * (x - l)) for x in w]
    if style == 'FwdNoClamp':
        w = [x * s + o for x, s, o in zip(rgb, slope, offset)]
        w = [x ** p if x >= 0 else x for x, p in zip(w, power)]
        l = luma(w)
        return [l + sat * (x - l) for x in w]
    if style == 'Rev':
        w = [clampf(x) for x in rgb]
        l = luma(w)
        w = [clampf(l + (x - l) / sat) for x in w]
        return [clampf((x ** (1.0 / p) - o) / s) for x, s, o, p in zip(w, slope, offset, power)]
    if style == 'RevNoClamp':
        l = luma(rgb)
        w = [l + (x - l) / sat for x in rgb]
        return [((x ** (1.0 / p) if x >= 0 else x) - o) / s for x, s, o, p in zip(w, slope, offset, power)]
    raise ValueError(style)


def gamma1(style, g, o, x):
    if style == 'basicFwd':
        return max(0.0, x) ** g
    if style == 'basicRev':
        return max(0.0, x) ** (1.0 / g)
    if g == 1.0:                          # the limits of the curve as the toe takes over, or vanishes
        return x / (1.0 + o) if style == 'moncurveFwd' else x * (1.0 + o)
    if o == 0.0:
        return max(0.0, x) ** (g if style == 'moncurveFwd' else 1.0 / g)
    slope = ((g - 1.0) / o) * ((g * o) / ((g - 1.0) * (o + 1.0))) ** g
    if style == 'moncurveFwd':
        return x * slope if x <= o / (g - 1.0) else ((x + o) / (1.0 + o)) ** g
    if style == 'moncurveRev':
        brk = (o / (g - 1.0)) * slope
        return x / slope if x <= brk else (1.0 + o) * x ** (1.0 / g) - o
    raise ValueError(style)


FLT_MIN = 2.0 ** -126


def log1(style, p, x):
    if style == 'log10':
        return math.log10(max(x, FLT_MIN))
    if style == 'log2':
        return math.log2(max(x, FLT_MIN))
    if style == 'antiLog10':
        return 10.0 ** x
    if style == 'antiLog2':
        return 2.0 ** x
    g, white, black, hi, sh = p
    k = 0.002 / g
    floor = 10.0 ** min(-0.00001, (black - white) * k)
    gain = (hi - sh) / (1.0 - floor)
    if style == 'logToLin':
        return (10.0 ** ((1023.0 * x - white) * k) - floor) * gain + sh
    if style == 'linToLog':
        return (white + math.log10(max(FLT_MIN, floor + (x - sh) / gain)) / k) / 1023.0
    raise ValueError(style)


def ec1(style, e, c, p, x):
    if style == 'linear':
        return p * max(0.0, 2.0 ** e * x / p) ** c
    if style == 'video':
        k = 1.0 / 1.83
        return p ** k * max(0.0, x * (2.0 ** e / p) ** k) ** c
    if style == 'log':
        q = 0.6 / 2.046 * math.log10(p / 0.9) + 685.0 / 1023.0
        return (x + e * 0.6 / 2.046 * math.log10(2.0) - q) * c + q
    raise ValueError(style)


# ---- descs -----------------------------------------------------------------------------

def D(t, **k):
    k['t'] = t
    k.setdefault('in', '16f')
    k.setdefault('out', '16f')
    return k


def _perchan(params, default):
    """Apply [(values..., channel)] in order."""
    cur = [list(default) for _ in range(3)]
    for p in params:
        vals, ch = list(p[:-1]), p[-1]
        for i in ([0, 1, 2] if ch is None else ['RGB'.index(ch)]):
            cur[i] = vals
    return cur


def tables(d):
    """Per-channel tables of a LUT1D desc."""
    ch = d['ch']
    v = d['v']
    if ch == 1:
        return [v, v, v]
    return [v[c::ch] for c in range(3)]


def scale_of(d):
    """Magnitude of the node's output codes (for tolerances)."""
    return full(d.get('out', '16f'))


def ref(d, px):
    """One node on one pixel (list of floats). Always returns a new list."""
    t = d['t']
    px = [float(x) for x in px]
    fi, fo = full(d.get('in', '16f')), full(d.get('out', '16f'))
    if t == 'Range':
        return ref_range(d, px)
    if t == 'Matrix':
        r, c = d['dim'][0], d['dim'][1]
        v = d['v']
        out = []
        for i in range(len(px)):
            if i < r:
                s = sum(float(v[i * c + j]) * px[j] for j in range(r))
                if c == r + 1:
                    s += float(v[i * c + r])
                out.append(s)
            else:
                out.append(px[i])
        return out
    if t == 'LUT1D':
        tb = tables(d)
        n = len(tb[0])
        out = []
        for i, x in enumerate(px):
            if i >= 3:
                out.append(x)
                continue
            m = d.get('imaps')
            if m:
                pos = imap(m[i if len(m) > 1 else 0], x) / (n - 1.0)
            else:
                pos = x / fi
            out.append(lut_half(tb[i], f32(pos)) if d.get('half') else lut1(tb[i], pos))
        return out
    if t == 'LUT3D':
        m = d.get('imaps')
        pos = []
        for i in range(3):
            if m:
                pos.append(imap(m[i if len(m) > 1 else 0], px[i]) / (d['dim'][i] - 1.0))
            else:
                pos.append(px[i] / fi)
        return lut3(d['dim'], d['v'], pos, d.get('interp', 'trilinear')) + px[3:]
    if t in ('CDL', 'CC'):
        if len(px) < 3:
            return px
        w = cdl(d.get('style', 'Fwd'), d.get('slope', [1.0] * 3), d.get('offset', [0.0] * 3),
                d.get('power', [1.0] * 3), d.get('sat', 1.0), [x / fi for x in px[:3]])
        return [x * fo for x in w] + px[3:]
    if t == 'Gamma':
        p = _perchan(d.get('params', []), (1.0, 0.0))
        return [gamma1(d.get('style', 'basicFwd'), p[i][0], p[i][1], px[i] / fi) * fo for i in range(min(3, len(px)))] + px[3:]
    if t == 'Log':
        p = _perchan(d.get('params', []), (0.6, 685.0, 95.0, 1.0, 0.0))
        return [log1(d.get('style', 'log10'), p[i], px[i] / fi) * fo for i in range(min(3, len(px)))] + px[3:]
    if t == 'EC':
        e, c, p = d.get('ecp', (0.0, 1.0, 1.0))
        return [ec1(d.get('style', 'linear'), e, c, p, px[i] / fi) * fo for i in range(min(3, len(px)))] + px[3:]
    if t in ('Group', 'Ref'):
        return ref_list(d.get('nodes', []), px)
    raise ValueError(t)


def ref_range(d, px):
    fi, fo = full(d.get('in', '16f')), full(d.get('out', '16f'))
    lim = {}
    for k, f in (('minIn', fi), ('maxIn', fi), ('minOut', fo), ('maxOut', fo)):
        lim[k] = d[k] / f if d.get(k) is not None else None
    if d.get('default'):
        for k, v in (('minIn', 0.0), ('maxIn', 1.0), ('minOut', 0.0), ('maxOut', 1.0)):
            if lim[k] is None:
                lim[k] = v
    clamp = (d.get('style') or 'clamp') == 'clamp'
    mi, Mi, mo, Mo = lim['minIn'], lim['maxIn'], lim['minOut'], lim['maxOut']
    out = []
    for x in px:
        y = x / fi
        if None not in (mi, Mi, mo, Mo):
            y = mo + (y - mi) * (Mo - mo) / (Mi - mi)
            if clamp:
                y = min(Mo, max(mo, y))
        elif mi is not None and mo is not None:
            y = y + mo - mi
            if clamp:
                y = max(mo, y)
        elif Mi is not None and Mo is not None:
            y = y + Mo - Mi
            if clamp:
                y = min(Mo, y)
        out.append(y * fo)
    return out


def flatten(nodes):
    out = []
    for d in nodes:
        if d['t'] in ('Group', 'Ref') and d.get('bypass') is not True:
            out += flatten(d.get('nodes', []))
        else:
            out.append(d)
    return out


def ref_list(nodes, px, adsk=True):
    """A list of descs on one pixel, bypass included."""
    px = [float(x) for x in px]
    for k, d in enumerate(nodes):
        if d.get('bypass') is True and adsk:
            prev = nodes[k - 1].get('out', '16f') if k > 0 else d.get('in', '16f')
            nxt = nodes[k + 1].get('in', '16f') if k + 1 < len(nodes) else d.get('out', '16f')
            if prev != nxt:
                px = [x / full(prev) * full(nxt) for x in px]
        elif d['t'] in ('Group', 'Ref'):
            px = ref_list(d.get('nodes', []), px, adsk)
        else:
            px = ref(d, px)
    return px


# ---- comparing -------------------------------------------------------------------------

def close(a, b, scale=1.0, rel=2e-6, abs_=None):
    a, b = float(a), float(b)
    if math.isnan(b):
        return math.isnan(a)
    if math.isinf(b):
        return a == b
    if math.isnan(a) or math.isinf(a):
        return False
    return abs(a - b) <= rel * abs(b) + (rel * scale if abs_ is None else abs_)


def mismatch(got, want, scale=1.0, rel=2e-6):
    """None, or a description of the first difference."""
    if len(got) != len(want):
        return 'length %d instead of %d' % (len(got), len(want))
    for i in range(len(want)):
        if not close(got[i], want[i], scale, rel):
            return 'value %d is %r, expected %r' % (i, float(got[i]), float(want[i]))
    return None


# ---- making the ampas/CLF objects ------------------------------------------------------

def build(clf, d):
    t = d['t']
    ib, ob = d.get('in', '16f'), d.get('out', '16f')
    i, n = d.get('id', ''), d.get('name', '')
    if t == 'Range':
        kw = {}
        if d.get('style'):
            kw['style'] = d['style']
        if d.get('default'):
            kw['defaultRange'] = True
        o = clf.Range(ib, ob, i, n, **kw)
        for k, f in (('minIn', 'setMinInValue'), ('maxIn', 'setMaxInValue'),
                     ('minOut', 'setMinOutValue'), ('maxOut', 'setMaxOutValue')):
            if d.get(k) is not None:
                getattr(o, f)(d[k])
    elif t == 'Matrix':
        o = clf.Matrix(ib, ob, i, n)
        kw = {'floatEncoding': d['enc']} if d.get('enc') else {}
        o.setMatrix(list(d['dim']), list(d['v']), **kw)
    elif t == 'LUT1D':
        kw = {}
        if 'interp' in d:
            kw['interpolation'] = d['interp']
        if d.get('raw'):
            kw['rawHalfs'] = True
        if d.get('half'):
            kw['halfDomain'] = True
        o = clf.LUT1D(ib, ob, i, n, **kw)
        if d.get('imaps'):
            o.setIndexMaps(*[[list(m[0]), list(m[1])] for m in d['imaps']])
        kw = {'floatEncoding': d['enc']} if d.get('enc') else {}
        o.setArray(d['ch'], list(d['v']), **kw)
    elif t == 'LUT3D':
        kw = {}
        if 'interp' in d:
            kw['interpolation'] = d['interp']
        o = clf.LUT3D(ib, ob, i, n, **kw)
        if d.get('imaps'):
            o.setIndexMaps(*[[list(m[0]), list(m[1])] for m in d['imaps']])
        kw = {'floatEncoding': d['enc']} if d.get('enc') else {}
        o.setArray(list(d['dim']), list(d['v']), **kw)
    elif t in ('CDL', 'CC'):
        kw = {'style': d['style']} if 'style' in d else {}
        o = (clf.ASCCDL if t == 'CDL' else clf.ColorCorrection)(ib, ob, i, n, **kw)
        if d.get('slope'):
            o.setSlope(*d['slope'])
        if d.get('offset'):
            o.setOffset(*d['offset'])
        if d.get('power'):
            o.setPower(*d['power'])
        if d.get('sat') is not None:
            o.setSaturation(d['sat'])
    elif t == 'Gamma':
        kw = {'style': d['style']} if 'style' in d else {}
        o = clf.Gamma(ib, ob, i, n, **kw)
        for g, off, ch in d.get('params', []):
            o.setGamma(g, off, ch)
    elif t == 'Log':
        kw = {'style': d['style']} if 'style' in d else {}
        o = clf.Log(ib, ob, i, n, **kw)
        for g, w, b, h, s, ch in d.get('params', []):
            o.setLogParams(g, w, b, h, s, ch)
    elif t == 'EC':
        kw = {'style': d['style']} if 'style' in d else {}
        o = clf.ExposureContrast(ib, ob, i, n, **kw)
        if 'ecp' in d:
            o.setExposureContrastPivot(*d['ecp'])
    elif t == 'Group':
        o = clf.Group(ib, ob, i, n)
        for x in d.get('nodes', []):
            o.addProcess(build(clf, x))
    elif t == 'Ref':
        kw = {}
        for k in ('path', 'basePath', 'alias'):
            if d.get(k):
                kw[k] = d[k]
        o = clf.Reference(ib, ob, i, n, **kw)
    else:
        raise ValueError(t)
    if d.get('bypass') is not None:
        o.setAttribute('bypass', d['bypass'])
    for c in d.get('descs', []):
        o.addElement(clf.Description(c))
    for c in d.get('dyn', []):
        o.setDynamicParam(c)
    for k, v in d.get('attrs', {}).items():
        o.setAttribute(k, v)
    for k, v in d.get('values', {}).items():
        o.addValueElement(k, v)
    return o


def build_list(clf, nodes, **attrs):
    pl = clf.ProcessList()
    for k, v in attrs.items():
        getattr(pl, k)(v)
    for d in nodes:
        pl.addProcess(build(clf, d))
    return pl


# ---- an independent CLF writer ---------------------------------------------------------

def num(x):
    return repr(float(x))


def esc(s):
    return (s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;'))


def xml_node(d, tag=None, extra_attrs=(), children=()):
    t = d['t']
    at = []
    if t not in ('CC',) or d.get('cc_depths'):
        at += [('inBitDepth', d.get('in', '16f')), ('outBitDepth', d.get('out', '16f'))]
    if d.get('id'):
        at.append(('id', d['id']))
    if d.get('name'):
        at.append(('name', d['name']))
    body = []
    name = {'CDL': 'ASC_CDL', 'CC': 'ColorCorrection', 'EC': 'ExposureContrast', 'Ref': 'Reference'}.get(t, t)
    for c in d.get('descs', []):
        body.append('<Description>%s</Description>' % esc(c))
    for c in d.get('dyn', []):
        body.append('<DynamicParameter param="%s"/>' % esc(c))
    if d.get('bypass') is not None:
        at.append(('bypass', str(d['bypass'])))
    if d.get('style') is not None and t not in ('CC',):
        at.append(('style', d['style']))
    if t == 'Range':
        if d.get('default') is not None:
            at.append(('defaultRange', str(d['default'])))
        for k in ('minIn', 'maxIn', 'minOut', 'maxOut'):
            if d.get(k) is not None:
                body.append('<%sValue>%s</%sValue>' % (k, num(d[k]), k))
    elif t == 'Matrix':
        body.append('<Array dim="%s">%s</Array>' % (' '.join(map(str, d['dim'])), ' '.join(map(num, d['v']))))
    elif t in ('LUT1D', 'LUT3D'):
        if d.get('interp') is not None:
            at.append(('interpolation', d['interp']))
        if d.get('half'):
            at.append(('halfDomain', 'True'))
        for m in d.get('imaps') or []:
            body.append('<IndexMap dim="%d">%s</IndexMap>' % (
                len(m[0]), ' '.join('%s@%s' % (num(a), num(b)) for a, b in zip(*m))))
        dim = '%d %d' % (len(d['v']) // d['ch'], d['ch']) if t == 'LUT1D' else '%d %d %d 3' % tuple(d['dim'])
        body.append('<Array dim="%s">%s</Array>' % (dim, ' '.join(map(num, d['v']))))
    elif t in ('CDL', 'CC'):
        sop = ''
        for k, e in (('slope', 'Slope'), ('offset', 'Offset'), ('power', 'Power')):
            if d.get(k):
                sop += '<%s>%s</%s>' % (e, ' '.join(map(num, d[k])), e)
        if sop:
            body.append('<SOPNode>%s</SOPNode>' % sop)
        if d.get('sat') is not None:
            body.append('<SatNode><Saturation>%s</Saturation></SatNode>' % num(d['sat']))
    elif t == 'Gamma':
        for g, o, c in d.get('params', []):
            body.append('<GammaParams gamma="%s"%s%s/>' % (
                num(g), '' if o == 0 else ' offset="%s"' % num(o), '' if c is None else ' channel="%s"' % c))
    elif t == 'Log':
        for g, w, b, h, s, c in d.get('params', []):
            body.append('<LogParams gamma="%s" refWhite="%s" refBlack="%s" highlight="%s" shadow="%s"%s/>' % (
                num(g), num(w), num(b), num(h), num(s), '' if c is None else ' channel="%s"' % c))
    elif t == 'EC':
        if 'ecp' in d:
            body.append('<ECParams exposure="%s" contrast="%s" pivot="%s"/>' % tuple(map(num, d['ecp'])))
    elif t == 'Group':
        body += [xml_node(x) for x in d.get('nodes', [])]
    elif t == 'Ref':
        for k in ('path', 'basePath', 'alias'):
            if d.get(k):
                at.append((k, d[k]))
    for k, v in d.get('attrs', {}).items():
        at.append((k, str(v)))
    at += list(extra_attrs)
    body += list(children)
    tag = tag or name
    return '<%s%s>%s</%s>' % (tag, ''.join(' %s="%s"' % (k, esc(v)) for k, v in at), ''.join(body), tag)


def xml_doc(nodes, attrs='', inner='', decl=True):
    return ('<?xml version="1.0" encoding="UTF-8"?>\n' if decl else '') + \
        '<ProcessList%s>%s%s</ProcessList>\n' % (attrs, inner, '\n'.join(xml_node(d) for d in nodes))


# ---- comparable form of an element tree ------------------------------------------------

def local(tag):
    return tag[tag.find('}') + 1:]


def canon(el):
    """Attributes as a dict (name -> text), children in order, text as stripped tokens,
    every token that is a number as a float."""
    def tok(x):
        try:
            return float(x)
        except ValueError:
            pass
        if '@' in x:
            return tuple(tok(p) for p in x.split('@'))
        return x
    text = (el.text or '').strip()
    if local(el.tag) in ('Description', 'InputDescriptor', 'OutputDescriptor', 'AppRelease', 'Copyright', 'Release'):
        toks = [text]
    else:
        toks = [tok(x) for x in text.split()]
    return (local(el.tag), dict((k, tok(v) if k != 'dim' else v) for k, v in el.attrib.items()), toks,
            [canon(c) for c in el])


def canon_diff(a, b, where='', tol=0.0, ignore=()):
    """None or the first difference between two canon() forms."""
    where = '%s/%s' % (where, b[0])
    if a[0] != b[0]:
        return '%s: element %s instead of %s' % (where, a[0], b[0])
    ka = {k: v for k, v in a[1].items() if k not in ignore}
    kb = {k: v for k, v in b[1].items() if k not in ignore}
    if set(ka) != set(kb):
        return '%s: attributes %s instead of %s' % (where, sorted(ka), sorted(kb))
    for k in ka:
        if not _tokeq(ka[k], kb[k], tol):
            return '%s: attribute %s is %r instead of %r' % (where, k, ka[k], kb[k])
    if len(a[2]) != len(b[2]):
        return '%s: %d values instead of %d' % (where, len(a[2]), len(b[2]))
    for x, y in zip(a[2], b[2]):
        if not _tokeq(x, y, tol):
            return '%s: %r instead of %r' % (where, x, y)
    if len(a[3]) != len(b[3]):
        return '%s: children %s instead of %s' % (where, [c[0] for c in a[3]], [c[0] for c in b[3]])
    for x, y in zip(a[3], b[3]):
        r = canon_diff(x, y, where, tol, ignore)
        if r:
            return r
    return None


def _tokeq(x, y, tol):
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(_tokeq(p, q, tol) for p, q in zip(x, y))
    if isinstance(x, float) and isinstance(y, float):
        if math.isnan(x) or math.isnan(y):
            return math.isnan(x) and math.isnan(y)
        if math.isinf(x) or math.isinf(y):
            return x == y
        return abs(x - y) <= tol * (1.0 + abs(y))
    return x == y
