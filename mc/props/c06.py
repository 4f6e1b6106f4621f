"""Half-domain LUTs: all 65536 half codes, and points between all neighbours."""
import math

import boot
import refmodel as R
from common import *

clf = boot.clf()
BOUNDS = """All 65536 half-float bit patterns on the six tables: one and three channels, plain, raw-halfs and
permuted, as set and as written and read back; the midpoint and (thorough) the quarter points between every
two neighbouring finite half-floats on one- and three-channel tables; all halfs and every fifth (thorough: every) midpoint on two (thorough three) tables of infinities, NaN and
numbers in every neighbourhood; values beyond the largest half, in every
interpolation; 16f, 32f and integer input depths."""
N = 65536
BLOCK = 4096


def ramp(c):
    """A different single-precision value for every code, of moderate size and not smooth in c."""
    return ((c * 40503) % N) / 256.0 - 64.0


def tables():
    t = {}
    t['plain1'] = (1, [ramp(c) for c in range(N)], False)
    v = []
    for c in range(N):
        v += [ramp(c), ramp(c) + 512.0, 1024.0 - ramp(c)]
    t['plain3'] = (3, v, False)
    # values that are half-floats themselves: finite half code permuted
    fin = [R.half_of_code(c) for c in list(range(0x7c00)) + list(range(0x8000, 0xfc00))]
    k = len(fin)
    t['raw1'] = (1, [fin[(c * 7919) % k] for c in range(N)], True)
    v = []
    for c in range(N):
        v += [fin[(c * 7919) % k], fin[(c * 104729 + 5) % k], fin[(c * 31 + 77) % k]]
    t['raw3'] = (3, v, True)
    return t


TABLES = tables()
_made = {}


def made(name, how, ch):
    """The list for a table (cached: building and reading 65536 entries takes a second)."""
    if (name, how) not in _made:
        chn, v, raw = TABLES[name]
        d = R.D('LUT1D', ch=chn, v=v, half=True, raw=raw, interp='linear')
        pl = R.build_list(clf, [d])
        if how == 'file':
            vals = [str(R.code_of_half(x)) for x in v] if raw else [repr(x) for x in v]
            p = write_text(ch.path('h.clf'), '<ProcessList id="p" compCLFversion="1.2"><LUT1D inBitDepth="16f" '
                           'outBitDepth="16f" halfDomain="True"%s><Array dim="65536 %d">%s</Array></LUT1D></ProcessList>'
                           % (' rawHalfs="True"' if raw else '', chn, ' '.join(vals)))
            pl = clf.ProcessList(p)
        elif how == 'written':
            p = ch.path('h.clf')
            pl.writeFile(p)
            pl = clf.ProcessList(p)
        elif how == 'enc':
            d2 = dict(d, enc='hex16bit' if raw else 'integer32bit')
            p = ch.path('h.clf')
            R.build_list(clf, [d2]).writeFile(p)
            pl = clf.ProcessList(p)
        _made[name, how] = (d, pl)
    return _made[name, how]


def exact(ch):
    """Every half-float yields exactly its own entry (in single precision)."""
    name = ch.choose('table', sorted(TABLES))
    how = ch.choose('how', ['set', 'file'] if ch.thorough or name == 'plain1' else ['set'] if name == 'plain3' else ['file'])
    b = ch.choose('block', list(range(N // BLOCK)))
    check_block(ch, name, how, b)


def written(ch):
    """The same through the implementation's own writer (slow: few tables)."""
    name, how = ch.choose('table', [('raw1', 'written'), ('plain1', 'written')] +
                          ([('raw3', 'written'), ('plain3', 'written'), ('plain1', 'enc'), ('raw3', 'enc')] if ch.thorough else []))
    for b in range(N // BLOCK):
        if ch.thorough or b % 2:
            check_block(ch, name, how, b)
    _made.pop((name, how), None)


def check_block(ch, name, how, b):
    d, pl = made(name, how, ch)
    codes = list(range(b * BLOCK, (b + 1) * BLOCK))
    hs = [R.half_of_code(c) for c in codes]
    tb = R.tables(d)
    chn = d['ch']
    off = [0, 1, 2] if chn == 3 else [0, 0, 0]
    # channel k of pixel i gets code i+k, so that channels are told apart
    rot = [[hs[(i + k) % BLOCK] for k in range(3)] for i in range(BLOCK)] if chn == 3 else [[h] for h in hs]
    stride = len(rot[0])
    got = chunks(pl.process(flat(rot), stride), stride)
    for i, c in enumerate(codes):
        for k in range(stride):
            cc = codes[(i + k) % BLOCK]
            x = R.half_of_code(cc)
            g = got[i][k]
            if math.isnan(x):
                w = [tb[k][e] for e in (31745, cc, 0x7e00, 0xfe00)]
                ok = any(abs(g - e) <= 1e-6 * abs(e) for e in w)
            else:
                w = R.f32(tb[k][cc])
                ok = g == w or (how == 'file' and not d.get('raw') and abs(g - w) <= 1e-9)
            if not ok:
                ch.fail('half code %d (%r), channel %d of table %s (%s): got %r, expected %r' % (cc, x, k, name, how, g, w))
        ch.state(name, how, c)
    ch.step(BLOCK * stride)


def between(ch):
    """Between neighbours: linear interpolation of the two entries."""
    name = ch.choose('table', ['plain1', 'plain3'] if ch.thorough else ['plain1'])
    fr = ch.choose('fraction', [0.5, 0.25, 0.75, 0.9375] if ch.thorough else [0.25, 0.75])
    blk = 1984
    b = ch.choose('block', list(range(0x7c00 // blk)))
    sign = ch.choose('sign', [0, 0x8000])
    d, pl = made(name, 'set', ch)
    tb = R.tables(d)
    xs, want = [], []
    for c in range(b * blk, (b + 1) * blk):
        if not ch.thorough and c % 4 != (3 if fr == 0.25 else 1) and (c & 1023) not in (0, 1, 1022, 1023):
            continue
        if c + 1 >= 0x7c00:
            continue
        lo, hi = R.half_of_code(c + sign), R.half_of_code(c + 1 + sign)
        x = lo + (hi - lo) * fr
        xs.append(x)
        want.append([(1 - fr) * t[c + sign] + fr * t[c + 1 + sign] for t in tb])
        ch.state(name, fr, sign, c)
    if name == 'plain1':
        got = [[g] for g in pl.process(xs, 1)]
    else:
        got = chunks(pl.process(flat([[x] * 3 for x in xs]), 3), 3)
    for x, g, w in zip(xs, got, want):
        for k in range(len(g)):
            if not R.close(float(g[k]), w[k], 256.0, 3e-6):
                ch.fail('input %r (fraction %s between halfs), channel %d: got %r, expected %r' % (x, fr, k, float(g[k]), w[k]))
    ch.step(len(xs))


def beyond(ch):
    """Outside the finite halfs, special values, and integer input depths."""
    name = ch.choose('table', sorted(TABLES))
    how = ch.choose('how', ['set', 'file'])
    a = ch.choose('in', R.DEPTHS)
    out = ch.choose('out', R.DEPTHS)
    stride = ch.choose('stride', [1, 3, 4])
    interp = ch.choose('interpolation', ['linear', 'cubic', '', 'nearest'] if ch.thorough or out == a else ['linear'])
    d, pl0 = made(name, how, ch)
    node = pl0.getProcesses()[0]
    node.setAttribute('interpolation', interp)
    node.setInBitDepth(a)
    node.setOutBitDepth(out)
    try:
        tb = R.tables(d)
        f = R.full(a)
        for x in [65503.0, 65504.0, 65510.0, 65519.0, 65530.0, 65536.0, 1e6, 3e38, math.inf, 0.0, -0.0, 1.0, 0.5, math.nan,
                  6e-8, 1e-9, 1e-30, 0.3333333]:
            for s in (1.0, -1.0):
                v = R.f32(s * x)
                code = v * f
                px = ([code] * 3 + [4.25])[:stride]
                got = pl0.process(px, stride)
                w = [None] * stride
                for k in range(min(3, stride)):
                    g = float(got[k])
                    if math.isnan(v):
                        cand = [tb[k][31745]] + [tb[k][e] for e in range(0x7c01, 0x8000, 1)][:3]
                        ok = any(abs(g - e) < 1e-5 * max(1, abs(e)) for e in cand)
                    elif abs(v) > 65504.0:
                        base = 0 if v > 0 else 0x8000
                        cand = [tb[k][base + 0x7bff], tb[k][base + 0x7c00]]
                        if math.isinf(v):
                            cand = cand[1:]
                        ok = any(abs(g - e) < 1e-5 * max(1, abs(e)) for e in cand)
                    elif f != 1.0 and abs(v) > 16:
                        continue      # such codes do not occur at an integer depth
                    else:
                        p = R.f32(R.f32(code) / f)
                        e = [R.lut_half(tb[k], q) for q in (p, p * (1 - 2e-7), p * (1 + 2e-7))]
                        cand = [e[0]]
                        ok = min(e) - 1e-3 <= g <= max(e) + 1e-3 or any(abs(g - q) <= 1e-5 * max(1, abs(q)) for q in e)
                    if not ok:
                        ch.fail('input %r at depth %s, channel %d, table %s: got %r, expected %r' % (v, a, k, name, g, cand))
                if stride == 4:
                    ch.check(float(got[3]) == 4.25, 'the fourth channel became %r', float(got[3]))
                ch.step()
                ch.state(name, how, a, out, stride, str(v))
    finally:
        node.setAttribute('interpolation', 'linear')
        node.setInBitDepth('16f')
        node.setOutBitDepth('16f')


def sampled(ch):
    """Tables made by simpleSampledLUTHalfDomain."""
    chn = ch.choose('channels', [1, 3])
    raw = ch.choose('raw', [False, True])
    o = clf.simpleSampledLUTHalfDomain('a', 'b', chn, lambda x: x, rawHalfs=raw)
    pl = clf.ProcessList()
    pl.addProcess(o)
    tol = 0
    xs = [R.half_of_code(c) for c in list(range(0, 0x7c01, 7)) + [0x7c00] + list(range(0x8000, 0xfc01, 7)) + [0xfc00]]
    got = pl.process(xs, 1)
    for x, g in zip(xs, got):
        g = float(g)
        ch.check(g == x or abs(g - x) <= tol, 'identity half-domain LUT maps %r to %r', x, g)
        ch.state(chn, raw, tol, str(x))
    ch.step(len(xs))


def infinite(ch):
    """Tables holding infinities and NaN: every half still yields its own entry, whatever is beside it."""
    if ch.thorough:
        pattern, chn, how = ch.choose('pattern', sorted(PATTERNS)), ch.choose('channels', [1, 3]), ch.choose('how', ['set', 'file'])
    else:
        pattern, chn, how = ch.choose('table', [('every neighbourhood', 1, 'set'), ('overflow', 1, 'file')])
    f = PATTERNS[pattern]
    v = [f(c + 5 * k) for c in range(N) for k in range(chn)]
    d = R.D('LUT1D', ch=chn, v=v, half=True, raw=True, interp='linear')
    if how == 'set':
        pl = R.build_list(clf, [d])
    else:
        pl = clf.ProcessList(write_text(ch.path('h.clf'), '<ProcessList id="p" compCLFversion="1.2"><LUT1D inBitDepth="16f" outBitDepth="16f" '
                                        'halfDomain="True" rawHalfs="True"><Array dim="65536 %d">%s</Array></LUT1D></ProcessList>'
                                        % (chn, ' '.join('32256' if x != x else str(R.code_of_half(x)) for x in v))))
    codes = [c for c in range(N) if (c & 0x7fff) <= 0x7c00]
    xs = [R.half_of_code(c) for c in codes]
    got = chunks(pl.process(flat([[x] * chn for x in xs]), chn), chn)
    for c, x, g in zip(codes, xs, got):
        for k in range(chn):
            w = v[c * chn + k]
            ch.check(g[k] == w or (g[k] != g[k] and w != w), 'half code %d (%r), channel %d of pattern %s (%s): got %r, expected %r', c, x, k, pattern, how, g[k], w)
    ch.state(pattern, chn, how)
    at = [c for c in codes if (c & 0x7fff) < 0x7bff and (ch.thorough or c % 5 == 0 or (c & 1023) % 1008 < 16)]
    mid = [(R.half_of_code(c) + R.half_of_code(c + 1)) / 2 for c in at]
    got = chunks(pl.process(flat([[x] * chn for x in mid]), chn), chn)
    for c, x, g in zip(at, mid, got):
        for k in range(chn):
            w = v[c * chn + k] * 0.5 + v[(c + 1) * chn + k] * 0.5
            ch.check(g[k] == w or (g[k] != g[k] and w != w) or abs(g[k] - w) < 1e-5, 'input %r, channel %d of pattern %s (%s): got %r, expected %r', x, k, pattern, how, g[k], w)
    ch.step(len(xs) * 2 * chn)


_special = [0.25, math.inf, math.inf, 1.5, -math.inf, -math.inf, 2.0, math.nan, math.inf, math.nan, math.nan, -math.inf, math.inf, -2.5]
PATTERNS = {
    'every neighbourhood': lambda c: _special[c % N % len(_special)],
    'overflow': lambda c: [0.5, 1.0, 2.0, math.inf][(c % N >> 12) & 3],
    'reciprocal': lambda c: 0.0 if (c & 0x7fff) >= 0x7c00 else math.inf if c % N & 0x7fff < 4 else 1.0,
}

HARNESSES = {'infinite': infinite, 'exact': exact, 'written': written, 'between': between, 'beyond': beyond, 'sampled': sampled}
