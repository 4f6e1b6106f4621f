"""Helpers shared by the property modules."""
import math
import os
import struct
import sys

import refmodel as R

MARGIN = os.environ.get('MC_MARGIN')


def flat(pixels):
    return [x for p in pixels for x in p]


def chunks(vals, stride):
    vals = [float(v) for v in vals]
    return [vals[i:i + stride] for i in range(0, len(vals), stride)]


def compare(ch, got, want, what, scale=1.0, rel=2e-6):
    m = R.mismatch(got, want, scale, rel)
    if m:
        ch.fail('%s: %s (got %s, expected %s)' % (what, m, [float(x) for x in got][:12], [float(x) for x in want][:12]))
    if MARGIN:
        for g, w in zip(got, want):
            g, w = float(g), float(w)
            if not (math.isnan(w) or math.isinf(w)):
                r = abs(g - w) / (rel * abs(w) + rel * scale)
                if r > 0.3:
                    open(MARGIN, 'a').write('%.2f %s %s %r %r\n' % (r, ch.harness, what[:100], g, w))


def check_pixels(ch, obj, nodes, pixels, what='', rel=2e-6, scale=None, adsk=True, single=False):
    """obj.process on all pixels in one call (and one by one) against the model."""
    stride = len(pixels[0])
    if scale is None:
        fn = R.flatten(nodes)
        scale = R.scale_of(fn[-1]) if fn else 1.0
    want = [R.ref_list(nodes, p, adsk) for p in pixels]
    got = chunks(obj.process(flat(pixels), stride), stride)
    if len(got) != len(pixels):
        ch.fail('%s: %d pixels out for %d in' % (what, len(got), len(pixels)))
    for p, g, w in zip(pixels, got, want):
        compare(ch, g, w, '%s pixel %s' % (what, p), scale, rel)
    ch.step(len(pixels))
    if single:
        for p, w in zip(pixels, want):
            compare(ch, obj.process(list(p)), w, '%s single pixel %s' % (what, p), scale, rel)
        ch.step(len(pixels))
    return got


def bits32(x):
    return struct.pack('<f', float(x))


def same_bits(a, b):
    """Two sequences of floats equal bit for bit in single precision (NaN = NaN)."""
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        x, y = float(x), float(y)
        if x != x and y != y:
            continue
        if bits32(x) != bits32(y):
            return False
    return True


def write_text(path, text):
    with open(path, 'wb') as f:
        f.write(text.encode('utf-8') if isinstance(text, str) else text)
    return path


def read_bytes(path):
    with open(path, 'rb') as f:
        return f.read()


def lcg(n, seed=1, mod=64, div=64.0):
    """A fixed, non-separable list of dyadic numbers (not random: the same always)."""
    out, x = [], seed * 7919 + 13
    for _ in range(n):
        x = (x * 1103515245 + 12345) % (1 << 31)
        out.append(((x >> 12) % mod) / div)
    return out
