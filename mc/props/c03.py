"""Range: limits x style x default range x depth pair, on a grid of inputs."""
import boot
import refmodel as R
from common import *

clf = boot.clf()
BOUNDS = """All 16 subsets of the four limits x 3 value sets x style absent/clamp/noClamp/other x default-range
absent/on/switched off x 36 depth pairs; built with the constructor and setters, with setters only, and read
from a file; 13 inputs below, at, between and above the limits, as 1, 3 and 4 channel pixels."""
ASSUMPTIONS = ['limits with maxIn == minIn are outside the property']

# normalised limits (dyadic)
SETS = [(0.25, 0.75, 0.125, 0.875), (-0.5, 2.0, 0.0, 1.0), (0.0, 0.5, 0.75, -0.25)]
KEYS = ('minIn', 'maxIn', 'minOut', 'maxOut')
XS = [-1.0, -0.5, -0.125, 0.0, 0.0625, 0.25, 0.375, 0.5, 0.75, 0.8125, 1.0, 1.5, 2.5]
DOCS = '<?xml version="1.0"?><ProcessList id="p" compCLFversion="1.2">%s</ProcessList>'


def make(ch, d, how):
    """The three public ways of making the node."""
    if how == 'ctor':
        return R.build(clf, d)
    if how == 'setters':
        o = clf.Range()
        o.setInBitDepth(d['in'])
        o.setOutBitDepth(d['out'])
        for k, f in zip(KEYS, (o.setMinInValue, o.setMaxInValue, o.setMinOutValue, o.setMaxOutValue)):
            if d.get(k) is not None:
                f(d[k])
        if d.get('style'):
            o.setStyle(d['style'])
        if d.get('default') is not None:
            o.setDefaultRange(not d['default'])
            o.setDefaultRange(d['default'])
        return o
    p = ch.path('r.clf')
    write_text(p, DOCS % R.xml_node(d))
    return clf.ProcessList(p).getProcesses()[0]


def limits(ch):
    mask = ch.choose('limits', list(range(16)))
    vals = ch.choose('values', SETS if ch.thorough else SETS[:2] if mask != 15 else SETS)
    style = ch.choose('style', [None, 'clamp', 'noClamp', 'Clamp'] if ch.thorough else [None, 'clamp', 'noClamp'])
    default = ch.choose('defaultRange', [None, True, False])
    how = ch.choose('how', ['ctor', 'setters', 'file'])
    if how == 'ctor' and default is False:
        default = None
    if vals[3] < vals[2] and style != 'noClamp':
        raise __import__('explore').Prune()       # crossed limits have no clamped meaning
    pairs = [(a, b) for a in R.DEPTHS for b in R.DEPTHS]
    for a, b in pairs:
        d = R.D('Range', **{'in': a, 'out': b, 'style': style, 'default': default})
        for i, k in enumerate(KEYS):
            if mask >> i & 1:
                d[k] = vals[i] * R.full(a if i < 2 else b)
        # with the default range on, the supplied limits must not collapse
        eff = [d.get(k) for k in ('minIn', 'maxIn')]
        if default:
            lo = eff[0] / R.full(a) if eff[0] is not None else 0.0
            hi = eff[1] / R.full(a) if eff[1] is not None else 1.0
            if lo == hi:
                continue
            elo = d['minOut'] / R.full(b) if d.get('minOut') is not None else 0.0
            ehi = d['maxOut'] / R.full(b) if d.get('maxOut') is not None else 1.0
            if elo > ehi and style != 'noClamp':
                continue
        node = make(ch, d, how)
        pl = clf.ProcessList()
        pl.addProcess(node)
        xs = [x * R.full(a) for x in XS]
        want = R.ref_range(d, xs)
        got = pl.process(xs, 1)
        compare(ch, got, want, 'Range %s -> %s limits %s style %s default %s' % (a, b, d, style, default), R.full(b) * 2)
        if (a, b) in (('16f', '16f'), ('10i', '12i')):
            px = [[xs[i], xs[(i + 5) % 13], xs[(i + 9) % 13], xs[(i + 3) % 13]] for i in range(13)]
            check_pixels(ch, pl, [d], px, 'Range', scale=R.full(b) * 2, single=(b == '16f'))
            check_pixels(ch, pl, [d], [p[:3] for p in px], 'Range', scale=R.full(b) * 2)
        ch.step(len(xs))
        for x in xs:
            ch.state(mask, vals, style, default, how, a, b, x)


def resets(ch):
    """Setting and resetting limits and flags: the last value set counts."""
    o = clf.Range(ch.choose('in', ['16f', '8i']), ch.choose('out', ['16f', '10i']))
    d = {'t': 'Range', 'in': o.getInBitDepth(), 'out': o.getOutBitDepth()}
    depth = 4 if ch.thorough else 3
    for k in range(depth):
        op = ch.choose('op', ['minIn', 'maxIn', 'minOut', 'maxOut', 'default+', 'default-', 'clamp', 'noClamp', 'process'])
        if op in KEYS:
            f = R.full(d['in'] if op.endswith('In') else d['out'])
            base = {'minIn': 0.25, 'maxIn': 0.75, 'minOut': 0.125, 'maxOut': 0.5}[op]
            v = (base if d.get(op) is None else base + 0.0625) * f
            d[op] = v
            getattr(o, 'set%sValue' % (op[0].upper() + op[1:]))(v)
        elif op == 'default+':
            d['default'] = True
            o.setDefaultRange(True)
        elif op == 'default-':
            d['default'] = None
            o.setDefaultRange(False)
        elif op != 'process':
            d['style'] = op
            o.setStyle(op)
        xs = [x * R.full(d['in']) for x in XS]
        pl = clf.ProcessList()
        pl.addProcess(o)
        compare(ch, pl.process(xs), R.ref_range(d, xs), 'Range after %s' % ch.describe(), R.full(d['out']) * 2)
        ch.step(1 + len(xs))
        ch.state(sorted((k, str(v)) for k, v in d.items()))


HARNESSES = {'limits': limits, 'resets': resets}
