"""Bypass."""
import explore
import boot
import refmodel as R
from common import *

clf = boot.clf()
BOUNDS = """All lists of 1..3 nodes (thorough 4) from an 8-kind alphabet with every assignment of bit depths along
the chain from a set of three depths (and mismatching neighbours), every subset of bypassed nodes, bypass given
as True / 'True' / false forms, in a list, inside a group (at any position) and in nested groups, set in code or read from a
file, with Autodesk features on, off, and switched between calls, strides 3 and 4 and one or three pixels."""
DEP = ['16f', '10i', '8i']
ALL = R.DEPTHS


def node(kind, a, b):
    fa, fb = R.full(a), R.full(b)
    d = {'in': a, 'out': b, 'name': kind}
    if kind == 'range':
        return R.D('Range', minIn=0.125 * fa, maxIn=0.875 * fa, minOut=0.0, maxOut=1.0 * fb, style='noClamp', **d)
    if kind == 'matrix':
        return R.D('Matrix', dim=[3, 3, 3], v=[0.5 * fb / fa, 0.25 * fb / fa, 0.0, 0.0, 0.75 * fb / fa, 0.125 * fb / fa, 0.25 * fb / fa, 0.0, 0.5 * fb / fa], **d)
    if kind == 'lut1':
        return R.D('LUT1D', ch=1, v=[x * fb for x in (0.0, 0.75, 0.875, 1.0)], interp='linear', **d)
    if kind == 'lut3':
        return R.D('LUT3D', dim=[2, 2, 2], v=[x * fb for x in lcg(24, 3)], **d)
    if kind == 'cdl':
        return R.D('CDL', style='FwdNoClamp', slope=[0.5, 0.75, 1.25], offset=[0.125, 0.0, 0.0625], **d)
    if kind == 'gamma':
        return R.D('Gamma', style='basicFwd', params=[(2.0, 0.0, None)], **d)
    if kind == 'log':
        return R.D('Log', style='antiLog2', **d)
    if kind == 'ec':
        return R.D('EC', style='linear', ecp=(1.0, 1.0, 0.5), **d)
    if kind == 'group':
        return R.D('Group', nodes=[node('gamma', a, '16f'), node('range', '16f', b)], **d)


KINDS = ['range', 'matrix', 'lut1', 'lut3', 'cdl', 'gamma', 'ec', 'group']
PIX = [[0.5, 0.25, 0.75], [0.375, 0.625, 0.125], [0.875, 1.0, 0.0625]]


def run(ch, pl, nodes, a, adsk, what):
    f = R.full(a)
    px = [[x * f for x in p] for p in PIX]
    last = R.flatten(nodes)
    # the first call decides whether the model's flag value is honoured; bypassed values keep their scale
    scale = max(R.full(d['in']) for d in nodes + last) * 4
    scale = max(scale, max(R.full(d['out']) for d in nodes + last) * 4)
    check_pixels(ch, pl, nodes, px, what, scale=scale, rel=1e-6, adsk=adsk)
    check_pixels(ch, pl, nodes, [px[1]], what, scale=scale, rel=1e-6, adsk=adsk)


def chain(ch):
    """Well-formed chains: every depth assignment, every bypass subset."""
    n = ch.choose('length', [1, 2, 3, 4] if ch.thorough else [1, 2, 3])
    dep = [ch.choose('d%d' % i, DEP if n > 1 else ALL) for i in range(n + 1)]
    kinds = KINDS if n <= 2 else ['lut1', 'cdl', 'gamma']
    if n == 4:
        kinds = ['cdl', 'gamma']
    if n == 3 and not ch.thorough:
        ks = [['gamma', 'cdl', 'lut1'][(i + ch.choose('kinds', [0, 1, 2])) % 3] if i == 0 else None for i in range(3)]
        base = ['gamma', 'cdl', 'lut1'].index(ks[0])
        ks = [['gamma', 'cdl', 'lut1'][(base + i) % 3] for i in range(3)]
    else:
        ks = [ch.choose('k%d' % i, kinds) for i in range(n)]
    mask = ch.choose('bypassed', list(range(1 << n)))
    form = ch.choose('form', ['code', 'file'])
    where = ch.choose('where', ['list', 'group'] if n < 3 or ch.thorough else ['list', 'group'])
    nodes = []
    for i in range(n):
        d = node(ks[i], dep[i], dep[i + 1])
        if mask >> i & 1:
            d['bypass'] = True
        nodes.append(d)
    if where == 'group':
        nodes = [R.D('Group', **{'in': dep[0], 'out': dep[n], 'nodes': nodes})]
    pl = R.build_list(clf, nodes)
    if form == 'file':
        p = ch.path('b.clf')
        write_text(p, R.xml_doc(nodes))
        pl = clf.ProcessList(p)
    run(ch, pl, nodes, dep[0], True, 'bypass %s of %s at %s' % (bin(mask), ks, dep))
    boot.features('Duiker Research')
    run(ch, pl, nodes, dep[0], False, 'bypass %s of %s with Autodesk off' % (bin(mask), ks))
    boot.features('All')
    run(ch, pl, nodes, dep[0], True, 'bypass %s of %s with Autodesk on again' % (bin(mask), ks))
    ch.state(dep, ks, mask, form, where)


def mismatched(ch):
    """Neighbours whose depths do not chain: the rule is about preceding-out and following-in."""
    n = 3
    bits = [(ch.choose('in%d' % i, DEP), ch.choose('out%d' % i, DEP)) for i in range(n)]
    mask = ch.choose('bypassed', [1, 2, 4, 3, 6, 5, 7])
    where = ch.choose('where', ['list', 'group', 'nested'] if ch.thorough else ['list', 'group'])
    nodes = []
    for i in range(n):
        d = node(['gamma', 'cdl', 'ec'][i], *bits[i])
        if mask >> i & 1:
            d['bypass'] = True
        nodes.append(d)
    if where != 'list':
        nodes = [R.D('Group', **{'in': bits[0][0], 'out': bits[-1][1], 'nodes': nodes})]
    if where == 'nested':
        nodes = [R.D('Group', **{'in': bits[0][0], 'out': bits[-1][1], 'nodes': nodes})]
    pl = R.build_list(clf, nodes)
    a = bits[0][0]
    f = R.full(a)
    for p in PIX:
        px = [x * f for x in p]
        want = R.ref_list(nodes, px)
        sc = max([abs(x) for x in want] + [1.0])
        compare(ch, pl.process(px), want, 'bypass %s at %s' % (bin(mask), bits), sc, 3e-6)
        ch.step(3)
    ch.state(bits, mask, where)


FORMS = [(True, True), (False, False), ('absent', False), (None, False)]


def forms(ch):
    """How bypass is given: True, False, absent; in code at construction, by attribute, in a file, and changed later."""
    val, on = ch.choose('value', FORMS)
    how = ch.choose('how', ['attribute', 'file', 'roundtrip', 'gzip'])
    kind = ch.choose('kind', KINDS)
    pos = ch.choose('position', [0, 1, 2])
    where = ch.choose('where', ['list', 'group', 'nested'])
    a, b = ch.choose('depths', [('16f', '16f'), ('10i', '8i'), ('16f', '12i')])
    nodes = [node('cdl', '16f', '16f'), node('ec', '16f', '16f')]
    d = node(kind, a, b)
    plain = dict(d)
    if val != 'absent' and val is not None:
        d['bypass'] = val
    chain_ = list(nodes)
    chain_.insert(pos, d)
    full = chain_
    model = [dict(x) for x in chain_]
    if on:
        model[pos]['bypass'] = True
    else:
        model[pos].pop('bypass', None)

    def wrap(ns):
        if where == 'list':
            return ns
        g = R.D('Group', nodes=ns)
        g['in'], g['out'] = ns[0]['in'], ns[-1]['out']
        return [g] if where == 'group' else [R.D('Group', **{'in': g['in'], 'out': g['out'], 'nodes': [g]})]
    full, model = wrap(full), wrap(model)
    p = ch.path('f.clf')
    if how == 'file':
        write_text(p, R.xml_doc(full))
        pl = clf.ProcessList(p)
    else:
        pl = R.build_list(clf, full)
        if how in ('roundtrip', 'gzip'):
            pl.writeFile(p, writeGzip=(how == 'gzip'))
            pl = clf.ProcessList(p)
    a0 = chain_[0]['in']
    run(ch, pl, model, a0, True, 'bypass=%r by %s' % (val, how))
    ch.state(str(val), how, kind, pos, where, a)


def switching(ch):
    """Sequences of switching bypass and the feature set between calls."""
    nodes = [node('gamma', '16f', '10i'), node('cdl', '10i', '16f'), node('ec', '16f', '8i')]
    where = ch.choose('where', ['list', 'group'])
    objs = [R.build(clf, d) for d in nodes]
    pl = clf.ProcessList()
    if where == 'group':
        g = clf.Group('16f', '8i')
        for o in objs:
            g.addProcess(o)
        pl.addProcess(g)
    else:
        for o in objs:
            pl.addProcess(o)
    adsk = True
    for i in range(5 if ch.thorough else 4):
        op = ch.choose('op', ['b0', 'b1', 'b2', 'adsk'])
        if op == 'adsk':
            adsk = not adsk
            boot.features('All' if adsk else 'Duiker Research')
        else:
            k = int(op[1])
            on = not nodes[k].get('bypass')
            nodes[k]['bypass'] = on
            objs[k].setAttribute('bypass', on)
        model = nodes if where == 'list' else [R.D('Group', **{'in': '16f', 'out': '8i', 'nodes': nodes})]
        run(ch, pl, model, '16f', adsk, 'after %s' % [x[1] for x in ch.describe()])
        ch.state(where, adsk, [bool(d.get('bypass')) for d in nodes])


HARNESSES = {'chain': chain, 'mismatched': mismatched, 'forms': forms, 'switching': switching}
