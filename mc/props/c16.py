"""Groups."""
import gzip
import itertools

import numpy as np

import boot
import explore
import refmodel as R
from common import *

clf = boot.clf()
BOUNDS = """All sequences of up to three (thorough four) nodes from an alphabet of all node types, put into every forest of groups with up to
two (thorough three) groups, empty ones and nesting included, built in code, written plain or gzipped and read back, or read from an own-written
document; strides 0, 3, 4 and 5, one and several pixels; named and described groups and members; groups holding every
sequence of up to two (thorough three) descriptions, descriptors and info elements before, among and after their members; operation histories of adding to groups,
processing and writing, to depth four (thorough five)."""

ALPHA = [R.D('Range', minIn=0.0, maxIn=1.0, minOut=0.125, maxOut=0.5, style='noClamp'),
         R.D('Matrix', dim=[3, 3, 3], v=[0.5, 0.25, 0.0, 0.125, 0.75, 0.0, 0.0, 0.25, 0.5]),
         R.D('LUT1D', ch=3, v=[0.0, 0.25, 0.125, 0.5, 0.75, 0.625, 1.0, 1.25, 1.5]),
         R.D('LUT3D', dim=[2, 3, 2], v=lcg(36, 13)),
         R.D('CDL', style='FwdNoClamp', slope=[1.25, 0.75, 1.5], offset=[0.0625, 0.0, 0.03125], sat=0.5),
         R.D('CC', slope=[0.5, 0.75, 0.25]),
         R.D('Gamma', style='basicFwd', params=[(2.0, 0.0, None), (1.5, 0.0, 'G')]),
         R.D('Log', style='antiLog2'),
         R.D('EC', style='linear', ecp=(1.0, 1.0, 0.5)),
         R.D('Ref', path='missing.clf')]
SMALL = [0, 2, 4, 6]
PIX = [[0.5, 0.25, 0.75], [0.0625, 0.875, 0.375], [0.625, 0.125, 1.0]]


def forests(n, g, depth=3):
    """All forests with n leaves and exactly g groups: lists of 'x' or nested lists."""
    if depth < 0:
        return
    if n == 0 and g == 0:
        yield []
        return
    if n > 0:
        for rest in forests(n - 1, g, depth):
            yield ['x'] + rest
    if g > 0 and depth > 0:
        for k in range(n + 1):
            for h in range(g):
                for inner in forests(k, h, depth - 1):
                    for rest in forests(n - k, g - 1 - h, depth):
                        yield [inner] + rest


def shapes(n, gmax):
    out = []
    for g in range(1, gmax + 1):
        out += list(forests(n, g))
    return out


SHAPES = {(n, g): shapes(n, g) for n in range(5) for g in (1, 2, 3)}


def fill(shape, leaves, counter, first='16f'):
    out = []
    for s in shape:
        if s == 'x':
            out.append(leaves.pop(0))
        else:
            counter[0] += 1
            k = counter[0]
            inner = fill(s, leaves, counter)
            out.append(R.D('Group', nodes=inner, id='g%d' % k, name='group %d' % k, descs=['desc of %d' % k, 'more <%d>' % k]))
    return out


def same_nodes(ch, nodes, descs, what):
    """Types, order, names, ids of the node tree."""
    names = {'CDL': 'ASC_CDL', 'CC': 'ColorCorrection', 'EC': 'ExposureContrast', 'Ref': 'Reference'}
    ch.equal([n.getNodeType() for n in nodes], [names.get(d['t'], d['t']) for d in descs], '%s: node types' % what)
    for n, d in zip(nodes, descs):
        if d['t'] != 'CC':
            ch.equal(n.getAttribute('name') or '', d.get('name', ''), '%s: name' % what)
        ch.equal(n.getAttribute('id') or '', d.get('id', ''), '%s: id' % what)
        if d['t'] == 'Group':
            same_nodes(ch, n.getProcesses(), d['nodes'], what)
            for m in d['nodes']:
                if m.get('name'):
                    first = [i for i, x in enumerate(d['nodes']) if x.get('name') == m['name'] and x['t'] != 'CC']
                    if first:
                        got = n.getProcess(m['name'])
                        ch.check(got is n.getProcesses()[first[0]], '%s: getProcess(%r) inside a group', what, m['name'])
            ch.check(n.getProcess('no such name') is None, '%s: getProcess of an absent name', what)


def descriptions(tree):
    return [(R.local(e.tag), [c.text for c in e if R.local(c.tag) == 'Description']) for e in tree.getroot().iter()
            if R.local(e.tag) != 'ProcessList' and any(R.local(c.tag) == 'Description' for c in e)]


def transparent(ch):
    n = ch.choose('nodes', [0, 1, 2, 3, 4] if ch.thorough else [0, 1, 2, 3])
    pool = range(len(ALPHA)) if n <= 2 else (SMALL if ch.thorough else SMALL[:3])
    if n == 4:
        pool = SMALL[:2]
    leaves = []
    for i in range(n):
        d = dict(ALPHA[ch.choose('node', pool)])
        d['id'] = 'n%d' % i
        d['name'] = ['first', 'other', 'first', 'last'][i]
        d['descs'] = ['about %d' % i]
        leaves.append(d)
    shape = ch.choose('shape', SHAPES[n, 3 if (ch.thorough and n < 4) or n < 2 else 2])
    how = ch.choose('how', ['code', 'file', 'gzip', 'document'] if n < 3 or ch.thorough else ['code', 'file'])
    descs = fill(shape, list(leaves), [0])
    flat_ = R.build_list(clf, leaves)
    pl = R.build_list(clf, descs)
    tree_descs = descriptions(pl.write())
    if how in ('file', 'gzip'):
        p, q = ch.path('g.clf'), ch.path('f.clf')
        pl.writeFile(p, writeGzip=(how == 'gzip'))
        flat_.writeFile(q, writeGzip=(how == 'gzip'))
        pl, flat_ = clf.ProcessList(p), clf.ProcessList(q)
    elif how == 'document':
        p, q = ch.path('g.clf'), ch.path('f.clf')
        write_text(p, R.xml_doc(descs))
        write_text(q, R.xml_doc(leaves))
        pl, flat_ = clf.ProcessList(p), clf.ProcessList(q)
    what = '%s of %s, %s' % (shape, [d['t'] for d in leaves], how)
    same_nodes(ch, pl.getProcesses(), descs, what)
    ch.equal(descriptions(pl.write()), tree_descs, '%s: descriptions' % what)
    for stride in (3, 4, 5):
        px = [p[:] + [7.0, -3.0][:stride - 3] for p in PIX]
        a, b = pl.process(flat(px), stride), flat_.process(flat(px), stride)
        ch.check(same_bits(a, b), '%s, stride %d: grouped %s, in place %s', what, stride, [float(x) for x in a], [float(x) for x in b])
        for p in px:
            a, b = pl.process(p), flat_.process(p)
            ch.check(same_bits(a, b), '%s: grouped %s, in place %s', what, [float(x) for x in a], [float(x) for x in b])
        ch.step(4)
    check_pixels(ch, pl, leaves, PIX, what, rel=1e-5, scale=4.0)
    ch.state(shape, [d['t'] for d in leaves], how)


DEP = ['8i', '10i', '16f']


def depths(ch):
    """Groups of nodes with integer depths, whatever depths the group itself states."""
    n = ch.choose('nodes', [1, 2, 3])
    dep = [ch.choose('depth', DEP) for _ in range(n + 1)]
    own = ch.choose('group depths', [('16f', '16f'), ('8i', '10i'), 'same'])
    at = ch.choose('from', range(n))
    to = ch.choose('to', range(at, n + 1))
    stride = ch.choose('stride', [0, 3, 4])
    how = ch.choose('how', ['code', 'file'])
    nodes = []
    for i in range(n):
        a, b = dep[i], dep[i + 1]
        k = {'in': a, 'out': b}
        fb = R.full(b)
        nodes.append([R.D('CDL', style='Fwd', slope=[0.5, 0.75, 0.875], offset=[0.125, 0.0, 0.0625], **k),
                      R.D('LUT1D', ch=1, v=[x * fb for x in (0.0, 0.5, 0.625, 1.0)], **k),
                      R.D('Gamma', style='basicFwd', params=[(2.0, 0.0, None)], **k)][(i + at) % 3])
    io = (dep[at], dep[to]) if own == 'same' else own
    g = R.D('Group', nodes=nodes[at:to], **{'in': io[0], 'out': io[1]})
    descs = nodes[:at] + [g] + nodes[to:]
    pl, fl = R.build_list(clf, descs), R.build_list(clf, nodes)
    if how == 'file':
        p = ch.path('g.clf')
        pl.writeFile(p)
        pl = clf.ProcessList(p)
        p = ch.path('f.clf')
        fl.writeFile(p)
        fl = clf.ProcessList(p)
    f = R.full(dep[0])
    px = [[x * f for x in q[:3]] + ([0.5] if stride == 4 else []) for q in PIX]
    if stride == 0:
        px = px[:1]
    a, b = pl.process(flat(px), stride), fl.process(flat(px), stride)
    ch.check(same_bits(a, b), 'depths %s, group %d..%d: %s, in place %s', dep, at, to, list(a), list(b))
    if stride != 4:
        check_pixels(ch, pl, nodes, px, 'depths %s' % dep, scale=max(R.full(x) for x in dep))
    ch.step(1)
    ch.state(dep, own, at, to, stride, how)


OPS = ['add to outer', 'add to inner', 'add to list', 'add inner to outer', 'write and read', 'switch file']


def history(ch):
    """A list with two groups, grown step by step; after each step it acts as its leaves in order."""
    kinds = [ALPHA[2], ALPHA[4], ALPHA[6], ALPHA[0], ALPHA[8]]
    inner_d, outer_d = [], []
    list_d = []
    inner, outer = clf.Group('16f', '16f', 'i', 'inner'), clf.Group('16f', '16f', 'o', 'outer')
    pl = clf.ProcessList()
    od = R.D('Group', nodes=outer_d)
    pl.addProcess(outer)
    list_d.append(od)
    added = False
    for i in range(5 if ch.thorough else 4):
        op = ch.choose('op', OPS[:5])
        if op.startswith('add to'):
            d = kinds[ch.choose('node', range(3)) if ch.thorough else (i % len(kinds))]
            o = R.build(clf, d)
            if op == 'add to outer':
                outer.addProcess(o)
                outer_d.append(d)
            elif op == 'add to inner':
                inner.addProcess(o)
                inner_d.append(d)
            else:
                pl.addProcess(o)
                list_d.append(d)
        elif op == 'add inner to outer':
            if added:
                raise explore.Prune()
            added = True
            outer.addProcess(inner)
            outer_d.append(R.D('Group', nodes=inner_d))
        else:
            p = ch.path('h.clf')
            pl.writeFile(p)
            check_pixels(ch, clf.ProcessList(p), list_d, PIX, 'read back after %s' % [x[1] for x in ch.describe()], rel=1e-5, scale=4.0)
            ch.equal(descr(clf.ProcessList(p).getProcesses()), descr(pl.getProcesses()), 'tree after reading')
        check_pixels(ch, pl, list_d, PIX, 'after %s' % [x[1] for x in ch.describe()], rel=1e-5, scale=4.0)
        check_pixels(ch, outer, outer_d, PIX, 'outer group alone', rel=1e-5, scale=4.0)
        ch.equal(len(outer.getProcesses()), len(outer_d), 'members of the outer group')
        ch.equal(len(inner.getProcesses()), len(inner_d), 'members of the inner group')
        ch.state(op, len(outer_d), len(inner_d), len(list_d), added)


def descr(nodes):
    return [(n.getNodeType(), descr(n.getProcesses()) if n.getNodeType() == 'Group' else None) for n in nodes]


KINDS = [('Description', 'about it'), ('InputDescriptor', 'from <here>'), ('OutputDescriptor', 'to & there'),
         ('Info', (('AppRelease', '1.5'), ('Copyright', 'none'))), ('Info', (('Copyright', 'x'),)), ('Description', 'once more')]
HELD = ('Description', 'InputDescriptor', 'OutputDescriptor', 'Info')


def held(e):
    """The elements a group holds besides its members, in order."""
    return [(R.local(c.tag), tuple((R.local(x.tag), x.text) for x in c) if R.local(c.tag) == 'Info' else c.text) for c in e if R.local(c.tag) in HELD]


def as_xml(k, v):
    esc = lambda s: s.replace('&', '&amp;').replace('<', '&lt;')
    return '<%s>%s</%s>' % (k, ''.join(as_xml(a, b) for a, b in v) if isinstance(v, tuple) else esc(v), k)


def as_object(k, v):
    if k == 'Info':
        return clf.Info(**{'appRelease' if a == 'AppRelease' else 'copyright': b for a, b in v})
    return getattr(clf, k)(v)


def contents(ch):
    """Descriptions, descriptors and info elements a group holds stay with it."""
    want = [ch.choose('element', KINDS) for _ in range(ch.choose('elements', [1, 2, 3] if ch.thorough else [1, 2]))]
    n = ch.choose('nodes', [0, 1, 2])
    depth = ch.choose('depth', [1, 2])
    how = ch.choose('how', ['code', 'plain', 'gzip'])
    nodes = [ALPHA[2], ALPHA[4]][:n]
    if how == 'code':
        g = R.build(clf, R.D('Group', nodes=nodes))
        for t, v in want:
            g.addElement(as_object(t, v))
        if depth == 2:
            outer = clf.Group()
            outer.addProcess(g)
            g = outer
        pl = clf.ProcessList()
        pl.addProcess(g)
    else:
        where = ch.choose('where', ['before', 'after', 'among']) if n == 2 else ch.choose('where', ['before', 'after']) if n else 'before'
        k = {'before': 0, 'after': n, 'among': 1}[where]
        parts = [R.xml_node(d) for d in nodes]
        parts.insert(k, ''.join(as_xml(*x) for x in want))
        text = '<ProcessList>%s%s%s</ProcessList>' % ('<Group>' * depth, ''.join(parts), '</Group>' * depth)
        p = ch.path('in.clf')
        write_text(p, gzip.compress(text.encode('utf-8')) if how == 'gzip' else text)
        pl = clf.ProcessList(p)
    for again in range(3):
        groups = [e for e in pl.write().getroot().iter() if R.local(e.tag) == 'Group']
        ch.equal(len(groups), depth, 'groups')
        ch.equal(held(groups[-1]), want, 'elements of the group, written %d times' % again)
        if depth == 2:
            ch.equal(held(groups[0]), [], 'elements of the outer group')
        check_pixels(ch, pl, nodes, PIX, 'a group with elements', rel=1e-5, scale=4.0)
        p = ch.path('o.clf')
        pl.writeFile(p, writeGzip=bool(again % 2))
        pl = clf.ProcessList(p)
    ch.step()
    ch.state(tuple(want), n, depth, how)


def own_call(ch):
    """Group.process called directly: with lists and arrays, the argument untouched, an empty group the identity."""
    n = ch.choose('nodes', [0, 1, 2])
    leaves = [ALPHA[ch.choose('node', range(len(ALPHA)))] for _ in range(n)]
    arg = ch.choose('argument', ['list', 'float32', 'float64'])
    stride = ch.choose('stride', [0, 3, 4])
    verbose = ch.flag('verbose')
    g = R.build(clf, R.D('Group', nodes=leaves))
    px = [p + [0.5] * (stride == 4) for p in PIX]
    if stride == 0:
        px = px[:1]
    vals = flat(px)
    a = vals if arg == 'list' else np.array(vals, getattr(np, arg))
    got = chunks(g.process(a, stride, verbose), len(px[0]))
    for p, r in zip(px, got):
        w = R.ref_list(leaves, p)
        if stride == 4:
            w = R.ref_list(leaves, p[:3]) + (p[3:] if not any(d['t'] == 'Range' for d in leaves) else [r[3]])
        compare(ch, r, w, 'group of %s called with %s' % ([d['t'] for d in leaves], arg), 4.0, 1e-5)
    ch.check([float(x) for x in a] == vals, 'group of %s changed its %s argument', [d['t'] for d in leaves], arg)
    ch.step()
    ch.state([d['t'] for d in leaves], arg, stride)


HARNESSES = {'transparent': transparent, 'depths': depths, 'history': history, 'contents': contents, 'own_call': own_call}
