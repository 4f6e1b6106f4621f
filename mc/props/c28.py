"""Objects do not share state; results do not depend on history."""
import xml.etree.ElementTree as etree

import numpy as np

import boot
import explore
import refmodel as R
from common import *
from props.c12 import covers, expected, parsed

clf = boot.clf()
BOUNDS = """For every node type: all sequences of three (thorough four) operations (two different settings of its values, description, dynamic
parameter, attribute, depth, processing, printing, writing, re-reading from file) on two objects of the type, the second one created at any point;
all sequences of four (thorough five) operations on two lists that share a node; all sequences of up to four re-settings of tables, matrices
and index maps on new and on read nodes, with processing, printing or writing in between; every argument container for every setter; all
pairs of earlier calls before a process call; every node alone, bypassed, twice in a list and in a group, with its results overwritten. After every operation every object's written form and results are compared with what was set on it."""
ASSUMPTIONS = ['a list the caller goes on to change after handing it over is outside the property',
               'setting the depths of a list sets those of its end nodes, also where they are in another list']

PIX = [[0.5, 0.25, 0.75], [0.0625, 0.875, 0.375]]

# type -> (constructor, [settings]); a setting is (fields of the desc, function applying it)
CFG = {}


def cfg(t, new, *settings):
    CFG[t] = (new, settings)


cfg('Range', lambda: clf.Range('16f', '16f'),
    (dict(minIn=0.0, maxIn=1.0, minOut=0.125, maxOut=0.75), lambda o: (o.setMinInValue(0.0), o.setMaxInValue(1.0), o.setMinOutValue(0.125), o.setMaxOutValue(0.75))),
    (dict(minIn=0.25, maxIn=0.5, minOut=0.0, maxOut=2.0, style='noClamp'), lambda o: (o.setMinInValue(0.25), o.setMaxInValue(0.5), o.setMinOutValue(0.0), o.setMaxOutValue(2.0), o.setStyle('noClamp'))))
M1, M2, M3 = lcg(9, 5), lcg(12, 6), lcg(9, 9)
cfg('Matrix', lambda: clf.Matrix('16f', '16f'),
    (dict(dim=[3, 3, 3], v=M1), lambda o: o.setMatrix([3, 3, 3], list(M1))),
    (dict(dim=[3, 4, 3], v=M2), lambda o: o.setMatrix([3, 4, 3], list(M2))))
L1, L2 = lcg(4, 2), lcg(15, 3)
I1, I3 = [[0.0, 0.5, 1.0], [0, 1, 3]], [[[0.0, 1.0], [0, 4]], [[0.25, 0.5, 0.75], [0, 2, 4]], [[0.0, 0.125, 0.5, 1.0], [1, 2, 3, 4]]]
cfg('LUT1D', lambda: clf.LUT1D('16f', '16f'),
    (dict(ch=1, v=L1, imaps=None), lambda o: o.setArray(1, list(L1))),
    (dict(ch=3, v=L2, imaps=I3), lambda o: (o.setIndexMaps(*[[list(x[0]), list(x[1])] for x in I3]), o.setArray(3, list(L2)))))
V1, V2 = lcg(24, 13), lcg(36, 17)
cfg('LUT3D', lambda: clf.LUT3D('16f', '16f'),
    (dict(dim=[2, 2, 2], v=V1, imaps=None), lambda o: o.setArray([2, 2, 2], list(V1))),
    (dict(dim=[2, 3, 2], v=V2, imaps=[[[0.0, 0.5, 1.0], [0, 1, 1]]]), lambda o: (o.setIndexMaps([[0.0, 0.5, 1.0], [0, 1, 1]]), o.setArray([2, 3, 2], list(V2)))))
cfg('CDL', lambda: clf.ASCCDL('16f', '16f'),
    (dict(style='Fwd', slope=[1.25, 0.75, 1.5], sat=0.5), lambda o: (o.setSlope(1.25, 0.75, 1.5), o.setSaturation(0.5))),
    (dict(style='Fwd', offset=[0.125, 0.0, 0.25], power=[1.5, 2.0, 1.0]), lambda o: (o.setOffset(0.125, 0.0, 0.25), o.setPower(1.5, 2.0, 1.0))))
cfg('CC', lambda: clf.ColorCorrection(),
    (dict(slope=[1.25, 0.75, 1.5], sat=0.5), lambda o: (o.setSlope(1.25, 0.75, 1.5), o.setSaturation(0.5))),
    (dict(offset=[0.125, 0.0, 0.25], power=[1.5, 2.0, 1.0]), lambda o: (o.setOffset(0.125, 0.0, 0.25), o.setPower(1.5, 2.0, 1.0))))
cfg('Gamma', lambda: clf.Gamma('16f', '16f', style='basicFwd'),
    (dict(style='basicFwd', params=[(2.0, 0.0, None)]), lambda o: o.setGamma(2.0, 0.0, None)),
    (dict(style='basicFwd', params=[(1.5, 0.0, 'G')]), lambda o: o.setGamma(1.5, 0.0, 'G')))
cfg('Log', lambda: clf.Log('16f', '16f', style='logToLin'),
    (dict(style='logToLin', params=[(0.6, 685.0, 95.0, 1.0, 0.0, None)]), lambda o: o.setLogParams(0.6, 685.0, 95.0, 1.0, 0.0, None)),
    (dict(style='logToLin', params=[(0.5, 650.0, 64.0, 0.75, 0.125, 'B')]), lambda o: o.setLogParams(0.5, 650.0, 64.0, 0.75, 0.125, 'B')))
cfg('EC', lambda: clf.ExposureContrast('16f', '16f', style='linear'),
    (dict(style='linear', ecp=(1.0, 1.0, 0.5)), lambda o: o.setExposureContrastPivot(1.0, 1.0, 0.5)),
    (dict(style='linear', ecp=(-1.0, 1.5, 0.25)), lambda o: o.setExposureContrastPivot(-1.0, 1.5, 0.25)))
G1, G2 = R.D('EC', style='linear', ecp=(1.0, 1.0, 0.5)), R.D('CDL', style='Fwd', slope=[0.5, 0.75, 0.25])
cfg('Group', lambda: clf.Group('16f', '16f'),
    (dict(add=G1), lambda o: o.addProcess(R.build(clf, G1))),
    (dict(add=G2), lambda o: o.addProcess(R.build(clf, G2))))
cfg('Ref', lambda: clf.Reference('16f', '16f'),
    (dict(path='/nowhere/a', basePath=None), lambda o: o.setPaths(path='/nowhere/a')),
    (dict(path='b', basePath='/nowhere'), lambda o: o.setPaths(path='b', basePath='/nowhere')))
TYPES = sorted(CFG)
READY = {'Matrix', 'LUT1D', 'LUT3D'}      # need their table before they can process


class Obj(object):
    """An implementation node and the desc of what was set on it."""

    def __init__(self, t):
        self.t = t
        self.o = CFG[t][0]()
        self.d = R.D(t)
        if t == 'Group':
            self.d['nodes'] = []
        if t in ('Gamma', 'Log', 'EC', 'CDL'):
            self.d['style'] = {'Gamma': 'basicFwd', 'Log': 'logToLin', 'EC': 'linear', 'CDL': 'Fwd'}[t]
        if t == 'EC':
            self.d['ecp'] = (0.0, 1.0, 1.0)

    def ready(self):
        return self.t not in READY or 'v' in self.d

    def set(self, k):
        fields, fn = CFG[self.t][1][k]
        fn(self.o)
        for f, v in fields.items():
            if f == 'add':
                self.d['nodes'] = self.d['nodes'] + [v]
            elif f == 'imaps' and v is None:
                pass                            # setArray alone keeps the maps
            elif f == 'params':
                # later parameters take precedence over earlier ones
                self.d['params'] = self.d.get('params', []) + list(v)
            elif v is None:
                self.d.pop(f, None)
            else:
                self.d[f] = v

    def judge(self, ch, what):
        if not self.ready():
            return
        ps = [p[-1] for p in self.d.get('params', [])]
        if len(ps) == len(set(ps)):             # else how many of them are kept is up to the node
            root = etree.Element('ProcessList')
            self.o.write(root)
            r = covers(R.canon(root), expected([self.d]))
            ch.check(r is None, '%s: %s', what, r)
        if self.t == 'Ref' or not bad(self.d):
            check_pixels(ch, self.o, [self.d], PIX, what, rel=1e-5, scale=4.0)


def bad(d):
    """Maps that lead beyond the table (a smaller table set later under old maps) clamp: keep it out of the pixel check."""
    if d['t'] in ('LUT1D', 'LUT3D') and d.get('imaps'):
        n = [len(d['v']) // d['ch']] * 3 if d['t'] == 'LUT1D' else d['dim']
        return any(max(m[1]) > n[i] - 1 for i, m in enumerate(d['imaps'] * (3 if len(d['imaps']) == 1 else 1)))
    return False


def apply(ch, x, op):
    o = x.o
    if op in ('set 1', 'set 2'):
        x.set(int(op[-1]) - 1)
    elif op == 'describe':
        o.addElement(clf.Description('text %d' % len(x.d.get('descs', []))))
        x.d['descs'] = x.d.get('descs', []) + ['text %d' % len(x.d.get('descs', []))]
    elif op == 'dynamic':
        o.setDynamicParam('P%d' % len(x.d.get('dyn', [])))
        x.d['dyn'] = x.d.get('dyn', []) + ['P%d' % len(x.d.get('dyn', []))]
    elif op == 'attribute':
        k = 'k%d' % len(x.d.get('attrs', {}))
        o.setAttribute(k, 'v')
        x.d['attrs'] = dict(x.d.get('attrs', {}), **{k: 'v'})
    elif op == 'name':
        if x.t == 'CC':
            raise explore.Prune()
        o.setAttribute('name', 'called')
        x.d['name'] = 'called'
    elif op == 'process':
        if not x.ready() or bad(x.d):
            raise explore.Prune()
        o.process([0.75, 0.125, 0.375, 0.5], 4)
        o.process(np.array([0.9, 0.1, 0.3], np.float32))
    elif op == 'print':
        if not x.ready():
            raise explore.Prune()
        o.printInfo()
    elif op == 'reread':
        if not x.ready():
            raise explore.Prune()
        pl = clf.ProcessList()
        pl.addProcess(o)
        p = ch.path('n.clf')
        pl.writeFile(p)
        x.o = clf.ProcessList(p).getProcesses()[0]


OPS = ['set 1', 'set 2', 'describe', 'dynamic', 'attribute', 'name', 'process', 'print', 'reread']


def pairs(ch):
    """Two objects of one type."""
    t = ch.choose('type', TYPES)
    a = Obj(t)
    b = None
    pre = ch.choose('before', ['nothing', 'set 1', 'set 2'] if ch.thorough else ['nothing', 'set 1'])
    if pre != 'nothing':
        apply(ch, a, pre)
    for i in range(4 if ch.thorough else 3):
        who = ch.choose('object', [0, 1])
        if who == 1 and b is None:
            b = Obj(t)
            b.judge(ch, 'a new %s after %s' % (t, [x[1] for x in ch.describe()]))
        op = ch.choose('op', OPS)
        apply(ch, [a, b][who], op)
        what = '%s after %s' % (t, [x[1] for x in ch.describe()])
        a.judge(ch, 'first ' + what)
        if b is not None:
            b.judge(ch, 'second ' + what)
        ch.state(t, repr(a.d), repr(b.d if b else None))
    fresh = Obj(t)
    fresh.judge(ch, 'a new %s at the end' % t)
    fresh.set(1)
    fresh.judge(ch, 'a new %s set at the end' % t)
    a.judge(ch, 'first %s at the end' % t)


RESET = {'LUT1D': ['a1', 'a3', 'b1', 'i1', 'i3', 'use'], 'LUT3D': ['a', 'b', 'c', 'i1', 'i3', 'use'], 'Matrix': ['a', 'b', 'c', 'use']}
IM = {'i1': [[[0.0, 0.5, 1.0], [0, 1, 1]]], 'i3': [[[0.0, 1.0], [0, 1]], [[0.25, 0.5, 0.75], [0, 1, 1]], [[0.0, 0.125, 0.5, 1.0], [0, 0, 1, 1]]]}
TAB = {'LUT1D': {'a1': (1, lcg(4, 2)), 'a3': (3, lcg(15, 3)), 'b1': (1, lcg(2, 8))},
       'LUT3D': {'a': ([2, 2, 2], lcg(24, 13)), 'b': ([2, 3, 2], lcg(36, 17)), 'c': ([3, 3, 3], lcg(81, 19))},
       'Matrix': {'a': ([3, 3, 3], lcg(9, 5)), 'b': ([3, 4, 3], lcg(12, 6)), 'c': ([3, 3, 3], lcg(9, 9))}}


def again(ch):
    """Setting again is as setting once."""
    t = ch.choose('type', sorted(RESET))
    start = ch.choose('start', ['new', 'read'])
    new = {'LUT1D': clf.LUT1D, 'LUT3D': clf.LUT3D, 'Matrix': clf.Matrix}[t]
    d = R.D(t)
    o = new('16f', '16f')
    if start == 'read':
        k = sorted(TAB[t])[-1]
        p = ch.path('r.clf')
        d.update({'ch': TAB[t][k][0], 'v': TAB[t][k][1]} if t == 'LUT1D' else {'dim': TAB[t][k][0], 'v': TAB[t][k][1]})
        if t != 'Matrix':
            d['imaps'] = IM['i3']
        write_text(p, R.xml_doc([d]))
        o = clf.ProcessList(p).getProcesses()[0]
    for i in range(ch.choose('length', [1, 2, 3, 4, 5] if ch.thorough else [1, 2, 3, 4])):
        op = ch.choose('op', RESET[t])
        if op == 'use':
            if 'v' not in d:
                raise explore.Prune()
            o.process([0.5, 0.25, 0.75])
            o.printInfo()
            o.write(etree.Element('x'))
        elif op.startswith('i'):
            o.setIndexMaps(*[[list(m[0]), list(m[1])] for m in IM[op]])
            d['imaps'] = IM[op]
        else:
            dim, v = TAB[t][op]
            if t == 'LUT1D':
                o.setArray(dim, list(v))
                d.update(ch=dim, v=v)
            elif t == 'LUT3D':
                o.setArray(list(dim), list(v))
                d.update(dim=dim, v=v)
            else:
                o.setMatrix(list(dim), list(v))
                d.update(dim=dim, v=v)
    if 'v' not in d:
        raise explore.Prune()
    what = '%s after %s' % (t, [x[1] for x in ch.describe()])
    check_pixels(ch, o, [d], PIX, what, scale=2.0)
    pl = clf.ProcessList()
    pl.addProcess(o)
    p = ch.path('w.clf')
    pl.writeFile(p)
    r = covers(parsed(p, False), expected([d]))
    ch.check(r is None, '%s: the file %s', what, r)
    check_pixels(ch, clf.ProcessList(p), [d], PIX, what + ', written and read', scale=2.0)
    if t == 'LUT1D':
        ch.equal(list(map(int, o.getLUTDimensions())), [len(d['v']) // d['ch'], d['ch']], what + ': table dimensions')
    if t != 'Matrix':
        ch.check([float(x) for x in o.getLUTValues()] == d['v'], '%s: table values', what)
        for i, m in enumerate(d.get('imaps') or []):
            ch.check([list(map(float, x)) for x in o.getIndexMapValues(i)] == [list(map(float, x)) for x in m], '%s: index map %d', what, i)
    fresh = R.build(clf, d)
    ch.check(same_bits(fresh.process(flat(PIX), 3), o.process(flat(PIX), 3)), '%s: results differ from a fresh node', what)
    ch.step(4)
    ch.state(t, start, [x[1] for x in ch.describe()])


NODE = {'a': R.D('LUT1D', ch=1, v=[0.0, 0.5, 0.625, 1.0], id='a'), 'b': R.D('CDL', style='Fwd', slope=[0.5, 0.75, 0.25], id='b'),
        'c': R.D('Gamma', style='basicFwd', params=[(2.0, 0.0, None)], id='c')}
LOPS = ['a to 1', 'a to 2', 'b to 1', 'c to 2', 'describe 1', 'attribute 1', 'attribute 2', 'describe 2', 'process 1', 'process 2', 'print 1', 'write 1', 'self-contained 2',
        '1 read into 2', 'set a', 'new list']


def two_lists(ch):
    """Two lists that may share a node."""
    o = {k: R.build(clf, NODE[k]) for k in NODE}
    d = {k: dict(NODE[k]) for k in NODE}
    ls = [clf.ProcessList(), clf.ProcessList()]
    nodes = [[], []]
    attrs = [{}, {}]
    texts = [[], []]
    for i in range(5 if ch.thorough else 4):
        op = ch.choose('op', LOPS)
        k = int(op[-1]) - 1 if op[-1] in '12' else 0
        if ' to ' in op:
            ls[k].addProcess(o[op[0]])
            nodes[k].append(d[op[0]])
        elif op.startswith('describe'):
            ls[k].addElement(clf.Description('t%d' % len(texts[k])))
            texts[k].append('t%d' % len(texts[k]))
        elif op.startswith('attribute'):
            ls[k].setName('list %d' % k)
            ls[k].setAttribute('x%d' % len(attrs[k]), 'y')
            attrs[k]['x%d' % len(attrs[k])] = 'y'
            attrs[k]['name'] = 'list %d' % k
        elif op.startswith('process'):
            ls[k].process([0.9, 0.8, 0.7], 3)
        elif op.startswith('print'):
            ls[k].printInfo()
        elif op.startswith('write'):
            ls[k].writeFile(ch.path('a.clf'))
        elif op.startswith('self'):
            ls[k].writeFile(ch.path('a.clf'), writeSelfContained=True, writeGzip=True)
        elif op == '1 read into 2':
            p = ch.path('a.clf')
            ls[0].writeFile(p)
            ls[1] = clf.ProcessList(p)
            nodes[1], attrs[1], texts[1] = [dict(x) for x in nodes[0]], dict(attrs[0]), list(texts[0])
        elif op == 'set a':
            o['a'].setArray(1, [0.0, 0.75, 1.0])
            d['a']['v'] = [0.0, 0.75, 1.0]
        else:
            n = clf.ProcessList()
            ch.check(len(n) == 0 and n.getProcesses() == [] and n.getName() is None, 'a new list is not empty')
            n.addProcess(R.build(clf, NODE['b']))
        for j in (0, 1):
            what = 'list %d after %s' % (j + 1, [x[1] for x in ch.describe()])
            inner = ''.join('<Description>%s</Description>' % t for t in texts[j])
            at = ''.join(' %s="%s"' % (a, b) for a, b in attrs[j].items())
            r = covers(R.canon(ls[j].write().getroot()), expected(nodes[j], inner, at))
            ch.check(r is None, '%s: %s', what, r)
            check_pixels(ch, ls[j], nodes[j], PIX, what, scale=2.0, rel=1e-5)
        ch.state(op, repr(nodes), repr(attrs), repr(texts))


KIND = ['list', 'tuple', 'float32', 'float64', 'shared']


def arguments(ch):
    """No setter, and nothing done later, changes what the caller passed in; two objects may be given the same list."""
    t = ch.choose('setter', ['matrix', 'lut1', 'lut3', 'imap1', 'imap3', 'imap lut3'])
    kind = ch.choose('container', KIND)
    ops = [ch.choose('op', ['process', 'print', 'write', 'write encoded', 'set other', 'none']) for _ in range(3 if ch.thorough else 2)]

    def hold(v):
        return {'list': list, 'shared': list, 'tuple': tuple, 'float32': lambda x: np.array(x, np.float32), 'float64': lambda x: np.array(x, np.float64)}[kind](v)
    kept = []

    def keep(v):
        h = hold(v)
        kept.append((h, list(v)))
        return h
    dims = []

    def dim(v):
        v = list(v)
        dims.append((v, list(v)))
        return v
    enc = {'floatEncoding': 'hex32bit'} if 'write encoded' in ops else {}
    d = None
    if t == 'matrix':
        o, o2 = clf.Matrix('16f', '16f'), clf.Matrix('16f', '16f')
        v = keep(lcg(12, 6))
        dm = dim([3, 4, 3])
        o.setMatrix(dm, v, **enc)
        o2.setMatrix(dm, v)
        d = R.D('Matrix', dim=[3, 4, 3], v=lcg(12, 6))
    elif t in ('lut1', 'imap1', 'imap3'):
        o, o2 = clf.LUT1D('16f', '16f'), clf.LUT1D('16f', '16f')
        v = keep(lcg(15, 3))
        d = R.D('LUT1D', ch=3, v=lcg(15, 3))
        if t != 'lut1':
            d['imaps'] = [I1] if t == 'imap1' else I3
            if t == 'imap1':
                d['imaps'] = [[[0.0, 0.5, 1.0], [0, 1, 4]]]
            ms = [[keep(m[0]), keep(m[1])] for m in d['imaps']]
            o.setIndexMaps(*ms)
            o2.setIndexMaps(*ms)
        o.setArray(3, v, **enc)
        o2.setArray(3, v)
    else:
        o, o2 = clf.LUT3D('16f', '16f'), clf.LUT3D('16f', '16f')
        v = keep(lcg(36, 17))
        dm = dim([2, 3, 2])
        d = R.D('LUT3D', dim=[2, 3, 2], v=lcg(36, 17))
        if t == 'imap lut3':
            d['imaps'] = [[[0.0, 0.5, 1.0], [0, 1, 1]]]
            ms = [[keep(m[0]), keep(m[1])] for m in d['imaps']]
            o.setIndexMaps(*ms)
            o2.setIndexMaps(*ms)
        o.setArray(dm, v, **enc)
        o2.setArray(dm, v)
    for op in ops:
        if op == 'process':
            o.process(flat(PIX), 3)
        elif op == 'print':
            o.printInfo()
        elif op.startswith('write'):
            o.write(etree.Element('x'))
        elif op == 'set other':
            if t == 'matrix':
                o2.setMatrix([3, 3, 3], lcg(9, 5))
            elif t in ('lut3', 'imap lut3'):
                o2.setArray([2, 2, 2], lcg(24, 5))
            else:
                o2.setArray(1, lcg(4, 2))
        for h, v in kept:
            ch.check([float(x) for x in h] == [float(x) for x in v], '%s with a %s: after %s the argument is %s', t, kind, op, list(h))
        for h, v in dims:
            ch.check(h == v, '%s: after %s the dimensions argument is %s', t, op, h)
        check_pixels(ch, o, [d], PIX, '%s with a %s after %s' % (t, kind, op), scale=2.0)
    if 'set other' not in ops:
        check_pixels(ch, o2, [d], PIX, '%s: second object' % t, scale=2.0)
    ch.state(t, kind, ops)


PNODES = [R.D('Range', minIn=0.0, maxIn=1.0, minOut=0.125, maxOut=0.75), R.D('Matrix', dim=[3, 3, 3], v=lcg(9, 5)), R.D('LUT1D', ch=3, v=lcg(15, 3)),
          R.D('LUT1D', ch=1, v=lcg(5, 3), interp='cubic'), R.D('LUT1D', ch=1, v=lcg(5, 3), imaps=[[[0.0, 0.5, 1.0], [0, 1, 4]]]),
          R.D('LUT3D', dim=[2, 3, 2], v=lcg(36, 17)), R.D('LUT3D', dim=[3, 2, 2], v=lcg(36, 18), interp='tetrahedral'), R.D('LUT3D', dim=[2, 3, 2], v=lcg(36, 17), imaps=[[[0.0, 0.5, 1.0], [0, 1, 1]]]),
          R.D('CDL', style='Fwd', slope=[0.5, 0.75, 0.25], sat=0.5), R.D('CDL', style='RevNoClamp', slope=[0.5, 0.75, 0.25]), R.D('CC', offset=[0.125, 0.0, 0.25]),
          R.D('Gamma', style='moncurveFwd', params=[(2.4, 0.055, None), (2.0, 0.1, 'G')]), R.D('Log', style='linToLog', params=[(0.6, 685.0, 95.0, 1.0, 0.0, None), (0.5, 650.0, 64.0, 0.75, 0.125, 'B')]),
          R.D('EC', style='video', ecp=(0.5, 1.25, 0.25)), R.D('EC', style='log', ecp=(0.5, 1.25, 0.25)), R.D('Group', nodes=[G1, G2])]
CALLS = [([0.5, 0.25, 0.75], 0), ([0.5, 0.25, 0.75, 0.1, 0.2, 0.3], 3), ([0.9, 0.8, 0.7, 0.6], 4), ([-1.0, 2.0, 0.0], 3), ([0.3, 0.6, 0.9], 3), ([float('nan'), 0.5, float('inf')], 3)]


def calls(ch):
    """What was processed before does not matter."""
    i = ch.choose('node', range(len(PNODES)))
    level = ch.choose('level', ['node', 'list', 'other list'])
    hist = [ch.choose('call', range(len(CALLS))) for _ in range(3 if ch.thorough else 2)]
    last = ch.choose('last', range(5))
    verbose = ch.flag('verbose')
    d = PNODES[i]
    o = R.build(clf, d)
    pl = clf.ProcessList()
    pl.addProcess(o)
    pl2 = clf.ProcessList()
    pl2.addProcess(o)
    sub = {'node': o, 'list': pl, 'other list': pl2}[level]
    for h in hist:
        if h == 5 and d['t'] not in ('LUT1D', 'Matrix'):
            continue
        try:
            sub.process(list(CALLS[h][0]), CALLS[h][1], verbose)
        except Exception:
            if h != 5:
                raise
    vals, st = CALLS[last]
    got = pl.process(list(vals), st)
    want = R.build_list(clf, [d]).process(list(vals), st)
    ch.check(same_bits(got, want), '%s after calls %s: %s, a fresh one %s', d['t'], hist, list(got), list(want))
    got = pl2.process(list(vals), st)
    ch.check(same_bits(got, want), '%s after calls %s, in the other list: %s, a fresh one %s', d['t'], hist, list(got), list(want))
    ch.step(len(hist) + 2)
    ch.state(i, level, hist, last)


def results(ch):
    """What is returned belongs to the caller: the input stays, and overwriting the result changes nothing else."""
    i = ch.choose('node', [-1] + list(range(len(PNODES))))
    level = ch.choose('level', ['list', 'node', 'twice in a list', 'in a group'])
    bypass = ch.flag('bypass')
    kind = ch.choose('container', ['list', 'float32', 'float64', 'slice'])
    vals, st = CALLS[ch.choose('call', [0, 1, 2, 3])]
    if i < 0 and (level not in ('list', 'in a group') or bypass) or level == 'in a group' and i >= 0 and (PNODES[i]['t'] in ('Group', 'CC') or bypass):
        raise explore.Prune()
    d = PNODES[i] if i >= 0 else None

    def new():
        o = R.build(clf, d) if d else None
        if bypass:
            o.setAttribute('bypass', True)
        if level == 'node':
            return o
        pl = clf.ProcessList()
        if level == 'in a group':
            g = clf.Group('16f', '16f')
            if o:
                g.addProcess(o)
            o = g
        if o:
            pl.addProcess(o)
        if level == 'twice in a list':
            pl.addProcess(o)
        return pl
    a, b = new(), new()
    if kind == 'slice':
        v = np.array([7.0] + vals + [7.0], np.float32)[1:-1]
    else:
        v = {'list': list, 'float32': lambda x: np.array(x, np.float32), 'float64': lambda x: np.array(x, np.float64)}[kind](vals)
    start = [float(x) for x in v]
    r = a.process(v, st)
    what = '%s (%s%s) given a %s' % (d['t'] if d else 'nothing', level, ', bypassed' if bypass else '', kind)
    ch.check(r is not v, '%s returns its argument', what)
    ch.check([float(x) for x in v] == start, '%s: the argument is %s after processing', what, list(v))
    first = [float(x) for x in r]
    r2 = a.process(v, st)
    for k in range(len(r)):
        r[k] = 9.0 + k
    ch.check([float(x) for x in v] == start, '%s: the argument is %s after the result was written to', what, list(v))
    ch.check([float(x) for x in r2] == first, '%s: the second result is %s after the first was written to', what, list(r2))
    ch.check(same_bits(a.process(v, st), b.process(v, st)), '%s: differs from a fresh one after the result was written to', what)
    ch.step(4)
    ch.state(i, level, bypass, kind, st)


HARNESSES = {'results': results, 'pairs': pairs, 'again': again, 'two_lists': two_lists, 'arguments': arguments, 'calls': calls}
