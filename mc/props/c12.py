"""Write / read round trip of ProcessLists."""
import gzip
import io
import itertools
import sys
import xml.etree.ElementTree as etree

import boot
import explore
import refmodel as R
from common import *

clf = boot.clf()
BOUNDS = """Every variant of every node type (all styles, parameter sets, table shapes, index maps, depth pairs, bypass,
dynamic parameters, descriptions, extra attributes) written plain and gzipped, alone, in a group and nested; all
sequences of up to two nodes (thorough three) from a 12-node alphabet; every subset of the six list attributes with every
sequence of up to two (thorough three) of the four list element kinds; 29 texts in every text slot; 26 edge numbers in every
numeric slot. Each file is parsed independently and compared element by element, read back, compared again, processed
against the model, and written and read a second time."""
ASSUMPTIONS = ['index map outputs are whole numbers, as the format defines them',
               'text holds no line breaks or tabs, which XML normalises in attributes',
               'text in an attribute the format does not know is not literally True or False']

LOGP = (0.6, 685.0, 95.0, 1.0, 0.0)
VARIANTS = []


def add(t, **k):
    VARIANTS.append(R.D(t, **k))


for st in (None, 'clamp', 'noClamp'):
    for lim in itertools.product([None, 0.125], [None, 0.75], [None, -0.25], [None, 1.5]):
        d = dict(zip(('minIn', 'maxIn', 'minOut', 'maxOut'), lim))
        add('Range', style=st, **d)
add('Range', default=True)
add('Range', default=True, minOut=0.25)
add('Range', minIn=0.0, maxIn=1023.0, minOut=0.0, maxOut=255.0, **{'in': '10i', 'out': '8i'})
add('Matrix', dim=[3, 3, 3], v=lcg(9, 5))
add('Matrix', dim=[3, 4, 3], v=lcg(12, 6))
add('Matrix', dim=[3, 3, 3], v=[255.0 * x for x in lcg(9, 7)], **{'in': '16f', 'out': '8i'})
for ch_ in (1, 3):
    for n in (2, 3, 5, 12):
        add('LUT1D', ch=ch_, v=lcg(n * ch_, n), interp='linear')
    for it in ('cubic', 'none-such'):
        add('LUT1D', ch=ch_, v=[i / (4.0 * ch_) for i in range(4 * ch_)], interp=it)
    for m in ([[[0.0, 0.25, 1.0], [0, 2, 4]]],
              [[[0.0, 0.25, 1.0], [0, 2, 4]], [[-1.0, 2.0], [0, 4]], [[0.0, 0.1, 0.3, 0.9], [0, 1, 3, 4]]]):
        add('LUT1D', ch=ch_, v=lcg(5 * ch_, 9), imaps=m)
add('LUT1D', ch=1, v=[0.0, 300.0, 1023.0], interp='linear', **{'in': '8i', 'out': '10i'})
for dim in ([2, 2, 2], [3, 3, 3], [2, 3, 4]):
    for it in (None, 'trilinear', 'tetrahedral'):
        d = {'dim': dim, 'v': lcg(dim[0] * dim[1] * dim[2] * 3, 11)}
        if it:
            d['interp'] = it
        add('LUT3D', **d)
add('LUT3D', dim=[2, 2, 2], v=lcg(24, 13), imaps=[[[0.0, 0.5, 1.0], [0, 1, 1]]])
add('LUT3D', dim=[2, 3, 2], v=lcg(36, 13), imaps=[[[0.0, 1.0], [0, 1]], [[0.0, 0.25, 1.0], [0, 1, 2]], [[0.5, 1.0], [0, 1]]])
for t in ('CDL', 'CC'):
    for st in ((None, 'Fwd', 'Rev', 'FwdNoClamp', 'RevNoClamp', 'v1.2_Fwd', 'v1.2_Rev', 'noClampFwd', 'noClampRev') if t == 'CDL' else (None,)):
        for k in range(16) if st is None else (15,):
            d = {}
            if k & 1:
                d['slope'] = [1.25, 0.75, 1.5]
            if k & 2:
                d['offset'] = [0.0625, -0.125, 0.03125]
            if k & 4:
                d['power'] = [1.5, 0.5, 2.0]
            if k & 8:
                d['sat'] = 0.75
            if st:
                d['style'] = st
            add(t, **d)
for st in ('basicFwd', 'basicRev', 'moncurveFwd', 'moncurveRev'):
    for ps in ([(2.4, 0.055, None)], [(2.4, 0.055, None), (2.0, 0.1, 'G')], [(2.0, 0.1, 'R'), (1.5, 0.2, 'G'), (2.2, 0.099, 'B')]):
        add('Gamma', style=st, params=ps)
for st in ('log10', 'log2', 'antiLog10', 'antiLog2'):
    add('Log', style=st)
for st in ('logToLin', 'linToLog'):
    for ps in ([LOGP + (None,)], [LOGP + (None,), (0.55, 600.0, 64.0, 0.9, 0.05, 'B')],
               [(0.5, 685.0, 95.0, 1.0, 0.0, 'R'), (0.6, 650.0, 95.0, 1.0, 0.0, 'G'), (0.7, 600.0, 64.0, 0.75, 0.125, 'B')]):
        add('Log', style=st, params=ps)
for st in ('linear', 'video', 'log'):
    add('EC', style=st, ecp=(0.5, 1.25, 0.25))
add('Ref', path='no such file.clf')
add('Ref', path='a.clf', basePath='/nowhere/at all', alias='x & y')
add('Group', nodes=[])
add('Group', nodes=[R.D('EC', style='linear', ecp=(1.0, 1.0, 0.5), id='e'), R.D('Gamma', style='basicFwd', params=[(2.0, 0.0, None)], name='g')])

PIX = [[0.5, 0.25, 0.75], [0.0625, 0.875, 0.375], [1.25, -0.125, 1.0]]


# ---- comparing a written document with what was described ------------------------------

def kids(c):
    out = {}
    for k in c[3]:
        out.setdefault(k[0], []).append(k)
    return out


ORDERED = ('ProcessList', 'Group')      # whose children's order means something as a whole
HARMLESS = {'id': [''], 'name': ['']}


def covers(got, want, where='', tol=6e-10):
    """None, or what of the expected element is missing from or different in the written one."""
    where = where + '/' + want[0]
    if got[0] != want[0]:
        return '%s: element %s' % (where, got[0])
    for k in want[1]:
        if k not in got[1]:
            return '%s: attribute %s missing' % (where, k)
        if not R._tokeq(got[1][k], want[1][k], 1e-12):
            return '%s: attribute %s is %r instead of %r' % (where, k, got[1][k], want[1][k])
    for k in got[1]:
        if k in want[1]:
            continue
        if got[1][k] == '' and k in ('id', 'name'):
            continue
        if k in ('style', 'interpolation', 'offset', 'channel', 'defaultRange', 'rawHalfs', 'halfDomain'):
            continue                      # a default spelled out; whether it is the right one shows in the pixels
        return '%s: unexpected attribute %s=%r' % (where, k, got[1][k])
    if len(got[2]) != len(want[2]):
        return '%s: %d values instead of %d' % (where, len(got[2]), len(want[2]))
    for x, y in zip(got[2], want[2]):
        if not R._tokeq(x, y, tol):
            return '%s: %r instead of %r' % (where, x, y)
    if want[0] in ORDERED:
        nodes = lambda c: [k[0] for k in c[3] if k[0] in NODETAGS]
        if nodes(got) != nodes(want):
            return '%s: nodes %s instead of %s' % (where, nodes(got), nodes(want))
    g, w = kids(got), kids(want)
    for k in set(g) | set(w):
        a, b = g.get(k, []), w.get(k, [])
        if k in ('SOPNode', 'SatNode') and not b and all(not x[2] and not x[3] for x in a):
            continue
        if len(a) != len(b):
            return '%s: %d elements %s instead of %d' % (where, len(a), k, len(b))
        for x, y in zip(a, b):
            r = covers(x, y, where, tol)
            if r:
                return r
    return None


NODETAGS = ('Range', 'Matrix', 'LUT1D', 'LUT3D', 'ASC_CDL', 'ColorCorrection', 'Gamma', 'Log', 'ExposureContrast', 'Group', 'Reference')


def expected(nodes, inner='', attrs=''):
    return R.canon(etree.fromstring(R.xml_doc(nodes, attrs=attrs, inner=inner).encode('utf-8')))


def tree_of(pl):
    return R.canon(pl.write().getroot())


def parsed(path, gz):
    data = read_bytes(path)
    if gz:
        data = gzip.decompress(data)
    return R.canon(etree.fromstring(data))


def trip(ch, pl, nodes, gz, inner='', attrs='', want=None, pixels=PIX, rel=2e-6, scale=None):
    """Write, look at the file, read, compare, write and read again."""
    p, q = ch.path('a.clf'), ch.path('b.clf')
    want = want or expected(nodes, inner, attrs)
    kw = {'writeGzip': True} if gz else {}
    before = tree_of(pl)
    pl.writeFile(p, **kw)
    ch.check((read_bytes(p)[:2] == b'\x1f\x8b') == gz, 'gzip %s but the file starts %r', gz, read_bytes(p)[:8])
    doc = parsed(p, gz)
    r = covers(doc, want)
    ch.check(r is None, 'the written file: %s', r)
    r = R.canon_diff(tree_of(pl), before)
    ch.check(r is None, 'writing changed the list: %s', r)
    back = clf.ProcessList(p)
    r = R.canon_diff(tree_of(back), doc, tol=7e-8)
    ch.check(r is None, 'what was read, written again, differs from the file: %s', r)
    ch.equal([n.getNodeType() for n in back.getProcesses()], [n.getNodeType() for n in pl.getProcesses()], 'node types after reading')
    back.writeFile(q, **kw)
    again = clf.ProcessList(q)
    r = R.canon_diff(parsed(q, gz), doc, tol=7e-8)
    ch.check(r is None, 'writing what was read: %s', r)
    r = R.canon_diff(tree_of(again), tree_of(back))
    ch.check(r is None, 'reading again: %s', r)
    if pixels:
        fi = R.full(nodes[0].get('in', '16f')) if nodes else 1.0
        px = [[x * fi for x in p_] for p_ in pixels]
        check_pixels(ch, back, nodes, px, 'after reading', rel=rel, scale=scale)
        a, b = back.process(flat(px), 3), again.process(flat(px), 3)
        ch.check(same_bits(a, b), 'second generation gives %s, the first %s', list(a), list(b))
        c = pl.process(flat(px), 3)
        sc = scale or (R.scale_of(R.flatten(nodes)[-1]) if R.flatten(nodes) else 1.0)
        compare(ch, a, [float(x) for x in c], 'after reading against before writing', sc, rel)
    ch.step(4)
    return back


def dressed(d, kind):
    d = dict(d)
    cc = d['t'] == 'CC'
    if kind == 'plain':
        return d
    d['id'] = 'id-1'
    if not cc:
        d['name'] = 'The "name" <1>'
    if kind == 'named':
        return d
    d['descs'] = ['first & foremost', 'second <b>', 'first & foremost']
    if kind == 'described':
        return d
    d['dyn'] = ['EXPOSURE', 'CONTRAST']
    d['attrs'] = {'custom': 'kept', 'other': 'x y'}
    return d


def node(ch):
    """Every variant of every node."""
    i = ch.choose('variant', range(len(VARIANTS)))
    d = dressed(VARIANTS[i], ch.choose('dress', ['plain', 'named', 'described', 'full']))
    gz = ch.flag('gzip')
    where = ch.choose('where', ['list', 'group', 'nested'] if ch.thorough or d['t'] in ('Range', 'EC', 'Ref') else ['list', 'group'])
    b = ch.choose('bypass', [None, True, False]) if (i % 5 == 0 or ch.thorough) else None
    if b is not None:
        d['bypass'] = b
    nodes = [d]
    if where != 'list':
        nodes = [R.D('Group', nodes=nodes, id='g')]
    if where == 'nested':
        nodes = [R.D('Group', nodes=nodes + [R.D('EC', style='linear', ecp=(1.0, 1.0, 0.5))])]
    pl = R.build_list(clf, nodes)
    if d.get('interp') in ('cubic',):
        px = None                          # the model of cubic is in C04
        back = trip(ch, pl, nodes, gz, pixels=None)
        a, b_ = back.process(flat(PIX), 3), pl.process(flat(PIX), 3)
        compare(ch, a, [float(x) for x in b_], 'cubic table after reading', 1.0)
        return
    safe = [p for p in PIX if not (d['t'] == 'CDL' and min(p) < 0)]
    if d['t'] == 'Log' and 'anti' not in d['style']:
        safe = PIX[:2]
    trip(ch, pl, nodes, gz, pixels=safe, rel=1e-5 if d['t'] in ('Log', 'Gamma') else 2e-6, scale=max(R.full(d['in']), R.full(d['out'])))
    ch.state(i, str(b), where, gz, len(d))


SEQ = [R.D('Range', minIn=0.0, maxIn=1.0, minOut=0.0, maxOut=0.5, style='noClamp', id='r'),
       R.D('Matrix', dim=[3, 3, 3], v=lcg(9, 5), name='m'),
       R.D('LUT1D', ch=3, v=[0.0, 0.25, 0.125, 0.5, 0.75, 0.625, 1.0, 1.25, 1.5], descs=['l1']),
       R.D('LUT1D', ch=1, v=[0.0, 0.5, 1.0, 4.0], imaps=[[[0.0, 0.5, 1.0], [0, 1, 3]]]),
       R.D('LUT3D', dim=[2, 2, 2], v=lcg(24, 13)),
       R.D('CDL', style='Fwd', slope=[1.25, 0.75, 1.5], sat=0.5),
       R.D('CC', offset=[0.25, 0.125, 0.0]),
       R.D('Gamma', style='basicFwd', params=[(2.0, 0.0, None)], dyn=['G']),
       R.D('Log', style='antiLog2'),
       R.D('EC', style='linear', ecp=(1.0, 1.0, 0.5), bypass=True),
       R.D('Ref', path='missing.clf'),
       R.D('Group', nodes=[R.D('EC', style='linear', ecp=(-1.0, 1.0, 0.5)), R.D('Gamma', style='basicFwd', params=[(2.0, 0.0, 'G')])], name='grp')]


def lists(ch):
    n = ch.choose('length', [0, 1, 2, 3] if ch.thorough else [0, 1, 2])
    nodes = [SEQ[ch.choose('node', range(len(SEQ)))] for _ in range(n)]
    gz = ch.flag('gzip')
    pl = R.build_list(clf, nodes)
    trip(ch, pl, nodes, gz, pixels=PIX[:2], rel=1e-5, scale=8.0)
    ch.state([d['t'] for d in nodes], gz)


LATTR = [('setName', 'getName', 'name', 'A <list> & "co"'), ('setID', 'getID', 'id', 'urn:uuid:1-2'),
         ('setInverseOf', 'getInverseOf', 'inverseOf', 'that other one'), ('setCompCLFversion', 'getCompCLFversion', 'compCLFversion', '1.2'),
         ('setNamespace', 'getNamespace', 'xmlns', 'urn:NATAS:AMPAS:LUT:v2.0'), (None, None, 'extra', 'more')]
LELEM = [('Description', ['a description', 'another']), ('InputDescriptor', ['scene <linear>', 'in2']), ('OutputDescriptor', ['display', 'out2']),
         ('Info', [('app 1.0', '(c) me & co'), ('only app', '')])]


def header(ch):
    """List attributes and elements."""
    mask = ch.choose('attributes', range(64))
    ks = []
    for i in range(ch.choose('elements', [0, 1, 2, 3] if ch.thorough else [0, 1, 2])):
        ks.append(LELEM[ch.choose('kind', range(4))])
    gz = ch.flag('gzip')
    first = ch.choose('elements added', ['before nodes', 'after nodes'])
    pl = clf.ProcessList()
    attrs = inner = ''
    for i, (s, g, k, v) in enumerate(LATTR):
        if mask >> i & 1:
            getattr(pl, s)(v) if s else pl.setAttribute(k, v)
            if k != 'xmlns':
                attrs += ' %s="%s"' % (k, R.esc(v))
    nodes = [SEQ[7], SEQ[9]]
    if first == 'after nodes':
        for d in nodes:
            pl.addProcess(R.build(clf, d))
    used = {}
    for k, vals in ks:
        v = vals[used.get(k, 0) % 2]
        used[k] = used.get(k, 0) + 1
        if k == 'Info':
            pl.addElement(clf.Info(*v))
            inner += '<Info><AppRelease>%s</AppRelease>%s</Info>' % (R.esc(v[0]), '<Copyright>%s</Copyright>' % R.esc(v[1]) if v[1] else '')
        else:
            pl.addElement(getattr(clf, k)(v))
            inner += '<%s>%s</%s>' % (k, R.esc(v), k)
    if first == 'before nodes':
        for d in nodes:
            pl.addProcess(R.build(clf, d))
    p = ch.path('h.clf')
    pl.writeFile(p, writeGzip=gz)
    data = gzip.decompress(read_bytes(p)) if gz else read_bytes(p)
    root = etree.fromstring(data)
    ns = 'urn:NATAS:AMPAS:LUT:v2.0' if mask & 16 else ''
    ch.equal(root.tag, ('{%s}' % ns if ns else '') + 'ProcessList', 'root element of the file')
    want = expected(nodes, inner, attrs)
    r = covers(R.canon(root), want)
    ch.check(r is None, 'the written file: %s', r)
    order = [R.local(c.tag) for c in root if R.local(c.tag) in ('Description', 'InputDescriptor', 'OutputDescriptor', 'Info')]
    ch.equal(order, [k for k, _ in ks], 'order of the elements in the file')
    back = clf.ProcessList(p)
    for i, (s, g, k, v) in enumerate(LATTR):
        w = v if mask >> i & 1 else None
        ch.equal(back.getAttribute(k), w, 'attribute %s after reading' % k)
        if g:
            ch.equal(getattr(back, g)(), w, '%s() after reading' % g)
    q = ch.path('h2.clf')
    back.writeFile(q, writeGzip=gz)
    d2 = gzip.decompress(read_bytes(q)) if gz else read_bytes(q)
    root2 = etree.fromstring(d2)
    ch.equal(root2.tag, root.tag, 'root element of the file written after reading')
    r = R.canon_diff(R.canon(root2), R.canon(root))
    ch.check(r is None, 'writing what was read: %s', r)
    check_pixels(ch, back, nodes, PIX[:2], 'after reading')
    ch.step(2)
    ch.state(mask, [k for k, _ in ks], gz)


TEXTS = ['plain', 'a b  c', 'x & y', 'x < y > z', '<Range/>', '&amp;', '&#65;', '"quoted" \'single\'', ']]>', '<![CDATA[x]]>', '<!-- c -->',
         'caf\xe9', '\u65e5\u672c\u8a9e', '\u20ac \xa3', 'emoji \U0001f3a8', '{urn:x}y', 'a/b\\c', '100%', '%s %d', '\xa0nbsp', '-', '1.0', 'e\u0301', 'x;y,z',
         'True', 'False', 'true', 'None', '', ' padded ']
SLOTS = ['node name', 'node id', 'node description', 'list name', 'list id', 'inverseOf', 'Description', 'InputDescriptor', 'OutputDescriptor',
         'AppRelease', 'Copyright', 'dynamic param', 'node attribute', 'ref path', 'ref alias', 'group name', 'style-less attribute', 'version', 'value element', 'node value element']


def printed(pl):
    out, sys.stdout = sys.stdout, io.StringIO()
    try:
        pl.printInfo()
        return sys.stdout.getvalue().splitlines()
    finally:
        sys.stdout = out


def text(ch):
    """Text in every slot."""
    slot = ch.choose('slot', SLOTS)
    s = ch.choose('text', TEXTS)
    gz = ch.flag('gzip')
    overwrite = ch.flag('over an existing file')
    if s in ('True', 'False') and slot == 'node attribute' or s == '' and slot in ('AppRelease', 'Copyright', 'ref path', 'ref alias'):
        raise explore.Prune()
    pl = clf.ProcessList()
    e = clf.ExposureContrast('16f', '16f', 'x', 'y', style='linear')
    e.setExposureContrastPivot(1.0, 1.0, 0.5)
    want = {'c': []}
    get = None
    if slot == 'node name':
        e.setAttribute('name', s)
        get = lambda p: p.getProcesses()[0].getAttribute('name')
    elif slot == 'node id':
        e.setAttribute('id', s)
        get = lambda p: p.getProcesses()[0].getAttribute('id')
    elif slot == 'node attribute':
        e.setAttribute('something', s)
        get = lambda p: p.getProcesses()[0].getAttribute('something')
    elif slot == 'style-less attribute':
        pl.setAttribute('other', s)
        get = lambda p: p.getAttribute('other')
    elif slot == 'version':
        pl.setCompCLFversion(s)
        get = lambda p: p.getCompCLFversion()
    elif slot in ('value element', 'node value element'):
        # a reader takes no elements it does not know: only the file has them
        (pl if slot == 'value element' else e).addValueElement('Note', s)
        get = lambda p: s
    elif slot == 'node description':
        e.addElement(clf.Description(s))
        get = lambda p: [x.text or '' for x in p.write().getroot().iter('Description')][0]
    elif slot == 'dynamic param':
        e.setDynamicParam(s)
        get = lambda p: s if p.getProcesses()[0].getDynamicParam(s) else None
    elif slot == 'list name':
        pl.setName(s)
        get = lambda p: p.getName()
    elif slot == 'list id':
        pl.setID(s)
        get = lambda p: p.getID()
    elif slot == 'inverseOf':
        pl.setInverseOf(s)
        get = lambda p: p.getInverseOf()
    elif slot in ('Description', 'InputDescriptor', 'OutputDescriptor'):
        pl.addElement(getattr(clf, slot)(s))
        get = lambda p: [x.text or '' for x in p.write().getroot().iter(slot)][0]
    elif slot in ('AppRelease', 'Copyright'):
        pl.addElement(clf.Info(**{'appRelease' if slot == 'AppRelease' else 'copyright': s}))
        get = lambda p: [x.text or '' for x in p.write().getroot().iter(slot)][0]
    elif slot in ('ref path', 'ref alias'):
        k = slot[4:]
        pl.addProcess(clf.Reference('16f', '16f', 'i', 'n', **{k: '/nowhere/' + s if k == 'path' else s}))
        get = lambda p: p.getProcesses()[0].getAttribute(k)
        if k == 'path':
            s = '/nowhere/' + s
    elif slot == 'group name':
        g = clf.Group('16f', '16f', 'i', s)
        g.addProcess(R.build(clf, SEQ[7]))
        pl.addProcess(g)
        get = lambda p: p.getProcesses()[0].getAttribute('name')
    pl.addProcess(e)
    p = ch.path('t.clf')
    if overwrite:
        write_text(p, 'x' * 5000)
    pl.writeFile(p, writeGzip=gz)
    data = gzip.decompress(read_bytes(p)) if gz else read_bytes(p)
    root = etree.fromstring(data)
    if slot != 'dynamic param':
        found = [x.text or '' for x in root.iter()] + [v for x in root.iter() for v in x.attrib.values()]
    else:
        found = [x.get('param') for x in root.iter('DynamicParameter')]
    ch.check(s in found, '%s %r is not in the file', slot, s)
    back = clf.ProcessList(p)
    ch.equal(get(back), s, '%s after reading' % slot)
    if 'value element' not in slot:
        ch.equal(sorted(printed(back)), sorted(printed(pl)), '%s: what is printed' % slot)
    q = ch.path('t2.clf')
    back.writeFile(q, writeGzip=gz)
    ch.equal(get(clf.ProcessList(q)), s, '%s after a second round' % slot)
    ch.step(2)
    ch.state(slot, s, gz)


NUMS = [0.0, 1.0, -1.0, 0.5, 1.0 / 3, -2.0 / 3, 0.1, 1e-3, 1.5e-5, 1e-7, 123456.789, 65504.0, 65535.0, -1023.75, 1e5 + 0.125, 3.0517578125e-05,
        255.0, 1.0000001, 0.999999999, 1e6, -1e-4, 0.18, 2.2, 4095.5, 16777217.0, 1e8]
NSLOT = ['range', 'slope', 'power', 'saturation', 'gamma', 'logparam', 'ecp', 'pivot', 'imap', 'matrix', 'lut1', 'lut3', 'int lut', 'int matrix', 'int range']


def numbers(ch):
    """Numbers in every numeric slot: parameters exactly, tables to nine places."""
    slot = ch.choose('slot', NSLOT)
    x = ch.choose('number', NUMS)
    gz = ch.flag('gzip')
    if slot in ('range', 'int range'):
        d = R.D('Range', minIn=-abs(x) - 1, maxIn=abs(x) + 2, minOut=x, maxOut=x + 1, style='noClamp', out='10i' if slot[0] == 'i' else '16f')
    elif slot == 'slope':
        d = R.D('CDL', style='FwdNoClamp', slope=[x, 1.0, -x], offset=[1.0, x, -x])
    elif slot == 'power':
        d = R.D('CDL', style='FwdNoClamp', power=[abs(x) + 0.01, 1.0, 2.0])
    elif slot == 'saturation':
        d = R.D('CDL', style='FwdNoClamp', sat=x)
    elif slot == 'gamma':
        d = R.D('Gamma', style='basicFwd', params=[(abs(x) + 0.01, 0.0, None), (1.5, x, 'G')])
    elif slot == 'logparam':
        d = R.D('Log', style='antiLog2', params=[(x, x, 1.0 + x, x, 2.0, None), (1.0, 2.0, x, 3.0, x, 'B')])
    elif slot == 'ecp':
        d = R.D('EC', style='linear', ecp=(max(-20.0, min(20.0, x)), x, 0.5))
    elif slot == 'pivot':
        d = R.D('EC', style='linear', ecp=(0.5, 1.5, abs(x) + 1e-9))
    elif slot == 'imap':
        d = R.D('LUT1D', ch=1, v=[0.0, 0.5, 1.0], imaps=[[[x - 1.0, x, x + 1.0], [0, 1, 2]]])
    elif slot in ('matrix', 'int matrix'):
        d = R.D('Matrix', dim=[3, 3, 3], v=[x, 0, 1.0, 0.0, -x, 0.0, 0.5, 0.0, x / 2], out='8i' if slot[0] == 'i' else '16f')
    elif slot in ('lut1', 'int lut'):
        d = R.D('LUT1D', ch=3, v=[x, 0.0, 1.0, -x, 0.25, x / 2.0], out='12i' if slot[0] == 'i' else '32f')
    else:
        d = R.D('LUT3D', dim=[2, 2, 2], v=[x * (i % 5) for i in range(24)])
    pl = R.build_list(clf, [d])
    p, q = ch.path('n.clf'), ch.path('m.clf')
    pl.writeFile(p, writeGzip=gz)
    want = expected([d])
    table = slot in ('imap', 'matrix', 'lut1', 'lut3', 'int lut', 'int matrix')
    doc = parsed(p, gz)
    r = exact(doc, want, 0.0)
    ch.check(r is None, 'number %r as %s in the file: %s', x, slot, r)
    back = clf.ProcessList(p)
    r = exact(R.canon(back.write().getroot()), want, 6e-8 if table else 0.0)
    ch.check(r is None, 'number %r as %s after reading: %s', x, slot, r)
    px = [0.5, 0.25, 0.75]
    if slot not in ('power', 'gamma', 'ecp', 'pivot', 'logparam', 'imap'):
        sc = max(abs(x), 1.0) * (1023 if slot == 'int range' else 1) * 4
        check_pixels(ch, back, [d], [px, [0.75, 0.125, 0.5]], 'number %r as %s' % (x, slot), scale=sc)
    back.writeFile(q, writeGzip=gz)
    third = clf.ProcessList(q)
    ch.check(same_bits(back.process(px), third.process(px)) or any(v != v for v in back.process(px)), 'second generation differs')
    r = R.canon_diff(R.canon(third.write().getroot()), R.canon(back.write().getroot()))
    ch.check(r is None, 'second generation: %s', r)
    ch.step(3)
    ch.state(slot, x)


def exact(got, want, rel):
    """Numbers of `want` found in `got`: parameters exactly, array entries to 5e-10 (plus rel)."""
    for k, ws in kids(want).items():
        gs = kids(got).get(k, [])
        if k in ('SatNode', 'SOPNode'):
            gs = [g for g in gs if g[3]]
        if len(gs) != len(ws):
            return '%d %s instead of %d' % (len(gs), k, len(ws))
        for g, w in zip(gs, ws):
            if len(g[2]) != len(w[2]):
                return '%s has %d values instead of %d' % (k, len(g[2]), len(w[2]))
            for a, b in zip(g[2], w[2]):
                if isinstance(b, float) and isinstance(a, float):
                    lim = (5.1e-10 + rel * abs(b) + 1e-15 * abs(b)) if k == 'Array' else 0.0
                    if abs(a - b) > lim:
                        return '%s has %r instead of %r' % (k, a, b)
                elif a != b and not (isinstance(a, tuple) and isinstance(b, tuple) and a == b):
                    return '%s has %r instead of %r' % (k, a, b)
            for a in w[1]:
                if a not in g[1] or g[1][a] != w[1][a]:
                    return '%s %s is %r instead of %r' % (k, a, g[1].get(a), w[1][a])
            r = exact(g, w, rel)
            if r:
                return r
    return None


HARNESSES = {'node': node, 'lists': lists, 'header': header, 'text': text, 'numbers': numbers}
