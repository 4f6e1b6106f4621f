"""Feature gating and strict reading."""
import gzip
import xml.etree.ElementTree as etree

import boot
import explore
import refmodel as R
from common import *

clf = boot.clf()
BOUNDS = """All 16 values of the feature setting x strict or not x plain or gzipped x given to the constructor, readFile or read; documents with
every sequence of up to two (thorough three) nodes from an alphabet with every node type, dynamic parameters on every node type and unknown elements, in the
list, in a group and in nested groups, with and without a namespace; all sequences of four (thorough five) operations out of switching
the setting and reading, writing, processing with long-lived lists; every element name of the library and its formats in a place it has
no meaning in, and the node names in other letter cases, as unknown elements."""
ASSUMPTIONS = ['with several offending elements the error of any one of them may be raised']

ADSK, DUIK = 1, 2
NODES = {
    'range': R.D('Range', minIn=0.0, maxIn=1.0, minOut=0.0, maxOut=0.5, style='noClamp'),
    'matrix': R.D('Matrix', dim=[3, 3, 3], v=lcg(9, 5)),
    'lut1': R.D('LUT1D', ch=1, v=[0.0, 0.75, 1.0]),
    'lut3': R.D('LUT3D', dim=[2, 2, 2], v=lcg(24, 13)),
    'cdl': R.D('CDL', style='Fwd', slope=[1.25, 0.75, 1.5]),
    'cc': R.D('CC', slope=[0.5, 0.75, 0.25]),
    'gamma': R.D('Gamma', style='basicFwd', params=[(2.0, 0.0, None)]),
    'log': R.D('Log', style='antiLog2'),
    'ec': R.D('EC', style='linear', ecp=(1.0, 1.0, 0.5)),
    'ref': R.D('Ref', path='missing.clf'),
    'empty group': R.D('Group', nodes=[]),
    'group of range': R.D('Group', nodes=[R.D('Range', minIn=0.0, maxIn=1.0, minOut=0.25, maxOut=0.5, style='noClamp')]),
    'group of gamma': R.D('Group', nodes=[R.D('Gamma', style='basicRev', params=[(2.0, 0.0, None)])]),
    'unknown': None,
    'unknown with children': None,
}
for k in ('range', 'matrix', 'lut1', 'lut3', 'cdl', 'gamma', 'log', 'ec', 'empty group'):
    NODES[k + ' + dynamic'] = dict(NODES[k], dyn=['EXPOSURE'])
NAMES = sorted(NODES)
UNKNOWN = {'unknown': '<Mystery inBitDepth="16f" outBitDepth="16f" name="m"/>',
           'unknown with children': '<Vendor_Thing><Array dim="3 3 3">1 0 0 0 1 0 0 0 1</Array><Range/></Vendor_Thing>'}
PIX = [[0.5, 0.25, 0.75], [0.125, 0.875, 0.375]]


def markup(names):
    return ''.join(UNKNOWN[n] if n in UNKNOWN else R.xml_node(NODES[n]) for n in names)


def errors(names, where, flag):
    """Which errors strict reading may raise."""
    out = set()
    if where != 'list' and not flag & DUIK:
        out.add('UnsupportedExtensionError')
    for n in names:
        if n in UNKNOWN:
            out.add('UnknownProcessNodeError')
            continue
        d = NODES[n]
        todo = [d]
        while todo:
            x = todo.pop()
            todo += x.get('nodes', [])
            if x['t'] in ('EC', 'Gamma', 'Log', 'Ref') and not flag & ADSK:
                out.add('UnsupportedExtensionError')
            if x['t'] == 'Group' and not flag & DUIK:
                out.add('UnsupportedExtensionError')
            if x.get('dyn') and not flag & ADSK:
                out.add('UnsupportedExtensionError')
    return out


def document(ch, names, where, ns, gz):
    body = markup(names)
    if where != 'list':
        body = '<Range inBitDepth="16f" outBitDepth="16f" style="noClamp"/><Group inBitDepth="16f" outBitDepth="16f">%s</Group>' % body
    if where == 'nested':
        body = '<Group inBitDepth="16f" outBitDepth="16f">%s</Group>' % body
    doc = '<?xml version="1.0" encoding="UTF-8"?><ProcessList%s>%s</ProcessList>' % (ns, body)
    p = ch.path('s.clf')
    if gz:
        with gzip.open(p, 'wb') as f:
            f.write(doc.encode())
    else:
        write_text(p, doc)
    return p


def model(names, where):
    nodes = [NODES[n] for n in names if n not in UNKNOWN]
    if where != 'list':
        nodes = [R.D('Range', style='noClamp'), R.D('Group', nodes=nodes)]
    if where == 'nested':
        nodes = [R.D('Group', nodes=nodes)]
    return nodes


def shape(nodes):
    out = []
    for n in nodes:
        t = n.getNodeType()
        out.append((t, shape(n.getProcesses()) if t == 'Group' else None, n.getDynamicParam('EXPOSURE')))
    return out


TYPE = {'CDL': 'ASC_CDL', 'CC': 'ColorCorrection', 'EC': 'ExposureContrast', 'Ref': 'Reference'}


def wanted(nodes, adsk):
    return [(TYPE.get(d['t'], d['t']), wanted(d['nodes'], adsk) if d['t'] == 'Group' else None, bool(d.get('dyn')) and bool(adsk)) for d in nodes]


def load(how, p, strict):
    if how == 'constructor':
        return clf.ProcessList(p, strict) if strict else clf.ProcessList(p)
    pl = clf.ProcessList()
    if how == 'readFile':
        pl.readFile(p, strict)
    else:
        data = read_bytes(p)
        pl.read(etree.fromstring(gzip.decompress(data) if data[:2] == b'\x1f\x8b' else data), strict)
    return pl


def attempt(fn):
    try:
        return fn(), None
    except Exception as e:
        return None, type(e).__name__


def reading(ch):
    n = ch.choose('length', [1, 2, 3] if ch.thorough else [1, 2])
    pool = NAMES if n < 3 else ['range', 'gamma', 'unknown', 'group of gamma', 'cdl + dynamic', 'ref']
    names = [ch.choose('element', pool) for _ in range(n)]
    where = ch.choose('where', ['list', 'group', 'nested'])
    flags = list(range(16)) if n == 1 else [0, 1, 2, 3]
    flag = ch.choose('features', flags)
    gz = ch.flag('gzip')
    for ns in ('', ' xmlns="urn:NATAS:AMPAS:LUT:v2.0"') if n < 2 else ('',):
        p = document(ch, names, where, ns, gz)
        hows = ['constructor', 'readFile', 'read'] if n < 2 else ['constructor', 'read']
        for how in hows:
            for strict in (False, True):
                boot.features('All')
                boot.features(flag)
                pl, err = attempt(lambda: load(how, p, strict))
                what = 'features %d, %s %s in %s%s, %s, strict %s' % (flag, 'gzipped' if gz else 'plain', names, where, ' with namespace' if ns else '', how, strict)
                if gz and not flag & DUIK and how != 'read':
                    ch.check(err is not None, '%s: a gzip file was read without the feature', what)
                    continue
                may = errors(names, where, flag) if strict else set()
                if may:
                    ch.check(err in may, '%s: got %s, expected %s', what, err or 'no error', sorted(may))
                else:
                    ch.check(err is None, '%s: raised %s', what, err)
                    nodes = model(names, where)
                    got, want = shape(pl.getProcesses()), wanted(nodes, flag & ADSK)
                    ch.check(got == want, '%s: nodes (type, members, dynamic parameter) %s, expected %s', what, got, want)
                    if n < 2 or how == 'read':
                        check_pixels(ch, pl, nodes, PIX, what, scale=4.0, rel=1e-5)
                ch.step()
    ch.state(names, where, flag, gz)


STRAY = ['ProcessNode', 'ProcessList', 'Array', 'IndexMap', 'SOPNode', 'SatNode', 'Slope', 'Saturation', 'GammaParams', 'LogParams', 'ECParams',
         'minInValue', 'AppRelease', 'Copyright', 'Release', 'Errors', 'Common', 'object', 'type', 'None', 'Rangee', 'Rang', 'LUT', 'LUT2D', 'LUT', 'Inverse',
         'range', 'RANGE', 'matrix', 'Lut1D', 'lut3d', 'asccdl', 'Colorcorrection', 'gamma', 'LOG', 'exposureContrast', 'reference', 'group', 'description', 'info']
CONTENT = ['', '<Array dim="3 3 3">9 0 0 0 9 0 0 0 9</Array>', '<Range inBitDepth="16f" outBitDepth="16f"><minInValue>0.5</minInValue></Range>', '0.5 0.25 x']


def stray(ch):
    """Elements that are no nodes in the place they have."""
    name = ch.choose('name', STRAY)
    content = ch.choose('content', CONTENT)
    where = ch.choose('where', ['list', 'group', 'nested'])
    flag = ch.choose('features', list(range(16)) if ch.thorough else [0, 1, 2, 3])
    at = ch.choose('position', [0, 1])
    parts = [markup(['matrix']), markup(['range'])]
    parts.insert(at, '<%s inBitDepth="16f" outBitDepth="16f" style="noClamp" bypass="true">%s</%s>' % (name, content, name))
    body = ''.join(parts)
    if where != 'list':
        body = '<Group inBitDepth="16f" outBitDepth="16f">%s</Group>' % body
    if where == 'nested':
        body = '<Group inBitDepth="16f" outBitDepth="16f">%s</Group>' % body
    doc = '<ProcessList id="a" compCLFversion="1.2">%s</ProcessList>' % body
    nodes = [NODES['matrix'], NODES['range']]
    if where != 'list':
        nodes = [R.D('Group', nodes=nodes)]
    if where == 'nested':
        nodes = [R.D('Group', nodes=nodes)]
    for strict in (False, True):
        boot.features(flag)
        pl = clf.ProcessList()
        r, err = attempt(lambda: pl.read(etree.fromstring(doc), strict))
        what = 'features %d: <%s> in %s, strict %s' % (flag, name, where, strict)
        if strict:
            may = ['UnknownProcessNodeError'] + (['UnsupportedExtensionError'] if where != 'list' and not flag & DUIK else [])
            ch.check(err in may, '%s: got %s, expected %s', what, err or 'no error', may)
        else:
            ch.check(err is None, '%s: raised %s', what, err)
            got, want = shape(pl.getProcesses()), wanted(nodes, flag & ADSK)
            ch.check(got == want, '%s: nodes %s, expected %s', what, got, want)
            check_pixels(ch, pl, nodes, PIX, what, scale=4.0, rel=1e-5)
        ch.step()
    ch.state(name, content, where, flag, at)


KEYWORDS = ['Fwd', 'Rev', 'FwdNoClamp', 'RevNoClamp', 'v1.2_Fwd', 'v1.2_Rev', 'noClampFwd', 'noClampRev']


def cdl(ch):
    """CDL keywords at processing time; writing encoded arrays and gzip."""
    flag = ch.choose('features', range(16))
    where = ch.choose('where', ['list', 'group', 'nested', 'after'])
    st = ch.choose('style', KEYWORDS)
    d = R.D('CDL', style=st, slope=[1.25, 0.75, 1.5], offset=[0.0625, 0.0, 0.03125], power=[1.5, 0.5, 2.0], sat=0.75)
    nodes = {'list': [d], 'group': [R.D('Group', nodes=[d])], 'nested': [R.D('Group', nodes=[R.D('Group', nodes=[d])])],
             'after': [NODES['range'], d]}[where]
    source = ch.choose('from', ['code', 'file'])
    pl = R.build_list(clf, nodes)
    if source == 'file':
        p = ch.path('k.clf')
        write_text(p, R.xml_doc(nodes))
        boot.features(flag)
        pl = clf.ProcessList(p)
    boot.features(flag)
    ext = st in KEYWORDS[4:]
    for stride in (0, 3):
        r, err = attempt(lambda: pl.process([0.5, 0.25, 0.75], stride))
        if ext and not flag & ADSK:
            ch.check(err == 'UnsupportedExtensionError', 'features %d: style %s in %s processed (%s)', flag, st, where, err or list(r))
        else:
            ch.check(err is None, 'features %d: style %s in %s raised %s', flag, st, where, err)
            compare(ch, r, R.ref_list(nodes, [0.5, 0.25, 0.75]), 'style %s, features %d' % (st, flag), 1.0, 1e-5)
    boot.features('All')
    check_pixels(ch, pl, nodes, PIX, 'all features again', rel=1e-5)
    boot.features(flag & ~ADSK)
    r, err = attempt(lambda: pl.process([0.5, 0.25, 0.75], 3))
    ch.check((err == 'UnsupportedExtensionError') == ext, 'switched to %d: style %s: %s', flag & ~ADSK, st, err)
    ch.step(4)
    ch.state(flag, where, st, source)


ENCS = ['string', 'integer16bit', 'hex16bit', 'integer32bit', 'hex32bit', 'integer64bit', 'hex64bit']


def writing(ch):
    flag = ch.choose('features', range(16))
    enc = ch.choose('encoding', ENCS + ['raw'])
    kind = ch.choose('node', ['Matrix', 'LUT1D', 'LUT3D'])
    where = ch.choose('where', ['list', 'group', 'second'])
    gz = ch.flag('gzip')
    source = ch.choose('from', ['code', 'file'])
    if enc == 'raw' and kind != 'LUT1D':
        raise explore.Prune()
    d = {'Matrix': R.D('Matrix', dim=[3, 3, 3], v=lcg(9, 5)), 'LUT1D': R.D('LUT1D', ch=1, v=[0.0, 0.75, 1.0]),
         'LUT3D': R.D('LUT3D', dim=[2, 2, 2], v=lcg(24, 13))}[kind]
    d = dict(d)
    if enc == 'raw':
        d['raw'] = True
    elif enc != 'string':
        d['enc'] = enc
    nodes = {'list': [d], 'group': [R.D('Group', nodes=[d])], 'second': [NODES['range'], d]}[where]
    pl = R.build_list(clf, nodes)
    if source == 'file':
        boot.features('All')
        p = ch.path('w.clf')
        pl.writeFile(p)
        boot.features(flag)
        pl = clf.ProcessList(p)
    boot.features(flag)
    ok = bool(flag & DUIK) or (enc in ('string', 'raw') and not gz)
    for form in ('writeFile', 'write'):
        p = ch.path('o.clf')
        r, err = attempt(lambda: pl.writeFile(p, writeGzip=gz) if form == 'writeFile' else pl.write())
        allowed = ok if form == 'writeFile' else bool(flag & DUIK) or enc in ('string', 'raw')
        what = 'features %d, encoding %s, gzip %s, %s' % (flag, enc, gz, form)
        if not allowed:
            ch.check(err == 'UnsupportedExtensionError', '%s: got %s, expected UnsupportedExtensionError', what, err or 'no error')
            if form == 'writeFile':
                import os
                ch.check(not os.path.exists(p), '%s: refused, but a file appeared', what)
        else:
            ch.check(err is None, '%s: raised %s', what, err)
            if form == 'writeFile':
                ch.check((read_bytes(p)[:2] == b'\x1f\x8b') == gz, '%s: gzip or not', what)
                boot.features('All')
                check_pixels(ch, clf.ProcessList(p), nodes, PIX, what, rel=2e-3 if '16' in enc or enc == 'raw' else 2e-6)
                boot.features(flag)
    boot.features('All')
    p = ch.path('o2.clf')
    pl.writeFile(p, writeGzip=gz)
    check_pixels(ch, clf.ProcessList(p), nodes, PIX, 'written with all features again')
    ch.step(3)
    ch.state(flag, enc, kind, where, gz, source)


def encoding_setter(ch):
    """The array setter itself."""
    flag = ch.choose('features', range(16))
    enc = ch.choose('encoding', ENCS)
    boot.features(flag)
    n = clf.Matrix('16f', '16f', 'a', 'b')
    r, err = attempt(lambda: n.setMatrix([3, 3, 3], lcg(9, 5), floatEncoding=enc))
    ch.check(err is None, 'setMatrix raised %s', err)
    root = etree.Element('X')
    r, err = attempt(lambda: n.write(root))
    ok = bool(flag & DUIK) or enc == 'string'
    ch.check((err is None) == ok and err in (None, 'UnsupportedExtensionError'), 'features %d, encoding %s: %s', flag, enc, err)
    ch.step()
    ch.state(flag, enc)


OPS = ['adsk', 'duiker', 'read strict', 'read', 'read gz', 'write gz', 'write encoded', 'process', 'bypassed']


def history(ch):
    """Long-lived lists, with the setting switched between any two operations."""
    plain = R.build_list(clf, [NODES['range'], NODES['cdl']])
    enc = R.build_list(clf, [R.D('LUT1D', ch=1, v=[0.0, 0.75, 1.0], enc='hex32bit')])
    kd = R.D('CDL', style='noClampFwd', slope=[1.25, 0.75, 1.5])
    key = R.build_list(clf, [kd])
    bd = [NODES['range'], dict(NODES['matrix'], bypass=True)]
    byp = R.build_list(clf, bd)
    names = ['range', 'gamma', 'cdl + dynamic', 'group of range']
    src = document(ch, names, 'list', '', False)
    srcgz = document(ch, names, 'list', '', True)
    flag = 15
    for i in range(5 if ch.thorough else 4):
        op = ch.choose('op', OPS)
        what = 'features %d after %s' % (flag, [x[1] for x in ch.describe()])
        if op in ('adsk', 'duiker'):
            flag ^= ADSK if op == 'adsk' else DUIK
            boot.features(flag)
        elif op.startswith('read'):
            pl, err = attempt(lambda: clf.ProcessList(srcgz if op == 'read gz' else src, op == 'read strict'))
            if op == 'read gz':
                ch.check((err is None) == bool(flag & DUIK), '%s: %s', what, err)
            elif op == 'read strict':
                want = errors(names, 'list', flag)
                ch.check((err is None and not want) or err in want, '%s: %s, expected %s', what, err, want)
            else:
                ch.check(err is None, '%s: %s', what, err)
            if err is None:
                ch.check(shape(pl.getProcesses()) == wanted(model(names, 'list'), flag & ADSK), '%s: %s', what, shape(pl.getProcesses()))
        elif op == 'write gz':
            r, err = attempt(lambda: plain.writeFile(ch.path('x.clf'), writeGzip=True))
            ch.check(err == (None if flag & DUIK else 'UnsupportedExtensionError'), '%s: %s', what, err)
        elif op == 'write encoded':
            r, err = attempt(lambda: enc.writeFile(ch.path('x.clf')))
            ch.check(err == (None if flag & DUIK else 'UnsupportedExtensionError'), '%s: %s', what, err)
        elif op == 'process':
            r, err = attempt(lambda: key.process([0.5, 0.25, 0.75]))
            ch.check(err == (None if flag & ADSK else 'UnsupportedExtensionError'), '%s: %s', what, err)
            check_pixels(ch, enc, [R.D('LUT1D', ch=1, v=[0.0, 0.75, 1.0])], PIX, what)
        else:
            check_pixels(ch, byp, bd, PIX, what, adsk=bool(flag & ADSK))
        ch.equal(clf.getFeatureCompatibility(), flag, 'the setting')
        ch.step()
        ch.state(flag, op)


HARNESSES = {'stray': stray, 'reading': reading, 'cdl': cdl, 'writing': writing, 'encoding_setter': encoding_setter, 'history': history}
