"""References and self-contained writing."""
import gzip
import os
import xml.etree.ElementTree as etree

import boot
import explore
import refmodel as R
from common import *

clf = boot.clf()
BOUNDS = """Reference trees: a referring list with a Reference alone, between nodes, in a group, in nested groups, twice, or beside an unresolved one; the
file it names holding plain nodes, a group, a further Reference (chains of up to three files, thorough four), a Reference inside a group, or
nothing; named by absolute path, base path plus path, path relative to the working directory, with or without an alias, plain or gzipped
target; one or two of the References bypassed, with Autodesk features on and off; processed, written normally or self-contained, plain or gzipped, read with and without the referred files still there; all
sequences of up to four (thorough five) writes, reads, processing and re-pointing of references."""
ASSUMPTIONS = ['references do not form cycles', 'depths chain within and across the files']

N1 = [R.D('EC', style='linear', ecp=(1.0, 1.0, 0.5), id='e'), R.D('Gamma', style='basicFwd', params=[(2.0, 0.0, None)], name='g')]
N2 = [R.D('CDL', style='FwdNoClamp', slope=[1.25, 0.75, 1.5], offset=[0.0625, 0.0, 0.03125], name='c')]
N3 = [R.D('LUT1D', ch=1, v=[0.0, 0.5, 0.625, 1.0, 1.5], id='l'), R.D('Range', minIn=0.0, maxIn=1.0, minOut=0.125, maxOut=0.75, style='noClamp')]
N4 = [R.D('Matrix', dim=[3, 3, 3], v=[0.5, 0.25, 0.0, 0.125, 0.75, 0.0, 0.0, 0.25, 0.5])]
BEFORE = R.D('EC', style='linear', ecp=(-0.5, 1.0, 0.5))
AFTER = R.D('CDL', style='FwdNoClamp', offset=[0.125, 0.0, 0.25])
PIX = [[0.5, 0.25, 0.75], [0.0625, 0.875, 0.375]]
FORMS = ['absolute', 'base+path', 'base/+path', 'relative', 'base+absolute', 'absolute+alias']


class Cwd(object):
    def __init__(self, path):
        self.path = path

    def __enter__(self):
        self.old = os.getcwd()
        os.chdir(self.path)

    def __exit__(self, *a):
        os.chdir(self.old)


def put(folder, name, nodes, gz=False):
    doc = R.xml_doc(nodes)
    p = os.path.join(folder, name)
    if gz:
        with gzip.open(p, 'wb') as f:
            f.write(doc.encode('utf-8'))
    else:
        write_text(p, doc)
    return p


def ref(folder, name, nodes, form='absolute'):
    """A Reference desc to folder/name, whose content is `nodes`."""
    d = R.D('Ref', id='r-' + name, name='ref ' + name, nodes=nodes)
    if form == 'absolute':
        d['path'] = os.path.join(folder, name)
    elif form == 'base+path':
        d['path'], d['basePath'] = name, folder
    elif form == 'base/+path':
        d['path'], d['basePath'] = os.path.join(os.path.basename(folder), name), os.path.dirname(folder) + '/'
    elif form == 'relative':
        d['path'] = name
    elif form == 'base+absolute':
        d['path'], d['basePath'] = os.path.join(folder, name), '/somewhere/else'
    elif form == 'absolute+alias':
        d['path'], d['alias'] = os.path.join(folder, name), 'an alias'
    return d


def missing(i=0):
    return [R.D('Ref', path='/nowhere/at/all.clf', name='lost'), R.D('Ref', path='gone.clf', basePath='/nowhere', name='lost'),
            R.D('Ref', name='lost'), R.D('Ref', basePath='/tmp', name='lost'), R.D('Ref', alias='only alias', name='lost')][i]


def inline(nodes):
    out = []
    for d in nodes:
        if d['t'] == 'Ref' and 'nodes' in d:
            out += inline(d['nodes'])
        elif d['t'] == 'Group':
            out.append(dict(d, nodes=inline(d['nodes'])))
        else:
            out.append(d)
    return out


TYPES = {'CDL': 'ASC_CDL', 'CC': 'ColorCorrection', 'EC': 'ExposureContrast', 'Ref': 'Reference'}
KNOWN = set(['Range', 'Matrix', 'LUT1D', 'LUT3D', 'Gamma', 'Log', 'Group'] + list(TYPES.values()))


def tree(nodes):
    return [(TYPES.get(d['t'], d['t']), d.get('name', '') if d['t'] != 'CC' else '', d.get('id', ''), tree(d['nodes']) if d['t'] == 'Group' else []) for d in nodes]


def tree_xml(el):
    return [(R.local(e.tag), e.get('name', ''), e.get('id', ''), tree_xml(e) if R.local(e.tag) == 'Group' else [])
            for e in el if R.local(e.tag) in KNOWN]


def parse(path):
    data = read_bytes(path)
    return etree.fromstring(gzip.decompress(data) if data[:2] == b'\x1f\x8b' else data)


def content(ch, folder, kind, gz, depth=0):
    """The nodes of the referred file, writing any further files it needs."""
    if kind == 'nodes':
        return N1
    if kind == 'empty':
        return []
    if kind == 'group':
        return [R.D('Group', nodes=N1 + N2, name='inner group')]
    if kind == 'chain':
        put(folder, 'second.clf', N3, gz)
        return N1[:1] + [ref(folder, 'second.clf', N3)] + N2
    if kind == 'chain 3':
        put(folder, 'third.clf', N4, gz)
        b = N3 + [ref(folder, 'third.clf', N4, 'base+path')]
        put(folder, 'second.clf', b)
        return [ref(folder, 'second.clf', b)] + N2
    if kind == 'chain 4':
        put(folder, 'fourth.clf', N4)
        c = [ref(folder, 'fourth.clf', N4)] + N1[1:]
        put(folder, 'third.clf', c, gz)
        b = [R.D('Group', nodes=[ref(folder, 'third.clf', c, 'base+path')])] + N3
        put(folder, 'second.clf', b)
        return [ref(folder, 'second.clf', b)] + N2
    if kind == 'ref in group':
        put(folder, 'second.clf', N3, gz)
        return [R.D('Group', nodes=N1[:1] + [ref(folder, 'second.clf', N3)], name='inner group')] + N2
    if kind == 'ref in groups':
        put(folder, 'second.clf', N3, gz)
        return [R.D('Group', nodes=[R.D('Group', nodes=[ref(folder, 'second.clf', N3)])])]
    if kind == 'lost ref':
        return N1[:1] + [missing()] + N2
    raise ValueError(kind)


CONTENT = ['nodes', 'empty', 'group', 'chain', 'chain 3', 'ref in group', 'ref in groups', 'lost ref']
PLACES = ['alone', 'between', 'first', 'last', 'group', 'nested', 'twice', 'list and group', 'with lost', 'two in group']


def place(d, where):
    if where == 'alone':
        return [d]
    if where == 'between':
        return [BEFORE, d, AFTER]
    if where == 'first':
        return [d, AFTER]
    if where == 'last':
        return [BEFORE, d]
    if where == 'group':
        return [BEFORE, R.D('Group', nodes=[d, AFTER], name='G')]
    if where == 'nested':
        return [R.D('Group', nodes=[BEFORE, R.D('Group', nodes=[AFTER, d], name='H')], name='G')]
    if where == 'twice':
        return [d, BEFORE, d]
    if where == 'list and group':
        return [d, R.D('Group', nodes=[d], name='G')]
    if where == 'with lost':
        return [missing(), d, R.D('Group', nodes=[missing(), AFTER], name='G')]
    if where == 'two in group':
        return [R.D('Group', nodes=[d, BEFORE, d], name='G'), AFTER]


def trees(ch):
    kind = ch.choose('content', CONTENT + (['chain 4'] if ch.thorough else []))
    form = ch.choose('named by', FORMS)
    where = ch.choose('place', PLACES)
    gz = ch.flag('target gzipped')
    source = ch.choose('built', ['code', 'document', 'written and read'])
    folder = os.path.dirname(ch.path('x'))
    nodes = content(ch, folder, kind, gz)
    put(folder, 'target.clf', nodes, gz)
    d = ref(folder, 'target.clf', nodes, form)
    descs = place(d, where)
    what = '%s by %s, %s, %s' % (kind, form, where, source)
    with Cwd(folder):
        if source == 'document':
            p = ch.path('d.clf')
            write_text(p, R.xml_doc(descs))
            pl = clf.ProcessList(p)
        else:
            pl = R.build_list(clf, descs)
        if source == 'written and read':
            p = ch.path('w.clf')
            pl.writeFile(p)
            ch.equal(tree_xml(parse(p)), tree(descs), '%s: nodes of the file written normally' % what)
            pl = clf.ProcessList(p)
        check_pixels(ch, pl, descs, PIX, what, rel=1e-5, scale=4.0)
        check_pixels(ch, pl, descs, [x + [0.5] for x in PIX] if not has_range(descs) else PIX, what, rel=1e-5, scale=4.0)
        normal, alone, alonegz, again = ch.path('n.clf'), ch.path('s.clf'), ch.path('sg.clf'), ch.path('n2.clf')
        pl.writeFile(normal)
        pl.writeFile(alone, writeSelfContained=True)
        pl.writeFile(alonegz, writeSelfContained=True, writeGzip=True)
        pl.writeFile(again)
        check_pixels(ch, pl, descs, PIX, what + ' after writing', rel=1e-5, scale=4.0)
        ch.equal(tree_xml(parse(normal)), tree(descs), '%s: nodes of the file written normally' % what)
        ch.equal(read_bytes(again), read_bytes(normal), '%s: the file written normally after a self-contained one' % what)
        ch.equal(tree_xml(parse(alone)), tree(inline(descs)), '%s: nodes of the self-contained file' % what)
        ch.equal(tree_xml(parse(alonegz)), tree(inline(descs)), '%s: nodes of the gzipped self-contained file' % what)
        check_pixels(ch, clf.ProcessList(normal), descs, PIX, what + ', read back', rel=1e-5, scale=4.0)
        back = clf.ProcessList(normal)
        for n in os.listdir(folder):
            os.unlink(os.path.join(folder, n))
        check_pixels(ch, clf.ProcessList(alone), descs, PIX, what + ', self-contained, other files gone', rel=1e-5, scale=4.0)
        check_pixels(ch, clf.ProcessList(alonegz), descs, PIX, what + ', self-contained, gzipped', rel=1e-5, scale=4.0)
        # lists loaded before keep working
        check_pixels(ch, back, descs, PIX, what + ', loaded before the files went', rel=1e-5, scale=4.0)
        # a list loaded now finds nothing behind its references
        lost = [dict(x) for x in descs]
        check_pixels(ch, clf.ProcessList(normal), strip(descs), PIX, what + ', other files gone', rel=1e-5, scale=4.0)
    ch.step(8)
    ch.state(kind, form, where, gz, source)


def strip(descs):
    out = []
    for d in descs:
        if d['t'] == 'Ref':
            out.append({k: v for k, v in d.items() if k != 'nodes'})
        elif d['t'] == 'Group':
            out.append(dict(d, nodes=strip(d['nodes'])))
        else:
            out.append(d)
    return out


def has_range(descs):
    return any(d['t'] == 'Range' or has_range(d.get('nodes', [])) for d in descs)


def unresolved(ch):
    """References to nothing pass values through and stay References."""
    i = ch.choose('form', range(5))
    where = ch.choose('place', PLACES)
    dyn = ch.flag('dynamic parameter')
    d = missing(i)
    if dyn:
        d['dyn'] = ['X']
    descs = place(d, where)
    pl = R.build_list(clf, descs)
    for rnd in range(2):
        check_pixels(ch, pl, descs, PIX, 'unresolved %d %s' % (i, where), scale=4.0)
        for sc in (False, True):
            for gz in (False, True):
                p = ch.path('u.clf')
                pl.writeFile(p, writeSelfContained=sc, writeGzip=gz)
                ch.equal(tree_xml(parse(p)), tree(descs), 'nodes written, self-contained %s' % sc)
                check_pixels(ch, clf.ProcessList(p), descs, PIX, 'unresolved read back', scale=4.0)
        pl = clf.ProcessList(p)
    ch.step(8)
    ch.state(i, where, dyn)


OPS = ['write', 'write self-contained', 'write gz self-contained', 'point to B', 'point to nothing', 'point to A', 'reread', 'delete A', 'restore A', 'change A']


def history(ch):
    """One list with a Reference in it and one in a group, through sequences of operations."""
    folder = os.path.dirname(ch.path('x'))
    files = {'A': N1, 'B': N3}
    for n in files:
        put(folder, n, files[n])
    disk = dict(files)
    d1, d2 = ref(folder, 'A', N1), ref(folder, 'A', N1, 'base+path')
    objs = [R.build(clf, d1), R.build(clf, d2)]
    g = clf.Group('16f', '16f', 'gid', 'G')
    g.addProcess(objs[1])
    g.addProcess(R.build(clf, AFTER))
    pl = clf.ProcessList()
    pl.addProcess(objs[0])
    pl.addProcess(g)
    descs = [d1, R.D('Group', nodes=[d2, AFTER], id='gid', name='G')]
    for i in range(5 if ch.thorough else 4):
        op = ch.choose('op', OPS)
        what = 'after %s' % [x[1] for x in ch.describe()]
        if op.startswith('write'):
            sc = 'self' in op
            p = ch.path('h.clf')
            pl.writeFile(p, writeSelfContained=sc, writeGzip='gz' in op)
            ch.equal(tree_xml(parse(p)), tree(inline(descs) if sc else descs), '%s: nodes of the file' % what)
            if sc:
                check_pixels(ch, clf.ProcessList(p), relook(descs, folder, disk, True), PIX, what + ' read back', scale=4.0)
            else:
                check_pixels(ch, clf.ProcessList(p), relook(descs, folder, disk), PIX, what + ' read back', scale=4.0)
        elif op.startswith('point'):
            k = op.split()[-1]
            name = k if k != 'nothing' else 'Z'
            which = ch.choose('which', [0, 1])
            d = [d1, d2][which]
            if which == 0:
                d['path'] = os.path.join(folder, name)
                objs[0].setPaths(path=d['path'])
            else:
                d['path'] = name
                objs[1].setPaths(path=name, basePath=folder)
            d.pop('nodes', None)
            if name in disk:
                d['nodes'] = disk[name]
        elif op == 'reread':
            p = ch.path('h.clf')
            pl.writeFile(p)
            pl = clf.ProcessList(p)
            objs = [pl.getProcesses()[0], pl.getProcesses()[1].getProcesses()[0]]
            for d in (d1, d2):
                d.pop('nodes', None)
                n = os.path.basename(d['path'])
                if n in disk:
                    d['nodes'] = disk[n]
        elif op == 'delete A':
            if 'A' in disk:
                os.unlink(os.path.join(folder, 'A'))
                del disk['A']
        else:
            disk['A'] = N1 if op == 'restore A' else N4
            put(folder, 'A', disk['A'])
        check_pixels(ch, pl, descs, PIX, what, scale=4.0)
        ch.state(op, tree(inline(descs)), sorted(disk))


def relook(descs, folder, disk, lost_only=False):
    out = []
    for d in descs:
        if d['t'] == 'Ref' and not (lost_only and 'nodes' in d):
            d = {k: v for k, v in d.items() if k != 'nodes'}
            n = os.path.basename(d['path'])
            if n in disk:
                d['nodes'] = disk[n]
        elif d['t'] == 'Group':
            d = dict(d, nodes=relook(d['nodes'], folder, disk, lost_only))
        out.append(d)
    return out


def direct(ch):
    """The Reference node by itself: process with strides and argument kinds, write with its own switch."""
    kind = ch.choose('content', CONTENT)
    form = ch.choose('named by', FORMS)
    switch = ch.choose('switch', ['constructor', 'setter', 'off'])
    folder = os.path.dirname(ch.path('x'))
    nodes = content(ch, folder, kind, False)
    put(folder, 'target.clf', nodes)
    d = ref(folder, 'target.clf', nodes, form)
    with Cwd(folder):
        kw = {k: d[k] for k in ('path', 'basePath', 'alias') if k in d}
        if switch == 'constructor':
            kw['writeReferencedNodes'] = True
        o = clf.Reference('16f', '16f', d['id'], d['name'], **kw)
        if switch == 'setter':
            o.setWriteReferencedNodes(True)
        ch.equal(o.getWriteReferencedNodes(), switch != 'off', 'getWriteReferencedNodes')
        check_pixels(ch, o, [d], PIX, 'reference alone', rel=1e-5, scale=4.0, single=True)
        root = etree.Element('ProcessList')
        o.write(root)
        got = tree_xml(root)
        # inside the referred list its own References may stay or be resolved by this switch alone
        want = [tree([d])] if switch == 'off' else [tree(inline([d])), tree(nodes)]
        ch.check(got in want, 'written nodes %s, expected %s', got, want)
        pl = clf.ProcessList()
        pl.addProcess(o)
        check_pixels(ch, pl, [d], PIX, 'in a list', rel=1e-5, scale=4.0)
    ch.step(3)
    ch.state(kind, form, switch)


def turn_off(nodes, which, names=()):
    """The same descriptions with the References called `which` bypassed."""
    out = []
    for d in nodes:
        d = dict(d)
        if d['t'] == 'Ref' and 'nodes' in d and d['name'][4:] in which:
            d['bypass'] = True
        if 'nodes' in d:
            d['nodes'] = turn_off(d['nodes'], which)
        out.append(d)
    return out


def flags(el):
    return [(R.local(e.tag), e.get('bypass', '').lower() == 'true', flags(e)) for e in el if R.local(e.tag) in KNOWN]


def wanted(nodes, off=False):
    out = []
    for d in nodes:
        b = off or bool(d.get('bypass'))
        if d['t'] == 'Ref' and 'nodes' in d:
            out += wanted(d['nodes'], b)
        else:
            out.append((TYPES.get(d['t'], d['t']), b, wanted(d['nodes']) if d['t'] == 'Group' else []))
    return out


def bypassed(ch):
    """A bypassed Reference is bypassed in a self-contained file too."""
    kind = ch.choose('content', CONTENT[:-1])
    where = ch.choose('place', PLACES)
    which = ch.choose('bypassed', [('target.clf',), ('second.clf',), ('target.clf', 'second.clf'), ('third.clf',)])
    if 'second.clf' in which and 'second' not in str(content(ch, os.path.dirname(ch.path('y')), kind, False)) or 'third.clf' in which and kind != 'chain 3':
        raise explore.Prune()
    source = ch.choose('built', ['code', 'document'])
    adsk = ch.flag('features')
    folder = os.path.dirname(ch.path('x'))
    nodes = turn_off(content(ch, folder, kind, False), which)
    for n, name in (('second.clf', 'second.clf'), ('third.clf', 'third.clf')):
        for d in every(nodes):
            if d['t'] == 'Ref' and d.get('name') == 'ref ' + name:
                put(folder, name, d['nodes'])
    put(folder, 'target.clf', nodes)
    descs = turn_off(place(ref(folder, 'target.clf', nodes, 'absolute'), where), which)
    what = '%s, %s, %s bypassed, %s' % (kind, where, which, source)
    pl = R.build_list(clf, descs) if source == 'code' else clf.ProcessList(write_text(ch.path('d.clf'), R.xml_doc(descs)))
    alone, normal = ch.path('s.clf'), ch.path('n.clf')
    pl.writeFile(alone, writeSelfContained=True)
    pl.writeFile(normal)
    ch.equal(tree_xml(parse(normal)), tree(descs), what + ': nodes of the file written normally')
    # inlined nodes of a bypassed Reference are bypassed or left out
    got, want = flags(parse(alone)), wanted(descs)
    ch.check(got == want or got == prune(want), '%s: the self-contained file has %s, expected %s', what, got, want)
    clf.setFeatureCompatibility(clf.featureSets['All'] if adsk else clf.featureSets['All'] & ~clf.featureSets['Autodesk'])
    try:
        for o, name in ((pl, 'itself'), (clf.ProcessList(normal), 'read'), (clf.ProcessList(alone), 'self-contained')):
            if name == 'self-contained' and not adsk and got != want:
                continue
            check_pixels(ch, o, descs, PIX, '%s, features %s, %s' % (what, adsk, name), rel=1e-5, scale=4.0, adsk=adsk)
    finally:
        clf.setFeatureCompatibility(clf.featureSets['All'])
    ch.step(3)
    ch.state(kind, where, which, source, adsk)


def every(nodes):
    for d in nodes:
        yield d
        for x in every(d.get('nodes', [])):
            yield x


def prune(flagged):
    return [(t, b, prune(k)) for t, b, k in flagged if not b]


HARNESSES = {'trees': trees, 'bypassed': bypassed, 'unresolved': unresolved, 'history': history, 'direct': direct}
