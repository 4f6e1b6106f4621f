"""List and node accessors behave as an ordered list and a dictionary."""
import copy
import itertools

import boot
import explore
import refmodel as R
from common import *
import props.c12 as files

clf = boot.clf()
BOUNDS = """All sequences of three (thorough four) operations out of 25 on a list (adding three nodes and a group, re-setting names, ids, namespace,
versions, inverseOf and free attributes with two values each, value elements, in and out depths of the list and of its nodes, nodes of the nodes),
every accessor of the list, of its group and of all nodes compared with a list-and-dictionary model after each one; the same for a group in a
group; all sequences of three (thorough four) of 20 operations on every one of the 12 node types, and of the operations of each type's own
accessors (range limits, styles, table and index map accessors, paths, dynamic parameters); every constructor argument by position and by
name; slices, negative and out of range indices of lists of 0 to 6 nodes with all name patterns over three names (ids of their own, ids that are names of other nodes, no ids); all of it again on lists that
were read from files."""
ASSUMPTIONS = ['getElement is documented as not implemented and is left out',
               'accessors of tables and index maps are used when there are any']

ORDER = ['Range', 'Matrix', 'LUT1D', 'LUT3D', 'ASCCDL', 'ColorCorrection', 'Gamma', 'Log', 'ExposureContrast', 'Reference', 'Group', 'ProcessNode']
TAG = {'ASCCDL': 'ASC_CDL'}


class Node(object):
    """The model of a node: a dictionary of attributes and one of values."""
    def __init__(self, kind, obj, attrs):
        self.kind, self.obj, self.attrs, self.values, self.dyn, self.kids = kind, obj, dict(attrs), {}, set(), []


def new(kind, inb='16f', outb='16f', id='', name=''):
    extra = {'ASCCDL': {'style': 'Fwd'}, 'ColorCorrection': {}, 'Gamma': {'style': 'basicFwd'}, 'Log': {'style': 'log10'},
             'ExposureContrast': {'style': 'linear'}, 'LUT1D': {'interpolation': 'linear'}, 'LUT3D': {'interpolation': 'trilinear'}}.get(kind, {})
    if kind == 'ProcessNode':
        o = clf.ProcessNode('ProcessNode', inb, outb, id, name)
    else:
        o = getattr(clf, kind)(inb, outb, id, name)
    a = dict(inBitDepth=inb, outBitDepth=outb, id=id, name=name, **extra)
    if kind == 'ColorCorrection':
        a = dict(id=id)
    return Node(kind, o, a)


KEYS = ['inBitDepth', 'outBitDepth', 'id', 'name', 'style', 'interpolation', 'bypass', 'defaultRange', 'path', 'basePath', 'alias', 'rawHalfs', 'halfDomain', 'free', 'other', '']
VALS = ['minInValue', 'maxInValue', 'minOutValue', 'maxOutValue', 'Extra', 'More', '']


def same(a, b):
    return type(a) == type(b) and a == b


def judge_node(ch, n, what):
    o = n.obj
    for k in KEYS:
        ch.check(same(o.getAttribute(k), n.attrs.get(k)), '%s: attribute %r is %r, not %r' % (what, k, o.getAttribute(k), n.attrs.get(k)))
    ch.check(same(o.getInBitDepth(), n.attrs.get('inBitDepth')), what + ': in depth %r' % o.getInBitDepth())
    ch.check(same(o.getOutBitDepth(), n.attrs.get('outBitDepth')), what + ': out depth %r' % o.getOutBitDepth())
    for k in VALS:
        ch.check(same(o.getValueElement(k), n.values.get(k)), '%s: value element %r is %r, not %r' % (what, k, o.getValueElement(k), n.values.get(k)))
    for k in ('exposure', 'contrast', ''):
        ch.check(o.getDynamicParam(k) is (k in n.dyn), '%s: dynamic parameter %r' % (what, k))
    ch.equal(o.getNodeType(), TAG.get(n.kind, n.kind), what + ': type')
    b = n.attrs.get('bypass')
    ch.check(bool(o.getBypass()) is bool(b is True or (isinstance(b, str) and b.lower() == 'true')), what + ': bypass of %r' % (b,))
    if n.kind == 'Group':
        judge_list(ch, o, n.kids, what, False)


NAMES = ['a', 'b', 'c', 'zz', '', None]


def judge_list(ch, o, kids, what, sequence=True):
    got = o.getProcesses()
    ch.check(len(got) == len(kids) and all(x is y.obj for x, y in zip(got, kids)), what + ': getProcesses')
    for name in NAMES:
        first = [k.obj for k in kids if k.attrs.get('name') == name][:1]
        g = o.getProcess(name)
        ch.check(g is (first[0] if first else None), '%s: node named %r' % (what, name))
    if not sequence:
        return
    ch.equal(len(o), len(kids), what + ': length')
    it = list(o)
    ch.check(len(it) == len(kids) and all(x is y.obj for x, y in zip(it, kids)), what + ': iteration')
    it1, it2 = iter(o), iter(o)
    ch.check(all(x is y for x, y in zip(it1, it2)), what + ': two iterations at once')
    for i in range(-len(kids), len(kids)):
        ch.check(o[i] is kids[i].obj, '%s: [%d]' % (what, i))
    for i in (len(kids), -len(kids) - 1):
        try:
            o[i]
        except IndexError:
            pass
        else:
            ch.fail('%s: [%d] of %d nodes' % (what, i, len(kids)))
    ch.check(same(o.getInBitDepth(), kids[0].attrs.get('inBitDepth') if kids else None), what + ': in depth of the list %r' % o.getInBitDepth())
    ch.check(same(o.getOutBitDepth(), kids[-1].attrs.get('outBitDepth') if kids else None), what + ': out depth of the list %r' % o.getOutBitDepth())


LKEYS = ['name', 'id', 'xmlns', 'inverseOf', 'compCLFversion', 'free', '']
LVALS = ['Extra', 'More', '']
GET = [('getName', 'name'), ('getID', 'id'), ('getNamespace', 'xmlns'), ('getInverseOf', 'inverseOf'), ('getCompCLFversion', 'compCLFversion')]


def judge(ch, pl, m, what):
    for k in LKEYS:
        ch.check(same(pl.getAttribute(k), m['attrs'].get(k)), '%s: attribute %r of the list is %r, not %r' % (what, k, pl.getAttribute(k), m['attrs'].get(k)))
    for g, k in GET:
        ch.check(same(getattr(pl, g)(), m['attrs'].get(k)), '%s: %s is %r, not %r' % (what, g, getattr(pl, g)(), m['attrs'].get(k)))
    for k in LVALS:
        ch.check(same(pl.getValueElement(k), m['values'].get(k)), '%s: value element %r of the list' % (what, k))
    judge_list(ch, pl, m['kids'], what)
    for n in m['pool']:
        judge_node(ch, n, '%s: node %s' % (what, n.kind))


def key_of(m):
    return (tuple(sorted(m['attrs'].items())), tuple(sorted(m['values'].items())), tuple(m['pool'].index(k) for k in m['kids']),
            tuple(tuple(sorted((k, str(v)) for k, v in n.attrs.items())) + tuple(m['pool'].index(k) for k in n.kids) for n in m['pool']))


def list_ops(m):
    pl, pool = m['pl'], m['pool']
    ops = []

    def add(name, f):
        ops.append((name, f))
    for i, n in enumerate(pool):
        add('add %d' % i, lambda n=n: (pl.addProcess(n.obj), m['kids'].append(n)))
    for setter, k in (('setName', 'name'), ('setID', 'id'), ('setNamespace', 'xmlns'), ('setInverseOf', 'inverseOf'), ('setCompCLFversion', 'compCLFversion')):
        for v in (k + '1', '') if k in ('name', 'id') else (k + '1',):
            add('%s %r' % (setter, v), lambda setter=setter, k=k, v=v: (getattr(pl, setter)(v), m['attrs'].__setitem__(k, v)))
    for k, v in (('free', 'x'), ('name', 'attr'), ('id', None)):
        add('setAttribute %s %r' % (k, v), lambda k=k, v=v: (pl.setAttribute(k, v), m['attrs'].__setitem__(k, v)))
    for k, v in (('Extra', 'one'), ('Extra', 2.5), ('More', 'm')):
        add('addValueElement %s %r' % (k, v), lambda k=k, v=v: (pl.addValueElement(k, v), m['values'].__setitem__(k, v)))

    def depth(which, v):
        getattr(pl, 'setInBitDepth' if which == 0 else 'setOutBitDepth')(v)
        if m['kids']:
            m['kids'][0 if which == 0 else -1].attrs['inBitDepth' if which == 0 else 'outBitDepth'] = v
    for which, v in ((0, '8i'), (0, '32f'), (1, '10i'), (1, '16i')):
        add('list depth %s %s' % (which, v), lambda which=which, v=v: depth(which, v))
    add('node 0 renamed', lambda: (pool[0].obj.setAttribute('name', 'c'), pool[0].attrs.__setitem__('name', 'c')))
    add('node 1 renamed', lambda: (pool[1].obj.setAttribute('name', 'a'), pool[1].attrs.__setitem__('name', 'a')))
    add('node 0 in', lambda: (pool[0].obj.setInBitDepth('12i'), pool[0].attrs.__setitem__('inBitDepth', '12i')))
    add('node 2 out', lambda: (pool[2].obj.setOutBitDepth('12i'), pool[2].attrs.__setitem__('outBitDepth', '12i')))
    g = pool[-1]
    for i in (0, 1):
        add('add %d to the group' % i, lambda i=i: (g.obj.addProcess(pool[i].obj), g.kids.append(pool[i])))
    return ops


def pool():
    return [new('Range', '16f', '16f', 'b', 'a'), new('LUT1D', '8i', '32f', 'zz', 'b'), new('Range', '16f', '10i', 'c', 'a'), new('Group', '16f', '16f', 'a', 'b')]


def lists(ch):
    """All sequences of operations on a list."""
    pl = clf.ProcessList()
    m = dict(pl=pl, attrs={}, values={}, kids=[], pool=pool())
    ops = list_ops(m)
    judge(ch, pl, m, 'empty')
    done = []
    for i in range(4 if ch.thorough else 3):
        k = ch.choose('op %d' % i, range(len(ops)))
        ops[k][1]()
        done.append(ops[k][0])
        ch.step()
        judge(ch, pl, m, '; '.join(done))
        ch.state(key_of(m))


def patterns(ch):
    """All name patterns of lists and groups of up to six nodes, and all slices."""
    n = ch.choose('nodes', range(7))
    ids = ch.choose('ids', ['of their own', 'names of others', 'none'])
    for names in itertools.product('abc' if n else '', repeat=n):
        pl, g = clf.ProcessList(), new('Group')
        kids = []
        for i, name in enumerate(names):
            k = new(ORDER[(i * 5 + n) % len(ORDER)], '8i', '16f', {'of their own': 'n%d' % i, 'names of others': 'abcz'[(i + n) % 4], 'none': ''}[ids], name)
            if k.kind == 'ColorCorrection':
                k.obj.setAttribute('name', name)
                k.attrs['name'] = name
            pl.addProcess(k.obj)
            g.obj.addProcess(k.obj)
            kids.append(k)
        g.kids = kids
        judge_list(ch, pl, kids, 'list %s' % (names,))
        judge_node(ch, g, 'group %s' % (names,))
        for k in kids:
            judge_node(ch, k, 'in the list %s' % (names,))
        for s in [slice(None), slice(1, None), slice(None, -1), slice(None, None, 2), slice(None, None, -1), slice(2, 5)]:
            ch.check(len(pl[s]) == len(kids[s]) and all(x is y.obj for x, y in zip(pl[s], kids[s])), 'slice %s of %s' % (s, names))
        ch.check(bool(pl) is bool(kids), 'truth of a list of %d' % len(kids))
        ch.check(all((k.obj in list(pl)) for k in kids), 'membership')
        pl.setInBitDepth('10i')
        pl.setOutBitDepth('12i')
        if kids:
            kids[0].attrs['inBitDepth'] = '10i'
            kids[-1].attrs['outBitDepth'] = '12i'
        judge_list(ch, pl, kids, 'list %s with other depths' % (names,))
        for k in kids:
            judge_node(ch, k, 'in the list %s with other depths' % (names,))
        ch.state(names, ids)
        ch.step()


def node_ops(n):
    o, ops = n.obj, []

    def add(name, f):
        ops.append((name, f))
    for k, v in (('name', 'x'), ('name', 'y'), ('id', 'x'), ('free', ''), ('free', 1.5), ('other', 'o'), ('bypass', True), ('bypass', False), ('bypass', 'true')):
        add('setAttribute %s %r' % (k, v), lambda k=k, v=v: (o.setAttribute(k, v), n.attrs.__setitem__(k, v)))
    for setter, k, v in (('setInBitDepth', 'inBitDepth', '8i'), ('setInBitDepth', 'inBitDepth', '32f'), ('setOutBitDepth', 'outBitDepth', '10i')):
        add('%s %s' % (setter, v), lambda setter=setter, k=k, v=v: (getattr(o, setter)(v), n.attrs.__setitem__(k, v)))
    for k, v in (('Extra', 'one'), ('Extra', 2), ('More', '')):
        add('addValueElement %s %r' % (k, v), lambda k=k, v=v: (o.addValueElement(k, v), n.values.__setitem__(k, v)))
    for d in ('exposure', 'contrast'):
        add('setDynamicParam ' + d, lambda d=d: (o.setDynamicParam(d), n.dyn.add(d)))
    for d in ('one', 'two'):
        add('description ' + d, lambda d=d: o.addElement(clf.Description(d)))
    # the accessors of each type
    if n.kind == 'Range':
        for f, k in (('setMinInValue', 'minInValue'), ('setMaxInValue', 'maxInValue'), ('setMinOutValue', 'minOutValue'), ('setMaxOutValue', 'maxOutValue')):
            for v in (0.25, 0.0, -1) if k.endswith('InValue') else (2.0,):
                add('%s %r' % (f, v), lambda f=f, k=k, v=v: (getattr(o, f)(v), n.values.__setitem__(k, v)))
        for v in ('clamp', 'noClamp'):
            add('setStyle ' + v, lambda v=v: (o.setStyle(v), n.attrs.__setitem__('style', v)))
        add('setDefaultRange', lambda: (o.setDefaultRange(True), n.attrs.__setitem__('defaultRange', True)))
        add('setDefaultRange off', lambda: (o.setDefaultRange(False), n.attrs.pop('defaultRange', None)))
    if n.kind == 'Reference':
        for args in (('f.clf',), ('g.clf', '/nowhere'), ('h.clf', '', 'al'), ()):
            def paths(args=args):
                o.setPaths(*args)
                for k, v in zip(('path', 'basePath', 'alias'), args + ('', '', '')):
                    n.attrs.pop(k, None)
                    if v:
                        n.attrs[k] = v
            add('setPaths %s' % (args,), paths)
    return ops


def nodes(ch):
    """All sequences of operations on each node type."""
    n = new(ch.choose('kind', ORDER), '16f', '16f', 'i', 'n')
    other = new(n.kind, '8i', '12i', 'oi', 'on')
    ops = node_ops(n)
    judge_node(ch, n, 'new ' + n.kind)
    done = [n.kind]
    for i in range(4 if ch.thorough else 3):
        k = ch.choose('op %d' % i, range(len(ops)))
        ops[k][1]()
        done.append(ops[k][0])
        ch.step()
        judge_node(ch, n, '; '.join(done))
        ch.state(n.kind, sorted((k, str(v)) for k, v in n.attrs.items()), sorted((k, str(v)) for k, v in n.values.items()), sorted(n.dyn))
    judge_node(ch, other, 'untouched ' + n.kind)


def constructors(ch):
    """Every constructor argument, by position and by name, in all subsets."""
    kind = ch.choose('kind', ORDER)
    args = [('inBitDepth', '8i'), ('outBitDepth', '12i'), ('id', 'theid'), ('name', 'thename')]
    extra = {'Range': [('style', 'noClamp'), ('defaultRange', True)],
             'LUT1D': [('interpolation', 'cubic'), ('rawHalfs', True), ('halfDomain', True)],
             'LUT3D': [('interpolation', 'tetrahedral')], 'ASCCDL': [('style', 'FwdNoClamp')],
             'Gamma': [('style', 'moncurveRev')], 'Log': [('style', 'antiLog2')], 'ExposureContrast': [('style', 'log')],
             'Reference': [('path', 'p.clf'), ('basePath', '/nowhere'), ('alias', 'al')], 'ProcessNode': [('bypass', True)]}.get(kind, [])
    args += extra
    lead = ['ProcessNode'] if kind == 'ProcessNode' else []
    made = getattr(clf, kind)
    for k in range(len(args) + 1):                       # by position
        n = new(kind)
        n.obj = made(*(lead + [v for _, v in args[:k]]))
        n.attrs.update(args[:k])
        if kind == 'ColorCorrection':
            n.attrs = {'id': n.attrs['id']}
        judge_node(ch, n, '%s%s' % (kind, args[:k]))
        ch.step()
    for bits in itertools.product((0, 1), repeat=len(args)):     # by name
        kw = dict(a for a, b in zip(args, bits) if b)
        n = new(kind)
        n.obj = made(*lead, **kw)
        n.attrs.update(kw)
        if kind == 'ColorCorrection':
            n.attrs = {'id': n.attrs['id']}
        judge_node(ch, n, '%s %s' % (kind, kw))
        ch.state(kind, bits)
        ch.step()


def tables(ch):
    """Table and index map accessors."""
    kind = ch.choose('kind', ['LUT1D', 'LUT3D', 'Array', 'IndexMap', 'Reference', 'types'])
    maps = [[[0.0, 0.5, 1.0], [0, 1, 3]], [[0.0, 1.0], [0, 4]], [[0.25, 0.5, 0.75, 2.0], [0, 1, 2, 3]]]
    if kind in ('LUT1D', 'LUT3D'):
        for outb in ('8i', '16f', '32f'):
            o = getattr(clf, kind)('16f', outb)
            for k, size in itertools.product((3, 1, 3, 1), (2, 5, 3)):
                if kind == 'LUT1D':
                    v = [float(x % 7) for x in range(size * k)]
                    o.setArray(k, list(v))
                    ch.equal(list(o.getLUTDimensions()), [size, k], 'dimensions')
                else:
                    dim = [size, 2, k + 1]
                    v = [float(x % 7) for x in range(3 * size * 2 * (k + 1))]
                    given = list(dim)
                    o.setArray(given, list(v))
                    ch.equal(given, dim, "the caller's dimensions")
                    ch.equal(list(o.getLUTDimensions()), dim + [3], 'dimensions')
                ch.equal([float(x) for x in o.getLUTValues()], v, 'values')
                mm = maps if k == 3 else maps[size % 3:size % 3 + 1]
                o.setIndexMaps(*copy.deepcopy(mm))
                for c, mp in enumerate(mm):
                    ch.equal(o.getIndexMapDimensions(c), len(mp[0]), 'size of index map %d' % c)
                    ch.equal([list(x) for x in o.getIndexMapValues(c)], mp, 'index map %d' % c)
                try:
                    o.getIndexMapValues(len(mm))
                except IndexError:
                    pass
                else:
                    ch.fail('there is an index map %d' % len(mm))
                ch.state(kind, outb, k, size)
                ch.step()
    elif kind == 'Array':
        import aces.clf.Array as A
        for dim, vals in (([2, 1], [0.0, 1.0]), ([2, 2, 2, 3], [0.5] * 24), ([3, 3, 3], [1.0] * 9)):
            a = A.Array()
            ch.check(len(a.getDimensions()) == 0 and len(a.getValues()) == 0 and not a.getValuesAreIntegers() and not a.getRawHalfs() and a.getFloatEncoding() == 'string', 'an empty array')
            a.setDimensions(dim)
            a.setValues(vals)
            for flag in (True, False, True):
                a.setValuesAreIntegers(flag)
                ch.equal(bool(a.getValuesAreIntegers()), flag, 'integers')
                a.setRawHalfs(not flag)
                ch.equal(bool(a.getRawHalfs()), not flag, 'raw halfs')
                ch.equal(bool(a.getValuesAreIntegers()), flag, 'integers')
            for e in ('hex32bit', 'string', 'base64'):
                a.setFloatEncoding(e)
                ch.equal(a.getFloatEncoding(), e, 'encoding')
            ch.equal(list(a.getDimensions()), dim, 'dimensions')
            ch.equal(list(a.getValues()), vals, 'values')
            b = A.Array(dim, vals, True, True, 'hex32bit')
            ch.equal((b.getDimensions(), b.getValues(), b.getValuesAreIntegers(), b.getRawHalfs(), b.getFloatEncoding()), (dim, vals, True, True, 'hex32bit'), 'arguments')
            fresh = A.Array()
            ch.check(len(fresh.getDimensions()) == 0 and len(fresh.getValues()) == 0, 'a new array is not empty')
            ch.step()
            ch.state('Array', dim)
    elif kind == 'IndexMap':
        import aces.clf.IndexMap as I
        for mp in maps:
            o = I.IndexMap()
            ch.check(len(o.getValues()) == 0, 'an empty index map')
            o.setDimension(len(mp[0]))
            o.setValues(copy.deepcopy(mp))
            ch.equal((o.getDimension(), o.getDimensions(), o.getValues()), (len(mp[0]), len(mp[0]), mp), 'accessors')
            p = I.IndexMap(len(mp[0]), copy.deepcopy(mp))
            ch.equal((p.getDimension(), p.getValues()), (len(mp[0]), mp), 'arguments')
            for flag in (True, False):
                o.setuseCachedProcess(flag)
                ch.equal(o.getUseCachedProcessue(), flag, 'cached')
            ch.step()
            ch.state('IndexMap', len(mp[0]))
    elif kind == 'Reference':
        for start in (False, True):
            o = clf.Reference(writeReferencedNodes=start)
            ch.equal(o.getWriteReferencedNodes(), start, 'argument')
            for seq in itertools.product((True, False), repeat=3):
                for v in seq:
                    o.setWriteReferencedNodes(v)
                    ch.equal(o.getWriteReferencedNodes(), v, 'set')
                    ch.step()
                ch.state('Reference', start, seq)
    else:
        for k in ORDER:
            ch.check(clf.ProcessList.getClass(k) is getattr(clf, k), 'class for ' + k)
            ch.state('class', k)
            ch.step()
        for k in ('Info', 'Description', 'InputDescriptor', 'OutputDescriptor'):
            ch.check(clf.ProcessList.getClass(k) is getattr(clf, k), 'class for ' + k)
        for k in ('Unknown', '', 'range', 'ProcessList2'):
            ch.check(clf.ProcessList.getClass(k) is None, 'class for ' + k)


def from_file(ch):
    """Accessors of lists read from files, and operations on them."""
    i = ch.choose('variant', range(len(files.VARIANTS)))
    desc = files.dressed(files.VARIANTS[i], 'full')
    inside = ch.flag('in a group')
    nodes_ = [desc, dict(R.D('Range', minIn=0.0, maxIn=1.0, minOut=0.0, maxOut=1.0), name='second', id='s2')]
    if inside:
        nodes_ = [R.D('Group', nodes=nodes_, id='g', name='grp')]
    if desc.get('interp', '') is None:
        raise explore.Prune()
    attrs = dict(name='the list', id='lid', inverseOf='other', compCLFversion='1.0', free='f')
    p = write_text(ch.path('p.clf'), R.xml_doc(nodes_, ''.join(' %s="%s"' % kv for kv in sorted(attrs.items()))))
    pl = clf.ProcessList(p)
    for k, v in attrs.items():
        ch.check(same(pl.getAttribute(k), v), 'attribute %s of the list: %r' % (k, pl.getAttribute(k)))
    for g, k in GET:
        if k in attrs:
            ch.check(same(getattr(pl, g)(), attrs[k]), '%s of the list: %r' % (g, getattr(pl, g)()))
    got = pl.getProcesses()
    ch.equal(len(pl), len(nodes_), 'length')
    if inside:
        ch.check(pl.getProcess('grp') is got[0] and pl.getProcess('second') is None, 'nodes of groups are not nodes of the list')
        got = got[0].getProcesses()
        ch.check(pl[0].getProcess('second') is got[1], 'by name')
    else:
        ch.check(pl.getProcess('second') is got[1], 'by name')
    ch.equal(len(got), 2, 'nodes')
    ch.equal(got[0].getNodeType(), {'CDL': 'ASC_CDL', 'CC': 'ColorCorrection', 'EC': 'ExposureContrast', 'Ref': 'Reference'}.get(desc['t'], desc['t']), 'type')
    if desc.get('name'):
        ch.equal(got[0].getAttribute('name'), desc['name'], 'name')
    if desc['t'] != 'CC':
        ch.equal((got[0].getInBitDepth(), got[0].getOutBitDepth()), (desc['in'], desc['out']), 'depths')
        if not inside:
            ch.equal(pl.getInBitDepth(), desc['in'], 'depth of the list')
        pl.setInBitDepth('12i')
        ch.equal(pl[0].getInBitDepth(), '12i', 'first node after setting the depth of the list')
    ch.equal(pl.getOutBitDepth(), '16f', 'out depth of the list')
    pl.setOutBitDepth('10i')
    ch.equal(pl[-1].getOutBitDepth(), '10i', 'last node after setting the depth of the list')
    if 'minIn' in desc:
        for k in ('minIn', 'maxIn', 'minOut', 'maxOut'):
            v = desc.get(k)
            ch.check(got[0].getValueElement(k + 'Value') == v, '%s is %r, not %r' % (k, got[0].getValueElement(k + 'Value'), v))
    if desc['t'] == 'LUT1D':
        ch.equal(list(got[0].getLUTDimensions()), [len(desc['v']) // desc['ch'], desc['ch']], 'dimensions')
    if desc['t'] == 'LUT3D':
        ch.equal(list(got[0].getLUTDimensions()), list(desc['dim']) + [3], 'dimensions')
    pl.setName('renamed')
    ch.equal((pl.getName(), pl.getID()), ('renamed', 'lid'), 'renamed')
    ch.state(i, inside)
    ch.step()


HARNESSES = {'lists': lists, 'patterns': patterns, 'nodes': nodes, 'constructors': constructors, 'tables': tables, 'from file': from_file}
