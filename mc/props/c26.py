"""Printed information shows the true values and changes nothing."""
import itertools
import math
import os
import re

import boot
import explore
import refmodel as R
from common import *

import props.c12 as files

clf = boot.clf()
BOUNDS = """every node variant of the round-trip check x 5 dresses x made, read and through clfinfo, plain and in groups; tables of every size from 2 to 40
(1D, 1 and 3 channels), 3D lattices up to 4 per axis, every matrix shape, index maps of 2 to 30 points, for float and integer depths and encodings; all
tables of fractions, infinities and NaN at every depth; all
sequences of up to 3 Gamma and Log parameters; all lists of up to 3 nodes of 6 kinds with groups two deep; header subsets; references."""
ASSUMPTIONS = ['a long table may be shown by its first and last rows, at least three of each']
TAGS = {'CDL': 'ASC_CDL', 'CC': 'ColorCorrection', 'EC': 'ExposureContrast', 'Ref': 'Reference'}
NUM = re.compile(r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)')


# ---- reading the printed text ----------------------------------------------------------

def sections(text):
    """The printed nodes in order, each with what is shown for it."""
    out, cur, block = [], None, None
    for line in text.splitlines():
        s = line.strip()
        if not s or s == 'Process Nodes':
            continue
        m = re.match(r'^ProcessNode type\s*:\s*(\S+)$', s)
        if m or s == 'ProcessList':
            cur = {'type': m.group(1) if m else 'ProcessList', 'Attribute': [], 'Element': [], 'Value': [], 'lines': [], 'blocks': []}
            out.append(cur)
            block = None
            continue
        if cur is None:
            continue                    # clfinfo prints its command line first
        if s in ('Array', 'IndexMap'):
            block = {'kind': s, 'size': None, 'rows': []}
            cur['blocks'].append(block)
            continue
        m = re.match(r'^(Dimensions|Length)\s*:\s*(.*)$', s)
        if m and block is not None and not block['rows']:
            block['size'] = [int(x) for x in re.findall(r'\d+', m.group(2))]
            continue
        if s == 'Values' and block is not None:
            continue
        if block is not None and (s == '...' or re.match(r'^(map\s*:)?[-+\d.,\s einfa]+$', s)):
            block['rows'].append(s if s == '...' else [float(x) for x in NUM.findall(s.split(':')[-1])])
            continue
        block = None
        m = re.match(r'^(Attribute|Element|Value)\s*:\s*(.*?)\s*:\s*(.*)$', s)
        if m:
            cur[m.group(1)].append((m.group(2), m.group(3)))
        else:
            cur['lines'].append(re.sub(r'\s+:\s+', ' : ', s, 1))
    return out


def same_text(got, want):
    """As text, or as numbers."""
    if got == str(want).strip():
        return True
    a = [float(x) for x in NUM.findall(got)]
    w = want if isinstance(want, (list, tuple)) else [want]
    if any(isinstance(x, str) or x is None for x in w):
        return False
    return len(a) == len(w) and all(abs(x - y) <= 1e-9 + 1e-7 * abs(y) for x, y in zip(a, w))


def rows_of(values, cols):
    return [[float(x) for x in values[i:i + cols]] for i in range(0, len(values), cols)]


def close_rows(a, b):
    same = lambda p, q: p == q or (p != p and q != q) or abs(p - q) <= 6e-10 + 1.2e-7 * abs(q)
    return len(a) == len(b) and all(len(x) == len(y) and all(same(p, q) for p, q in zip(x, y)) for x, y in zip(a, b))


def judge_block(ch, block, size, rows, what, always=8):
    ch.check(block['size'] == size, '%s: size %s instead of %s', what, block['size'], size)
    got = block['rows']
    if '...' in got:
        k = got.index('...')
        head, tail = got[:k], got[k + 1:]
        ch.check('...' not in tail and head and tail and len(head) + len(tail) < len(rows), '%s: abbreviated as %s of %d', what, got, len(rows))
        ch.check(len(head) >= 3 and len(tail) >= 3, '%s: only %d first and %d last rows', what, len(head), len(tail))
        ch.check(len(rows) > always, '%s: %d rows are abbreviated', what, len(rows))
        ch.check(close_rows(head, rows[:len(head)]), '%s: first rows %s instead of %s', what, head, rows[:len(head)])
        ch.check(close_rows(tail, rows[-len(tail):]), '%s: last rows %s instead of %s', what, tail, rows[-len(tail):])
    else:
        if block['kind'] == 'IndexMap' and len(got) == 1:
            got = rows_of(got[0], 2)
        ch.check(close_rows(got, rows), '%s: rows %s instead of %s', what, got, rows)


def find(ch, pairs, key, want, what):
    vals = [v for k, v in pairs if k == key]
    ch.check(len(vals) == 1, '%s: %s is shown %d times', what, key, len(vals))
    ch.check(same_text(vals[0], want), '%s: %s is shown as %r, it is %r', what, key, vals[0], want)


def judge_node(ch, sec, d, what):
    t = d['t']
    what = '%s %s' % (what, t)
    ch.equal(sec['type'], TAGS.get(t, t), what)
    at = {}
    if t != 'CC' or d.get('cc_depths'):
        at['inBitDepth'], at['outBitDepth'] = d.get('in', '16f'), d.get('out', '16f')
    for k in ('id', 'name', 'style', 'bypass', 'path', 'basePath', 'alias'):
        if d.get(k) not in (None, '') and not (t == 'CC' and k == 'style'):
            at[k] = d[k]
    if d.get('interp') is not None:
        at['interpolation'] = d['interp']
    if d.get('half'):
        at['halfDomain'] = True
    at.update(d.get('attrs', {}))
    for k, v in at.items():
        find(ch, sec['Attribute'], k, v, what + ' attribute')
    extra = dict(sec['Attribute'])
    for k in ('id', 'name', 'bypass', 'path', 'basePath', 'alias'):
        if k in extra and k not in at:
            ch.check(extra[k] in ('', 'None'), '%s: attribute %s is shown as %r', what, k, extra[k])
    if t == 'Range' and not d.get('default'):
        want = {k + 'Value': d[k] for k in ('minIn', 'maxIn', 'minOut', 'maxOut') if d.get(k) is not None}
        ch.equal(sorted(k for k, v in sec['Element']), sorted(want), what + ' elements')
        for k, v in want.items():
            find(ch, sec['Element'], k, v, what + ' element')
    for k, v in d.get('values', {}).items():
        find(ch, sec['Element'], k, v, what + ' element')
    if t in ('CDL', 'CC'):
        want = {n: d[k] for k, n in (('slope', 'slope'), ('offset', 'offset'), ('power', 'power'), ('sat', 'saturation')) if d.get(k) is not None}
        for k, v in want.items():
            find(ch, sec['Value'], k, v, what + ' value')
    elif t == 'Gamma':
        p = R._perchan(d.get('params', []), (1.0, 0.0))
        for i, k in enumerate(('gamma', 'offset')):
            find(ch, sec['Value'], k, [x[i] for x in p], what)
    elif t == 'Log':
        p = R._perchan(d.get('params', []), (0.6, 685.0, 95.0, 1.0, 0.0))
        for i, k in enumerate(('gamma', 'ref white', 'ref black', 'highlight', 'shadow')):
            find(ch, sec['Value'], k, [x[i] for x in p], what)
    elif t == 'EC':
        for k, v in zip(('exposure', 'contrast', 'pivot'), d.get('ecp', (0.0, 1.0, 1.0))):
            find(ch, sec['Value'], k, v, what)
    blocks = list(sec['blocks'])
    for n, m in enumerate(d.get('imaps') or []):
        b = blocks.pop(0) if blocks else {'kind': None}
        ch.equal(b['kind'], 'IndexMap', what)
        judge_block(ch, b, [len(m[0])], [[float(x), float(y)] for x, y in zip(*m)], '%s index map %d' % (what, n), 12)
    if 'v' in d:
        dim = {'Matrix': list(d['dim']) if 'dim' in d else None, 'LUT1D': [len(d['v']) // d.get('ch', 1), d.get('ch', 1)], 'LUT3D': list(d.get('dim', [])) + [3]}[t]
        cols = dim[1] if t == 'Matrix' else dim[-1]
        ch.check(len(blocks) == 1 and blocks[0]['kind'] == 'Array', '%s: blocks %s', what, [b['kind'] for b in blocks])
        judge_block(ch, blocks[0], dim, rows_of(d['v'], cols), what + ' array')
    else:
        ch.check(not blocks, '%s: blocks %s', what, [b['kind'] for b in blocks])
    texts = [l.split(' : ', 1)[1] for l in sec['lines'] if l.startswith('Description : ')]
    ch.equal(texts, list(d.get('descs', [])), what + ' descriptions')
    dyn = [l.split(' : ', 1)[1] for l in sec['lines'] if l.startswith('Dynamic Parameter : ')]
    ch.equal(dyn, list(d.get('dyn', [])), what + ' dynamic parameters')


def flatten(nodes):
    for d in nodes:
        yield d
        for x in flatten(d.get('nodes', [])):
            yield x


def judge(ch, text, nodes, what):
    secs = sections(text)
    ch.check(secs and secs[0]['type'] == 'ProcessList', '%s: it starts with %s', what, secs[:1])
    flat_nodes = list(flatten(nodes))
    ch.equal([s['type'] for s in secs[1:]], [TAGS.get(d['t'], d['t']) for d in flat_nodes], what + ': nodes shown')
    for k, (s, d) in enumerate(zip(secs[1:], flat_nodes)):
        judge_node(ch, s, d, '%s, node %d' % (what, k))
    ch.step(len(flat_nodes))
    return secs[0]


def printed(obj):
    with boot.Capture() as c:
        obj.printInfo()
    return c.text


def tool(path):
    with boot.Capture() as c:
        boot.script('clfinfo', ['-c', path])
    return c.text


PX = [0.5, 0.25, 0.75, 0.0625, 0.875, 0.375]


def unchanged(ch, pl, what, process=True, twice=True):
    """Prints it; -> the text, the list found unchanged."""
    before = files.tree_of(pl)
    a = pl.process(list(PX), 3) if process else None
    text = printed(pl)
    r = R.canon_diff(files.tree_of(pl), before)
    ch.check(r is None, '%s: printing changed it: %s', what, r)
    if process:
        ch.check(same_bits(a, pl.process(list(PX), 3)), '%s: printing changed its results', what)
    if twice:
        ch.equal(printed(pl), text, what + ': printed again')
    return text


def doc(ch, nodes, attrs='', inner=''):
    return write_text(ch.path('p.clf'), R.xml_doc(nodes, attrs, inner))


def variants(ch):
    """Every node variant."""
    i = ch.choose('variant', range(len(files.VARIANTS)))
    d = files.dressed(files.VARIANTS[i], ch.choose('dress', ['plain', 'named', 'described', 'full']))
    if ch.flag('bypass'):
        d['bypass'] = True
    for where in ('list', 'group', 'nested'):
        nodes = [d] if where == 'list' else [R.D('Group', nodes=[d], id='g')]
        if where == 'nested':
            nodes = [R.D('Group', nodes=nodes + [R.D('EC', style='linear', ecp=(1.0, 1.0, 0.5))])]
        pl = R.build_list(clf, nodes)
        judge(ch, unchanged(ch, pl, 'made', process=not d.get('interp') == 'cubic'), nodes, 'made')
        if 'interp' in d and d['interp'] is None:
            continue
        p = doc(ch, nodes)
        back = clf.ProcessList(p)
        judge(ch, unchanged(ch, back, 'read', process=not d.get('interp') == 'cubic'), nodes, 'read')
        data = read_bytes(p)
        judge(ch, tool(p), nodes, 'clfinfo')
        ch.check(read_bytes(p) == data, 'clfinfo changed the file')
        ch.state(i, len(d), where)


def tables(ch):
    """Every size around the limits of abbreviation."""
    kind = ch.choose('kind', ['1D', '1D codes', '1D half', '3D', 'matrix', 'index map'])
    todo = []
    if kind.startswith('1D'):
        for n in range(2, 41):
            for c in (1, 3):
                v = [((i * 37) % 101) / 64.0 - 0.25 for i in range(n * c)]
                if kind == '1D codes':
                    for out, f in (('8i', 2.0), ('10i', 9.0), ('12i', 37.0), ('16i', 600.0)):
                        todo.append(R.D('LUT1D', ch=c, v=[float(int(abs(x) * f * 60)) for x in v], interp='linear', out=out))
                elif kind == '1D half':
                    todo.append(R.D('LUT1D', ch=c, v=v, interp='linear', raw=True))
                else:
                    todo += [R.D('LUT1D', ch=c, v=v, interp='linear'), R.D('LUT1D', ch=c, v=[1000.0 * x for x in v], interp='linear', out='32f')]
    elif kind == '3D':
        for dim in itertools.product([2, 3, 4], repeat=3):
            todo.append(R.D('LUT3D', dim=list(dim), v=lcg(3 * dim[0] * dim[1] * dim[2], 5), interp='trilinear'))
    elif kind == 'matrix':
        for dim in ([3, 3, 3], [3, 4, 3], [4, 4, 3], [4, 5, 3]):
            for s in range(20):
                todo.append(R.D('Matrix', dim=dim, v=[4 * x - 2 for x in lcg(dim[0] * dim[1], s)]))
    else:
        for n in range(2, 31):
            for c in (1, 3):
                m = [[[(i + k) / 16.0 for i in range(n)], [i + k for i in range(n)]] for k in range(c)]
                todo.append(R.D('LUT1D', ch=1, v=lcg(64, 5), imaps=m, interp='linear'))
                todo.append(R.D('LUT3D', dim=[2, 2, 2], v=lcg(24, 5), imaps=m, interp='trilinear'))
    for d in todo:
        pl = R.build_list(clf, [d])
        proc = not (kind == 'matrix' and d['dim'][0] == 4)
        judge(ch, unchanged(ch, pl, 'made', process=proc), [d], 'made')
        if not d.get('raw'):
            p = doc(ch, [d])
            judge(ch, unchanged(ch, clf.ProcessList(p), 'read', process=proc), [d], 'read')
        p = ch.path('w.clf')
        pl.writeFile(p)
        e = dict(d, v=[R.half_of_code(R.code_of_half(x)) for x in d['v']]) if d.get('raw') else d
        judge(ch, unchanged(ch, clf.ProcessList(p), 'written and read', process=proc), [e], 'written and read')
        ch.state(kind, d.get('dim'), d.get('ch'), d['out'], len(d['v']), str(d.get('imaps'))[:80])


def params(ch):
    """Every sequence of parameters."""
    t = ch.choose('node', ['Gamma', 'Log'])
    n = ch.choose('count', [0, 1, 2, 3, 4] if ch.thorough else [0, 1, 2, 3])
    for seq in itertools.product([None, 'R', 'G', 'B'], repeat=n):
        if t == 'Gamma':
            d = R.D('Gamma', style='basicFwd', params=[(1.5 + k, 0.125 * k, c) for k, c in enumerate(seq)])
        else:
            d = R.D('Log', style='logToLin', params=[(0.5 + k / 8.0, 685.0 - k, 95.0 + k, 1.0 + k / 4.0, k / 16.0, c) for k, c in enumerate(seq)])
        pl = R.build_list(clf, [d])
        judge(ch, unchanged(ch, pl, 'made'), [d], 'made %s' % (seq,))
        judge(ch, unchanged(ch, clf.ProcessList(doc(ch, [d])), 'read'), [d], 'read %s' % (seq,))
        ch.state(t, seq)


SEQ = [R.D('Range', minIn=0.0, maxIn=1.0, minOut=0.0, maxOut=0.5, id='r'), R.D('Matrix', dim=[3, 3, 3], v=lcg(9, 5), name='m', descs=['first']),
       R.D('LUT1D', ch=3, v=lcg(36, 6), interp='linear'), R.D('Gamma', style='basicFwd', params=[(2.0, 0.0, 'G')], dyn=['GAMMA']),
       R.D('CDL', style='Fwd', slope=[0.5, 0.25, 1.5], sat=0.5, descs=['cdl', 'again']), R.D('EC', style='video', ecp=(0.5, 1.25, 0.75), bypass=True)]


def lists(ch):
    """Every short list."""
    n = ch.choose('length', [0, 1, 2, 3, 4] if ch.thorough else [0, 1, 2, 3])
    shape = ch.choose('shape', ['flat', 'group', 'first in a group', 'rest in a group', 'nested'])
    for ks in itertools.product(range(len(SEQ)), repeat=n):
        ds = [dict(SEQ[k], name='node %d' % j) for j, k in enumerate(ks)]
        G = lambda *x: R.D('Group', nodes=list(x), id='g')
        nodes = {'flat': ds, 'group': [G(*ds)], 'first in a group': [G(*ds[:1])] + ds[1:], 'rest in a group': ds[:1] + [G(*ds[1:])],
                 'nested': [G(G(*ds[:1]), G(), *ds[1:])]}[shape]
        pl = R.build_list(clf, nodes)
        judge(ch, unchanged(ch, pl, 'made', twice=False), nodes, 'made')
        judge(ch, printed(clf.ProcessList(doc(ch, nodes))), nodes, 'read')
        for x, d in zip(pl.getProcesses(), nodes):
            secs = sections(printed(x))
            fl = list(flatten([d]))
            ch.equal([s['type'] for s in secs], [TAGS.get(y['t'], y['t']) for y in fl], 'a node printed by itself')
            for s, y in zip(secs, fl):
                judge_node(ch, s, y, 'by itself')
        ch.state(shape, ks)


HEAD = [('id', 'urn:1'), ('name', 'A list'), ('compCLFversion', '1.2'), ('inverseOf', 'that one'), ('custom', 'kept : here')]
ELEM = [('Description', 'about it'), ('Description', 'more : of it'), ('InputDescriptor', 'scene linear'), ('OutputDescriptor', 'display'), ('Info', None)]


def header(ch):
    """Attributes and elements of the list."""
    mask = ch.choose('attributes', range(32))
    for em in range(32):
        at = [HEAD[i] for i in range(5) if mask >> i & 1]
        el = [ELEM[i] for i in range(5) if em >> i & 1]
        inner = ''.join('<Info><AppRelease>app 1</AppRelease><Copyright>c 2015</Copyright><Release>r9</Release></Info>' if k == 'Info' else '<%s>%s</%s>' % (k, v, k) for k, v in el)
        nodes = [SEQ[0], SEQ[3]]
        p = doc(ch, nodes, ''.join(' %s="%s"' % x for x in at), inner)
        for text in (unchanged(ch, clf.ProcessList(p), 'read'), tool(p)):
            top = judge(ch, text, nodes, 'header')
            for k, v in at:
                find(ch, top['Attribute'], k, v, 'list attribute')
            want = ['%s : %s' % x for x in el if x[0] != 'Info'] + (['Info', 'AppRelease : app 1', 'Copyright : c 2015', 'Release : r9'] if em & 16 else [])
            ch.equal(top['lines'], want, 'elements of the list')
        ch.state(mask, em)


def values(ch):
    """Value elements and dynamic parameters added by hand."""
    mask = ch.choose('which', range(16))
    kind = ch.choose('node', ['Range', 'Matrix', 'EC', 'list'])
    d = {'Range': SEQ[0], 'Matrix': SEQ[1], 'EC': SEQ[5], 'list': SEQ[0]}[kind]
    d = dict(d)
    extra = {k: v for i, (k, v) in enumerate([('first', 'x'), ('second', 2.5), ('third', 'a : b'), ('fourth', 'last')]) if mask >> i & 1}
    pl = R.build_list(clf, [d])
    target = pl if kind == 'list' else pl.getProcesses()[0]
    for k, v in extra.items():
        target.addValueElement(k, v)
    if kind == 'Range':
        secs = sections(unchanged(ch, pl, 'made'))
        for k, v in list(extra.items()) + [('minInValue', 0.0), ('maxInValue', 1.0), ('minOutValue', 0.0), ('maxOutValue', 0.5)]:
            find(ch, secs[1]['Element'], k, v, 'value element')
        return
    text = unchanged(ch, pl, 'made')
    if kind == 'list':
        top = judge(ch, text, [d], 'values')
        for k, v in extra.items():
            find(ch, top['Element'], k, v, 'value element of the list')
    else:
        d['values'] = extra
        judge(ch, text, [d], 'values')
    ch.state(mask, kind)


def references(ch):
    """Resolved and unresolved references."""
    how = ch.choose('path', ['absolute', 'base', 'missing', 'alias only'])
    nest = ch.flag('in a group')
    inside = [SEQ[i] for i in ch.choose('target', [(0,), (1, 3), (4, 2, 5)])]
    p = doc(ch, inside)
    d = R.D('Ref', id='ref')
    if how == 'absolute':
        d['path'] = p
    elif how == 'base':
        d['path'], d['basePath'] = os.path.basename(p), os.path.dirname(p)
    elif how == 'missing':
        d['path'] = p + '.gone'
    else:
        d['alias'] = 'thing'
    nodes = [d, SEQ[1]]
    if nest:
        nodes = [R.D('Group', nodes=nodes)]
    q = doc(ch, nodes)
    for text in (unchanged(ch, R.build_list(clf, nodes), 'made'), unchanged(ch, clf.ProcessList(q), 'read'), tool(q)):
        secs = sections(text)
        want = [x for x in flatten(nodes)]
        k = [s['type'] for s in secs].index('Reference')
        ok = how in ('absolute', 'base')
        types = ['ProcessList'] + [y for x in want for y in [TAGS.get(x['t'], x['t'])] + (['ProcessList'] + [TAGS.get(z['t'], z['t']) for z in inside] if ok and x is d else [])]
        ch.equal([s['type'] for s in secs], types, 'nodes shown')
        judge_node(ch, secs[k], d, 'reference')
        if ok:
            ch.check(any(l.endswith(p) for l in secs[k]['lines']), 'the resolved path %s is not among %s', p, secs[k]['lines'])
            for s, x in zip(secs[k + 2:], inside):
                judge_node(ch, s, x, 'target')
        judge_node(ch, secs[-1], SEQ[1], 'after it')
    ch.state(how, nest, inside)


def without(ch):
    """clfinfo without a file prints no list."""
    argv = ch.choose('arguments', [[], ['--']])
    with boot.Capture() as c:
        boot.script('clfinfo', argv)
    ch.check(sections(c.text) == [], 'clfinfo %s printed %r', argv, c.text)
    p = doc(ch, [SEQ[1]])
    for form in (['-c', p], ['--clf', p], ['--clf=' + p]):
        with boot.Capture() as c:
            boot.script('clfinfo', form)
        judge(ch, c.text, [SEQ[1]], ' '.join(form))
    ch.state(argv)


def special(ch):
    """Tables with fractions, infinities and NaN at every output depth."""
    t = ch.choose('table', ['1D', '1D long', '1D half', '3D', 'matrix'])
    out = ch.choose('out', R.DEPTHS)
    how = ch.choose('how', ['made', 'read', 'encoded'])
    pool = [0.5, 255.0, math.inf, -math.inf, math.nan, -1.25, 0.0, 1023.75]
    for k in range(len(pool)):
        at = lambda n: [pool[(i * 3 + k) % len(pool)] for i in range(n)]
        if t == '3D':
            d = R.D('LUT3D', dim=[2, 2, 2], v=at(24), interp='trilinear', out=out)
        elif t == 'matrix':
            d = R.D('Matrix', dim=[3, 3, 3], v=at(9), out=out)
        else:
            d = R.D('LUT1D', ch=1, v=at({'1D': 8, '1D long': 40, '1D half': 65536}[t]), interp='linear', out=out)
            if t == '1D half':
                if k or how != 'made':
                    continue
                d['half'] = True
        pl = R.build_list(clf, [d])
        if how == 'read':
            pl = clf.ProcessList(doc(ch, [d]))
        elif how == 'encoded':
            p = ch.path('e.clf')
            R.build_list(clf, [dict(d, enc='hex32bit')]).writeFile(p)
            pl = clf.ProcessList(p)
        text = printed(pl)
        judge(ch, text, [d], '%s values at %s, %s' % (t, out, how))
        ch.equal(printed(pl), text, 'printed again')
        ch.state(t, out, how, k)


HARNESSES = {'special': special, 'variants': variants, 'tables': tables, 'params': params, 'lists': lists, 'header': header, 'values': values, 'references': references, 'without': without}
