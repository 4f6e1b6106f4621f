"""CLF and CTF documents read alike however they are spelled."""
import itertools
import re
import xml.etree.ElementTree as etree

import boot
import explore
import refmodel as R
from common import *
import props.c12 as files

clf = boot.clf()
BOUNDS = """14 spelling dimensions (5 uses of namespaces and prefixes, 5 spellings of element names, attribute order and quotes, comments and
processing instructions, 7 layouts of white space, 8 spellings of numbers, order of the children of nodes, places of descriptions, encodings of
the file, unknown elements, unknown attributes, empty elements and CDATA, boolean spellings, wrapping in a group): every single variation on each
of the node variants of C12 (about 130), alone and in a group, and all pairs (thorough: all triples) of variations on documents that hold one of
every node type; every subset of the optional attributes and parameters of every node type left out; all orders of the parameter elements of a
node; 18 kinds of unknown content in every place. Each document is read, compared with the model element by element and by its pixels, and its
written form read again."""
ASSUMPTIONS = ['index maps keep their in@out pairs free of inner white space']

NS = 'urn:NATAS:AMPAS:LUT:v2.0'
NUMTEXT = ('Array', 'IndexMap', 'Slope', 'Offset', 'Power', 'Saturation', 'minInValue', 'maxInValue', 'minOutValue', 'maxOutValue')
NUMATTR = {'GammaParams': ('gamma', 'offset'), 'LogParams': ('gamma', 'refWhite', 'refBlack', 'highlight', 'shadow'), 'ECParams': ('exposure', 'contrast', 'pivot')}
META = ('Description', 'InputDescriptor', 'OutputDescriptor', 'Info')


def shortest(x):
    s = repr(float(x))
    s = s[:-2] if s.endswith('.0') else s
    if s.startswith('0.') and len(s) > 2:
        return s[1:]
    if s.startswith('-0.'):
        return '-' + s[2:]
    return s


def dotted(x):
    return '%d.' % x if x == int(x) and abs(x) < 1e15 else repr(x)


NUMBERS = [('repr', repr), ('short', shortest), ('exponent', lambda x: '%.17e' % x), ('EXPONENT', lambda x: '%.16E' % x),
           ('plus', lambda x: ('+' if x >= 0 else '') + repr(x)), ('zeros', lambda x: '%.20f' % x), ('dot', dotted),
           ('padded', lambda x: ('-' if x < 0 else '') + '00' + repr(abs(x)) + ('0' if 'e' not in repr(x) else ''))]

LAYOUT = ['one space', 'lines', 'tabs', 'wide', 'around', 'crlf', 'runs']
DIMS = {
    'ns': ['none', 'default', 'prefix', 'mixed', 'children'],
    'names': ['ASC_CDL', 'ASC-CDL', 'ASCCDL', 'parts', 'dashes'],
    'attrs': ['as is', 'reversed', 'sorted', 'single quotes', 'lines'],
    'comments': ['none', 'between', 'inside', 'in text', 'instructions'],
    'layout': LAYOUT,
    'numbers': [n for n, _ in NUMBERS],
    'children': ['as is', 'reversed', 'rotated'],
    'described': ['before', 'after', 'between', 'none'],
    'encoding': ['utf-8', 'bare', 'bom', 'utf-16', 'latin', 'ascii references'],
    'elements': ['none', 'top', 'in nodes', 'nested', 'deep'],
    'unknown': ['none', 'plain', 'foreign', 'everywhere'],
    'empty': ['as is', 'open', 'cdata', 'entities'],
    'booleans': ['True', 'true', 'TRUE'],
    'lines': ['as is', 'pretty', 'one'],
}
NAMES = sorted(DIMS)
FIRST = dict((k, v[0]) for k, v in DIMS.items())

DESCS = ['the first', 'in <between> & so', 'the last']


def words(text, sp, k):
    toks = text.split()
    lay = sp['layout']
    if lay == 'lines':
        return '\n'.join(toks)
    if lay == 'tabs':
        return '\t'.join(toks)
    if lay == 'wide':
        return '        '.join(toks)
    if lay == 'around':
        return '\n\n   ' + ' '.join(toks) + '\n\t\t '
    if lay == 'crlf':
        return '\r\n' + '\r\n'.join(toks) + '\r\n'
    if lay == 'runs':
        return ''.join(t + [' ', '\n', '\t \n', '  '][(i + k) % 4] for i, t in enumerate(toks))
    return ' '.join(toks)


def number(tok, sp):
    f = dict(NUMBERS)[sp['numbers']]
    if '@' in tok:
        a, b = tok.split('@')
        return f(float(a)) + '@' + f(float(b))
    return f(float(tok))


UNKNOWN = ['<Bogus/>', '<Bogus a="1">text 1 2 3</Bogus>']


class Speller(object):
    def __init__(self, sp):
        self.sp, self.n = sp, 0

    def tag(self, t, depth):
        sp = self.sp
        if t == 'ASC_CDL':
            t = {'ASC-CDL': 'ASC-CDL', 'ASCCDL': 'ASCCDL', 'dashes': 'ASC-CDL'}.get(sp['names'], t)
        if sp['names'] == 'parts' and t in ('SOPNode', 'SatNode'):
            t = {'SOPNode': 'SopNode', 'SatNode': 'SATNode'}[t]
        if sp['names'] == 'dashes':
            t = {'LUT1D': 'LUT_1D', 'LUT3D': 'LUT-3D', 'SOPNode': 'SOP_Node', 'SatNode': 'Sat-Node', 'IndexMap': 'Index_Map'}.get(t, t)
        if sp['ns'] == 'prefix' or (sp['ns'] == 'mixed' and depth % 2 == 1):
            t = 'clf:' + t
        if sp['ns'] == 'children' and depth == 1:
            t = 'x%d:' % (self.n % 2) + t
        return t

    def esc(self, s):
        if self.sp['empty'] == 'cdata' and s.strip():
            return '<![CDATA[%s]]>' % s
        if self.sp['empty'] == 'entities':
            return ''.join('&#%d;' % ord(c) if i % 2 == 0 and not c.isspace() else R.esc(c) for i, c in enumerate(s))
        return R.esc(s)

    def element(self, el, depth=0):
        sp = self.sp
        self.n += 1
        n = self.n
        t = el.tag
        at = list(el.attrib.items())
        if t in NUMATTR:
            at = [(k, number(v, sp) if k in NUMATTR[t] else v) for k, v in at]
        at = [(k, {'true': 'true', 'TRUE': 'TRUE'}.get(sp['booleans'], v) if v == 'True' else {'true': 'false', 'TRUE': 'FALSE'}.get(sp['booleans'], v) if v == 'False' else v)
              for k, v in at]
        if sp['unknown'] != 'none' and (depth in (0, 1) or sp['unknown'] == 'everywhere'):
            if t not in META and t not in ('AppRelease', 'Copyright'):
                at.insert(n % (len(at) + 1), ('someone:hint' if sp['unknown'] == 'foreign' else 'hint', 'x1 & <y>'))
        if sp['attrs'] == 'reversed':
            at.reverse()
        if sp['attrs'] == 'sorted':
            at.sort()
        if depth == 0:
            if sp['ns'] == 'default':
                at.insert(0, ('xmlns', NS))
            if sp['ns'] in ('prefix', 'mixed'):
                at.append(('xmlns:clf', NS))
            if sp['ns'] == 'mixed':
                at.append(('xmlns', 'urn:other'))
            if sp['ns'] == 'children':
                at += [('xmlns:x0', NS), ('xmlns:x1', 'urn:other')]
            if sp['unknown'] == 'foreign':
                at.insert(0, ('xmlns:someone', 'urn:someone'))
        q = "'" if sp['attrs'] == 'single quotes' else '"'
        gap = '\n    ' if sp['attrs'] == 'lines' else ' '
        eq = ' = ' if sp['attrs'] == 'lines' else '='
        tag = self.tag(t, depth)
        head = tag + ''.join(gap + k + eq + q + R.esc(v).replace("'", '&apos;') + q for k, v in at)
        # text
        text = el.text or ''
        if t in NUMTEXT:
            toks = [number(x, sp) for x in text.split()]
            text = words(' '.join(toks), sp, n)
            if sp['comments'] == 'in text' and len(toks) > 1:
                half = len(toks) // 2
                return '<%s>%s</%s>' % (head, self.esc(words(' '.join(toks[:half]), sp, n)) + ' <!-- 9 9 9 -->\n' + self.esc(words(' '.join(toks[half:]), sp, n)), tag)
            if sp['comments'] == 'in text':
                return '<%s><!-- 9 -->%s<!-- 8 --></%s>' % (head, self.esc(text), tag)
            return '<%s>%s</%s>' % (head, self.esc(text), tag)
        if t in META and t != 'Info' or t in ('AppRelease', 'Copyright', 'Release'):
            return '<%s>%s</%s>' % (head, self.esc(text), tag)
        kids = list(el)
        node = depth > 0 and t not in ('Group', 'Info')
        if node:
            if sp['children'] != 'as is':
                # what comes several times keeps its order: parameters, index maps, descriptions and dynamic parameters
                by = {}
                for k in kids:
                    by.setdefault(k.tag, []).append(k)
                keys = list(by)
                keys = keys[::-1] if sp['children'] == 'reversed' else keys[1:] + keys[:1]
                kids = [x for k in keys for x in by[k]]
        parts = [self.element(k, depth + 1) for k in kids]
        if depth == 0:
            dt = self.tag('Description', 1)
            ds = ['<%s>%s</%s>' % (dt, self.esc(x), dt) for x in DESCS]
            where = sp['described']
            self.order = []
            if where == 'before':
                parts = ds + parts
            elif where == 'after':
                parts = parts + ds
            elif where == 'between':
                parts = ds[:1] + parts[:1] + ds[1:2] + parts[1:] + ds[2:]
        junk = sp['elements']
        if junk == 'top' and depth == 0 or junk == 'in nodes' and depth == 1 and t not in META:
            parts = [UNKNOWN[0]] + [p + UNKNOWN[(i + n) % 2] for i, p in enumerate(parts)]
        if junk == 'nested' and depth == 0:
            parts.insert(len(parts) // 2, '<Bogus><Range inBitDepth="8i"><minInValue>3</minInValue></Range><Description>no</Description><Array dim="1 1">7</Array></Bogus>')
        if junk == 'nested' and depth == 1 and t not in META:
            parts.insert(n % (len(parts) + 1), '<Bogus><Array dim="2 1">7 8</Array><SOPNode><Slope>3 3 3</Slope></SOPNode><minInValue>0.5</minInValue><GammaParams gamma="9"/><IndexMap dim="2">0@0 1@1</IndexMap><Description>no</Description></Bogus>')
        if junk == 'deep' and depth == 2 and t in ('SOPNode', 'SatNode', 'Info'):
            parts = ['<Bogus>1 2 3</Bogus>'] + parts + ['<Hue>2</Hue>']
        sep = ''
        if sp['lines'] == 'pretty':
            sep = '\n' + '    ' * (depth + 1)
        elif sp['lines'] == 'as is':
            sep = '\n' if depth == 0 else ''
        if sp['comments'] == 'between' and depth == 0 or sp['comments'] == 'inside' and depth > 0:
            parts = ['<!-- a <Range/> --> ' + p for p in parts] + ['<!-- -->']
        if sp['comments'] == 'instructions':
            parts = ['<?do it?>' + p for p in parts]
        if not parts:
            return '<%s/>' % head if sp['empty'] != 'open' else '<%s>  \n</%s>' % (head, tag)
        return '<%s>%s%s%s</%s>' % (head, sep, sep.join(parts), sep[:-4] if sp['lines'] == 'pretty' else sep, tag)

    def document(self, root):
        body = self.element(root)
        if self.sp['comments'] == 'instructions':
            body = '<?xml-stylesheet href="x.css"?>\n<!-- first -->\n' + body + '\n<!-- last -->'
        enc = self.sp['encoding']
        if enc == 'bare':
            return body.encode('utf-8')
        if enc == 'bom':
            return b'\xef\xbb\xbf' + ('<?xml version="1.0" encoding="UTF-8"?>\n' + body).encode('utf-8')
        if enc == 'utf-16':
            return ('<?xml version="1.0" encoding="UTF-16"?>\n' + body).encode('utf-16')
        if enc == 'latin':
            return ('<?xml version="1.0" encoding="ISO-8859-1" standalone="yes"?>\n' + body).encode('latin-1')
        if enc == 'ascii references':
            return ('<?xml version="1.1"?>\n'.replace('1.1', '1.0') + body).encode('ascii', 'xmlcharrefreplace')
        return ('<?xml version="1.0" encoding="UTF-8"?>\n' + body + '\n').encode('utf-8')


def relaxed(c):
    """A canonical form without the attributes and namespaces that the spelling adds."""
    tag, at, toks, kids = c
    at = dict((k, v) for k, v in at.items() if k not in ('hint', '{urn:someone}hint', 'xmlns'))
    return (tag, at, toks, [relaxed(k) for k in kids])


def flags(c):
    """Booleans as the library writes them."""
    tag, at, toks, kids = c
    at = dict((k, {'true': 'True', 'TRUE': 'True', 'false': 'False', 'FALSE': 'False'}.get(v, v) if k in ('bypass', 'rawHalfs', 'halfDomain', 'defaultRange') else v) for k, v in at.items())
    return (tag, at, toks, [flags(k) for k in kids])


def leaves(d):
    return [x for k in d['nodes'] for x in leaves(k)] if d['t'] == 'Group' else [d]


def judge(ch, nodes, sp, what, attrs='', pixels=None, process=True):
    root = etree.fromstring(R.xml_doc(nodes, attrs).encode('utf-8'))
    data = Speller(sp).document(root)
    p = ch.path('s.clf')
    write_text(p, data)
    pl = clf.ProcessList(p)
    inner = ''.join('<Description>%s</Description>' % R.esc(x) for x in DESCS) if sp['described'] != 'none' else ''
    want = files.expected(nodes, inner, attrs)
    tree = flags(relaxed(files.tree_of(pl)))
    r = files.covers(tree, want, tol=7e-8)        # tables are read in single precision
    ch.check(r is None, '%s: what was read: %s', what, r)
    ch.check(sp['ns'] not in ('default', 'prefix') or pl.getNamespace() == NS, '%s: namespace %r', what, pl.getNamespace())
    ch.check(sp['ns'] not in ('none', 'children') or pl.getNamespace() is None, '%s: namespace %r', what, pl.getNamespace())
    ch.step()
    if not process:
        return pl
    fi = R.full(nodes[0].get('in', '16f')) if nodes else 1.0
    px = [[x * fi for x in q] for q in pixels or files.PIX[:2]]
    sc = max([1.0] + [max(R.full(d['in']), R.full(d['out'])) for n in nodes for d in leaves(n)])
    check_pixels(ch, pl, nodes, px, what, rel=1e-5, scale=sc)
    return pl


def singles(ch):
    """Every single variation of the spelling of every node variant."""
    i = ch.choose('variant', range(len(files.VARIANTS)))
    d = files.dressed(files.VARIANTS[i], 'full')
    if d.get('interp', '') is None:
        raise explore.Prune()
    for group in (False, True):
        nodes = [R.D('Group', nodes=[d], id='g')] if group else [d]
        for name in NAMES:
            for v in DIMS[name]:
                judge(ch, nodes, dict(FIRST, **{name: v}), '%s %s' % (name, v), process=d.get('interp') != 'cubic')
                ch.state(i, group, name, v)


ONES = [R.D('Range', minIn=0.0, maxIn=1.0, minOut=0.0, maxOut=0.5, style='noClamp', id='r', bypass=False),
        R.D('Matrix', dim=[3, 4, 3], v=lcg(12, 5), name='m'),
        R.D('LUT1D', ch=3, v=lcg(15, 4), imaps=[[[0.0, 0.25, 1.0], [0, 2, 4]], [[-1.0, 2.0], [0, 4]], [[0.0, 0.1, 0.3, 0.9], [0, 1, 3, 4]]], descs=['a lut', 'indeed']),
        R.D('LUT1D', ch=1, v=[0.0, 0.5, 1.0, 4.0], interp='linear'),
        R.D('LUT3D', dim=[2, 3, 2], v=lcg(36, 13), interp='tetrahedral', imaps=[[[0.0, 0.5, 1.0], [0, 1, 1]]]),
        R.D('CDL', style='noClampFwd', slope=[1.25, 0.75, 1.5], offset=[0.0625, 0.125, 0.03125], power=[1.5, 0.5, 2.0], sat=0.5, descs=['cdl']),
        R.D('CC', offset=[0.25, 0.125, 0.0], sat=1.25, id='cc0'),
        R.D('Range', default=True, minIn=-1.0),
        R.D('Gamma', style='moncurveFwd', params=[(2.4, 0.055, None), (2.0, 0.1, 'G')], dyn=['G']),
        R.D('Log', style='linToLog', params=[(0.55, 600.0, 64.0, 0.9, 0.05, None), (0.6, 685.0, 95.0, 1.0, 0.0, 'B')]),
        R.D('EC', style='linear', ecp=(0.5, 1.25, 0.25), bypass=True, dyn=['EXPOSURE']),
        R.D('Ref', path='missing.clf', alias='m'),
        R.D('Group', nodes=[R.D('EC', style='video', ecp=(-1.0, 1.0, 0.5)), R.D('Gamma', style='basicFwd', params=[(2.0, 0.0, 'G')])], name='grp')]
HEAD = ' id="doc" name="The name" compCLFversion="1.2" inverseOf="b"'


def pairs(ch):
    """All pairs (thorough: triples) of variations on a document with every node type."""
    n = 3 if ch.thorough else 2
    names = ch.choose('dimensions', list(itertools.combinations(NAMES, n)))
    for vals in itertools.product(*[DIMS[x] for x in names]):
        sp = dict(FIRST, **dict(zip(names, vals)))
        pl = judge(ch, ONES, sp, '%s' % dict(zip(names, vals)), HEAD)
        ch.equal((pl.getID(), pl.getName(), pl.getCompCLFversion(), pl.getInverseOf()), ('doc', 'The name', '1.2', 'b'), 'attributes of the list')
        ch.state(names, vals)


OPTIONAL = {
    'Range': (R.D('Range', style='noClamp', default=True, minIn=0.125, maxIn=0.75, minOut=0.0, maxOut=2.0), ['in', 'out', 'style', 'default', 'minIn', 'maxIn', 'minOut', 'maxOut']),
    'LUT1D': (R.D('LUT1D', ch=1, v=[0.0, 0.5, 1.0, 4.0], interp='linear', imaps=[[[0.0, 0.5, 1.0], [0, 1, 3]]]), ['in', 'out', 'interp', 'imaps']),
    'LUT3D': (R.D('LUT3D', dim=[2, 3, 2], v=lcg(36, 13), interp='tetrahedral', imaps=[[[0.0, 0.5, 1.0], [0, 1, 1]]]), ['in', 'out', 'interp', 'imaps']),
    'Matrix': (R.D('Matrix', dim=[3, 3, 3], v=lcg(9, 5)), ['in', 'out']),
    'CDL': (R.D('CDL', style='Rev', slope=[1.25, 0.75, 1.5], offset=[0.0625, 0.125, 0.03125], power=[1.5, 0.5, 2.0], sat=0.5), ['in', 'out', 'style', 'slope', 'offset', 'power', 'sat']),
    'CC': (R.D('CC', slope=[1.25, 0.75, 1.5], offset=[0.0625, 0.125, 0.03125], power=[1.5, 0.5, 2.0], sat=0.5), ['slope', 'offset', 'power', 'sat']),
    'Gamma': (R.D('Gamma', style='basicRev', params=[(2.0, 0.0, None)]), ['in', 'out', 'style']),
    'Log': (R.D('Log', style='antiLog2'), ['in', 'out', 'style']),
    'EC': (R.D('EC', style='log', ecp=(0.5, 1.25, 0.25)), ['in', 'out', 'style']),
}
DEFAULTS = {'style': {'Range': None, 'CDL': 'Fwd', 'Gamma': 'basicFwd', 'Log': 'log10', 'EC': 'linear'}, 'in': '16f', 'out': '16f', 'interp': {'LUT1D': 'linear', 'LUT3D': 'trilinear'}}
LOGDEF = dict(gamma=0.6, refWhite=685.0, refBlack=95.0, highlight=1.0, shadow=0.0)


def spelled(d, gone):
    """The element with only what is not left out."""
    d = dict(d)
    x = etree.fromstring(R.xml_node(dict(d, **dict((k, None) for k in gone if k not in ('in', 'out', 'style', 'interp')))))
    for k, a in (('in', 'inBitDepth'), ('out', 'outBitDepth'), ('style', 'style'), ('interp', 'interpolation')):
        if k in gone and a in x.attrib:
            del x.attrib[a]
    return etree.tostring(x).decode('utf-8')


def defaults(ch):
    """Every subset of the optional attributes and parameters left out."""
    kind = ch.choose('kind', sorted(OPTIONAL) + ['log params', 'gamma params', 'ec params', 'log again', 'gamma again', 'ec again'])
    px = [[0.5, 0.25, 0.75], [0.0625, 0.875, 0.375]]
    todo = []
    if kind in OPTIONAL:
        d, opts = OPTIONAL[kind]
        for bits in itertools.product((0, 1), repeat=len(opts)):
            gone = [k for k, b in zip(opts, bits) if b]
            w = dict(d)
            for k in gone:
                w[k] = DEFAULTS.get(k)
                if isinstance(w[k], dict):
                    w[k] = w[k][kind]
            w = dict((k, v) for k, v in w.items() if v is not None)
            todo.append((w, spelled(d, gone), gone))
    elif kind == 'log params':
        for style in ('logToLin', 'linToLog'):
            for bits in itertools.product((0, 1), repeat=5):
                for c in (None, 'R', 'G', 'B'):
                    full = dict(gamma=0.5, refWhite=650.0, refBlack=64.0, highlight=0.75, shadow=0.125)
                    keys = sorted(full)
                    given = dict((k, full[k]) for k, b in zip(keys, bits) if not b)
                    p = dict(LOGDEF, **given)
                    w = R.D('Log', style=style, params=[tuple(p[k] for k in ('gamma', 'refWhite', 'refBlack', 'highlight', 'shadow')) + (c,)])
                    x = '<Log inBitDepth="16f" outBitDepth="16f" style="%s"><LogParams%s%s/></Log>' % (style, ''.join(' %s="%r"' % kv for kv in given.items()), ' channel="%s"' % c if c else '')
                    todo.append((w, x, (bits, c)))
    elif kind == 'gamma params':
        for style in ('basicFwd', 'basicRev'):
            for o in (None, 0.0):
                for c in (None, 'R', 'G', 'B'):
                    w = R.D('Gamma', style=style, params=[(2.0, 0.0, c)])
                    todo.append((w, '<Gamma inBitDepth="16f" outBitDepth="16f" style="%s"><GammaParams%s gamma="2"%s/></Gamma>' % (style, ' channel="%s"' % c if c else '', '' if o is None else ' offset="0"'), (o, c)))
    elif kind == 'log again':
        # a second set of parameters takes the defaults for what it leaves out, not what the first gave
        first = (0.5, 650.0, 64.0, 0.75, 0.125)
        keys = ('gamma', 'refWhite', 'refBlack', 'highlight', 'shadow')
        for style in ('logToLin', 'linToLog'):
            for bits in itertools.product((0, 1), repeat=5):
                for c0, c in ((None, 'G'), ('R', None), ('R', 'B'), (None, None)):
                    given = dict((k, v) for k, v, b in zip(keys, (0.55, 700.0, 80.0, 0.875, 0.0625), bits) if not b)
                    p = dict(LOGDEF, **given)
                    w = R.D('Log', style=style, params=[first + (c0,), tuple(p[k] for k in keys) + (c,)])
                    x = '<Log inBitDepth="16f" outBitDepth="16f" style="%s">%s</Log>' % (style, ''.join(
                        '<LogParams%s%s/>' % (''.join(' %s="%r"' % kv for kv in g.items()), ' channel="%s"' % k if k else '')
                        for g, k in ((dict(zip(keys, first)), c0), (given, c))))
                    todo.append((w, x, (bits, c0, c)))
    elif kind == 'gamma again':
        for style in ('basicFwd', 'basicRev', 'moncurveFwd', 'moncurveRev'):
            for c0, c in ((None, 'G'), ('R', None), ('R', 'B'), (None, None), ('G', 'G')):
                # the curve needs an offset: the channels given last have one, those given first may not
                o0, o = (0.125, None) if style.startswith('basic') else (None, 0.25)
                if style.startswith('mon') and not (c is None or c0 == c):
                    continue
                w = R.D('Gamma', style=style, params=[(2.0, o0 or 0.0, c0), (3.0, o or 0.0, c)])
                if style.startswith('mon') and c0 == c == 'G':
                    w['params'] = [(2.0, 0.125, None)] + w['params']
                x = '<Gamma inBitDepth="16f" outBitDepth="16f" style="%s">%s</Gamma>' % (style, ''.join(
                    '<GammaParams gamma="%r"%s%s/>' % (g, ' offset="%r"' % f if f else '', ' channel="%s"' % k if k else '') for g, f, k in w['params']))
                todo.append((w, x, (style, c0, c)))
    elif kind == 'ec again':
        for style in ('linear', 'video', 'log'):
            for bits in itertools.product((0, 1), repeat=3):
                given = dict((k, v) for k, v, b in zip(('exposure', 'contrast', 'pivot'), (0.5, 1.25, 0.25), bits) if not b)
                p = dict(dict(exposure=0.0, contrast=1.0, pivot=1.0), **given)
                w = R.D('EC', style=style, ecp=(p['exposure'], p['contrast'], p['pivot']))
                todo.append((w, '<ExposureContrast inBitDepth="16f" outBitDepth="16f" style="%s"><ECParams exposure="-1" contrast="0.75" pivot="0.5"/><ECParams%s/></ExposureContrast>' % (style, ''.join(' %s="%r"' % kv for kv in given.items())), bits))
    else:
        for style in ('linear', 'video', 'log'):
            for bits in itertools.product((0, 1), repeat=3):
                full = dict(exposure=0.5, contrast=1.25, pivot=0.25)
                given = dict((k, full[k]) for k, b in zip(sorted(full), bits) if not b)
                p = dict(dict(exposure=0.0, contrast=1.0, pivot=1.0), **given)
                w = R.D('EC', style=style, ecp=(p['exposure'], p['contrast'], p['pivot']))
                todo.append((w, '<ExposureContrast inBitDepth="16f" outBitDepth="16f" style="%s"><ECParams%s/></ExposureContrast>' % (style, ''.join(' %s="%r"' % kv for kv in given.items())), bits))
    for w, x, gone in todo:
        for wrap in ('%s', '<Group inBitDepth="16f" outBitDepth="16f">%s</Group>'):
            p = write_text(ch.path('d.clf'), '<?xml version="1.0"?><ProcessList>' + wrap % x + '</ProcessList>')
            pl = clf.ProcessList(p)
            n = pl[0] if wrap == '%s' else pl[0].getProcesses()[0]
            what = '%s without %s' % (kind, gone)
            if w['t'] != 'CC':
                ch.equal((n.getInBitDepth(), n.getOutBitDepth()), (w['in'], w['out']), what + ': depths')
            check_pixels(ch, pl, [w], px, what, rel=1e-5)
            q = ch.path('d2.clf')
            pl.writeFile(q)
            check_pixels(ch, clf.ProcessList(q), [w], px, what + ', written and read', rel=1e-5)
            ch.step()
        ch.state(kind, gone)


def children(ch):
    """All orders of the child elements of a node: what is given later holds."""
    kind = ch.choose('kind', ['Gamma', 'Log', 'LUT1D', 'LUT3D', 'CDL', 'Range', 'Info'])
    px = [[0.5, 0.25, 0.75], [0.0625, 0.875, 0.375]]
    D1, D2 = '<Description>one</Description>', '<Description>two</Description>'
    dyn = '<DynamicParameter param="P"/>'
    if kind in ('Gamma', 'Log'):
        ps = [(2.0, 0.0, None), (1.5, 0.0, 'R'), (0.5, 0.0, 'G'), (3.0, 0.0, 'R')] if kind == 'Gamma' else \
            [(0.6, 685.0, 95.0, 1.0, 0.0, None), (0.5, 650.0, 64.0, 0.75, 0.125, 'G'), (0.55, 600.0, 64.0, 0.9, 0.05, 'B'), (0.7, 650.0, 95.0, 0.5, 0.0, 'G')]
        for k in range(5):
            for chosen in itertools.permutations(ps, k):
                d = R.D(kind, style='basicFwd' if kind == 'Gamma' else 'linToLog', params=list(chosen), descs=['one'])
                p = write_text(ch.path('o.clf'), R.xml_doc([d]))
                check_pixels(ch, clf.ProcessList(p), [d], px, '%s' % (chosen,), rel=1e-5)
                ch.state(kind, chosen)
                ch.step()
        return
    if kind == 'LUT1D':
        d = R.D('LUT1D', ch=3, v=lcg(15, 4), imaps=[[[0.0, 0.25, 1.0], [0, 2, 4]], [[-1.0, 2.0], [0, 4]], [[0.0, 0.1, 0.3, 0.9], [0, 1, 3, 4]]])
        el = etree.fromstring(R.xml_node(d))
    elif kind == 'LUT3D':
        d = R.D('LUT3D', dim=[2, 3, 2], v=lcg(36, 13), imaps=[[[0.0, 1.0], [0, 1]], [[0.0, 0.25, 1.0], [0, 1, 2]], [[0.5, 1.0], [0, 1]]])
        el = etree.fromstring(R.xml_node(d))
    elif kind == 'CDL':
        d = R.D('CDL', style='Fwd', slope=[1.25, 0.75, 1.5], offset=[0.0625, 0.125, 0.03125], power=[1.5, 0.5, 2.0], sat=0.5)
        el = etree.fromstring(R.xml_node(d))
    elif kind == 'Range':
        d = R.D('Range', minIn=0.125, maxIn=0.75, minOut=0.0, maxOut=2.0)
        el = etree.fromstring(R.xml_node(d))
    else:
        for order in itertools.permutations(['<AppRelease>r</AppRelease>', '<Copyright>c</Copyright>', '<Other>o</Other>', '<Release>x</Release>']):
            p = write_text(ch.path('i.clf'), '<ProcessList><Info>%s</Info></ProcessList>' % ''.join(order))
            want = [('Info', [(t, x) for t, x in re.findall('<(AppRelease|Copyright|Release)>(.)<', ''.join(order))])]
            got = [(R.local(e.tag), [(R.local(k.tag), k.text) for k in e]) for e in clf.ProcessList(p).write().getroot()]
            ch.equal(got, want, 'info')
            ch.state(order)
            ch.step()
        return
    parts = [etree.tostring(k).decode('utf-8') for k in el] + [D1, D2] + ([dyn] if kind == 'CDL' else [])
    maps = [x for x in parts if x.startswith('<IndexMap')]
    head = etree.tostring(etree.Element(el.tag, el.attrib)).decode('utf-8').replace('/>', '>').rstrip()
    for order in itertools.permutations(parts):
        if [x for x in order if x.startswith('<IndexMap')] != maps or order.index(D1) > order.index(D2):
            continue                         # index maps are red, green, blue
        p = write_text(ch.path('o.clf'), '<ProcessList>%s%s</%s></ProcessList>' % (head, ''.join(order), el.tag))
        pl = clf.ProcessList(p)
        what = ' '.join(re.match('<([A-Za-z]*)', x).group(1) for x in order)
        check_pixels(ch, pl, [d], px, what, rel=1e-5)
        ch.equal([e.text for e in pl.write().getroot()[0] if e.tag == 'Description'], ['one', 'two'], what)
        ch.state(kind, order)
        ch.step()


JUNK = ['<Bogus/>', '<Bogus></Bogus>', '<Bogus>1 2 3</Bogus>', '<x:Bogus xmlns:x="urn:x"/>', '<Bogus xmlns="urn:x"><Range/></Bogus>', '<Bogus><Bogus/><Bogus/></Bogus>',
        '<range/>', '<ASC_CDLs/>', '<LUT2D inBitDepth="8i"/>', '<Ranges><Range/></Ranges>', '<ProcessList><Range inBitDepth="8i"/></ProcessList>',
        '<Array1 dim="1 1">9</Array1>', '<Slopes>9 9 9</Slopes>', '<minValue>9</minValue>', '<Params gamma="9"/>', '<descriptions>x</descriptions>',
        '<Bogus dim="x" gamma="y" style="z" bypass="True" name="r"/>', '<Bogus><Description>no</Description></Bogus>']


def junk(ch):
    """Unknown content in every place."""
    j = ch.choose('junk', range(len(JUNK)))
    text = R.xml_doc(ONES, HEAD, '<Description>d</Description><Info><AppRelease>a</AppRelease></Info>')
    want = files.expected(ONES, '<Description>d</Description><Info><AppRelease>a</AppRelease></Info>', HEAD)
    places = [m.end() for m in re.finditer(r'</?[A-Za-z][^>]*>', text)]
    inside = set()
    for m in re.finditer(r'<(Description|AppRelease|Array|IndexMap|Slope|Offset|Power|Saturation|minInValue|maxInValue|minOutValue|maxOutValue)\b[^>]*>', text):
        inside.add(m.end())                  # in the middle of text is not a place for an element
    # an attribute text ends in > only where the tag does; the root ends the document
    end = text.rindex('</ProcessList>')
    for at in places:
        if at in inside or at > end:
            continue
        p = write_text(ch.path('j.clf'), text[:at] + JUNK[j] + text[at:])
        what = '%s at %r' % (JUNK[j], text[max(0, at - 30):at])
        pl = clf.ProcessList(p)
        r = files.covers(files.tree_of(pl), want)
        ch.check(r is None, '%s: %s', what, r)
        check_pixels(ch, pl, ONES, files.PIX[:2], what, rel=1e-5, scale=8.0)
        ch.state(j, at)
        ch.step()


def booleans(ch):
    """Every spelling of the true and false of the options."""
    which = ch.choose('attribute', ['defaultRange', 'halfDomain', 'rawHalfs', 'bypass', 'both'])
    for text in ('True', 'true', 'TRUE', 'False', 'false', 'FALSE', None):
        on = text is not None and text.lower() == 'true'
        at = '' if text is None else ' %s="%s"' % (which, text)
        px = [[0.5, 0.25, 0.75], [1.5, -0.25, 0.375]]
        if which == 'defaultRange':
            d = R.D('Range', minIn=0.25, default=on or None)
            x = '<Range%s><minInValue>0.25</minInValue></Range>' % at
        elif which == 'bypass':
            d = R.D('EC', style='linear', ecp=(1.0, 1.0, 0.5), bypass=on)
            x = '<ExposureContrast style="linear"%s><ECParams exposure="1" contrast="1" pivot=".5"/></ExposureContrast>' % at
        else:
            h = which != 'rawHalfs' and on
            raw = which != 'halfDomain' and on
            if which == 'both':
                at = '' if text is None else ' halfDomain="%s" rawHalfs="%s"' % (text, text)
            vals = [R.half_of_code(c) * 0.5 if c & 0x7c00 != 0x7c00 else 0.0 for c in range(65536)] if h else [0.0, 0.25, 0.5, 2.0]
            d = R.D('LUT1D', ch=1, v=vals, half=h or None)
            if raw:
                vals = [R.code_of_half(v) for v in vals]
                d['v'] = [R.half_of_code(v) for v in vals]
            x = '<LUT1D%s><Array dim="%d 1">%s</Array></LUT1D>' % (at, len(vals), ' '.join(map(repr, vals)))
        for wrap in ('%s', '<Group>%s</Group>'):
            p = write_text(ch.path('b.clf'), '<ProcessList>%s</ProcessList>' % (wrap % x))
            pl = clf.ProcessList(p)
            what = '%s="%s"' % (which, text)
            check_pixels(ch, pl, [d], px, what)
            if which in ('defaultRange', 'bypass'):
                q = ch.path('c.clf')
                pl.writeFile(q)
                check_pixels(ch, clf.ProcessList(q), [d], px, what + ', written and read')
            ch.state(which, text, wrap)
            ch.step()


HARNESSES = {'booleans': booleans, 'singles': singles, 'pairs': pairs, 'defaults': defaults, 'children': children, 'junk': junk}
