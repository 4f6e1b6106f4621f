"""A LUT goes to a format that takes its extension and layout."""
import contextlib
import io
import itertools
import sys

import boot
import explore
import refmodel as R
from common import *

lf = boot.lutformats()
reg, clf = lf.Registry, boot.fmt_clf()
Base = lf.LutFormat.LutFormat
CAPS = {'read': lf.IO_CAPABILITY_READ, '1D': lf.IO_CAPABILITY_WRITE_1D, '3D': lf.IO_CAPABILITY_WRITE_3D, '1D_3D_1D': lf.IO_CAPABILITY_WRITE_1D3D1D}
BOUNDS = """every one and pair (thorough: triples of part) of registered stand-in formats, each with 5 lists of extensions and capabilities x succeeding, failing in
two ways and not implementing the operation, x reading and the three layouts of writing x 5 spellings of the path's extension, also beside the shipped formats; what every
format says of itself for every extension and capability; every subset of the arguments of read and write; the help of both tools."""
ASSUMPTIONS = ['which of several formats that qualify is tried first is not promised']
# entry: lists of (extension, takes the operation under test)
TAKES = [[('aaa', True)], [('AAA', True), ('bbb', False)], [('aaa', False), ('bbb', True)], [('bbb', True)], [('aaa', False), ('Aaa', True)]]
OUTCOMES = ['works', 'fails', 'fails empty', 'missing']
OPS = ['read', '1D', '3D', '1D_3D_1D']
PATHS = ['x.aaa', 'x.AAA', 'y.bbb.aAa', 'x.bbb', 'x']
OTHER = {'read': '1D', '1D': 'read', '3D': '1D', '1D_3D_1D': '3D'}


@contextlib.contextmanager
def formats(fresh=True):
    """The registry, put back afterwards."""
    old = dict(reg.lutFormats)
    if fresh:
        reg.lutFormats.clear()
    out, sys.stdout = sys.stdout, io.StringIO()
    try:
        yield
    finally:
        sys.stdout = out
        reg.lutFormats.clear()
        reg.lutFormats.update(old)


def fake(name, entries, op, outcome, calls):
    """Registers a format."""
    def node():
        return [clf.Range('16f', '16f', name, name)]

    def run(kind):
        def f(cls, *a, **k):
            calls.append((name, kind, a, k))
            if kind == 'read':
                return {'works': node(), 'fails': None, 'fails empty': []}[outcome]
            return {'works': True, 'fails': False, 'fails empty': None}[outcome]
        return classmethod(f)
    body = {'formatType': name, 'formats': [['%s files' % e, e, [CAPS[op]] if t else [CAPS[OTHER[op]]]] for e, t in entries]}
    if outcome != 'missing':
        for kind, m in (('read', 'read'), ('1D', 'write1D'), ('3D', 'write3D'), ('1D_3D_1D', 'write1D3D1D')):
            body[m] = run(kind)
    return type(Base)(name, (Base,), body)


def qualifies(entries, ext):
    return any(e.lower() == ext and t for e, t in entries)


def act(op, path, **kw):
    """-> what read returned, what was printed"""
    sys.stdout.truncate(0)
    sys.stdout.seek(0)
    if op == 'read':
        r = reg.read(path, **kw)
    else:
        pl = clf.ProcessList()
        pl.addProcess(clf.Range('16f', '16f', 'a', 'a'))
        r = reg.write(pl, path, lutDataFormat=op, lutResolution1d=2, lutResolution3d=2, lutResolution1d3d1d=[2, 2, 2], **kw)
    return r, sys.stdout.getvalue()


def judge(ch, op, path, configs, calls, result, text, what, nodes):
    ext = path.rpartition('.')[2].lower() if '.' in path else ''
    able = {n: o for n, e, o in configs if qualifies(e, ext)}
    works = [n for n in able if able[n] == 'works']
    silent = [n for n in able if able[n] == 'missing']
    seq = [c[0] for c in calls]
    ch.check(all(c[1] == op for c in calls), '%s: called %s', what, [c[:2] for c in calls])
    ch.check(len(set(seq)) == len(seq) and set(seq) <= set(able), '%s: called %s, of which %s qualify', what, seq, sorted(able))
    ch.check(all(able[n] != 'works' for n in seq[:-1]), '%s: went on after success: %s', what, seq)
    unsupported = 'not currently supported' in text
    if works:
        ch.check(seq and able[seq[-1]] == 'works' and not unsupported, '%s: called %s, but %s would have worked; said %r', what, seq, works, text)
    else:
        ch.check(sorted(seq) == sorted(set(able) - set(silent)) and unsupported, '%s: called %s of %s and said %r', what, seq, sorted(able), text)
    if op != 'read':
        return
    if not works:
        ch.check(result is None, '%s: returned %r', what, result)
        return
    ps = result if nodes else result.getProcesses()
    ch.check(isinstance(result, list) == nodes, '%s: returned %r', what, type(result))
    ch.equal([p.getAttribute('name') for p in ps], [seq[-1]], what + ': nodes')
    if not nodes:
        ch.check(result.getID() and result.getName() and result.getCompCLFversion(), '%s: the list has no id, name or version', what)


def dispatch(ch):
    """Every pair of formats."""
    op = ch.choose('operation', OPS)
    kinds = list(itertools.product(range(len(TAKES)), OUTCOMES))
    a = ch.choose('first', kinds)
    for rest in [()] + [(b,) for b in kinds] + ([(b, c) for b in kinds[::3] for c in kinds[::5]] if ch.thorough else []):
        for path in PATHS:
            for nodes in ([False, True] if op == 'read' else [False]):
                configs = [('format%d' % i, TAKES[t], o) for i, (t, o) in enumerate((a,) + rest)]
                what = '%s %s with %s' % (op, path, configs)
                with formats():
                    calls = []
                    for n, e, o in configs:
                        fake(n, e, op, o, calls)
                    r, text = act(op, path, **({'returnProcessNodes': True} if nodes else {}))
                judge(ch, op, path, configs, calls, r, text, what, nodes)
                ch.state(op, path, nodes, a, rest)
                ch.step()


SHIPPED = {'spi1d': {'read', '1D'}, 'spi3d': {'read', '3D'}, 'csp': {'read', '1D', '3D', '1D_3D_1D'}, 'ctl': {'1D', '3D'}, 'clf': {'1D_3D_1D'}}


def beside(ch):
    """Beside the shipped formats."""
    op = ch.choose('operation', OPS)
    ext = ch.choose('extension', sorted(SHIPPED) + ['aaa'])
    outcome = ch.choose('outcome', OUTCOMES)
    takes = ch.flag('takes it')
    p = ch.path('o.' + ext)
    if op == 'read':
        if 'read' not in SHIPPED.get(ext, ()):
            write_text(p, 'nothing')
        else:
            pl = clf.ProcessList()
            pl.addProcess(clf.Range('16f', '16f', 'a', 'a'))
            with formats(False):
                reg.write(pl, p, lutDataFormat='3D' if ext == 'spi3d' else '1D', lutResolution1d=2, lutResolution3d=2)
    with formats(False):
        calls = []
        fake('mine', [(ext, takes), ('zzz', not takes)], op, outcome, calls)
        r, text = act(op, p)
    theirs = op in SHIPPED.get(ext, ())
    mine = takes and outcome == 'works'
    what = '%s %s beside a format that %s' % (op, ext, outcome if takes else 'does not take it')
    ch.equal('not currently supported' in text, not (theirs or mine), what + ': said ' + repr(text))
    ch.check(not calls or takes, '%s: called', what)
    ch.check(len(calls) == (1 if takes and outcome != 'missing' and not theirs else len(calls)), '%s: called %d times', what, len(calls))
    if op == 'read':
        ch.check((r is not None) == (theirs or mine), '%s: returned %r', what, r)
    elif theirs and not (calls and outcome == 'works'):
        ch.check(len(read_bytes(p)) > 10, '%s: wrote nothing', what)
    ch.state(op, ext, outcome, takes)
    ch.step()


def about(ch):
    """What formats say of themselves."""
    n = ch.choose('entries', [1, 2, 3])
    exts = [ch.choose('extension', ['abc', 'ABC', 'Xyz']) for _ in range(n)]
    sets = [m for m in range(16)] if n == 1 else [0, 1, 3, 6, 8, 15] if n == 2 else [0, 1, 6, 8]
    names = list(CAPS)
    for masks in itertools.product(sets, repeat=n):
        caps = [[CAPS[names[i]] for i in range(4) if m >> i & 1] for m in masks]
        with formats():
            c = type(Base)('one', (Base,), {'formats': [['%s files %d' % (e, i), e, k] for i, (e, k) in enumerate(zip(exts, caps))]})
            ch.check(list(reg.getFormats()) == [c], 'formats %s', list(reg.getFormats()))
            ch.equal(list(c.descriptions()), ['%s files %d' % (e, i) for i, e in enumerate(exts)], 'descriptions')
            ch.equal(list(c.extensions()), [e.lower() for e in exts], 'extensions')
            for ask in (None, 'abc', 'ABC', 'aBc', 'xyz', 'other'):
                want = set(x for e, k in zip(exts, caps) if ask is None or e.lower() == ask.lower() for x in k)
                a = [] if ask is None else [ask]
                ch.equal(set(c.capabilities(*a)), want, 'capabilities of %s for %s' % (list(zip(exts, caps)), ask))
                for k, f in zip(names, (c.canRead, c.canWrite1D, c.canWrite3D, c.canWrite1D3D1D)):
                    ch.check(bool(f(*a)) == (CAPS[k] in want) and bool(c.isCapable(CAPS[k], *a)) == (CAPS[k] in want), 'capability %s of %s for %s', k, list(zip(exts, caps)), ask)
                ch.step(4)
        ch.state(exts, masks)
    with formats():
        type(Base)('none', (Base,), {'formats': []})
        ch.check(not list(reg.getFormats()), 'a format without extensions is registered')


READ = [('inverse', False, True), ('interpolation', 'linear', 'tetrahedral'), ('inversesUseIndexMaps', True, False), ('inversesUseHalfDomain', True, False)]
WRITE = [('lutResolution1d', 1024, 3), ('lutResolution3d', 33, 2), ('lutResolution1d3d1d', [1024, 33, 2], [3, 2, 4]), ('inputMin', 0.0, -0.5), ('inputMax', 1.0, 2.0),
         ('shaperIn', ['linear', 0.0, 1.0], ['linear', -1.0, 2.0]), ('shaperOut', ['linear', 0.0, 1.0], ['log2', -2.0, 1.0])]


def arguments(ch):
    """Every subset of the arguments."""
    op = ch.choose('operation', OPS)
    table = READ if op == 'read' else WRITE
    mask = ch.choose('given', range(1 << len(table)))
    if op == '3D' and not mask >> 1 & 1 or op == '1D_3D_1D' and not mask >> 2 & 1:
        raise explore.Prune()           # the large defaults are in C20 and C21
    positional = ch.flag('by position') if op == 'read' and mask & (mask + 1) == 0 else False
    kw = {k: b for i, (k, a, b) in enumerate(table) if mask >> i & 1}
    val = {k: b if mask >> i & 1 else a for i, (k, a, b) in enumerate(table)}
    calls = []
    with formats():
        fake('f', [('aaa', True)], op, 'works', calls)
        if op == 'read':
            reg.read('x.aaa', *[kw[k] for k, _, _ in table if k in kw]) if positional else reg.read('x.aaa', **kw)
        else:
            pl = clf.ProcessList()
            reg.write(pl, 'x.aaa', lutDataFormat=op, **kw)
    ch.equal(len(calls), 1, 'calls')
    _, kind, a, k = calls[0]
    ch.equal(kind, op, 'what was called')
    what = '%s with %s' % (op, kw)
    if op == 'read':
        got = dict(zip(['lutPath'] + [x[0] for x in READ], a), **k)
        ch.equal(got, dict(val, lutPath='x.aaa'), what)
    else:
        names = {'1D': ['lutPath', 'samples', 'lutResolution1d', 'inputMin', 'inputMax'], '3D': ['lutPath', 'samples', 'lutResolution3d', 'inputMin', 'inputMax'],
                 '1D_3D_1D': ['lutPath', 'samples1dIn', 'lutResolution1dIn', 'inputMin', 'inputMax', 'samples3d', 'lutResolution3d', 'samples1dOut', 'lutResolution1dOut', 'outputMin', 'outputMax']}[op]
        got = dict(zip(names, a), **k)
        ch.equal(sorted(got), sorted(names), what + ': arguments')
        if op == '1D':
            ch.equal((got['lutResolution1d'], got['inputMin'], got['inputMax'], len(got['samples'])), (val['lutResolution1d'], val['inputMin'], val['inputMax'], 3 * val['lutResolution1d']), what)
            compare(ch, got['samples'][-3:], [val['inputMax']] * 3, what + ': last sample')
        elif op == '3D':
            n = val['lutResolution3d']
            ch.equal((list(got['lutResolution3d']), got['inputMin'], got['inputMax'], len(got['samples'])), ([n] * 3, val['inputMin'], val['inputMax'], n), what)
            compare(ch, got['samples'][0][-1][0], [val['inputMin'], val['inputMax'], val['inputMin']], what + ': a sample')
        else:
            r = val['lutResolution1d3d1d']
            ch.equal((got['lutResolution1dIn'], list(got['lutResolution3d']), got['lutResolution1dOut']), (r[0], [r[1]] * 3, r[2]), what)
            so = val['shaperOut']
            out = (so[1], so[2]) if so[0] == 'linear' else (2.0 ** so[1], 2.0 ** so[2])
            ch.equal((got['inputMin'], got['inputMax'], got['outputMin'], got['outputMax']), tuple(val['shaperIn'][1:]) + out, what)
    ch.state(op, mask, positional)
    ch.step()


def tools(ch):
    """The help texts list the formats that can be used, and no others."""
    tool = ch.choose('tool', ['convertLUTtoCLF', 'convertCLFtoLUT'])
    k = ch.choose('a format more', [None, 'read', '1D', '3D', '1D_3D_1D'])
    mod = boot.converter(tool)
    # the tools may hold a copy of the registry of their own
    theirs = sys.modules.get('lutFormats', lf)
    r = theirs.Registry
    old, argv, out = dict(r.lutFormats), sys.argv, sys.stdout
    sys.argv, sys.stdout = [tool, '--help'], io.StringIO()
    try:
        if k:
            B = theirs.LutFormat.LutFormat
            type(B)('more', (B,), {'formats': [['a further kind of file', 'fur', [CAPS[k]]]]})
        try:
            mod.main()
        except SystemExit as e:
            ch.check(not e.code, 'exit code %r', e.code)
        text = ' '.join(sys.stdout.getvalue().split())
    finally:
        sys.argv, sys.stdout = argv, out
        r.lutFormats.clear()
        r.lutFormats.update(old)
    want = {d for c in old.values() for d, e, caps in c.formats if (CAPS['read'] in caps if tool == 'convertLUTtoCLF' else set(caps) - {CAPS['read']})}
    if k and (k == 'read') == (tool == 'convertLUTtoCLF'):
        want.add('a further kind of file')
    for d in {d for c in old.values() for d, e, caps in c.formats} | {'a further kind of file'}:
        ch.equal(' '.join(d.split()) in text, d in want, '%s --help lists %r' % (tool, d))
    ch.state(tool, k)
    ch.step()


HARNESSES = {'dispatch': dispatch, 'beside': beside, 'about': about, 'arguments': arguments, 'tools': tools}
