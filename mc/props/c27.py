"""Damaged files and refused or interrupted writes."""
import gzip
import os
import resource
import signal
import xml.etree.ElementTree as etree

import boot
import explore
import refmodel as R
from common import *

clf = boot.clf()
BOUNDS = """Nine documents covering every node type, list attributes and elements, encodings, groups and references, written by the code itself and
by an independent writer: cut at every byte, plain and gzipped; gzipped with every byte replaced by each of its eight one-bit neighbours, 0x00 and
0xff (thorough: every one of the 255 other values), with every byte removed, doubled or swapped with the next; refused writes (gzip, each of the six
encodings in each array node, in a list, group or self-contained reference) over an existing, a read-only-content or no file, in every order with
writes that are allowed; writes stopped by the operating system (file size limit) at every byte, over a new or an existing plain or gzipped file."""
ASSUMPTIONS = ['an interrupted write is one the operating system stops at a byte (RLIMIT_FSIZE); a killed process leaves a prefix, which is the cut case']

A = 0.1
DOCS = {
    'nodes': [R.D('Range', minIn=0.0, maxIn=1.0, minOut=0.0, maxOut=0.5, id='r'), R.D('Matrix', dim=[3, 3, 3], v=lcg(9, 5), name='m')],
    'lut': [R.D('LUT1D', ch=3, v=lcg(9, 2), imaps=[[[0.0, 0.5, 1.0], [0, 1, 2]]])],
    'cdl': [R.D('CDL', style='Fwd', slope=[1.25, 0.75, 1.5], offset=[0.1, 0.2, 0.3], power=[1.5, 1.0, 2.0], sat=0.75, descs=['d <1>'])],
    'cc': [R.D('CC', slope=[1.25, 0.75, 1.5]), R.D('Gamma', style='moncurveFwd', params=[(2.4, 0.055, None)])],
    'log': [R.D('Log', style='linToLog', params=[(0.6, 685.0, 95.0, 1.0, 0.0, None)]), R.D('EC', style='linear', ecp=(1.0, 1.0, 0.5), dyn=['E'])],
    'group': [R.D('Group', nodes=[R.D('Gamma', style='basicFwd', params=[(2.0, 0.0, None)]), R.D('Ref', path='none.clf', alias='x')], name='g')],
    'empty': [],
    'encoded': [R.D('LUT1D', ch=1, v=[0.0, 0.75, 1.0], enc='hex32bit')],
    'lut3': [R.D('LUT3D', dim=[2, 2, 2], v=[i / 32.0 for i in range(24)])],
}


def made(name):
    pl = clf.ProcessList()
    pl.setName('n\xe4me & co')
    pl.setID('urn:1')
    if name in ('nodes', 'group', 'empty'):
        pl.addElement(clf.Description('about "it"'))
        pl.addElement(clf.Info('app', 'copy'))
    for d in DOCS[name]:
        pl.addProcess(R.build(clf, d))
    return pl


def canon(pl):
    return R.canon(pl.write().getroot())


def verdict(path, how='constructor', strict=False):
    """None if reading fails, else what was read."""
    try:
        if how == 'constructor':
            pl = clf.ProcessList(path, strict)
        else:
            pl = clf.ProcessList()
            pl.readFile(path, strict)
    except Exception:
        return None
    return canon(pl)


def judge(ch, got, want, what):
    if got is None:
        return False
    r = R.canon_diff(got, want, tol=1e-9)
    ch.check(r is None, '%s was read as something else: %s', what, r)
    return True


WRITERS = ['own', 'independent', 'foreign gzip', 'flat']


def original(ch, name, writer, gz):
    """Bytes of a complete file and what reading it gives."""
    p = ch.path('whole.clf')
    if writer == 'own':
        made(name).writeFile(p, writeGzip=gz)
    else:
        doc = R.xml_doc([d for d in DOCS[name] if not d.get('enc')], decl=writer != 'flat', attrs=' name="x" id="y"')
        data = doc.encode()
        if gz:
            data = gzip.compress(data, 9 if writer == 'independent' else 0)
        write_text(p, data)
    want = verdict(p)
    ch.check(want is not None, 'the complete file cannot be read')
    return read_bytes(p), want


def cut(ch):
    """Cut at every byte."""
    name = ch.choose('document', sorted(DOCS))
    writer = ch.choose('writer', WRITERS)
    gz = ch.flag('gzip')
    how = ch.choose('read by', ['constructor', 'readFile'])
    feat = ch.choose('features', ['All', 'CLF'] if not gz else ['All'])
    strict = ch.flag('strict') if feat == 'All' else False
    data, want = original(ch, name, writer, gz)
    part = ch.choose('part', range(4))
    p = ch.path('cut.clf')
    n, ok = 0, 0
    if feat != 'All' and ('group' == name or any(d.get('enc') or d.get('dyn') for d in DOCS[name])):
        raise explore.Prune()
    for k in range(part, len(data), 4):
        write_text(p, data[:k])
        boot.features(feat)
        got = verdict(p, how, strict)
        boot.features('All')
        ok += judge(ch, got, want, 'a file (%s, %s) of %d bytes cut to %d' % (name, writer, len(data), k))
        n += 1
    ch.step(n)
    ch.state(name, writer, gz, how, feat, strict, part)


def spoil(ch):
    """Gzipped files with a byte changed, removed, doubled or swapped."""
    name = ch.choose('document', sorted(DOCS))
    writer = ch.choose('writer', WRITERS[:3])
    kind = ch.choose('damage', ['changed', 'removed', 'doubled', 'swapped'])
    part = ch.choose('part', range(16 if kind == 'changed' else 2))
    data, want = original(ch, name, writer, True)
    p = ch.path('bad.clf')
    n = 0
    for k in range(part, len(data), 16 if kind == 'changed' else 2):
        if kind == 'changed':
            vals = range(256) if ch.thorough else sorted(set([data[k] ^ (1 << b) for b in range(8)] + [0, 255]))
            outs = [data[:k] + bytes([v]) + data[k + 1:] for v in vals if v != data[k]]
        elif kind == 'removed':
            outs = [data[:k] + data[k + 1:]]
        elif kind == 'doubled':
            outs = [data[:k + 1] + data[k:]]
        else:
            if k + 1 >= len(data):
                continue
            outs = [data[:k] + data[k + 1:k + 2] + data[k:k + 1] + data[k + 2:]]
        for o in outs:
            write_text(p, o)
            judge(ch, verdict(p), want, 'a gzipped file (%s, %s) with byte %d %s' % (name, writer, k, kind))
            n += 1
    ch.step(n)
    ch.state(name, writer, kind, part)


ENCS = ['integer16bit', 'hex16bit', 'integer32bit', 'hex32bit', 'integer64bit', 'hex64bit']
OLD = {'clf': b'<?xml version="1.0"?><ProcessList id="old"/>', 'gz': gzip.compress(b'<ProcessList id="old gz"/>'), 'other': b'\x00\x01not xml\xff' * 300, 'empty': b'', 'absent': None}


def refused(ch):
    """Refused writes leave the old file, and the list can be written afterwards."""
    why = ch.choose('refused for', ['gzip'] + ENCS)
    kind = ch.choose('node', ['Matrix', 'LUT1D', 'LUT3D'])
    where = ch.choose('where', ['alone', 'last', 'group', 'nested', 'reference'])
    old = ch.choose('old file', sorted(OLD))
    gz = why == 'gzip' or ch.flag('gzip too')
    feat = ch.choose('features', [0, 1, 'CLF', 'Autodesk', 4])
    d = {'Matrix': R.D('Matrix', dim=[3, 3, 3], v=lcg(9, 5)), 'LUT1D': R.D('LUT1D', ch=1, v=[0.0, 0.75, 1.0]),
         'LUT3D': R.D('LUT3D', dim=[2, 2, 2], v=lcg(24, 13))}[kind]
    d = dict(d)
    if why != 'gzip':
        d['enc'] = why
    first = R.D('Range', minIn=0.0, maxIn=1.0, minOut=0.0, maxOut=0.5, style='noClamp')
    sc = where == 'reference'
    if sc:
        t = ch.path('target.clf')
        R.build_list(clf, [d]).writeFile(t)
        nodes = [first, R.D('Ref', path=t, nodes=[d])]
    else:
        nodes = {'alone': [d], 'last': [first, d], 'group': [R.D('Group', nodes=[first, d])],
                 'nested': [R.D('Group', nodes=[first, R.D('Group', nodes=[d])])]}[where]
    pl = R.build_list(clf, nodes)
    want = canon(pl)
    p = ch.path('target')
    if OLD[old] is not None:
        write_text(p, OLD[old])
    for i in range(2):
        boot.features(feat)
        try:
            pl.writeFile(p, writeSelfContained=sc, writeGzip=gz)
            err = None
        except Exception as e:
            err = type(e).__name__
        what = 'features %s, %s in %s %s' % (feat, why, kind, where)
        ch.equal(err, 'UnsupportedExtensionError', what)
        if OLD[old] is None:
            ch.check(not os.path.exists(p), '%s: a refused write made a file', what)
        else:
            ch.check(read_bytes(p) == OLD[old], '%s: a refused write changed the old file to %r', what, read_bytes(p)[:60])
        # nothing else appears beside it
        ch.equal([n for n in os.listdir(os.path.dirname(p))], ['target'] if OLD[old] is not None else [], '%s: files left' % what)
    if why == 'gzip':
        pl.writeFile(p)
        check_pixels(ch, clf.ProcessList(p), nodes, [[0.5, 0.25, 0.75]], what + ', plain afterwards')
    boot.features('All')
    r = R.canon_diff(canon(pl), want)
    ch.check(r is None, '%s: the list changed: %s', what, r)
    pl.writeFile(p, writeSelfContained=sc, writeGzip=gz)
    check_pixels(ch, clf.ProcessList(p), nodes, [[0.5, 0.25, 0.75]], what + ', written afterwards', rel=1e-3 if '16' in why else 2e-6)
    ch.step(5)
    ch.state(why, kind, where, old, gz, feat)


def stopped(ch):
    """The operating system stops the write at byte n: what is left is rejected or complete."""
    name = ch.choose('document', sorted(DOCS))
    gz = ch.flag('gzip')
    old = ch.choose('old file', ['absent', 'clf', 'gz'])
    part = ch.choose('part', range(4))
    pl = made(name)
    p, q = ch.path('part.clf'), ch.path('whole.clf')
    pl.writeFile(q, writeGzip=gz)
    size = os.path.getsize(q) + 8
    want = verdict(q)
    oldwant = None
    if OLD[old] is not None:
        write_text(p, OLD[old])
        oldwant = verdict(p)
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    n = 0
    for k in range(part, size, 4):
        if OLD[old] is not None:
            write_text(p, OLD[old])
        elif os.path.exists(p):
            os.unlink(p)
        resource.setrlimit(resource.RLIMIT_FSIZE, (k, hard))
        try:
            pl.writeFile(p, writeGzip=gz)
            done = True
        except Exception:
            done = False
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        got = verdict(p) if os.path.exists(p) else None
        what = 'a write of %s stopped at byte %d' % (name, k)
        if done:
            ch.check(got is not None, '%s reported success but the file cannot be read', what)
            judge(ch, got, want, what)
        elif got is not None and not (oldwant is not None and R.canon_diff(got, oldwant) is None):
            judge(ch, got, want, what)
        n += 1
    r = R.canon_diff(canon(pl), want, tol=7e-8)
    ch.check(r is None, 'the list changed after stopped writes: %s', r)
    pl.writeFile(p, writeGzip=gz)
    judge(ch, verdict(p) or ['unreadable', {}, [], []], want, 'written afterwards')
    ch.step(n)
    ch.state(name, gz, old, part)


HARNESSES = {'cut': cut, 'spoil': spoil, 'refused': refused, 'stopped': stopped}
