"""Independent readers of the LUT file formats, written from their descriptions.
Each returns how the file's own table is looked up, so the checks do not depend on layout."""
import re


def spi1d(text):
    head, body = text.split('{', 1)
    h = {}
    for line in head.splitlines():
        t = line.split()
        if t:
            h[t[0]] = t[1:]
    rows = [[float(x) for x in l.split()] for l in body.split('}', 1)[0].splitlines() if l.strip()]
    n, comp = int(h['Length'][0]), int(h['Components'][0])
    if h['Version'] != ['1']:
        raise ValueError('version %s' % h['Version'])
    if len(rows) != n or any(len(r) != comp for r in rows):
        raise ValueError('%d rows for length %d, components %d' % (len(rows), n, comp))
    lo, hi = (float(x) for x in h['From'])
    return {'n': n, 'range': (lo, hi), 'rows': [r * (3 // comp) for r in rows]}


def spi3d(text):
    lines = [l.split() for l in text.splitlines() if l.strip()]
    if lines[0][0] != 'SPILUT':
        raise ValueError('no SPILUT line')
    dim = [int(x) for x in lines[2]]
    cells = {}
    for l in lines[3:]:
        k = tuple(int(x) for x in l[:3])
        if k in cells:
            raise ValueError('entry %s twice' % (k,))
        cells[k] = [float(x) for x in l[3:6]]
    if len(cells) != dim[0] * dim[1] * dim[2] or any(not 0 <= k[i] < dim[i] for k in cells for i in range(3)):
        raise ValueError('%d entries for %s' % (len(cells), dim))
    order = [tuple(int(x) for x in l[:3]) for l in lines[3:]]
    if order != sorted(order):
        raise ValueError('blue is not fastest')
    return {'dim': dim, 'cells': cells}


def csp(text):
    lines = [l for l in text.splitlines() if l.strip()]
    if lines[0].strip() != 'CSPLUTV100':
        raise ValueError('no magic')
    kind = lines[1].strip()
    i = 2
    if lines[i].strip() == 'BEGIN METADATA':
        while lines[i].strip() != 'END METADATA':
            i += 1
        i += 1
    pre = []
    for _ in range(3):
        n = int(lines[i])
        a, b = [float(x) for x in lines[i + 1].split()], [float(x) for x in lines[i + 2].split()]
        if len(a) != n or len(b) != n:
            raise ValueError('prelut of %d points has %d and %d' % (n, len(a), len(b)))
        pre.append((a, b))
        i += 3
    dim = [int(x) for x in lines[i].split()]
    rows = [[float(x) for x in l.split()] for l in lines[i + 1:]]
    if any(len(r) != 3 for r in rows):
        raise ValueError('rows are not three values')
    if kind == '1D':
        if len(dim) != 1 or len(rows) != dim[0]:
            raise ValueError('%d rows for %s' % (len(rows), dim))
        return {'kind': kind, 'prelut': pre, 'n': dim[0], 'rows': rows}
    if len(dim) != 3 or len(rows) != dim[0] * dim[1] * dim[2]:
        raise ValueError('%d rows for %s' % (len(rows), dim))
    cells = {}
    for k, r in enumerate(rows):
        cells[(k % dim[0], (k // dim[0]) % dim[1], k // (dim[0] * dim[1]))] = r
    return {'kind': kind, 'prelut': pre, 'dim': dim, 'cells': cells}


def _braces(s):
    """{..} text to nested lists."""
    s = re.sub(r'([-+0-9.eE]+)', r'\1', s.replace('{', '[').replace('}', ']'))
    s = re.sub(r',\s*\]', ']', s)
    if not re.match(r'^[-+0-9.eE,\[\]\sinfa]*$', s):
        raise ValueError('not a CTL initialiser: %.60s' % s)
    return eval(s, {'inf': float('inf'), 'nan': float('nan')})


def ctl(text):
    """The CTL program as {'consts', 'lookups'}: for each channel what is looked up, in which array and range."""
    t = re.sub(r'//[^\n]*', '', text)
    consts = {}
    for m in re.finditer(r'const\s+float\s+(\w+)((?:\s*\[\s*\d*\s*\])*)\s*=\s*([^;]*);', t):
        dims = [int(x) if x else None for x in re.findall(r'\[\s*(\d*)\s*\]', m.group(2))]
        v = _braces(m.group(3).strip())
        x = v
        for d in dims:
            if not isinstance(x, list) or (d is not None and len(x) != d):
                raise ValueError('%s%s has %s entries' % (m.group(1), dims, len(x) if isinstance(x, list) else 'no'))
            x = x[0]
        consts[m.group(1)] = v
    body = t[t.index('void main'):]
    sig, body = body.split('{', 1)
    ins = re.findall(r'input\s+varying\s+float\s+(\w+)', sig)
    outs = re.findall(r'output\s+varying\s+float\s+(\w+)', sig)
    env = {n: ('in', n) for n in ins}
    for st in body.split(';'):
        st = st.strip().strip('}').strip()
        if not st:
            continue
        m = re.match(r'^(?:float\s+)?(\w+)\s*=\s*(\w+)$', st)
        if m:
            env[m.group(1)] = env[m.group(2)]
            continue
        m = re.match(r'^(?:float\s+)?(\w+)\s*=\s*lookup1D\(\s*(\w+)\s*,\s*(\w+)\s*,\s*(\w+)\s*,\s*(\w+)\s*\)$', st)
        if m:
            env[m.group(1)] = ('1d', m.group(2), consts[m.group(3)], consts[m.group(4)], env[m.group(5)])
            continue
        m = re.match(r'^lookup3D_f\(([^)]*)\)$', st)
        if m:
            a = [x.strip() for x in m.group(1).split(',')]
            src = tuple(env[x] for x in a[3:6])
            for c in range(3):
                env[a[6 + c]] = ('3d', a[0], tuple(consts[a[1]]), tuple(consts[a[2]]), src, c)
            continue
        raise ValueError('statement %r' % st)
    return {'consts': consts, 'outs': {o: env[o] for o in outs}}
