"""Stand-ins for libraries that are not installed, and for the process pool.

FakeOIIO follows the OpenImageIO Python API as the code under test uses it.  FakePool
runs row tasks one at a time in an order the checker chooses, passing arguments and
results through pickle as a real pool does, and hands results over as a real one would."""
import array
import pickle
import types

import numpy as np


class Attr(object):
    def __init__(self, name, type, value):
        self.name, self.type, self.value = name, type, value


class Format(object):
    def __init__(self, basetype):
        self.basetype = basetype

    def __eq__(self, other):
        return self.basetype == getattr(other, 'basetype', other)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.basetype)


class Image(object):
    """What is on "disk": codes in the image's own type."""

    def __init__(self, type, width, height, channels, codes, names, meta=()):
        self.type, self.width, self.height, self.channels = type, width, height, channels
        self.codes, self.names, self.meta = codes, names, list(meta)


class Oiio(object):
    def __init__(self):
        self.version = 10900
        self.disk = {}          # readable images
        self.written = {}       # path -> dict
        self.opens = []
        self.refuse = None      # 'create', 'open', 'write'

    def reset(self):
        self.__init__()
        self.module.VERSION = self.version

    def make(self):
        m = types.ModuleType('OpenImageIO')
        m.VERSION = self.version
        m.UINT8, m.UINT16, m.HALF, m.FLOAT, m.UINT32, m.DOUBLE = 'uint8', 'uint16', 'half', 'float', 'uint', 'double'
        m.Create = 'Create'
        world = self

        class ImageSpec(object):
            def __init__(self, *a):
                self.format = None
                self.width = self.height = self.nchannels = 0
                self.channelnames = ()
                self.extra_attribs = []
                if len(a) >= 4:
                    self.width, self.height, self.nchannels, f = a[:4]
                    self.set_format(f)

            def set_format(self, f):
                self.format = Format(getattr(f, 'basetype', f))

            def attribute(self, name, *a):
                value = a[-1]
                for x in self.extra_attribs:
                    if x.name == name:
                        x.value = value
                        return
                self.extra_attribs.append(Attr(name, a[0] if len(a) > 1 else None, value))
        m.ImageSpec = ImageSpec

        class Input(object):
            def __init__(self, img):
                self.img = img
                self.open_ = True

            def spec(self):
                s = ImageSpec(self.img.width, self.img.height, self.img.channels, self.img.type)
                s.channelnames = self.img.names
                s.extra_attribs = list(self.img.meta)
                return s

            def read_image(self, type=None):
                assert self.open_
                t = getattr(type, 'basetype', type) or 'float'
                return world.read(self.img, t)

            def close(self):
                self.open_ = False
                return True

        class ImageInput(object):
            @staticmethod
            def open(path):
                world.opens.append(path)
                return Input(world.disk[path]) if path in world.disk else None
        m.ImageInput = ImageInput

        class Output(object):
            def __init__(self, path):
                self.path = path
                self.spec_ = None

            def open(self, path, spec, mode='Create'):
                if world.refuse == 'open':
                    return False
                self.spec_ = spec
                return True

            def write_image(self, fmt, pixels):
                if world.refuse == 'write':
                    return False
                s = self.spec_
                world.written[self.path] = {'type': getattr(fmt, 'basetype', fmt), 'spec': s.format.basetype, 'width': s.width, 'height': s.height,
                                            'channels': s.nchannels, 'names': s.channelnames, 'meta': {x.name: x.value for x in s.extra_attribs},
                                            'pixels': np.array(pixels), 'closed': False}
                return True

            def close(self):
                if self.path in world.written:
                    world.written[self.path]['closed'] = True
                return True

        class ImageOutput(object):
            @staticmethod
            def create(path):
                return None if world.refuse == 'create' else Output(path)
        m.ImageOutput = ImageOutput
        self.module = m
        return m

    def read(self, img, t):
        if t != img.type:
            raise AssertionError('asked for %s of a %s image' % (t, img.type))
        if t == 'uint8':
            return array.array('B', img.codes)
        if t == 'uint16':
            return array.array('H', img.codes)
        if t == 'float':
            return array.array('f', img.codes)
        h = np.array(img.codes, np.float16)
        if self.version < 10800:
            return array.array('f', np.frombuffer(h.tobytes(), np.float32).tolist())
        return array.array('H', np.frombuffer(h.tobytes(), np.uint16).tolist())

    def values(self, path):
        """What was written, in the codes of the type."""
        w = self.written[path]
        p = w['pixels'].reshape(-1)
        t = w['type']
        if t == 'half':
            want = np.float32 if self.version < 10800 else np.uint16
            if p.dtype != want:
                raise AssertionError('half pixels written as %s' % p.dtype)
            return [float(x) for x in np.frombuffer(p.tobytes(), np.float16)]
        if t == 'uint8' and p.dtype != np.uint8 or t == 'uint16' and p.dtype != np.uint16:
            raise AssertionError('%s pixels written as %s' % (t, p.dtype))
        return [float(x) for x in p]


class Result(object):
    def __init__(self, run, n):
        self.run, self.n, self.done, self.error = run, n, None, None

    def _go(self):
        if self.done is None and self.error is None:
            try:
                self.done = self.run()
            except Exception as e:
                self.error = e

    def get(self, timeout=None):
        self._go()
        if self.error is not None:
            raise self.error
        return self.done

    def wait(self, timeout=None):
        self._go()

    def ready(self):
        self._go()
        return True

    def successful(self):
        self._go()
        return self.error is None


class Pools(object):
    """Factory for pools whose tasks complete in self.order."""

    def __init__(self):
        self.order = None       # permutation of task numbers, or None
        self.made = []
        self.ran = []

    def pool(self, processes=None, *a, **k):
        p = FakePool(self, processes)
        self.made.append(processes)
        return p


class FakePool(object):
    def __init__(self, world, processes):
        self.world, self.processes, self.queue = world, processes, []

    def _call(self, fn, args, kw=None):
        fn, args, kw = pickle.loads(pickle.dumps((fn, args, kw or {}), 2))
        return pickle.loads(pickle.dumps(fn(*args, **kw), 2))

    def _all(self, fn, items, star=False):
        items = list(items)
        order = [i for i in (self.world.order or range(len(items))) if i < len(items)]
        order += [i for i in range(len(items)) if i not in order]
        out, err = [None] * len(items), None
        done = []
        for i in order:
            self.world.ran.append(i)
            try:
                out[i] = self._call(fn, items[i] if star else (items[i],))
                done.append((i, out[i], None))
            except Exception as e:
                err = err or e
                done.append((i, None, e))
        return out, err, done

    def _finish(self, fn, items, star=False):
        out, err, _ = self._all(fn, items, star)
        if err is not None:
            raise err
        return out

    def map(self, fn, items, chunksize=None):
        return self._finish(fn, items)

    def map_async(self, fn, items, chunksize=None, callback=None, error_callback=None):
        items = list(items)

        def run():
            r = self._finish(fn, items)
            if callback:
                callback(r)
            return r
        return Result(run, len(items))

    def starmap(self, fn, items, chunksize=None):
        return self._finish(fn, items, True)

    def starmap_async(self, fn, items, chunksize=None, callback=None, error_callback=None):
        items = list(items)
        return Result(lambda: self._finish(fn, items, True), len(items))

    def imap(self, fn, items, chunksize=1):
        out, err, done = self._all(fn, items)
        by = {i: (v, e) for i, v, e in done}
        for i in range(len(out)):
            if by[i][1] is not None:
                raise by[i][1]
            yield by[i][0]

    def imap_unordered(self, fn, items, chunksize=1):
        for i, v, e in self._all(fn, items)[2]:
            if e is not None:
                raise e
            yield v

    def apply(self, fn, args=(), kwds=None):
        return self._call(fn, args, kwds)

    def apply_async(self, fn, args=(), kwds=None, callback=None, error_callback=None):
        # tasks of the pool run when the first result is asked for, in the chosen order
        q = self.queue
        slot = {'fn': fn, 'args': args, 'kw': kwds, 'done': False, 'value': None, 'error': None, 'cb': callback}
        q.append(slot)

        def drain():
            order = [i for i in (self.world.order or []) if i < len(q)]
            order += [i for i in range(len(q)) if i not in order]
            for i in order:
                s = q[i]
                if not s['done']:
                    s['done'] = True
                    self.world.ran.append(i)
                    try:
                        s['value'] = self._call(s['fn'], s['args'], s['kw'])
                        if s['cb']:
                            s['cb'](s['value'])
                    except Exception as e:
                        s['error'] = e

        def run():
            drain()
            if slot['error'] is not None:
                raise slot['error']
            return slot['value']
        r = Result(run, 1)
        self.drain = drain
        return r

    def close(self):
        pass

    def terminate(self):
        pass

    def join(self):
        if self.queue:
            self.drain()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


# ---- OpenColorIO -----------------------------------------------------------------------

class Transform(object):
    def __init__(self, direction='forward'):
        self._direction = direction

    def getDirection(self):
        return self._direction

    def isEditable(self):
        return True


class GroupTransform(Transform):
    def __init__(self, *children):
        Transform.__init__(self)
        self._children = list(children)

    def getTransforms(self):
        return list(self._children)

    def getTransform(self, i):
        return self._children[i]

    def size(self):
        return len(self._children)


class MatrixTransform(Transform):
    def __init__(self, matrix, offset=(0.0, 0.0, 0.0, 0.0), direction='forward'):
        Transform.__init__(self, direction)
        self._m, self._o = list(matrix), list(offset)

    def getMatrix(self):
        return list(self._m)

    def getOffset(self):
        return list(self._o)

    def getValue(self):
        return (list(self._m), list(self._o))


class LogTransform(Transform):
    def __init__(self, base, direction='forward'):
        Transform.__init__(self, direction)
        self._base = base

    def getBase(self):
        return self._base


class FileTransform(Transform):
    def __init__(self, src, interpolation='linear', direction='forward'):
        Transform.__init__(self, direction)
        self._src, self._i = src, interpolation

    def getSrc(self):
        return self._src

    def getInterpolation(self):
        return self._i

    def getCCCId(self):
        return ''


class CDLTransform(Transform):
    pass


class ExponentTransform(Transform):
    def getValue(self):
        return [2.2, 2.2, 2.2, 1.0]


class Space(object):
    def __init__(self, name, to=None, frm=None):
        self.name, self._t = name, {'to_reference': to, 'from_reference': frm}

    def getName(self):
        return self.name

    def getTransform(self, direction):
        return self._t[direction]


class Ocio(object):
    """Stand-in for PyOpenColorIO (version 1) as the converter uses it."""

    def __init__(self):
        self.files = {}         # path -> (search path, {name: Space})
        self.opened = []

    def make(self):
        m = types.ModuleType('PyOpenColorIO')
        for c in (Transform, GroupTransform, MatrixTransform, LogTransform, FileTransform, CDLTransform, ExponentTransform):
            setattr(m, c.__name__, c)
        world = self

        class Config(object):
            def __init__(self, path):
                self._search, self._spaces = world.files[path]

            @staticmethod
            def CreateFromFile(path):
                world.opened.append(path)
                if path not in world.files:
                    raise Exception('Error could not read %s' % path)
                return Config(path)

            def getSearchPath(self):
                return self._search

            def getColorSpace(self, name):
                return self._spaces.get(name)

            def getColorSpaces(self):
                return list(self._spaces.values())
        m.Config = Config
        m.Constants = types.SimpleNamespace(COLORSPACE_DIR_TO_REFERENCE='to_reference', COLORSPACE_DIR_FROM_REFERENCE='from_reference',
                                            TRANSFORM_DIR_FORWARD='forward', TRANSFORM_DIR_INVERSE='inverse', TRANSFORM_DIR_UNKNOWN='unknown',
                                            INTERP_LINEAR='linear', INTERP_NEAREST='nearest', INTERP_TETRAHEDRAL='tetrahedral', INTERP_BEST='best')
        return m
