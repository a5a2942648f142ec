"""Model of the OpenEXR library the table plugins use (tinyexr): which calls
succeed, what they fill in, and what a saved image file holds."""
from harness import *
from interp import Unsupported, UNDEF, NULL, Loc, Dead, Gated
from libmodel import Reader, scal, obj
import sym

OK, BAD = 0, -4
FLOAT = 2


class Img:
    """an image file: channel names and planes of W x H numbers, row by row"""

    def __init__(self, W, H, planes):
        self.W, self.H, self.planes = W, H, planes      # planes: [(name, [values])]


class Exr:
    def __init__(self, c):
        self.c, self.imgs, self.n = c, {}, 0
        self.fail = None        # stage at which reading the next file fails
        self.leaks = []
        H = c.I.hooks
        for n in ('InitEXRHeader', 'InitEXRImage', 'ParseEXRVersionFromMemory', 'ParseEXRHeaderFromMemory', 'LoadEXRImageFromMemory',
                  'FreeEXRHeader', 'FreeEXRImage', 'SaveEXRImageToFile', 'malloc', 'free', 'strncpy'):
            H[n] = getattr(self, 'h_' + n)
        H['std::malloc'], H['std::free'], H['std::strncpy'] = self.h_malloc, self.h_free, self.h_strncpy
        for n in ('TEXRVersion', 'TEXRHeader', 'TEXRImage'):
            c.I.ctorhooks[n] = lambda I, S, fr, e, L, a: None
        self.used = set()

    def add(self, img):
        """-> content of a file that holds the image"""
        self.n += 1
        t = 'v/1\x01image%d.' % self.n
        self.imgs[t] = img
        return t

    # -- helpers
    def rec(self, I, S, p):
        if isinstance(p, Loc) and p.k is not None and p.o:
            p = I.load(S, p)
        if not isinstance(p, Loc) or p.o == 0:
            raise Unsupported('image record %r' % (p,))
        c = S.w(p.o)
        if c.kind != 'opaque':
            raise Unsupported('image record is a %s' % c.kind)
        return c

    def open(self, I, S, p, **d):
        c = self.rec(I, S, p)
        c.x['open'] = True
        if c.d is None:
            c.d = {}
        c.d.update(d)
        return c

    def memory(self, I, S, p, n):
        n = scal(I, S, n)
        if not isinstance(p, Loc) or not isinstance(n, int):
            raise Unsupported('image memory')
        t = ''
        c = S.get(p.o)
        if p.k not in (0, None):
            raise Unsupported('image memory from the middle')
        if n > len(c.d):
            I.event('oob', '%d bytes of an array of %d are parsed' % (n, len(c.d)), None, S)
            n = len(c.d)
        for v in c.d[:n]:
            if not isinstance(v, int):
                break
            t += chr(v & 255)
        for k in self.imgs:
            if t.startswith(k) and set(t[len(k):]) <= {'\xff', '\0'}:
                return self.imgs[k]
        return None

    def seterr(self, I, S, p, loc):
        if isinstance(p, Loc) and p.o:
            I.store(S, p, I.mkstr(S, 'error'), loc)

    # -- library
    def h_InitEXRHeader(self, I, S, fr, e, o, a):
        self.used.add('header')
        self.open(I, S, a[0], **{'TEXRHeader::num_channels': 0, 'TEXRHeader::channels': NULL, 'TEXRHeader::pixel_types': NULL, 'TEXRHeader::requested_pixel_types': NULL,
                                 'TEXRHeader::compression_type': 0})

    def h_InitEXRImage(self, I, S, fr, e, o, a):
        self.open(I, S, a[0], **{'TEXRImage::num_channels': 0, 'TEXRImage::width': 0, 'TEXRImage::height': 0, 'TEXRImage::images': NULL})

    def h_ParseEXRVersionFromMemory(self, I, S, fr, e, o, a):
        m = self.memory(I, S, a[1], a[2])
        self.open(I, S, a[0], **{'TEXRVersion::' + k: 0 for k in ('tiled', 'long_name', 'non_image', 'multipart')})
        if m is None or self.fail == 'version':
            return BAD
        self.rec(I, S, a[0]).d['TEXRVersion::version'] = 2
        return OK

    def channels(self, I, S, names):
        els = []
        for n in names:
            L = I.alloc(S, 'opaque', 'EXRChannelInfo', {}, r='TEXRChannelInfo', open=True)
            if n is not None:
                S.w(L.o).d['TEXRChannelInfo::name'] = self.chars(I, S, n)
            els.append(L)
        return Loc(I.alloc(S, 'arr', 'EXRChannelInfo', els).o, 0)

    def chars(self, I, S, n):
        v = [ord(ch) for ch in n]
        return Loc(I.alloc(S, 'arr', 'char', v + [0] * (256 - len(v))).o, None)

    def h_ParseEXRHeaderFromMemory(self, I, S, fr, e, o, a):
        m = self.memory(I, S, a[2], a[3])
        h = self.rec(I, S, a[0])
        if not h.x.get('open'):
            I.event('uninit', 'the image header is not initialised', e['l'], S)
            self.open(I, S, a[0])
        if m is None or self.fail == 'header':
            self.seterr(I, S, a[4], e['l'])
            return BAD
        h = S.w(self._o(I, S, a[0]))
        h.d['TEXRHeader::num_channels'] = len(m.planes)
        h.d['TEXRHeader::channels'] = self.channels(I, S, [n for n, _ in m.planes])
        for f in ('pixel_types', 'requested_pixel_types'):
            h.d['TEXRHeader::' + f] = Loc(I.alloc(S, 'arr', 'int', [1] * len(m.planes)).o, 0)
        return OK

    def _o(self, I, S, p):
        return p.o if p.k is None else I.load(S, p).o

    def h_LoadEXRImageFromMemory(self, I, S, fr, e, o, a):
        m = self.memory(I, S, a[2], a[3])
        if m is None or self.fail == 'image':
            self.seterr(I, S, a[4], e['l'])
            return BAD
        h = self.rec(I, S, a[1])
        q = h.d.get('TEXRHeader::requested_pixel_types')
        asked = [I.load(S, Loc(q.o, k)) for k in range(len(m.planes))]
        if any(t != FLOAT for t in asked):
            I.event('mismatch', 'the pixels are not asked for as floats', e['l'], S)
        im = self.open(I, S, a[0])
        ptrs = [Loc(I.alloc(S, 'arr', 'float', list(v)).o, 0) for _, v in m.planes]
        im = S.w(self._o(I, S, a[0]))
        im.d.update({'TEXRImage::num_channels': len(ptrs), 'TEXRImage::width': m.W, 'TEXRImage::height': m.H,
                     'TEXRImage::images': Loc(I.alloc(S, 'arr', 'float *', ptrs).o, 0)})
        return OK

    def h_FreeEXRHeader(self, I, S, fr, e, o, a):
        return OK

    def h_FreeEXRImage(self, I, S, fr, e, o, a):
        return OK

    def h_SaveEXRImageToFile(self, I, S, fr, e, o, a):
        im, h = self.rec(I, S, a[0]), self.rec(I, S, a[1])
        path = I.sval(S, a[2])
        if not isinstance(path, str):
            raise Unsupported('image path')
        if not self.ok(path):
            self.seterr(I, S, a[3], e['l'])
            return BAD
        W, H, n = [im.d.get('TEXRImage::' + f) for f in ('width', 'height', 'num_channels')]
        nh = h.d.get('TEXRHeader::num_channels')
        if not all(isinstance(v, int) for v in (W, H, n, nh)):
            raise Unsupported('image dimensions')
        if n != nh:
            I.event('mismatch', 'the image has %d channels, its header %d' % (n, nh), e['l'], S)
        ch, rq = h.d['TEXRHeader::channels'], h.d['TEXRHeader::requested_pixel_types']
        pt = h.d['TEXRHeader::pixel_types']
        planes = []
        ptrs = im.d['TEXRImage::images']
        for k in range(n):
            for f, t in (('requested', rq), ('stored', pt)):
                v = I.load(S, Loc(t.o, (t.k or 0) + k), e['l']) if isinstance(t, Loc) and t.o else None
                if v != FLOAT:
                    I.event('mismatch', 'the %s pixel type of channel %d is not float' % (f, k), e['l'], S)
            chn = I.load(S, Loc(ch.o, (ch.k or 0) + k), e['l']) if S.get(ch.o).kind == 'arr' else None
            nm = S.get(chn.o).d.get('TEXRChannelInfo::name')
            name = ''
            for v in S.get(nm.o).d if nm is not None else ():
                if v == 0 or v is UNDEF:
                    break
                name += chr(v)
            p = I.load(S, Loc(ptrs.o, (ptrs.k or 0) + k), e['l'])
            vals = [I.load(S, Loc(p.o, (p.k or 0) + i), e['l']) for i in range(W * H)]
            planes.append((name, vals))
        names = [x[0] for x in planes]
        if names != sorted(names):
            I.event('mismatch', 'the channels are not in alphabetical order', e['l'], S)
        t = self.add(Img(W, H, planes))
        L = I.alloc(S, 'ostr', 'exr', [t], name='file', prec=6)
        S.mem[L.o].x.update(path=path, open=True)
        I.opened.append(path)
        I.files[path] = [t]
        return OK

    def ok(self, path):
        f = getattr(self.c.I, 'file_ok', None)
        return f(self.c, path) if f else True

    def h_malloc(self, I, S, fr, e, o, a):
        n = scal(I, S, a[0])
        if not isinstance(n, int):
            raise Unsupported('malloc of symbolic size')
        if n % 272 == 0:
            return self.channels(I, S, [None] * (n // 272))
        return Loc(I.alloc(S, 'arr', 'int', [UNDEF] * (n // 4), heap='malloc').o, 0)

    def h_free(self, I, S, fr, e, o, a):
        p = a[0]
        if isinstance(p, Loc) and p.o:
            c = S.w(p.o)
            if c.x.get('freed'):
                I.event('double-free', 'freed twice', e['l'], S)
            c.x['freed'] = True

    def h_strncpy(self, I, S, fr, e, o, a):
        t = I.sval(S, a[1])
        n = scal(I, S, a[2])
        if not isinstance(t, str) or not isinstance(n, int):
            raise Unsupported('strncpy')
        d = a[0]
        c = S.get(d.o)
        if c.kind == 'opaque':
            if d.k is None or S.get(d.o).d.get(d.k, UNDEF) is not UNDEF:
                raise Unsupported('strncpy target')
            S.w(d.o).d[d.k] = self.chars(I, S, t)
            return d
        for i in range(n):
            I.store(S, Loc(d.o, (d.k or 0) + i), ord(t[i]) if i < len(t) else 0, e['l'])
        return d
