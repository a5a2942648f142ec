"""Files of measured and gridded data: what is written, read and refused."""
from c15 import *
from libmodel import Blk, Bin, Num

ASTM = 'sources/plugins/data_io/astm.cpp'
EXRIO = 'sources/plugins/data_io/EXR_IO.h'
NM = 90 * 90 * 180
NU = (6 * 48) ** 2


def refused(R, c, label, f, what, loc):
    """f() must end in an error"""
    R.count('refusals')
    n = len(c.I.events)
    try:
        f()
    except Noret:
        bad = [x for x in c.I.events[n:] if x[0] in ('oob', 'uninit', 'null-deref', 'double-free')]
        R.check(label, not bad, '%s: %s before the error' % (what, bad and bad[0][1]), bad[0][2] if bad else loc, fp='undefined')
        return True
    R.check(label, False, '%s is accepted without an error' % what, loc, fp='accepted')
    return False


def output(R, c, label, name, loc):
    """what the file holds after saving"""
    w = written(c, name)
    R.check(label + '/written', bool(w), 'nothing is written to the file', loc, fp='nothing')
    return w or None


def missing(path):
    return lambda c, name: name != path


def numbers(c, L):
    return [x for x in L if not (isinstance(x, str) and not x)]


def sequence(atoms):
    """the content of a binary file as a list of (kind, ...) pieces"""
    return [(type(a).__name__, a) for a in atoms]


def block(c, a, n, fn, R, label, what, loc, smp):
    """a block of n 8-byte numbers, number k being fn(k)"""
    if not R.check(label + '/size', getattr(a, 'n', None) == n and getattr(a, 'size', None) == 8, '%s has %s numbers of %s bytes instead of %d of 8' % (what, getattr(a, 'n', None), getattr(a, 'size', None), n), loc, fp='size'):
        return
    k = var('k')
    agree(R, label, [a.at(c.I, c.S, k)], [fn(k)], what, loc, smp)


# ---- MERL and UTIA binary files

def merl(R):
    loc = MERL
    rng = lambda n: (0, NM - 1) if n in ('i', 'j') else (0, 3 * NM - 1) if n == 'k' else (-1.0, 1.0)
    i = var('i')
    with R.guard('MERL save', loc):
        c = machine(rng)
        d = provide_data(c, MERL, 0, 3, 3, 'RUSIN_TH_TD_PD', 'RGB_COLOR')
        if unknown(c) != 1:
            R.undecided('MERL save', 'the table is not one array')
            return
        before = row(c, d, i)
        c.mcall(d, 'save', [c.string('o.binary')])
        w = output(R, c, 'MERL save', 'o.binary', loc)
        if not w:
            return
        dims, n = [], 0
        while n < len(w) and isinstance(w[n], Bin):
            dims.append((w[n].v, w[n].size))
            n += 1
        R.check('MERL save/dimensions', dims == [(90, 4), (90, 4), (180, 4)], 'the file starts with %s' % dims, loc, fp=dims)
        if R.check('MERL save/layout', len(w) == n + 1 and isinstance(w[-1], Blk), 'the dimensions are followed by %d pieces' % (len(w) - n), loc, fp='layout'):
            block(c, w[-1], 3 * NM, lambda k: T(k), R, 'MERL save/table', 'the table in the file', loc, sampler(rng))
        events(R, c, 'MERL save', loc)
        # and back
        g = load(c, w, '', 'data_merl', 'o.binary')
        agree(R, 'MERL save/read back', row(c, g, i), before, 'a sample read back', loc, sampler(rng))
        refused(R, c, 'MERL save/unwritable', lambda: (setattr(c.I, 'file_ok', missing('no/o.binary')), c.mcall(d, 'save', [c.string('no/o.binary')])), 'a file that cannot be written', loc)
        R.saw(c)
        R.count('round trips')

    def bins(*v):
        return [Bin(x, 4) for x in v]

    def blk(n, name='F'):
        return Blk(lambda I, S, k: T(k, name), 0, n, 8)
    with R.guard('MERL load', loc):
        c = machine(rng)
        g = load(c, bins(90, 90, 180) + [blk(3 * NM)], '', 'data_merl', 'm.binary')
        sc = 1.0 / 1500, 1.15 / 1500, 1.66 / 1500
        v = row(c, g, i)
        agree(R, 'MERL load/sample', v[3:], [sym.mul(T(sym.add(i, NM * p), 'F'), sc[p]) for p in range(3)], 'a sample of the file', loc, sampler(rng))
        R.check('MERL load/size', size(c, g) == NM, 'the table has %s samples' % size(c, g), loc, fp='size')
        events(R, c, 'MERL load', loc)
        R.saw(c)
        R.count('layouts')
    for name, atoms in (('nothing', []), ('one dimension', bins(90)), ('two dimensions', bins(90, 90)), ('only dimensions', bins(90, 90, 180)), ('one plane', bins(90, 90, 180) + [blk(NM)]),
                        ('one number less', bins(90, 90, 180) + [blk(3 * NM - 1)]), ('360 azimuths', bins(90, 90, 360) + [blk(3 * NM)]), ('no azimuth', bins(90, 90, 0) + [blk(3 * NM)]), ('89 elevations', bins(90, 89, 180) + [blk(3 * NM)])):
        with R.guard('MERL file with ' + name, loc):
            c = machine(rng)
            refused(R, c, 'MERL file with ' + name, lambda: load(c, atoms, '', 'data_merl', 'm.binary'), 'a MERL file with %s' % name, loc)


def utia(R):
    loc = UTIA
    rng = lambda n: (0, NU - 1) if n in ('i', 'j') else (0, 3 * NU - 1) if n == 'k' else (-1.0, 1.0)
    i = var('i')
    for name in ('o.bin', 'o', 'exr.bin'):
        label = 'UTIA save ' + name
        with R.guard(label, loc):
            c = machine(rng)
            d = provide_data(c, UTIA, 0, 4, 3, 'SPHERICAL_TL_PL_TV_PV', 'RGB_COLOR')
            if unknown(c) != 1:
                R.undecided(label, 'the table is not one array')
                continue
            before = row(c, d, i)
            c.mcall(d, 'save', [c.string(name)])
            w = output(R, c, label, name, loc)
            if not w:
                continue
            if R.check(label + '/layout', len(w) == 1 and isinstance(w[0], Blk), 'the file has %d pieces' % len(w), loc, fp='layout'):
                block(c, w[0], 3 * NU, lambda k: T(k), R, label + '/table', 'the table in the file', loc, sampler(rng))
            events(R, c, label, loc)
            g = load(c, w, '', 'data_utia', name)
            agree(R, label + '/read back', row(c, g, i), before, 'a sample read back', loc, sampler(rng))
            c.I.file_ok = missing('no/' + name)
            refused(R, c, label + '/unwritable', lambda: c.mcall(d, 'save', [c.string('no/' + name)]), 'a file that cannot be written', loc)
            R.saw(c)
            R.count('round trips')
    for n in (3 * NU - 1, NU, 0):
        with R.guard('UTIA file of %d numbers' % n, loc):
            c = machine(rng)
            refused(R, c, 'UTIA file of %d numbers' % n, lambda: load(c, [Blk(lambda I, S, k: T(k, 'F'), 0, n, 8)] if n else [], '', 'data_utia', 'u.bin'), 'a UTIA file of %d numbers' % n, loc)
    with R.guard('UTIA load', loc):
        c = machine(rng)
        g = load(c, [Blk(lambda I, S, k: T(k, 'F'), 0, 3 * NU, 8)], '', 'data_utia', 'u.bin')
        v = row(c, g, i)
        agree(R, 'UTIA load/sample', v[4:], [T(sym.add(i, NU * p), 'F') for p in range(3)], 'a sample of the file', loc, sampler(rng))
        events(R, c, 'UTIA load', loc)
        R.saw(c)
        R.count('layouts')
    with R.guard('UTIA image of 4x3', loc):
        c = machine(rng)
        X = exr.Exr(c)
        t = X.add(exr.Img(4, 3, [(n, [1.0] * 12) for n in 'BGR']))
        refused(R, c, 'UTIA image of 4x3', lambda: load(c, [t], '', 'data_utia', 'u.exr'), 'an image of 4x3', loc)
    # other sizes: the reader of images (checked with the slices) gives the pixels at once
    for W, H in ((287, 288), (289, 288), (1, 1), (0, 0), (288, 0)):
        label = 'UTIA image of %dx%d' % (W, H)
        with R.guard(label, loc):
            c = machine(rng)
            c.I.MAXITER, c.I.maxsteps, c.I.sarr_min = 200000, 10 ** 9, 300000
            exr.Exr(c)
            seen = []

            def given(I, S, fr, e, o, a):
                seen.append(1)
                I.store(S, a[1], W, e['l'])
                I.store(S, a[2], H, e['l'])
                I.store(S, a[3], pixels(I, S, 3 * W * H), e['l'])
                return True
            c.I.hooks['t_EXR_IO<double>::LoadEXR'] = c.I.hooks['t_EXR_IO::LoadEXR'] = given
            f = lambda: load(c, ['x'], '', 'data_utia', 'u.exr')
            if refused(R, c, label, f, 'an image of %dx%d' % (W, H), loc) and not seen:
                R.undecided(label, 'the image is not read by LoadEXR')
    for stage in ('version', 'header', 'image'):
        with R.guard('UTIA image, wrong ' + stage, loc):
            c = machine(rng)
            X = exr.Exr(c)
            t = X.add(exr.Img(2, 2, [(n, [1.0] * 4) for n in 'BGR']))
            X.fail = stage
            refused(R, c, 'UTIA image, wrong ' + stage, lambda: load(c, [t], '', 'data_utia', 'u.exr'), 'an image with an invalid %s' % stage, loc)
    for text in ([], ['not an image\n']):
        with R.guard('UTIA image %s' % text, loc):
            c = machine(rng)
            exr.Exr(c)
            refused(R, c, 'UTIA image, content %s' % text, lambda: load(c, text, '', 'data_utia', 'u.exr'), 'a file that is not an image', loc)
    with R.guard('UTIA image', loc):
        utia_image(R, rng, loc)


def long_machine(rng):
    c = machine(rng)
    c.I.sarr_min = 300000
    c.I.MAXITER = 200000
    c.I.maxsteps = 10 ** 9
    return c


def pixels(I, S, n):
    if n > 200000:
        return Loc(I.alloc(S, 'sarr', 'double', None, heap='new[]', len=n, init='sel', name='F', writes=()).o, 0)
    return Loc(I.alloc(S, 'arr', 'double', [1.0] * n, heap='new[]').o, 0)


def f32(x):
    return fun('f32', x)


def utia_image(R, rng, loc):
    c = long_machine(rng)
    X = exr.Exr(c)
    d = provide_data(c, UTIA, 0, 4, 3, 'SPHERICAL_TL_PL_TV_PV', 'RGB_COLOR')
    tab = [o for o, k in c.S.mem.items() if k.kind == 'arr' and isinstance(k.d, list) and len(k.d) == 3 * NU]
    if len(tab) != 1:
        R.undecided('UTIA image', 'the table is not one array')
        return
    c.S.w(tab[0]).d = [T(k) for k in range(3 * NU)]
    c.mcall(d, 'save', [c.string('o.exr')])
    w = output(R, c, 'UTIA image', 'o.exr', loc)
    if not w:
        return
    im = X.imgs.get(w[0])
    if not R.check('UTIA image/written', im is not None and len(w) == 1, 'no image is written', loc, fp='written'):
        return
    R.check('UTIA image/size', (im.W, im.H) == (288, 288), 'the image is %sx%s' % (im.W, im.H), loc, fp=(im.W, im.H))
    names = [n for n, _ in im.planes]
    R.check('UTIA image/channels', names == ['B', 'G', 'R'], 'the channels are %s' % names, EXRIO, fp=names)
    if names == ['B', 'G', 'R'] and (im.W, im.H) == (288, 288):
        bad = [(p, k) for p, (_, v) in enumerate(im.planes) for k in range(NU) if not exact(v[k], T(k + NU * (2 - p)))]
        R.check('UTIA image/pixels', not bad, '%d pixels are not those of the table, first channel %s pixel %s' % (len(bad), bad and bad[0][0], bad and bad[0][1]), loc, fp='pixels')
    events(R, c, 'UTIA image save', loc)
    R.saw(c)
    c.I.file_ok = missing('no/o.exr')
    # reading, from an image of other numbers
    c = long_machine(rng)
    X = exr.Exr(c)
    px = lambda ch: [T(3 * k + ch, 'F') for k in range(NU)]
    t = X.add(exr.Img(288, 288, [('B', px(2)), ('G', px(1)), ('R', px(0))]))
    g = load(c, [t], '', 'data_utia', 'in.exr')
    tab = [c.S.get(o).d for o, k in c.S.mem.items() if k.kind == 'arr' and isinstance(k.d, list) and len(k.d) == 3 * NU and not k.x.get('freed')]
    R.check('UTIA image load/size', size(c, g) == NU, 'the table has %s samples' % size(c, g), loc, fp='size')
    bad = []
    for k in list(range(0, NU, 613)) + [NU - 1]:
        v = row(c, g, k)
        if not all(exact(v[4 + p], T(3 * k + p, 'F')) for p in range(3)):
            bad.append(k)
    R.check('UTIA image load/samples', not bad, 'samples %s are not the pixels of the image' % bad[:4], loc, fp='samples')
    full = [t for t in tab if not any(x is UNDEF or x == 0 or x == 0.0 for x in t[::97])]
    if full:
        # every entry of the table the samples come from
        for t in full:
            bad = [k for k in range(3 * NU) if not exact(t[k], T(3 * (k % NU) + k // NU, 'F'))]
            if not bad:
                break
        else:
            if len(full) == 1:
                R.check('UTIA image load/table', False, '%d numbers of the table are not those of the image' % len(bad), loc, fp='table')
    events(R, c, 'UTIA image load', loc)
    R.saw(c)
    R.count('layouts')
    R.count('round trips')


def exact(a, b):
    """same number up to storage in single precision"""
    for _ in range(3):
        if isinstance(a, E) and a.op == 'f32':
            a = a.args[0]
    return a is b or (isinstance(a, E) and isinstance(b, E) and a is b) or (not isinstance(a, E) and a == b)


# ---- slices

def slices(R):
    loc = SLICE
    rng = lambda v: (-5.0, 5.0)
    W, H = 3, 2
    N = W * H
    px = lambda ch, name='F': [T(3 * k + ch, name) for k in range(N)]
    pl = {'R': px(0), 'G': px(1), 'B': px(2), 'A': px(0, 'A'), 'Z': px(1, 'A')}
    for order in ('BGR', 'RGB', 'GRB', 'ABGR', 'RGBA', 'BGRZ', 'BR', 'G', 'Z', 'BGRAZ'):
        for args in ('', '--param RUSIN_TH_TD'):
            label = 'slice with channels %s %s' % (order, args)
            with R.guard(label, loc):
                c = machine(rng)
                X = exr.Exr(c)
                t = X.add(exr.Img(W, H, [(n, pl[n]) for n in order]))
                d = load(c, [t], args, 'data_brdf_slice', 'in.exr')
                if not R.check(label + '/size', size(c, d) == N, 'the table has %s samples' % size(c, d), loc, fp=size(c, d)):
                    continue
                for i in range(N):
                    v = row(c, d, i)
                    want = [pl[n][i] if n in order else 0.0 for n in 'RGB']
                    agree(R, '%s/sample %d' % (label, i), v[2:], want, 'sample %d' % i, EXRIO, sampler(rng))
                events(R, c, label, loc)
                R.count('layouts')
                # writing and reading again
                c.mcall(d, 'save', [c.string('o.exr')])
                w = output(R, c, label, 'o.exr', loc)
                if not w:
                    continue
                im = X.imgs.get(w[0])
                if not R.check(label + '/written', im is not None and len(w) == 1, 'no image is written', loc, fp='written'):
                    continue
                names = [n for n, _ in im.planes]
                R.check(label + '/written/shape', (im.W, im.H, names) == (W, H, ['B', 'G', 'R']), 'the image is %sx%s with channels %s' % (im.W, im.H, names), EXRIO, fp='shape')
                for n, v in im.planes:
                    if n in 'RGB':
                        agree2(R, '%s/written/%s' % (label, n), v, pl[n] if n in order else [0.0] * N, 'channel %s' % n, EXRIO, sampler(rng), 1e-6)
                g = load(c, w, args, 'data_brdf_slice', 'o.exr')
                R.check(label + '/read back/size', size(c, g) == N, 'the table has %s samples' % size(c, g), loc, fp='size')
                for i in range(N):
                    agree2(R, '%s/read back/%d' % (label, i), row(c, g, i), row(c, d, i), 'sample %d read back' % i, EXRIO, sampler(rng), 1e-6)
                events(R, c, label + '/written', loc)
                c.I.file_ok = missing('no/o.exr')
                refused(R, c, label + '/unwritable', lambda: c.mcall(d, 'save', [c.string('no/o.exr')]), 'a file that cannot be written', loc)
                R.saw(c)
                R.count('round trips')
    for stage in ('version', 'header', 'image'):
        with R.guard('slice with invalid ' + stage, loc):
            c = machine(rng)
            X = exr.Exr(c)
            t = X.add(exr.Img(W, H, [(n, pl[n]) for n in 'BGR']))
            X.fail = stage
            refused(R, c, 'slice with invalid ' + stage, lambda: load(c, [t], '', 'data_brdf_slice', 'in.exr'), 'an image with an invalid %s' % stage, EXRIO)
    for text in ([], ['not an image\n'], ['v']):
        with R.guard('slice, content %s' % text, loc):
            c = machine(rng)
            exr.Exr(c)
            refused(R, c, 'slice, content %s' % text, lambda: load(c, text, '', 'data_brdf_slice', 'in.exr'), 'a file that is not an image', EXRIO)


# ---- grids

def grids(R):
    ie, oe = enum('alta::params::input'), enum('alta::params::output')
    loc = GRID
    rng = lambda v: (-5.0, 5.0)
    for k, (n, sz, nY) in enumerate((('COS_TH', [4], 1), ('COS_TH', [3], 3), ('RUSIN_TH_TD', [4, 3], 3), ('COS_TH_TD', [2, 5], 1), ('RUSIN_TH_TD', [3, 3], 1), ('RUSIN_TH_TD_PD', [2, 3, 4], 3), ('RUSIN_TH_TD_PD', [3, 2, 2], 1),
                                     ('ISOTROPIC_TV_PROJ_DPHI', [2, 3], 3), ('STARK_2D', [3, 2], 1))):
        label = 'grid %s %s x%d' % (n, sz, nY)
        dim = len(sz)
        on = 'INV_STERADIAN' if nY == 1 else 'RGB_COLOR'
        with R.guard(label, loc):
            c = machine(rng)
            d = provide_data(c, GRID, 0, dim, nY, n, on, '--grid-size [%s]' % ','.join(map(str, sz)))
            N = size(c, d)
            for i in range(N):
                v = row(c, d, i)
                c.mcall(d, 'set', [i, c.vec(v[:dim] + [var('y%d_%d' % (i, j)) for j in range(nY)])])
            c.mcall(d, 'save', [c.string('g.out')])
            w = output(R, c, label, 'g.out', loc)
            if not w:
                continue
            prec = [a.prec for a in w if isinstance(a, Num) and isinstance(a.v, E)]
            R.check(label + '/digits', len(prec) == N * nY and min(prec) >= 15, '%d numbers with %s digits are written' % (len(prec), prec and min(prec)), loc, fp='digits')
            g = load(c, w, '', 'data_grid', 'g.out')
            R.check(label + '/descriptor', describe(c, g) == describe(c, d) == (dim, nY, ie[n], oe[on]), 'the grid read is %s' % (describe(c, g),), loc, fp='descriptor')
            if R.check(label + '/size', size(c, g) == N, 'the grid read has %s samples' % size(c, g), loc, fp='size'):
                for i in range(N):
                    compare(R, c, '%s/sample %d' % (label, i), near_(row(c, g, i)), near_(row(c, d, i)), 'sample %d read back' % i, loc)
                x = [0.37, 0.61, 0.83][:dim]
                agree(R, label + '/value', c.mvals(c.mcall(g, 'value', [c.vec(x)])), c.mvals(c.mcall(d, 'value', [c.vec(x)])), 'the value of the grid read', loc, sampler(rng))
            events(R, c, label, loc)
            c.I.file_ok = missing('no/g.out')
            refused(R, c, label + '/unwritable', lambda: c.mcall(d, 'save', [c.string('no/g.out')]), 'a file that cannot be written', loc)
            R.saw(c)
            R.count('round trips')
        rows = [[var('x%d_%d' % (i, j)) for j in range(dim)] + [var('y%d_%d' % (i, j)) for j in range(nY)] for i in range(prod(sz) + 1)]

        def file(m, header='#grid-size [%s]\n' % ','.join(map(str, sz)), rows=rows, n=n, on=on, dim=dim, nY=nY):
            t = ['#ALTA HEADER BEGIN\n#DIM %d %d\n#PARAM_IN %s\n#PARAM_OUT %s\n%s#ALTA HEADER END\n' % (dim, nY, n, on, header)]
            for r in rows[:m]:
                t += [a for v in r for a in (num(v), ' ')] + ['\n']
            return t
        N = prod(sz)
        with R.guard(label + ' from text', loc):
            c = machine(rng)
            g = load(c, file(N), '', 'data_grid', 'in.txt')
            R.check(label + ' from text/descriptor', describe(c, g) == (dim, nY, ie[n], oe[on]), 'the grid read is %s' % (describe(c, g),), loc, fp='descriptor')
            if R.check(label + ' from text/size', size(c, g) == N, 'the grid read has %s samples' % size(c, g), loc, fp='size'):
                for i in range(N):
                    compare(R, c, '%s from text/sample %d' % (label, i), row(c, g, i)[dim:], rows[i][dim:], 'sample %d' % i, loc)
            events(R, c, label + ' from text', loc)
            R.saw(c)
            R.count('layouts')
        for m in (0, 1, N - 1, N + 1):
            with R.guard('%s with %d samples' % (label, m), loc):
                c = machine(rng)
                refused(R, c, '%s with %d samples' % (label, m), lambda: load(c, file(m), '', 'data_grid', 'in.txt'), 'a grid of %s with %d samples' % (sz, m), loc)
        if N != 10 ** dim:
            with R.guard(label + ' without size', loc):
                c = machine(rng)
                refused(R, c, label + ' without size', lambda: load(c, file(N, ''), '', 'data_grid', 'in.txt'), 'a file without a grid size, of %d samples' % N, loc)


def near_(v):
    return [round(x, 9) if isinstance(x, float) else x for x in v]


def prod(v):
    n = 1
    for x in v:
        n *= x
    return n


# ---- ASTM

IN = {4: 'theta_i, phi_i, theta_s, phi_s', 3: 'theta_i, theta_s, phi_s'}
OUT = {'R, G, B': (3, 'RGB_COLOR'), 'Integrated': (1, 'INV_STERADIAN'), 'Integrated photopic': (None, 'INV_STERADIAN')}


def astm(R):
    ie, oe = enum('alta::params::input'), enum('alta::params::output')
    loc = ASTM
    rng = lambda v: (-5.0, 5.0)
    keys = ['ASTM E1392-90\n', 'SAMPLEID Some sample\n', 'MATERIAL [none]\n', 'THICKNESS 0.5\n']
    for nX, iv in IN.items():
        for ov in ('R,G,B', 'Integrated'):
            nY, on = (3, 'RGB_COLOR') if ov == 'R,G,B' else (1, 'INV_STERADIAN')
            n = 3
            rows = [[var('x%d_%d' % (i, j)) for j in range(nX + nY)] for i in range(n + 1)]
            for k, (sep, head, blank) in enumerate(((',', keys, ''), (', ', keys[:1], ''), (',', keys[::-1], '\n'), (' , ', [], 'a comment without separators\n'))):
                def file(m=n, cut=None, vars='VARS %s,%s\n' % (iv.replace(' ', ''), ov), points=n, last='\n', sep=sep, head=head, blank=blank, rows=rows):
                    t = list(head) + (['NUM_POINTS %d\n' % points] if points is not None else []) + ([vars] if vars else [])
                    for i, r in enumerate(rows[:m]):
                        r = r[:cut] if cut is not None and i == m - 1 else r
                        t.append(blank)
                        for j, v in enumerate(r):
                            t += ([sep] if j else []) + [num(v)]
                        t.append('\n' if i < m - 1 else last)
                    return [x for x in t if x]
                label = 'ASTM %dx%d layout %d' % (nX, nY, k)
                with R.guard(label, loc):
                    c = machine(rng)
                    d = load(c, file(), '', 'data_astm', 'a.astm')
                    R.check(label + '/descriptor', describe(c, d) == (nX, nY, ie['SPHERICAL_TL_PL_TV_PV' if nX == 4 else 'UNKNOWN_INPUT'], oe[on]), 'the data set is %s' % (describe(c, d),), loc, fp='descriptor')
                    if R.check(label + '/size', size(c, d) == n, 'the data set has %s samples' % size(c, d), loc, fp='size'):
                        for i in range(n):
                            compare(R, c, '%s/sample %d' % (label, i), row(c, d, i), rows[i], 'sample %d' % i, loc)
                    events(R, c, label, loc)
                    R.saw(c)
                    R.count('layouts')
                with R.guard(label + ' more rows', loc):
                    c = machine(rng)
                    d = load(c, file(n + 1), '', 'data_astm', 'a.astm')
                    R.check(label + '/more rows', size(c, d) == n, 'a file with more rows than points has %s samples' % size(c, d), loc, fp='size')
                    R.count('layouts')
                for name, f in (('truncated', file(n - 1)), ('without rows', file(0)), ('short row', file(n, nX)), ('empty last row', file(n, 0)), ('without VARS', file(vars='')), ('without VARS nor rows', file(0, vars='')),
                                ('empty', []), ('empty VARS', file(vars='VARS\n'))):
                    with R.guard('%s %s' % (label, name), loc):
                        c = machine(rng)
                        refused(R, c, '%s %s' % (label, name), lambda: load(c, f, '', 'data_astm', 'a.astm'), 'an ASTM file %s' % name, loc)


# ---- scattered points

def scattered(R):
    loc = RBF
    for nX, ip in ((1, 'COS_TH'), (2, 'RUSIN_TH_TD')):
        for nY, op in ((1, 'INV_STERADIAN'), (3, 'RGB_COLOR')):
            for n in (1, 4):
                label = 'scattered %s/%s n=%d' % (ip, op, n)
                with R.guard(label, loc):
                    c = machine(lambda v: (-2.0, 2.0))
                    flannmodel.Flann(c, list(range(n)))
                    rows = [[var('x%d_%d' % (i, j)) for j in range(nX)] + [var('y%d_%d' % (i, j)) for j in range(nY)] for i in range(n)]
                    text = ['#DIM %d %d\n#PARAM_IN %s\n#PARAM_OUT %s\n#VS 0\n' % (nX, nY, ip, op)]
                    for x in rows:
                        text += [t for v in x for t in (num(v), ' ')] + ['\n']
                    d = load(c, text, '', 'data_rbf')
                    c.mcall(d, 'save', [c.string('r.out')])
                    w = output(R, c, label, 'r.out', loc)
                    if not w:
                        continue
                    for type in ('data_rbf', ''):
                        g = load(c, w, '', type, 'r.out')
                        lab = '%s read as %s' % (label, type or 'text')
                        R.check(lab + '/descriptor', describe(c, g) == describe(c, d), 'the data set read back is %s' % (describe(c, g),), loc, fp='descriptor')
                        if R.check(lab + '/size', size(c, g) == n, 'the data set read back has %s samples' % size(c, g), loc, fp='size'):
                            for i in range(n):
                                compare(R, c, '%s/sample %d' % (lab, i), row(c, g, i), rows[i], 'sample %d' % i, loc)
                    events(R, c, label, loc)
                    R.saw(c)
                    R.count('round trips')


# ---- any kind

def absent(R):
    """a file that does not exist"""
    for type in ('', 'data_merl', 'data_utia', 'data_brdf_slice', 'data_grid', 'data_astm', 'data_rbf'):
        with R.guard('no file for ' + type, 'sources/core/plugins_manager.cpp'):
            c = machine(lambda v: (-2.0, 2.0))
            exr.Exr(c)
            c.I.file_ok = lambda c, name: False
            refused(R, c, 'no file for ' + (type or 'text'), lambda: load(c, [], '', type, 'absent.dat'), 'a file that does not exist', 'sources/core/plugins_manager.cpp')


def run(R):
    R.rule('save and load of each format run abstractly over tables of arbitrary content: the atoms written are compared with the layout of the format and fed back to the loader; '
           'truncated, mismatching or invalid files and unwritable names must end every path in an error')
    merl(R)
    slices(R)
    grids(R)
    astm(R)
    scattered(R)
    absent(R)
    utia(R)
    R.floor('refusals', 215)
    R.floor('round trips', 38)
    R.floor('layouts', 57)
    R.floor('discharged', 1550)
