"""Text data files hold the samples they are made from."""
from dataset import *


def rows_of(n, nX, nY):
    return [[var('x%d_%d' % (i, j)) for j in range(nX)] + [var('y%d_%d' % (i, j)) for j in range(nY)] for i in range(n)]


def verify(R, c, label, g, rows, desc):
    if not R.check(label + '/loads', isinstance(g, Loc) and g.o != 0, 'no data set is loaded', DS, fp='null'):
        return
    R.check(label + '/descriptor', describe(c, g) == desc, 'dimensions and parametrizations are %s instead of %s' % (describe(c, g), desc), DS, fp='descriptor')
    n = size(c, g)
    if not R.check(label + '/size', n == len(rows), '%s samples instead of %d' % (n, len(rows)), DS, fp=n):
        return
    for i, r in enumerate(rows):
        compare(R, c, '%s/row%d' % (label, i), row(c, g, i), r, 'sample %d' % i, DS)
    nX = desc[0]
    for m, f in (('min', 'min'), ('max', 'max')):
        b = c.mvals(c.mcall(g, m, []))
        want = []
        for j in range(nX):
            w = rows[0][j]
            for r in rows[1:]:
                w = sym.fun(f, w, r[j])
            want.append(w)
        compare(R, c, '%s/%s' % (label, m), b, want, 'the %simum of the inputs' % m, VS)
    events(R, c, label, DS)


def roundtrip(R, ip, iv, op, ov, nX, nY, n):
    label = 'round trip %s/%s/%dx%d/n=%d' % (ip, op, nX, nY, n)
    with R.guard(label, DS):
        c = fresh()
        rows = rows_of(n, nX, nY)
        d = mkdata(c, nX, nY, rows, iv, ov)
        c.mcall(d, 'save', [c.string('o.dat')])
        t = written(c, 'o.dat')
        if not R.check(label + '/written', t is not None, 'save writes no file', 'sources/core/data.cpp', fp='nofile'):
            return
        low = [x for x in t if isinstance(x, Num) and x.prec is not None and (not isinstance(x.prec, int) or x.prec < 15)]
        R.check(label + '/digits', not low, 'numbers are written with fewer than 15 digits', DS, fp='digits')
        try:
            g = load(c, t)
        except Noret:
            R.check(label + '/loads', False, 'the saved file cannot be loaded', c.I.events and c.I.events[-1][2] or DS, fp='noload')
            return
        R.saw(c)
        R.count('round trips')
        verify(R, c, label, g, rows, (nX, nY, iv, ov))
        R.check(label + '/equal', eq(c, d, g) is True, 'the data set loaded is reported to differ from the one saved', EQ, fp='differs')


def eq(c, a, b, tol=None):
    args = [b] if tol is None else [b, tol]
    v = c.call('alta::data::equals', args, nargs=2, this=a)
    v = c.I.assumef(v) if isinstance(v, E) else v
    return v if v is None else bool(v)


EQ = 'sources/core/data.cpp'


def equality(R):
    """equal exactly when sizes, descriptors and every coordinate (within the tolerance) agree"""
    ie, oe = enum('alta::params::input'), enum('alta::params::output')
    for nX, nY, n in ((1, 1, 2), (2, 3, 3)):
        base = [[1.0 + 0.25 * i + 2.0 * j for j in range(nX + nY)] for i in range(n)]
        A, B = (ie['UNKNOWN_INPUT'], oe['RGB_COLOR']), (ie['UNKNOWN_INPUT'], oe['RGB_COLOR'])

        def go(name, rows, desc, want, tol=None, dims=(nX, nY)):
            label = 'equality %s/%dx%d' % (name, nX, nY)
            with R.guard(label, EQ):
                c = fresh()
                a = mkdata(c, nX, nY, base, *A)
                b = mkdata(c, dims[0], dims[1], rows, *desc)
                R.count('comparisons')
                for x, y, w in ((a, b, ''), (b, a, ' swapped')):
                    got = eq(c, x, y, tol)
                    R.check(label + w, got is want, 'the data sets are reported %s' % {True: 'equal', False: 'different', None: 'neither'}[got], EQ, fp=str(got))
        go('same', base, B, True)
        for i in range(n):
            for j in range(nX + nY):
                for d in (0.5, -0.5, 1e-3, -1e-3):
                    rows = [list(r) for r in base]
                    rows[i][j] += d
                    go('row %d column %d moved by %g' % (i, j, d), rows, B, False)
                    go('row %d column %d moved by %g within 0.6' % (i, j, d), rows, B, True, 0.6)
                    go('row %d column %d moved by %g tolerance %g' % (i, j, d, abs(d) / 2), rows, B, False, abs(d) / 2)
        go('fewer rows', base[:-1], B, False)
        go('more rows', base + [base[0]], B, False)
        go('other input parametrization', base, ({1: ie['COS_TH'], 2: ie['RUSIN_TH_TD']}[nX], B[1]), False)
        go('other output parametrization', base, (B[0], oe['XYZ_COLOR']), False)
        go('other input dimension', [r + [0.0] for r in base], B, False, dims=(nX + 1, nY))
        if nX + nY > 2:
            go('other split of dimensions', base, B, False, dims=(nX - 1, nY + 1))


def layouts(nX, nY, ip, op, rows):
    H = ['#DIM %d %d\n' % (nX, nY), '#PARAM_IN %s\n' % ip, '#PARAM_OUT %s\n' % op, '#VS 0\n']

    def body(sep='\t', eol='\n', lead='', last=True, extra=None):
        out = []
        for i, r in enumerate(rows):
            if extra:
                out.append(extra[i % len(extra)])
            out.append(lead)
            for j, v in enumerate(r):
                if j:
                    out.append(sep)
                out.append(num(v))
            if i + 1 < len(rows) or last:
                out.append(eol)
        return out
    yield 'tabs', H + body()
    yield 'spaces', H + body('  ', lead=' ')
    yield 'reversed header', H[::-1] + body()
    yield 'trailing separators', H + body(' ', '\t \n')
    yield 'no final newline', H + body(last=False)
    yield 'carriage returns', [h.replace('\n', '\r\n') for h in H] + body(' ', '\r\n')
    yield 'comments and blank lines', ['# measured on Monday\n'] + H[:2] + ['# more\n'] + H[2:] + body(extra=['# a comment\n', '\n', '#another\n', '  \n'])
    yield 'end marker', H + ['#ALTA END HEADER\n', '#DIM 9 9\n', '#PARAM_IN UNKNOWN\n'] + body()
    yield 'written end marker', H + ['#ALTA HEADER END\n', '#DIM 9 9\n'] + body()
    yield 'begin marker', ['#ALTA HEADER BEGIN\n'] + H + ['#ALTA HEADER END\n'] + body()
    yield 'unknown keys', ['#CREATOR me and 12 others\n', '#SAMPLES 99\n'] + H + body()
    yield 'no interval key', H[:3] + body()
    yield 'extra columns', H + body(eol=' 7 8\n')
    yield 'blank end', H + body() + ['\n', '   \n', '\r\n', '\t\n']
    yield 'comment end', H + body() + ['# the end']


def run(R):
    R.rule('the text save writes for a data set with symbolic coordinates (literals and printed numbers) is given to the plugin manager, and every coordinate read back is the one saved; '
           'hand-written layouts of the same numbers (separators, comments, header order, end markers) give the same samples; a row with a missing number never becomes a sample')
    ie, oe = enum('alta::params::input'), enum('alta::params::output')
    ins = [(n, v) for n, v in ie.items()]
    outs = [(n, v) for n, v in oe.items()]
    from conv import dimension
    k = 0
    for n, v in ins:
        nX = dimension(v)
        if nX <= 0:
            if n != 'UNKNOWN_INPUT':
                continue
            nX = 2
        for op, ov in outs if R.tier != 'quick' else [outs[k % len(outs)]]:
            nY = 3 if op in ('RGB_COLOR', 'XYZ_COLOR') else 1 + k % 3
            roundtrip(R, n, v, op, ov, nX, nY, 2 if R.tier == 'quick' else 3)
        k += 1
    for nX, nY, n in ((1, 1, 1), (1, 4, 3), (2, 2, 4), (6, 3, 2)) + (() if R.tier == 'quick' else ((3, 8, 5), (5, 5, 9))):
        roundtrip(R, 'UNKNOWN_INPUT', ie['UNKNOWN_INPUT'], 'UNKNOWN_OUTPUT', oe['UNKNOWN_OUTPUT'], nX, nY, n)
    for op, ov in outs:
        roundtrip(R, 'COS_TH_TD', ie['COS_TH_TD'], op, ov, 2, 3, 2)
    for nX, nY, ip, op in ((2, 3, 'RUSIN_TH_TD', 'RGB_COLOR'), (1, 1, 'COS_TH', 'ENERGY')):
        rows = rows_of(3, nX, nY)
        for name, text in layouts(nX, nY, ip, op, rows):
            label = 'layout %s/%dx%d' % (name, nX, nY)
            with R.guard(label, DS):
                c = fresh()
                try:
                    g = load(c, text)
                except Noret:
                    R.check(label + '/loads', False, 'the file is refused', c.I.events and c.I.events[-1][2] or DS, fp='noload')
                    continue
                R.saw(c)
                R.count('layouts')
                verify(R, c, label, g, rows, (nX, nY, ie[ip], oe[op]))
        for cut in range(1, nX + nY):
            for where in ('first', 'last'):
                label = 'short row %s/%dx%d/cut %d' % (where, nX, nY, cut)
                with R.guard(label, DS):
                    c = fresh()
                    T = ['#DIM %d %d\n#PARAM_IN %s\n#PARAM_OUT %s\n' % (nX, nY, ip, op)]
                    for i, r in enumerate(rows):
                        rr = r[:len(r) - cut] if i == (0 if where == 'first' else len(rows) - 1) else r
                        for v in rr:
                            T += [num(v), ' ']
                        T += ['\n']
                    R.count('short rows')
                    try:
                        g = load(c, T)
                    except Noret:
                        R.check(label, True)
                        continue
                    if not (isinstance(g, Loc) and g.o):
                        R.check(label, True)
                        continue
                    whole = [rows[i] for i in range(3) if i != (0 if where == 'first' else 2)]
                    got = [row(c, g, i) for i in range(size(c, g))]
                    ok = len(got) == 2 and all(same(a, b) for p, q in zip(got, whole) for a, b in zip(p, q))
                    R.check(label, ok, 'a row with %d missing numbers becomes a sample' % cut, DS, fp='garbage')
    equality(R)
    R.floor('comparisons', 150)
    R.floor('round trips', 30)
    R.floor('layouts', 26)
    R.floor('short rows', 9)
    R.floor('discharged', 500)
