"""Binary data files hold the samples and intervals they are made from, bit for bit."""
from dataset import *
from interp import Bin

KINDS = {0: 'no interval', 1: 'symmetrical', 2: 'asymmetrical'}


def values(nX, nY, kind, n):
    return [[var('x%d_%d' % (i, j)) for j in range(nX)] + [var('y%d_%d' % (i, j)) for j in range(nY)] +
            [var('w%d_%d' % (i, j)) for j in range(nY * kind)] for i in range(n)]


def bounds_of(r, nX, nY, kind):
    y = r[nX:nX + nY]
    w = r[nX + nY:]
    if kind == 2:
        return w[:nY], w[nY:]
    if kind == 1:
        return [sym.sub(a, b) for a, b in zip(y, w)], [sym.add(a, b) for a, b in zip(y, w)]
    return [sym.sub(a, 0.1) for a in y], [sym.add(a, 0.1) for a in y]


def verify(R, c, label, g, rows, nX, nY, inp, out, kind, loc):
    if not R.check(label + '/loads', isinstance(g, Loc) and g.o != 0, 'no data set is loaded', loc, fp='null'):
        return
    R.check(label + '/descriptor', describe(c, g) == (nX, nY, inp, out), 'dimensions and parametrizations are %s' % (describe(c, g),), loc, fp='descriptor')
    n = size(c, g)
    if not R.check(label + '/size', n == len(rows), '%s samples instead of %d' % (n, len(rows)), loc, fp=n):
        return
    k = c.mcall(g, 'confidence_interval_kind', [])
    R.check(label + '/kind', k == kind, 'the interval kind is %s instead of %s' % (KINDS.get(k, k), KINDS[kind]), loc, fp=k)
    for i, r in enumerate(rows):
        compare(R, c, '%s/row%d' % (label, i), row(c, g, i), r[:nX + nY], 'sample %d' % i, loc)
        x, l, u = interval(c, g, i)
        wl, wu = bounds_of(r, nX, nY, kind)
        compare(R, c, '%s/x%d' % (label, i), x, r[:nX], 'the input of sample %d' % i, VS)
        compare(R, c, '%s/lower%d' % (label, i), l, wl, 'the lower bound of sample %d' % i, VS)
        compare(R, c, '%s/upper%d' % (label, i), u, wu, 'the upper bound of sample %d' % i, VS)
        l, u = interval2(c, g, i)
        compare(R, c, '%s/lower%d/short' % (label, i), l, wl, 'the lower bound of sample %d' % i, VS)
        compare(R, c, '%s/upper%d/short' % (label, i), u, wu, 'the upper bound of sample %d' % i, VS)
    for m, f in (('min', 'min'), ('max', 'max')):
        want = []
        for j in range(nX):
            w = rows[0][j]
            for r in rows[1:]:
                w = sym.fun(f, w, r[j])
            want.append(w)
        compare(R, c, '%s/%s' % (label, m), c.mvals(c.mcall(g, m, [])), want, 'the %simum of the inputs' % m, VS)
    events(R, c, label, loc)


def split(text):
    """(header text, payload numbers, trailer text)"""
    i = next((k for k, a in enumerate(text) if isinstance(a, Bin)), len(text))
    j = next((k for k in range(len(text), i, -1) if isinstance(text[k - 1], Bin)), i)
    return ''.join(a if isinstance(a, str) else repr(a) for a in text[:i]), text[i:j], ''.join(a if isinstance(a, str) else repr(a) for a in text[j:])


def roundtrip(R, inp, ipn, out, opn, nX, nY, kind, n, cls='vertical segment'):
    label = '%s/%s/%s/%s/%dx%d/n=%d' % (cls, KINDS[kind], ipn, opn, nX, nY, n)
    with R.guard(label, DS):
        c = fresh()
        rows = values(nX, nY, kind, n)
        if cls == 'vertical segment':
            d = segment(c, nX, nY, inp, out, [v for r in rows for v in r], kind)
            verify(R, c, label + '/built', d, rows, nX, nY, inp, out, kind, VS)
        else:
            d = mkdata(c, nX, nY, rows, inp, out)
        o = c.ostream()
        c.call('alta::save_data_as_binary', [o, d])
        t = c.text(o)
        head, payload, tail = split(t)
        lines = head.splitlines()
        want = {'#DIM': [str(nX), str(nY)], '#PARAM_IN': [ipn], '#PARAM_OUT': [opn], '#FORMAT': ['binary'], '#VERSION': ['0'], '#PRECISION': ['ieee754-double'],
                '#SAMPLE_COUNT': [str(n)], '#ENDIAN': ['little'], '#BEGIN_STREAM': []}
        got = {}
        for l in lines:
            w = l.split()
            if w:
                got.setdefault(w[0], w[1:])
        for k, v in want.items():
            R.check('%s/header %s' % (label, k), got.get(k) == v, 'header %s is %s instead of %s' % (k, got.get(k), v), DS, fp=str(got.get(k)))
        R.check(label + '/stream begins', bool(lines) and lines[-1].strip() == '#BEGIN_STREAM' and head.endswith('\n'), 'the numbers do not follow the line #BEGIN_STREAM', DS, fp='begin')
        R.check(label + '/stream ends', tail.strip().split('\n') == ['#END_STREAM'], 'the numbers are not followed by the line #END_STREAM', DS, fp='end')
        R.check(label + '/doubles', all(isinstance(a, Bin) and a.size == 8 for a in payload), 'the numbers are not written as 8-byte values', DS, fp='size')
        compare(R, c, label + '/row order', [a.v for a in payload if isinstance(a, Bin)], [v for r in rows for v in r], 'the sequence of numbers written', DS)
        R.count('round trips')
        try:
            g = load(c, t)
        except Noret:
            R.check(label + '/loads', False, 'the saved file cannot be loaded', c.I.events and c.I.events[-1][2] or DS, fp='noload')
            return
        R.saw(c)
        verify(R, c, label, g, rows, nX, nY, inp, out, kind, DS)


def run(R):
    R.rule('save_data_as_binary on a data set with symbolic content writes the documented header, then every number of the matrix in row order as an 8-byte value; the plugin manager given that byte '
           'sequence returns a data set with the same descriptor, interval kind, samples, bounds and domain; a stream that ends early never gives a data set')
    ie, oe = enum('alta::params::input'), enum('alta::params::output')
    outs = list(oe.items())
    from conv import dimension
    i = 0
    for n, v in ie.items():
        nX = dimension(v)
        if nX <= 0:
            continue
        for kind in ((i % 3,) if R.tier == 'quick' else (0, 1, 2)):
            op, ov = outs[(i // 3) % len(outs)]
            roundtrip(R, v, n, ov, op, nX, 3 if op in ('RGB_COLOR', 'XYZ_COLOR') else 1 + i % 3, kind, 2)
        i += 1
    u, uo = ie['UNKNOWN_INPUT'], oe['UNKNOWN_OUTPUT']
    for kind in (0, 1, 2):
        for nX, nY, n in ((1, 1, 1), (1, 4, 2), (2, 1, 3), (3, 3, 2)) + (() if R.tier == 'quick' else ((6, 6, 4), (1, 9, 3))):
            roundtrip(R, u, 'UNKNOWN_INPUT', uo, 'UNKNOWN_OUTPUT', nX, nY, kind, n)
        for op, ov in outs:
            roundtrip(R, ie['RUSIN_TH_TD'], 'RUSIN_TH_TD', ov, op, 2, 3, kind, 2)
    # the header as documented, without an interval key, in any order
    for nX, nY, n in ((1, 1, 3), (2, 3, 2)):
        H = ['#DIM %d %d' % (nX, nY), '#PARAM_IN  UNKNOWN_INPUT', '#PARAM_OUT UNKNOWN_OUTPUT', '#FORMAT binary', '#VERSION 0', '#PRECISION ieee754-double', '#SAMPLE_COUNT %d' % n, '#ENDIAN little']
        rows = values(nX, nY, 0, n)
        pay = [Bin(v, 8) for r in rows for v in r]
        for name, h, tail in (('documented', H, '\n#END_STREAM\n'), ('reversed', H[::-1], '\n#END_STREAM\n'), ('comments', ['# a comment'] + H[:4] + ['#', '# more'] + H[4:], '\n#END_STREAM\n'),
                              ('no trailer', H, ''), ('VS 0', H + ['#VS 0'], '\n#END_STREAM\n')):
            label = 'header %s/%dx%d' % (name, nX, nY)
            with R.guard(label, DS):
                c = fresh()
                try:
                    g = load(c, ['\n'.join(h) + '\n#BEGIN_STREAM\n'] + pay + ([tail] if tail else []))
                except Noret:
                    R.check(label + '/loads', False, 'the file cannot be loaded', c.I.events and c.I.events[-1][2] or DS, fp='noload')
                    continue
                R.count('headers')
                verify(R, c, label, g, rows, nX, nY, u, uo, 0, DS)
        for drop in range(1, len(pay) + 1):
            for tail in ('', '\n#END_STREAM\n'):
                if tail and drop * 8 < len(tail):
                    continue                     # the trailer's bytes then belong to the numbers
                label = 'truncated by %d%s/%dx%d' % (drop, ' with trailer' if tail else '', nX, nY)
                with R.guard(label, DS):
                    c = fresh()
                    R.count('truncated')
                    try:
                        g = load(c, ['\n'.join(H) + '\n#BEGIN_STREAM\n'] + pay[:len(pay) - drop] + ([tail] if tail else []))
                    except Noret:
                        R.check(label, True)
                        continue
                    R.check(label, not (isinstance(g, Loc) and g.o), 'a stream that lacks %d numbers gives a data set' % drop, DS, fp='garbage')
    R.floor('round trips', 35)
    R.floor('headers', 9)
    R.floor('truncated', 10)
    R.floor('discharged', 1200)
