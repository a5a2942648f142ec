"""Running whole command-line tools abstractly."""
import shlex
from dataset import *
from models import cmd


def argv(c, words):
    r = [Loc(c.I.mkstr(c.S, w).o, 0) for w in words]
    return c.cells(r + [0], 'char *')


def main_of(name):
    x = [y for y in program().byq.get('main', []) if y[0].split('/')[-2] == name or y[0].split('/')[-1] == name + '.cpp']
    if not x:
        raise AnalysisError('no main function of ' + name)
    return x[0]


def where(name):
    return main_of(name)[0]


EXITS = ('exit', '_exit', 'std::exit', 'quick_exit')


def tool(c, name, text):
    """main() of a tool on the words of text -> list of ends (kind, status): kind is return, exit, throw or abort"""
    w = [name] + (shlex.split(text) if isinstance(text, str) else list(text))
    k, v = c.runfn(Fn(*main_of(name)), None, [len(w), argv(c, w)])
    ends = [] if k == 'noret' else [('return', v)]
    for e in (v if k == 'noret' else c.exits):
        x = e[2]
        if e[0] == 'abort' and isinstance(x, tuple) and x[0] in EXITS:
            ends.append(('exit', x[1][0]))
        else:
            ends.append((e[0], x))
    return ends


def zero(v):
    return not isinstance(v, E) and v in (0, False)


def succeeded(ends):
    return bool(ends) and all(k in ('return', 'exit') and zero(v) for k, v in ends)


def failed(ends):
    """every path ends in a non-zero status"""
    return bool(ends) and all(k not in ('return', 'exit') or (not isinstance(v, E) and isinstance(v, int) and v & 255 != 0) for k, v in ends)


def tell(ends):
    return ', '.join('%s %s' % (k, show(v) if isinstance(v, E) else str(v)[:80]) for k, v in ends[:3]) or 'nothing'


def header(nX, nY, inp, out, more=''):
    return '#DIM %d %d\n#PARAM_IN %s\n#PARAM_OUT %s\n%s' % (nX, nY, inp, out, more)


def lines(rows, prec=15):
    t = []
    for x in rows:
        for v in x:
            t += [num(v, prec), ' ']
        t.append('\n')
    return t


def conv_point(x, src, dst):
    """a concrete point through alta's own conversion of inputs"""
    ie = enum('alta::params::input')
    n = DIMS()[dst]
    c = Ctx()
    o = c.cells([UNDEF] * max(n, 1))
    c.call('alta::params::convert', [c.cells([float(v) for v in x]), ie[src], ie[dst], o], nargs=4)
    return [float(v) for v in c.S.get(o.o).d[:n]]


_d = {}


def DIMS():
    if not _d:
        import conv
        for n, v in conv.inputs():
            _d[n] = conv.dimension(v)
    return _d


def function_file(line, nX=6, nY=1, inp='CARTESIAN', out='INV_STERADIAN', values=None):
    """text of a function file as alta writes it; values: numbers of the parameters"""
    from models import getfn, mkparams
    c = fresh()
    a = cmd(c, line)
    f = getfn(c, a, mkparams(c, nX, nY, inp, out) if out != 'INV_STERADIAN' else mkparams(c, nX, nY, inp))
    n = c.mcall(f, 'nbParameters', [])
    c.mcall(f, 'setParameters', [c.vec(values[:n] if values else [0.25 + 0.125 * i for i in range(n)])])
    c.mcall(f, 'save', [c.string('f.func'), a])
    return written(c, 'f.func')


def opened(c):
    """files the run writes"""
    return {k.x['path'] for k in c.S.mem.values() if k.kind == 'ostr' and k.x.get('path')}


def reread(c, path, type=''):
    """a data file the run wrote, loaded again by a machine of its own in which the unknown numbers of the file have names
    -> machine, data, function from values of this machine to values of the run"""
    names = {}
    text = []
    for t in written(c, path):
        if isinstance(t, Num) and isinstance(t.v, E):
            n = 'read%d' % len(names)
            names[n] = t.v
            t = Num(var(n), t.ty, t.prec)
        text.append(t)
    r = fresh()
    d = load(r, text, '', type, path)
    return r, d, lambda v: sym.subst(v, names) if isinstance(v, E) else v
