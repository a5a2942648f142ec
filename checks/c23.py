"""Plugins come from the first directory of the search path that offers them."""
import itertools
import os
from models import *
from dataset import *
import graph
import interp

PM = 'sources/core/plugins_manager.cpp'
PATHS = [None, '', '/a', '/a:/b', '/a:', ':/a', ':', '::', '/a::/b', '/a:/b:/c', '/a::', '::/a', 'x', 'x:y', ':x:', './rel/dir:/a', '/a/:/b', '/a:/b:', '/a:/a', '/usr/local/lib/alta plugins:/b', 'x:', ':x', '/a::/b:/c']
DEEP = ['/a:/b:/c:/d', ':/a::/b:', '/a:/b::', ':::', '/a:::/b', 'a:b:c', '/c:/b:/a', '::/a:/b']
NAMES = [('some_lobe', 'libsome_lobe.so'), ('libsome_lobe.so', 'libsome_lobe.so'), ('ab', 'libab.so'), ('z', 'libz.so')]
ORDER = ['nonlinear_function_blinn', 'nonlinear_function_diffuse', 'nonlinear_function_ward', 'nonlinear_function_beckmann']
DECOY = 'nonlinear_function_sgd'
OTHERS = {'function': (ORDER, DECOY), 'data': (['data_grid', 'data_merl', 'data_astm', 'data_utia'], 'data_rbf'), 'fitter': (['nonlinear_fitter_eigen', 'nonlinear_fitter_ceres', 'nonlinear_fitter_nlopt', 'rational_fitter_eigen'], 'rational_fitter_quadprog')}
SYMBOL = {'arguments': 'provide_function', 'function': 'provide_function', 'data': 'provide_data', 'load': 'load_data', 'fitter': 'provide_fitter'}


def norm(d):
    return os.path.normpath(d) if d else '/'


def entries(value, system):
    return [system] if not value else [e or system for e in value.split(':')]


def system_directory(R):
    """where a library is looked for when the variable is not set"""
    with R.guard('installation directory', PM):
        c = fresh()
        c.I.env = {}
        c.I.dl_lib = lambda p: None
        c.call('alta::plugins_manager::get_fitter', [c.string('some_fitter')], nargs=1)
        R.saw(c)
        d = {norm(os.path.dirname(p)) for p in c.I.dlopened}
        R.check('installation directory', len(d) == 1 and all(x.startswith('/') and len(x) > 1 for x in d), 'without a search path, libraries are looked for in %s' % (sorted(d) or 'no directory',), PM, fp='system')
        return d.pop() if len(d) == 1 else None


def pred(kind):
    def p(x):
        t = str(x[0]), x[1]
        a = str(program().ty(x[0], x[1]['p'][0]['t'])) if x[1]['p'] else ''
        b = str(program().ty(x[0], x[1]['p'][1]['t'])) if len(x[1]['p']) > 1 else ''
        return {'arguments': 'arguments' in a, 'function': 'basic_string' in a or 'string' in a and 'arguments' not in a, 'load': 'istream' in b}.get(kind, True)
    return p


def ask(c, kind, name):
    """-> (pointer returned, values passed on: those the plugin must be given)"""
    p = mkparams(c, 2, 3, 'RUSIN_TH_TD')
    if kind == 'arguments':
        return c.call('alta::plugins_manager::get_function', [cmd(c, '--func ' + name), p], nargs=2, pred=pred(kind)), [p]
    if kind == 'function':
        return c.call('alta::plugins_manager::get_function', [c.string(name), p], nargs=2, pred=pred(kind)), [p]
    if kind == 'data':
        a = cmd(c, '--some value')
        return c.call('alta::plugins_manager::get_data', [c.string(name), 7, p, a], nargs=4), [7, p, a]
    if kind == 'load':
        a, i = cmd(c, '--some value'), c.istream(['1 2\n'])
        return c.call('alta::plugins_manager::load_data', [c.string(name), i, a], nargs=3, pred=pred(kind)), [i, a]
    return c.call('alta::plugins_manager::get_fitter', [c.string(name)], nargs=1), []


def pointer(c, v):
    if isinstance(v, Loc) and v.o and v.k is None and c.S.get(v.o).kind == 'sptr':
        v = c.S.get(v.o).d['p']
    return v


def search(R, system, value, kind, name, lib, states):
    """one state of the file system: states[directory] is none, other (a library without the symbol) or ok"""
    label = '%s/%s/%s/%s' % ('unset' if value is None else repr(value), kind, name, ' '.join(states[norm(d)] for d in entries(value, system)))
    with R.guard(label, PM):
        c = fresh()
        c.I.env = {} if value is None else {'ALTA_PLUGIN_PATH': value}
        plug, decoy = OTHERS[{'arguments': 'function', 'load': 'data'}.get(kind, kind)]
        dirs = list(dict.fromkeys(norm(d) for d in entries(value, system)))
        which = dict(zip(dirs, plug))
        made = {}
        calls = []

        def library(path):
            d, b = os.path.split(path)
            if b != lib:
                return None
            d = norm(d)
            return which.get(d, decoy) if states.get(d, 'ok') != 'none' else None

        def stub(fn, args, S):
            for d in list(which) + [None]:
                if fn.tu in program().plugins()[which.get(d, decoy)]:
                    calls.append((d, list(args)))
                    return made.setdefault(d, c.I.alloc(S, 'opaque', 'made by a plugin', None))
            return NotImplemented
        c.I.dl_lib = library
        c.I.dl_has = lambda path, sy: states.get(norm(os.path.dirname(path)), 'ok') == 'ok'
        c.I.stub = stub
        try:
            v, given = ask(c, kind, name)
        except Noret as x:
            R.check(label, False, 'the search does not return', x.args[0] if x.args else PM, fp='noret')
            return
        v = pointer(c, v)
        R.saw(c)
        R.count('searches')
        win = next((d for d in dirs if states[d] == 'ok'), None)
        tell = lambda d: 'a directory that is not listed' if d is None else repr(d)
        if win is None:
            if kind == 'arguments':
                ok = not calls and isinstance(v, Loc) and v.o and c.S.get(v.o).cls == 'alta::rational_function'
                R.check(label, ok, 'no listed directory has the plugin, and the result is %s' % ('from ' + tell(calls[0][0]) if calls else 'not the default function'), PM, fp='default')
            else:
                R.check(label, not calls and isinstance(v, Loc) and not v.o, 'no listed directory has the plugin, and the result is %s' % ('from ' + tell(calls[0][0]) if calls else 'not null'), PM, fp='none')
            return
        if not R.check(label, len(calls) == 1 and calls[0][0] == win, 'the plugin of %s should be used, and %s is' % (repr(win), tell(calls[0][0]) if calls else 'none'), PM, fp='winner'):
            return
        R.check(label + '/object', isinstance(v, Loc) and v.o == made[win].o, 'what the plugin made is not what is returned', PM, fp='object')
        args = calls[0][1]
        R.check(label + '/arguments', len(args) == len(given) and all(same_arg(c, a, b) for a, b in zip(args, given)), 'the plugin is not given the caller\'s arguments', PM, fp='arguments')


def same_arg(c, a, b):
    if isinstance(b, Loc) and isinstance(a, Loc) and a.o != b.o:
        x, y = c.S.get(a.o), c.S.get(b.o)
        if x.kind == 'rec' and x.cls == 'alta::parameters':
            return all(c.mcall(a, n, []) == c.mcall(b, n, []) for n in ('dimX', 'dimY', 'input_parametrization', 'output_parametrization'))
        if x.cls == 'alta::arguments':
            return c.mcall(a, 'is_defined', [c.string('some')]) in (1, True)
        return False
    return a == b


def classes(c, f):
    """what a function is made of, through its public accessors"""
    k = c.S.get(f.o).cls
    if k == 'alta::compound_function':
        return ['sum'] + [classes(c, c.mcall(f, 'operator[]', [i])) for i in range(c.mcall(f, 'size', []))]
    if k == 'alta::product_function':
        return ['product', classes(c, c.mcall(f, 'first', [])), classes(c, c.mcall(f, 'second', []))]
    return k


def tu_of(name):
    return next(t for t in sorted(program().plugins()[name]) if any(x[0] == t for x in program().byq['provide_function']))


def expected(c, spec, nY):
    """(classes, parameters that a fit may change, all parameters' count)"""
    if spec[0] == 'sum':
        parts = [expected(c, s, nY) for s in spec[1:]]
        return ['sum'] + [p[0] for p in parts], sum(p[1] for p in parts)
    if spec[0] == 'product':
        a, b = expected(c, spec[1], nY), expected(c, spec[2], nY)
        return ['product', a[0], b[0]], a[1] + b[1]
    if spec[0] == 'fixed':
        a = expected(c, spec[1], nY)
        return a[0], 0
    f = provide(c, tu_of(spec[0]), nY, 2, 'RUSIN_TH_TD')
    return c.S.get(f.o).cls, 0 if spec[0].startswith('rational') else c.mcall(f, 'nbParameters', [])


B, D, W, K = (('nonlinear_function_blinn',), ('nonlinear_function_diffuse',), ('nonlinear_function_ward',), ('nonlinear_function_beckmann',))
F, N = ('nonlinear_fresnel_schlick',), ('nonlinear_fresnel_normalized_schlick',)
b, d, w, k, f, n = (x[0] for x in (B, D, W, K, F, N))
MADE = [
    ('--func ' + b, B), ('--func [%s, %s]' % (d, b), ('sum', D, B)), ('--func [%s, %s]' % (b, d), ('sum', B, D)), ('--func [%s, %s, %s]' % (k, d, w), ('sum', K, D, W)), ('--func [%s, %s]' % (b, b), ('sum', B, B)),
    ('--func [%s]' % b, ('sum', B)), ('--func %s --fresnel %s' % (b, f), ('product', B, F)), ('--fresnel %s --func %s' % (n, k), ('product', K, N)),
    ('--func %s --fresnel %s --fixed-fresnel' % (b, f), ('product', B, ('fixed', F))), ('--func %s --fresnel %s --fixed-lobe' % (w, f), ('product', ('fixed', W), F)),
    ('--func %s --fixed-lobe --fixed-fresnel --fresnel %s' % (w, f), ('product', ('fixed', W), ('fixed', F))),
    ('--func [%s, %s] --fresnel %s' % (d, b, f), ('product', ('sum', D, B), F)), ('--func [%s, %s --fresnel %s]' % (d, b, f), ('sum', D, ('product', B, F))),
    ('--func [%s --fixed, %s]' % (b, d), ('sum', ('fixed', B), D)), ('--func [%s, %s --fixed, %s]' % (k, b, d), ('sum', K, ('fixed', B), D)),
    ('--func [%s --fresnel %s --fixed-lobe, %s]' % (k, n, b), ('sum', ('product', ('fixed', K), N), B)),
    ('--func %s --fresnel no_such_plugin' % b, B), ('--func %s --fresnel' % b, B), ('--func rational_function_legendre', ('rational_function_legendre',)),
    ('--func rational_function_legendre --fresnel ' + f, ('rational_function_legendre',)), ('--nothing', None), ('', None), ('--func no_such_plugin', None),
    ('--func [%s, rational_function_legendre]' % b, 0), ('--func [rational_function_legendre, %s]' % b, 0), ('--func [%s, no_such_plugin]' % b, 0), ('--func []', 0),
]


def assembled(R, text, spec, nY):
    label = '%s/nY=%d' % (text or 'no argument', nY)
    with R.guard(label, PM):
        c = fresh()
        c.I.env = {}
        try:
            v = pointer(c, getfn(c, cmd(c, text), mkparams(c, 2, nY, 'RUSIN_TH_TD')))
        except Noret as x:
            R.check(label, False, 'no function is returned', PM, fp='noret')
            return
        R.saw(c)
        R.count('commands')
        if spec == 0:
            R.check(label, isinstance(v, Loc) and not v.o, 'a sum with a part that cannot be in a sum gives a function', PM, fp='null')
            return
        if not R.check(label, isinstance(v, Loc) and v.o, 'no function is returned', PM, fp='null'):
            return
        got = classes(c, v)
        if spec is None:
            R.check(label, got == 'alta::rational_function', 'the function is made of %s, not the default function' % (got,), PM, fp='default')
            return
        want, free = expected(c, spec, nY)
        R.check(label, got == want, 'the function is made of %s instead of %s' % (got, want), PM, fp='parts')
        if not spec[0].startswith('rational'):
            np = c.mcall(v, 'nbParameters', [])
            R.check(label + '/free parameters', np == free, '%s parameters are free instead of %s' % (np, free), PM, fp='free')
        p = c.mcall(v, 'parametrization', [])
        R.check(label + '/dimension', c.mcall(p, 'dimY', []) == nY, 'the function has %s outputs instead of %d' % (c.mcall(p, 'dimY', []), nY), PM, fp='dimY')


def run(R):
    R.rule('plugins_manager is run on every shape of the search path and every state (no library, library without the symbol, usable library) of the directories it lists, with usable libraries in every directory it does not list: '
           'the provider called must be that of the first usable listed directory, called once with the caller\'s arguments, and its object returned; without one the result is null (the default function for commands). '
           'Commands with sums, Fresnel terms and fixed parts give functions made of the named parts in order')
    R.floor('searches', 700)
    R.floor('commands', 45)
    system = system_directory(R)
    if system is None:
        return
    paths = PATHS + (DEEP if R.tier != 'quick' else [])
    for value in paths:
        dirs = list(dict.fromkeys(norm(x) for x in entries(value, system)))
        for states in itertools.product(('ok', 'none', 'other'), repeat=len(dirs)):
            st = dict(zip(dirs, states))
            for kind in SYMBOL:
                for i, (name, lib) in enumerate(NAMES):
                    if i and (R.tier == 'quick' and (len(dirs) > 1 or kind in ('function', 'load'))):
                        continue
                    if len(dirs) > 2 and R.tier == 'quick' and kind in ('data', 'load'):
                        continue
                    search(R, system, value, kind, name, lib, st)
    for text, spec in MADE:
        for nY in (1, 3):
            assembled(R, text, spec, nY)
