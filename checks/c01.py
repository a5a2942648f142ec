"""Parametrization registry: names, identifiers, dimensions."""
from conv import *
import libmodel

DOC_DIM = {'RUSIN_TH_PH_TD_PD': 4, 'RUSIN_TH_PH_TD': 3, 'RUSIN_TH_TD_PD': 3, 'RUSIN_TH_TD': 2, 'RUSIN_VH_VD': 6, 'RUSIN_VH': 3,
           'COS_TH_TD': 2, 'COS_TH': 1, 'SCHLICK_TK_PK': 2, 'SCHLICK_VK': 3, 'SCHLICK_TL_TK_PROJ_DPHI': 3, 'COS_TK': 1,
           'RETRO_TL_TVL_PROJ_DPHI': 3, 'STEREOGRAPHIC': 4, 'SPHERICAL_TL_PL_TV_PV': 4, 'COS_TLV': 1, 'COS_TLR': 1,
           'ISOTROPIC_TV_TL': 2, 'ISOTROPIC_TV_TL_DPHI': 3, 'ISOTROPIC_TV_PROJ_DPHI': 2, 'ISOTROPIC_TL_TV_PROJ_DPHI': 3,
           'ISOTROPIC_TD_PD': 2, 'STARK_2D': 2, 'STARK_3D': 3, 'NEUMANN_2D': 2, 'NEUMANN_3D': 3, 'CARTESIAN': 6}
OUT_DIM = {'INV_STERADIAN': 1, 'INV_STERADIAN_COSINE_FACTOR': 1, 'ENERGY': 1, 'RGB_COLOR': 3, 'XYZ_COLOR': 3}


def name_of(v, out=False):
    c = Ctx()
    L = c.call(PQ + 'get_name', [v], pred=(is_output if out else is_input)(c.P))
    return c.I.sval(c.S, L), c


def parse(s, out=False):
    c = Ctx()
    return c.call(PQ + ('parse_output' if out else 'parse_input'), [c.string(s)]), c


def run(R):
    R.rule('the registry tables, get_name, dimension and parse_* are evaluated abstractly for every enumerator of the two parametrization enumerations: '
           'name(id) is the identifier, parse(name(id)) = id, dimension(id) is the documented one, an identifier without a registration maps to "unknown" both ways, '
           'and identifiers convertible in both directions are exactly the registered ones')
    ins, outs = inputs(), outputs()
    unk = enum('alta::params::input')['UNKNOWN_INPUT'], enum('alta::params::output')['UNKNOWN_OUTPUT']
    reg = []
    for n, v in ins:
        R.count('input identifiers')
        nm, c = name_of(v)
        R.saw(c)
        d = dimension(v)
        to, c1 = to_cart(v, [var('x%d' % i) for i in range(6)], R)
        fr, c2 = from_cart(v, [var('x%d' % i) for i in range(6)], 6, R)
        conv = to is not None and fr is not None
        if nm == 'UNKNOWN_INPUT':
            R.check('registered/' + n, not conv, '%s can be converted both ways but has no registered name' % n, 'sources/core/params.cpp', fp='missing')
            R.check('dimension/' + n, d == -1, 'unregistered %s has dimension %s' % (n, d), 'sources/core/params.cpp', fp=d)
            continue
        reg.append(n)
        R.check('registered/' + n, conv, '%s is registered but a conversion is missing (to: %s, from: %s)' % (n, to is not None, fr is not None), 'sources/core/params.cpp', fp='noconv')
        R.check('name/' + n, nm == n, 'the name of %s is "%s"' % (n, nm), 'sources/core/params.cpp', fp=nm)
        back, c = parse(nm if isinstance(nm, str) else n)
        R.saw(c)
        R.check('parse/' + n, back == v, 'parsing "%s" gives %s, not %s' % (nm, back, v), 'sources/core/params.cpp', fp=back)
        want = DOC_DIM.get(n)
        if want is None:
            R.undecided('dimension/' + n, 'no documented dimension in the checker')
        else:
            R.check('dimension/' + n, d == want, '%s has dimension %s, documented %s' % (n, d, want), 'sources/core/params.cpp', fp=d)
    for n, v in outs:
        R.count('output identifiers')
        nm, c = name_of(v, True)
        R.saw(c)
        R.check('outname/' + n, nm == n, 'the name of output %s is "%s"' % (n, nm), 'sources/core/params.cpp', fp=nm)
        back, c = parse(n, True)
        R.saw(c)
        R.check('outparse/' + n, back == v, 'parsing output "%s" gives %s, not %s' % (n, back, v), 'sources/core/params.cpp', fp=back)
        try:
            d = dimension(v, True)
        except Noret:
            d = 'none'
        if n in OUT_DIM:
            R.check('outdimension/' + n, d == OUT_DIM[n], 'output %s has dimension %s, documented %s' % (n, d, OUT_DIM[n]), 'sources/core/params.h', fp=d)
        c = Ctx()
        w = c.call(PQ + 'is_cosine_weighted', [v])
        R.saw(c)
        R.check('cosine/' + n, bool(w) == (n == 'INV_STERADIAN_COSINE_FACTOR'), 'is_cosine_weighted(%s) is %s' % (n, w), 'sources/core/params.h', fp=w)
    # unknown names, including near misses of the registered ones
    for out, names in ((False, reg), (True, [n for n, _ in outs])):
        for s in ['', 'UNKNOWN_INPUT', 'UNKNOWN_OUTPUT', 'NO_SUCH_NAME'] + [x for n in names for x in (n + 'X', n[:-1], ' ' + n, n.lower())]:
            if s in names:
                continue
            back, c = parse(s, out)
            R.check('unknown/%s/%s' % ('out' if out else 'in', s or 'empty'), back == unk[out], 'unregistered name "%s" parses to %s' % (s, back), 'sources/core/params.cpp', fp=back)
    for out in (False, True):
        nm, c = name_of(unk[out], out)
        R.check('name/unknown/' + str(out), nm == ('UNKNOWN_OUTPUT' if out else 'UNKNOWN_INPUT'), 'unknown identifier is named "%s"' % nm, 'sources/core/params.cpp', fp=nm)
    # the descriptor object
    I, O = dict(ins), dict(outs)
    get = lambda c, p: [c.mcall(p, n, []) for n in ('dimX', 'dimY', 'input_parametrization', 'output_parametrization')]
    isi = lambda P: lambda tu, m: 'params::input' in str(P.ty(tu, m['p'][0]))
    a, b = var('nx'), var('ny')
    for key, mkp, want in (
            ('full', lambda c: c.new('sources/core/params.cpp', 'alta::parameters', [a, b, I['RUSIN_TH_TD_PD'], O['RGB_COLOR']]), [a, b, I['RUSIN_TH_TD_PD'], O['RGB_COLOR']]),
            ('default', lambda c: c.new('sources/core/params.cpp', 'alta::parameters', []), [0, 0, unk[0], unk[1]]),
            ('dims', lambda c: c.new('sources/core/params.cpp', 'alta::parameters', [a, b], pred=lambda tu, m: not isi(c.P)(tu, m)), [a, b, unk[0], unk[1]]),
            ('registry', lambda c: c.new('sources/core/params.cpp', 'alta::parameters', [I['STARK_3D'], O['XYZ_COLOR']], pred=isi(c.P)), [3, 3, I['STARK_3D'], O['XYZ_COLOR']])):
        c = Ctx()
        try:
            p = mkp(c)
            g = get(c, p)
            R.check('descriptor/' + key, all(sym.same(x, y) for x, y in zip(g, want)), 'a %s descriptor reports %s, given %s' % (key, g, want), 'sources/core/params.h', fp='wrong')
            q = c.mcall(p, 'set_input', [var('m'), I['CARTESIAN']])
            g = get(c, q)
            R.check('descriptor/set_input/' + key, all(sym.same(x, y) for x, y in zip(g, [var('m'), want[1], I['CARTESIAN'], want[3]])), 'set_input gives %s' % g, 'sources/core/params.h', fp='wrong')
            q = c.mcall(p, 'set_output', [var('m'), O['ENERGY']])
            g = get(c, q)
            R.check('descriptor/set_output/' + key, all(sym.same(x, y) for x, y in zip(g, [want[0], var('m'), want[2], O['ENERGY']])), 'set_output gives %s' % g, 'sources/core/params.h', fp='wrong')
            R.saw(c)
        except (Unsupported, AnalysisError) as e:
            R.undecided('descriptor/' + key, str(e))
    R.floor('input identifiers', 27)
    R.floor('output identifiers', 5)
