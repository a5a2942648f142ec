"""Shaders exported for a model compute the model."""
from tools import *
from c18 import unit, through
from c21 import Model, agree, start
from models import enum, getfn, mkparams, mkdata
from conv import dimension
import math, sym
from sym import equal
from interp import Unsupported
from c21 import sampler
import glsl

FN = 'sources/core/function.cpp'
NF = 'nonlinear_function_'
PLAIN = ['blinn', 'beckmann', 'lafortune', 'ward', 'diffuse', 'retrobeckmann', 'spherical_gaussian']
CASES = [('abc', '--func %sabc' % NF), ('retroblinn', '--func %sretroblinn' % NF), ('several lobes', '--func %slafortune' % NF)] + [(n, '--func ' + NF + n) for n in PLAIN] + [
    ('retrobeckmann --retro', '--func %sretrobeckmann --retro' % NF)] + [
    ('spherical_gaussian --sg-type ' + t, '--func %sspherical_gaussian --sg-type %s' % (NF, t)) for t in ('half', 'mirror', 'retro', 'back', 'moment')] + [
    ('sum', '--func [%sdiffuse, %sblinn]' % (NF, NF)), ('sum of three', '--func [%sward, %sblinn, %sdiffuse]' % (NF, NF, NF)), ('twice', '--func [%sblinn, %sblinn]' % (NF, NF)),
    ('schlick', '--func %sblinn --fresnel nonlinear_fresnel_schlick' % NF), ('normalized', '--func %sward --fresnel nonlinear_fresnel_normalized_schlick' % NF),
    ('retroschlick', '--func %sward --fresnel nonlinear_fresnel_retroschlick' % NF), ('masked', '--func %sward --fresnel nonlinear_shadowing_schlick' % NF),
    ('walter', '--func %sblinn --fresnel nonlinear_shadowing_walter_smith' % NF), ('sum times', '--func [%sblinn, %sward] --fresnel nonlinear_fresnel_schlick' % (NF, NF))]

DIRS = [(0.5, 0.2, 0.9, 2.3), (0.3, -1.2, 1.1, 0.4), (1.2, 2.9, 0.2, -0.8), (0.9, -2.4, 0.7, 0.1), (0.15, 0.4, 0.35, 1.9), (1.45, 0.3, 1.3, -2.9)]


NATURAL = {'abc': 'COS_TH', 'retroblinn': 'COS_TK', 'several lobes': 'CARTESIAN'}


def model_file(name, line, nY):
    """file of a model with unknown parameters"""
    c = fresh()
    inp = NATURAL.get(name, 'CARTESIAN')
    ie, oe = enum('alta::params::input'), enum('alta::params::output')
    nX = dimension(ie[inp])
    a = cmd(c, line)
    f = getfn(c, a, mkparams(c, nX, nY, inp))
    xs = [[0.1, 0.2, 0.8, -0.3, 0.2, 0.7], [0.3, 0.2, 0.6, 0.3, -0.2, 0.7]] if nX == 6 else [[0.9], [0.7]]
    c.mcall(f, 'bootstrap', [c.sptr(mkdata(c, nX, nY, [x + [0.5 - 0.25 * i] * nY for i, x in enumerate(xs)], ie[inp], oe['INV_STERADIAN'])), a])
    if name == 'several lobes':
        c.mcall(f, 'setNbLobes', [2])
    n = c.mcall(f, 'nbParameters', [])
    c.mcall(f, 'setParameters', [c.vec([var('p%d' % i) for i in range(n)])])
    c.mcall(f, 'save', [c.string('f.func'), a])
    return written(c, 'f.func')


def part(atoms, kind):
    """the shader in the file"""
    if kind == 'shader':
        return atoms
    out, on = [], False
    for a in atoms:
        if not isinstance(a, str):
            if on:
                out.append(a)
            continue
        if '::begin shader' in a:
            on, a = True, a.split('::begin shader', 1)[1]
        if '::end shader' in a:
            out.append(a.split('::end shader', 1)[0])
            return out
        if on:
            out.append(a)
    raise glsl.Malformed('no shader section')


def moment(v, l, nY):
    """a lobe around the reflected view whose elevation is scaled"""
    t = sym.mul(var('p%d' % (2 * nY)), math.acos(v[2]))
    p = math.atan2(v[1], v[0]) + math.pi
    d = sym.add(sym.mul(l[0] * math.cos(p) + l[1] * math.sin(p), sym.fun('sin', t)), sym.mul(l[2], sym.fun('cos', t)))
    r = [sym.mul(var('p%d' % (2 * i)), sym.fun('exp', sym.mul(var('p%d' % (2 * i + 1)), sym.sub(d, 1.0)))) for i in range(nY)]
    return r * (3 if nY == 1 else 1)


def same(rows):
    """every number of every row is the same in both columns"""
    for a, b in rows:
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            r = equal(y, x, sampler)
            if r.equal is None:
                raise Unsupported(str(r))
            if not r.equal:
                return False
    return True


def shader(R, name, line, nY, kind):
    label = '%s x%d as %s' % (name, nY, kind)
    loc = where('brdf2brdf')
    with R.guard(label, FN):
        text = model_file(name, line, nY)
        M = Model(text)
        c = start(R, label, 'brdf2brdf', '--input f.func --output o.glsl --export ' + kind, {'f.func': text})
        if not c:
            return
        R.count('exports')
        out = written(c, 'o.glsl')
        rows = []
        for k, (tv, pv, tl, pl) in enumerate(DIRS):
            v, l = unit(tv, pv), unit(tl, pl)
            try:
                got = glsl.value(part(out, kind), 'BRDF', [l, v, [0.0, 0.0, 1.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0]])
            except glsl.Malformed as e:
                R.check(label + '/text', False, 'the text is no shader: %s' % e, FN, fp='text')
                return
            want = M.at(v + l, 'CARTESIAN') * (3 if nY == 1 else 1)
            R.count('samples')
            if 'moment' in name:
                rows.append((got, want, moment(v, l, nY)))
            else:
                agree(R, '%s/%d' % (label, k), got, want, 'the value at %d' % k, FN)
        if rows:
            # one obligation: the defect that is known has a fingerprint of its own
            R.check('moment/x%d/model' % nY, same([(g, w) for g, w, _ in rows]), 'the shader of the moment lobe is not the model', FN, fp='elevation' if same([(g, m) for g, _, m in rows]) else 'other')


def run(R):
    R.rule('main() of brdf2brdf is interpreted over files of models with unknown parameters, exporting shaders; the text written is parsed and interpreted over symbolic numbers at concrete directions, and equals the value of the model there')
    for k, n in (('exports', 43), ('samples', 255)):
        R.floor(k, n)
    for i, (name, line) in enumerate(CASES):
        for j, nY in enumerate((1, 3)):
            shader(R, name, line, nY, ('shader', 'explorer')[(i + j) % 2])
