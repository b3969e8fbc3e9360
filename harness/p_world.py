"""Histories of questions and makers on everything a user holds."""
import json
import math
import random

import numpy as np
import shapely

import p_laws
from kit import SEED, HarnessError, fork_map, num, tlc
from p_history import answer

LAWS = {
    'el': {'t': 'elastic', 'E': 30000.0, 'eps_u': None},
    'ep': {'t': 'ep', 'E': 200000.0, 'fy': 435.0, 'Eh': 1000.0, 'su': 0.03},
    'pr': {'t': 'pr', 'fc': 20.0, 'e0': -0.002, 'eu': -0.0035, 'n': 2.0},
    'bl': {'t': 'bl', 'fc': 20.0, 'ec': -0.00175, 'ecu': -0.0035},
    'sa': {'t': 'sargin', 'fc': 38.0, 'e1': -0.0023, 'eu': -0.0035, 'k': 2.04},
    'po': {'t': 'pop', 'fc': 38.0, 'ec': -0.002, 'ecu': -0.0035, 'Ec': 33000.0},
    'us': {'t': 'user', 'x': [-0.004, -0.002, 0.0, 0.001], 'y': [-30.0, -28.0, 0.0, 2.0], 'flag': 1, 'eps_u': None, 'as': 'array'},
}


class Held:
    """Everything a user holds, in the order of the model."""

    def __init__(self, seed):
        from shapely import Polygon

        from structuralcodes.geometry import CompoundGeometry, PointGeometry, RectangularGeometry, SurfaceGeometry, add_reinforcement_line, profiles
        from structuralcodes.materials import constitutive_laws as cl
        from structuralcodes.materials.basic import GenericMaterial
        from structuralcodes.materials.concrete import ConcreteEC2_2004, ConcreteEC2_2023, ConcreteMC2010
        from structuralcodes.materials.reinforcement import ReinforcementEC2_2004, ReinforcementEC2_2023, ReinforcementMC2010
        from structuralcodes.sections import GenericSection

        r = random.Random(seed)
        o = {k: p_laws.build(v) for k, v in LAWS.items()}
        o['in'] = cl.InitialStrain(o['ep'], r.choice([0.001, -0.002]))
        o['pa'] = cl.Parallel([o['ep'], o['el']], [2 / 7, 0.6123456789])
        o['ce04'] = ConcreteEC2_2004(fck=r.choice([25, 40]))
        o['ce23'] = ConcreteEC2_2023(fck=r.choice([30, 50]), constitutive_law=r.choice(['parabolarectangle', 'sargin']))
        o['cmc'] = ConcreteMC2010(fck=r.choice([30, 35]), constitutive_law=r.choice(['parabolarectangle', 'bilinearcompression', 'popovics']))
        o['re04'] = ReinforcementEC2_2004(500, 200000, 540, 0.05)
        o['re23'] = ReinforcementEC2_2023(500, 200000, 550, 0.06, constitutive_law='elasticplastic')
        o['rmc'] = ReinforcementMC2010(450, 200000, 500, 0.05)
        o['gen'] = GenericMaterial(1000.0, o['el'])
        o['pre'] = ReinforcementEC2_2004(1500, 195000, 1700, 0.035, initial_stress=900)
        w, h = r.choice([200, 300]), r.choice([300, 500])
        o['plain'] = SurfaceGeometry(Polygon([(0, 0), (w, 0), (w, h), (0, h)], [[(50, 50), (100, 50), (100, 100)]]), o['ce04'])
        rc = RectangularGeometry(w, h, o['ce04'], group_label='body')
        o['rc'] = add_reinforcement_line(rc, (-w / 2 + 40, -h / 2 + 40), (w / 2 - 40, -h / 2 + 40), 16, o['re04'], n=3)
        o['bar'] = PointGeometry((10.0, 20.0), 20.0, o['pre'], group_label='tendon')
        o['gg'] = CompoundGeometry([RectangularGeometry(w, 100, o['ce23']), SurfaceGeometry(Polygon([(0, 50), (60, 50), (30, 150)]), o['gen'])]) + o['bar']
        o['fib'] = GenericSection(o['rc'], integrator='fiber', mesh_size=0.02)
        o['mar'] = GenericSection(o['rc'])
        o['two'] = GenericSection(o['gg'])
        o['IPE300'], o['UPN200'], o['HEB200'] = profiles.IPE('IPE300'), profiles.UPN('UPN200'), profiles.HE('HEB200')
        o['L'] = profiles.L(sorted(profiles.L.profiles())[r.randrange(5)])
        kinds = ['law'] * 9 + ['mat'] * 8 + ['geo'] * 3 + ['bar'] + ['sec'] * 3 + ['profile'] * 4
        self.names = [*LAWS, 'in', 'pa', 'ce04', 'ce23', 'cmc', 're04', 're23', 'rmc', 'gen', 'pre', 'plain', 'rc', 'gg', 'bar', 'fib', 'mar', 'two', 'IPE300', 'UPN200', 'HEB200', 'L']
        self.objs = [o[n] for n in self.names]
        self.kinds = kinds
        self.r = r

    def index(self, x):
        for i, o in enumerate(self.objs):
            if o is x:
                return i
        return -1


def digest(x, tag=''):
    """A value as a description of its form and groups of numbers."""
    if x is None or isinstance(x, (bool, np.bool_, str)):
        return [str(x)], []
    if isinstance(x, (int, float, np.integer, np.floating)):
        return ['n'], [[num(x)]]
    if isinstance(x, np.ndarray):
        if x.dtype.kind in 'fiu':
            return [f'a{list(x.shape)}'], [[num(v) for v in x.ravel().tolist()]]
        return digest(x.tolist())
    if isinstance(x, dict):
        x = [v for k in sorted(x, key=str) for v in (str(k), x[k])]
    if isinstance(x, (list, tuple, set, frozenset)):
        k, g = [type(x).__name__], []
        for v in (sorted(x, key=str) if isinstance(x, (set, frozenset)) else x):
            a, b = digest(v)
            k += a
            g += b
        if all(len(v) == 1 for v in g) and len(g) > 1:
            g = [[v[0]] for v in g]
        return k + [')'], g
    if hasattr(x, 'wkb_hex'):
        return [x.wkb_hex], []
    return [type(x).__name__], []


def plain(x):
    if isinstance(x, BaseException):
        return {'k': 'err ' + type(x).__name__, 'g': []}
    k, g = digest(x)
    return {'k': ' '.join(k), 'g': g}


def public(o, laws=True):
    """Attributes and results of methods without arguments."""
    out = {}
    for n in dir(type(o)):
        if n[0] == '_' or n in ('name', 'constitutive_law', 'calculate_extents', 'from_geometry'):
            continue
        try:
            v = getattr(o, n)
            if callable(v):
                v = v()
            out[n] = v
        except TypeError:
            continue
        except Exception as ex:
            out[n] = type(ex).__name__
    return out


def bodies(g):
    return list(getattr(g, 'geometries', None) or ([g] if hasattr(g, 'polygon') else [])), list(getattr(g, 'point_geometries', None) or ([g] if hasattr(g, 'diameter') and hasattr(g, 'point') else []))


PROBE = (-0.1, -0.0036, -0.0031, -0.002, -0.0015, -1e-4, 0.0, 1e-4, 0.0019, 0.004, 0.03, 0.2)


def look(held, i):
    """What can be seen of an object, without its name."""
    o, kind = held.objs[i], held.kinds[i]
    try:
        if kind == 'law':
            return repr([type(o).__name__, np.asarray(o.get_stress(np.array(PROBE))).tolist(), np.asarray(o.get_tangent(np.array(PROBE))).tolist(),
                         o.get_ultimate_strain(), o.get_ultimate_strain(yielding=True)])
        if kind == 'mat':
            return repr([type(o).__name__, plain(public(o)), np.asarray(o.constitutive_law.get_stress(np.array(PROBE))).tolist(),
                         o.constitutive_law.get_ultimate_strain()])
        if kind == 'profile':
            return repr([type(o).__name__, o.polygon.wkb_hex, plain([shapely.get_precision(o.polygon), getattr(type(o), 'parameters', None)]), type(o).profiles()])
        if kind == 'sec':
            return repr([held.index(o.geometry)])
        s, p = bodies(o)
        return repr([[x.polygon.wkb_hex, x.group_label, x.concrete, x.density, x.area, held.index(x.material), np.asarray(x.material.constitutive_law.get_stress(np.array(PROBE))).tolist()] for x in s]
                    + [[x.x, x.y, x.diameter, x.area, x.group_label, x.density, held.index(x.material)] for x in p])
    except Exception as ex:
        return 'invisible: ' + type(ex).__name__


def names(held, i):
    o = held.objs[i]
    try:
        if held.kinds[i] == 'geo':
            s, p = bodies(o)
            return repr([[x.name, x.group_label, id(x)] for x in s + p])
        if held.kinds[i] == 'mat':
            return repr([o.name, id(o.constitutive_law), o.constitutive_law.name])
        return repr([getattr(o, 'name', None), id(getattr(o, 'geometry', None))])
    except Exception as ex:
        return type(ex).__name__


EPS = [-0.003, 0.001, 0.0, -0.0005, 0.01, -0.02, 0.05]
SMALL = {'num_1': 1, 'num_2': 1, 'num_3': 2, 'num_4': 2, 'num_5': 2, 'num_6': 2}
PLANE = [-2e-4, 2e-6, -1e-6]


def ask(o, kind, q):
    """(the answer, the arguments handed over)."""
    from shapely import LineString, get_precision
    from shapely.ops import split

    if kind == 'law':
        arr, ints = np.array(EPS), np.array([0, 1, -1, 0])
        if q == 'stress':
            return o.get_stress(arr), [arr]
        if q == 'stresslist':
            a = list(EPS)
            return o.get_stress(a), [a]
        if q == 'stressint':
            return o.get_stress(ints), [ints]
        if q == 'stress1':
            return o.get_stress(-0.001), []
        if q == 'tangent':
            return o.get_tangent(arr), [arr]
        if q == 'tangentint':
            return o.get_tangent(ints), [ints]
        if q == 'tangent1':
            return o.get_tangent(-0.001), []
        if q == 'secant':
            return o.get_secant(arr), [arr]
        if q == 'secantlist':
            a = list(EPS)
            return o.get_secant(a), [a]
        if q == 'ult':
            return o.get_ultimate_strain(), []
        if q == 'ulty':
            return o.get_ultimate_strain(yielding=True), []
        a = [-1e-3, 2e-5]
        if q == 'marinu':
            return o.__marin__(strain=[-1e-3, 0.0]), []
        if q == 'marintanu':
            return o.__marin_tangent__(strain=[-1e-3, 0.0]), []
        return (o.__marin__ if q == 'marin' else o.__marin_tangent__)(strain=a), [a]
    if kind == 'mat':
        if q == 'lawult':
            return o.constitutive_law.get_ultimate_strain(), []
        if q == 'lawstress':
            arr = np.array(EPS)
            return o.constitutive_law.get_stress(arr), [arr]
        return public(o), []
    if kind in ('geo', 'bar'):
        s, p = bodies(o)
        if q == 'area':
            return o.area, []
        if q == 'extents':
            return o.calculate_extents(), []
        if q == 'svg':
            return getattr(o, '_repr_svg_', lambda: None)(), []
        if q == 'values':
            return [o.x, o.y, o.diameter, o.area, o.density, o.group_label], []
        if q == 'parts':
            return [len(s), len(p), [x.area for x in s], [x.centroid for x in s], [x.diameter for x in p], getattr(o, 'reinforced_concrete', None)], []
        line = [(0.0, 37.0), 0.3]
        if q == 'split':
            return [[[x.wkb_hex for x in y] for y in z.split((tuple(line[0]), line[1]))] for z in s], [line]
        if q == 'splitup':
            return [[[x.wkb_hex for x in y] for y in z.split(((30.0, 0.0), math.pi / 2))] for z in s], []
        lines = (LineString([(-1e3, -30), (1e3, -30)]), LineString([(-1e3, 61.5), (1e3, 61.5)]))
        return [z.split_two_lines(lines).wkb_hex for z in s], list(lines)
    if kind == 'profile':
        if q == 'polygon':
            return [o.polygon, get_precision(o.polygon)], []
        if q == 'cut':
            return [z.wkb_hex for z in split(o.polygon, LineString([(30.0 - 1e-14, -1e3), (30.0 + 1e-14, 1e3)])).geoms], []
        if q == 'class':
            name = sorted(type(o).profiles())[3]
            return [type(o).get_polygon(name), o.polygon], []
        if q == 'names':
            return type(o).profiles(), []
        return [getattr(o, n) for n in ('A', 'Iy', 'Iz', 'Iyz', 'Icsi', 'Ieta', 'theta', 'Wely', 'Welz', 'Wply', 'Wplz', 'iy', 'iz')], []
    c = o.section_calculator
    if q == 'gross':
        return o.gross_properties, []
    if q == 'bend':
        return c.calculate_bending_strength(), []
    if q == 'bendn':
        return c.calculate_bending_strength(theta=0.4, n=-1e5), []
    if q == 'curve':
        return c.calculate_moment_curvature(num_pre_yield=2, num_post_yield=1), []
    if q == 'own':
        chi = np.array([-1e-6, -5e-6, 0.0])
        return c.calculate_moment_curvature(0.2, 0, chi=chi), [chi]
    if q == 'ownlist':
        chi = [0.0, -1e-6, -5e-6]
        return c.calculate_moment_curvature(0.0, -1000.0, chi=chi), [chi]
    if q == 'stress':
        a = np.array(PLANE)
        return c.integrate_strain_profile(a), [a]
    if q == 'stresslist':
        a = list(PLANE)
        return c.integrate_strain_profile(a), [a]
    if q == 'modulus':
        a = np.array(PLANE)
        return c.integrate_strain_profile(a, 'modulus'), [a]
    if q == 'nm':
        return c.calculate_nm_interaction_domain(0.4, **SMALL), []
    if q == 'nmm':
        return c.calculate_nmm_interaction_domain(3, **SMALL), []
    if q == 'mm':
        return c.calculate_mm_interaction_domain(-1e4, 3), []
    if q == 'plan':
        return c.calculate_strain_profile(-1e4, 1e6, -1e5, max_iter=30), []
    if q == 'limit':
        return c.calculate_limit_axial_load(), []
    from structuralcodes.sections import calculate_elastic_cracked_properties

    return calculate_elastic_cracked_properties(o, 0.3), []


def make(o, kind, m, other):
    from shapely import LineString, Polygon

    from structuralcodes import geometry as gm
    from structuralcodes.materials import constitutive_laws as cl
    from structuralcodes.materials.basic import GenericMaterial
    from structuralcodes.sections import GenericSection

    if kind == 'law':
        if m == 'initial':
            return cl.InitialStrain(o, -0.0007), []
        if m == 'parallel':
            laws, w = [o, other], [1 / 3, 0.7654321234]
            return cl.Parallel(laws, w), [laws, w]
        return GenericMaterial(2000.0, o), []
    if kind == 'mat':
        if m == 'surface':
            p = Polygon([(0, 0), (120, 0), (130, 90), (0, 70)])
            return gm.SurfaceGeometry(p, o), [p]
        xy = [15.0, 25.0]
        return gm.PointGeometry(xy, 14.0, o), [xy]
    if kind == 'profile':
        return gm.SurfaceGeometry(o.polygon, other), []
    if m == 'translate':
        return o.translate(7.0, -11.0), []
    if m == 'rotate':
        return o.rotate(0.3), []
    if m == 'mirror':
        l = LineString([(0, -5), (1, 8)])
        return o.mirror(l), [l]
    if m == 'copy':
        return type(o).from_geometry(o, other), []
    if m == 'plus':
        return o + other, []
    if m == 'minus':
        return o - other, []
    if m == 'fibres':
        return GenericSection(o, integrator='fiber', mesh_size=0.05), []
    if m == 'polynomials':
        return GenericSection(o), []
    if m == 'compound':
        parts = [o, o.translate(500.0, 0.0)]
        return gm.CompoundGeometry(parts), [parts]
    if m == 'addbar':
        xy = [35.0, 30.0]
        return gm.add_reinforcement(o, xy, 12.0, other), [xy]
    if m == 'addline':
        a, b = np.array([5.0, 5.0]), np.array([65.0, 5.0])
        return gm.add_reinforcement_line(o, a, b, 10.0, other, s=20.0, first=False), [a, b]
    a = [30.0, 30.0]
    return gm.add_reinforcement_circle(o, a, 20.0, 8.0, other, n=4), [a]


def scribble(args):
    """The user needs the arrays for something else."""
    for a in args:
        if isinstance(a, np.ndarray):
            a[...] = 7
        elif isinstance(a, list) and a and all(isinstance(x, float) for x in a):
            a[:] = [3.25] * len(a)


UNITS = {'cap': 1e6, 'L': 500.0}


def play(seed, ops, back=False):
    """Play a history; back: the makers first and the questions in reverse."""
    held = Held(seed)
    at = {i + 1: i for i in range(len(held.objs))}   # index of the model -> index here
    nxt = len(held.objs) + 1
    tags = [names(held, i) for i in range(len(held.objs))]
    out = [None] * len(ops)
    res = {}
    late = []

    def said(kind, v):
        if kind == 'sec':
            if isinstance(v, BaseException):
                return plain(v)
            return answer(v, UNITS)
        return plain(v)

    def question(k, i, q):
        kind = held.kinds[i]
        try:
            # the arguments are in the hands of the question before it fails
            v, args = guarded(lambda: ask(held.objs[i], kind, q))
        except (Exception, StopIteration) as ex:
            v, args = ex, []
        out[k]['v'] = said(kind, v)
        out[k]['args'] = args == []
        res[k] = (kind, v)

    def guarded(f):
        """Calls f; the arguments are compared with fresh ones afterwards."""
        v, args = f()
        ok = all(same_value(a) for a in args)
        scribble(args)
        return v, ([] if ok else ['changed'])

    for k, (what, mi, n, mj) in enumerate(ops):
        if what == 'make':
            i, j = at.get(mi), at.get(mj)
            new = nxt
            nxt += 1
            out[k] = {'op': 'make', 'n': n, 'i': -1 if i is None else i + 1, 'j': 0 if j is None else j + 1, 'done': False, 'args': True}
            if i is None or (mj and j is None):
                continue
            try:
                obj, args = make(held.objs[i], held.kinds[i], n, held.objs[j] if mj else None)
            except Exception:
                continue
            kinds = {'InitialStrain': 'law', 'Parallel': 'law', 'GenericMaterial': 'mat', 'PointGeometry': 'bar', 'GenericSection': 'sec'}
            kind = kinds.get(type(obj).__name__, 'geo')
            out[k].update(done=True, kind=kind, args=all(same_value(a) for a in args))
            scribble([a for a in args if not any(x is a for x in held.objs)])
            held.objs.append(obj)
            held.kinds.append(kind)
            tags.append(names(held, len(held.objs) - 1))
            at[new] = len(held.objs) - 1
        else:
            i = at.get(mi)
            out[k] = {'op': 'ask', 'n': n, 'i': -1 if i is None else i + 1, 'j': 0, 'done': i is not None, 'args': True}
            if i is None:
                continue
            if back:
                late.append((k, i, n))
            else:
                question(k, i, n)
    for k, i, n in reversed(late):
        question(k, i, n)
    for k, (kind, v) in res.items():
        out[k]['kept'] = said(kind, v) == out[k]['v']
    renamed = [i + 1 for i in range(len(held.objs)) if names(held, i) != tags[i]]
    return out, [look(held, i) for i in range(len(held.objs))], held.kinds, renamed


GIVEN = [EPS, [0, 1, -1, 0], [-1e-3, 2e-5], [(0.0, 37.0), 0.3], [-1e-6, -5e-6, 0.0], [0.0, -1e-6, -5e-6], PLANE, [1 / 3, 0.7654321234], [15.0, 25.0], [35.0, 30.0], [5.0, 5.0], [65.0, 5.0], [30.0, 30.0]]


def same_value(a):
    """Is the argument still one of those that are handed over?"""
    if isinstance(a, np.ndarray):
        return a.tolist() in GIVEN
    if hasattr(a, 'wkb_hex'):
        return a.geom_type == 'LineString' and len(a.coords) == 2 or a.geom_type == 'Polygon' and len(a.exterior.coords) == 5
    if isinstance(a, list) and a and not isinstance(a[0], (int, float, tuple)):
        return len(a) == 2
    return a in GIVEN


def history(job):
    seed, ops = job
    a, end, kinds, renamed = play(seed, ops)
    b, bend, _, _ = play(seed, ops, back=True)
    rest = [i + 1 for i in range(max(len(end), len(bend))) if i >= len(end) or i >= len(bend) or end[i] != bend[i]]
    for x, y in zip(a, b):
        if x['op'] == 'ask' and x['done']:
            x['other'] = y.get('v', {'k': 'not asked', 'g': []})
            x['keptother'] = y.get('kept', True)
        x['doneother'] = y['done']
        x['argsother'] = y['args']
    return {'op': 'world', 'variant': seed, 'steps': a, 'kinds': kinds, 'end': end, 'differ': rest, 'renamed': renamed}


def pristine(seed):
    h = Held(seed)
    return [look(h, i) for i in range(len(h.objs))]


def fresh(job):
    seed, i, q = job
    out, _, _, _ = play(seed, [['ask', i, q, 0]])
    return out[0]['v']


def histories(c, n, deep):
    r = tlc('MC_World', cfg='MC_World_deep.cfg' if deep else None, workers=1, extra=['-simulate', f'num={n}', '-seed', str(SEED * 1000 + 17), '-depth', '60'])
    if 'violated' in r.text or 'Error' in r.text:
        raise HarnessError(r.text[-3000:])
    out = []
    for line in r.text.splitlines():
        line = line.strip().strip('"')
        if line.startswith('@H|'):
            out.append(json.loads(line[3:].replace('\\"', '"')))
    if len(out) < n:
        raise HarnessError(f'{len(out)} histories of {n}')
    return out


def operations(c):
    """Every operation of the model on what the world begins with."""
    r = tlc('MC_WorldOps', workers=4)
    if not r.ok:
        raise HarnessError(r.text[-3000:])
    c.add_tlc(r)
    c.cov['model'] = {'states': r.distinct, 'transitions': r.generated}
    out = []
    for line in r.text.splitlines():
        line = line.strip().strip('"')
        if line.startswith('@O|'):
            out.append(json.loads(line[3:].replace('\\"', '"')))
    return sorted(out)


def tours(c, ops, times):
    """Histories that go through all operations of the model, with questions
    about what was made and what it was made from."""
    asks, kind = {}, {}
    for what, i, n, _ in ops:
        if what == 'ask':
            asks.setdefault(i, []).append(n)
    kinds = Held('0').kinds
    of = {k: sorted({n for i, q in asks.items() if kinds[i - 1] == k for n in q}) for k in kinds}
    result = {'initial': 'law', 'parallel': 'law', 'generic': 'mat', 'point': 'bar', 'fibres': 'sec', 'polynomials': 'sec'}
    out = []
    for _ in range(times):
        todo = c.rng.sample(ops, len(ops))
        while todo:
            h, made = [], len(kinds)
            for op in todo[:7]:
                h.append(op)
                if op[0] == 'make':
                    made += 1
                    kind = result.get(op[2], 'bar' if kinds[op[1] - 1] == 'bar' and op[2] != 'plus' else 'geo')
                    for n in c.rng.sample(of[kind], 2):
                        h.append(['ask', made, n, 0])
                for i in (op[1], op[3]):
                    if i and c.rng.random() < 0.5:
                        h.append(['ask', i, c.rng.choice(asks[i]), 0])
            out.append(h)
            todo = todo[7:]
    return out


def p_world(c):
    import scipy.linalg  # noqa: F401
    import triangle  # noqa: F401

    import structuralcodes.geometry  # noqa: F401
    import structuralcodes.sections  # noqa: F401

    variants = [f'{c.rng.random()}' for _ in range(c.n(2, 8))]
    ops = operations(c)
    hs = tours(c, ops, c.n(3, 20)) + histories(c, c.n(120, 1500), False) + histories(c, c.n(40, 500), True)
    start = dict(zip(variants, fork_map(pristine, variants)))
    jobs = [(variants[k % len(variants)], h) for k, h in enumerate(hs)]
    events = fork_map(history, jobs)
    base = len(start[variants[0]])
    need = sorted({(e['variant'], s['i'], s['n']) for e in events for s in e['steps'] if s['op'] == 'ask' and 0 < s['i'] <= base})
    ref = dict(zip(need, fork_map(fresh, need)))
    for e in events:
        was = start[e['variant']]
        e['changed'] = [i + 1 for i in range(base) if e['end'][i] != was[i]]
        for s in e['steps']:
            k = (e['variant'], s['i'], s['n'])
            if s['op'] == 'ask' and k in ref:
                s['first'] = ref[k]
        del e['end']
    c.judge('Trace_World', events)
    c.cov['questions_and_makers'] = len({(s['i'] if s['i'] <= base else s['op'], s['n']) for e in events for s in e['steps']})
    c.cov['steps'] = sum(len(e['steps']) for e in events)
    c.cov['made'] = sum(s['op'] == 'make' and s['done'] for e in events for s in e['steps'])
