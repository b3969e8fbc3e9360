"""Sections: integrators, gross and cracked properties, strength, curves, domains."""
import copy
import math
import random

import numpy as np

from kit import SEED, arg, capture, fork_map, num
from p_geometry import polygon, rings, star
from p_laws import build, enclaw, sig


# ----------------------------------------------------------- random sections
def concrete(r, kinds=('pr', 'pr', 'pr', 'pr', 'bl', 'prn', 'sargin', 'pop', 'user', 'elastic')):
    fc = sig(r, r.uniform(12, 60))
    t = r.choice(kinds)
    e0 = r.choice([0.002, 0.002, 0.00175, sig(r, r.uniform(1.6e-3, 2.4e-3))])
    eu = r.choice([0.0035, 0.0035, 0.003, sig(r, e0 * r.uniform(1.05, 1.9))])
    s = r.choice([1, 1, -1])
    if t == 'pr':
        return {'t': t, 'fc': s * fc, 'e0': s * e0, 'eu': s * max(eu, e0 * 1.01), 'n': r.choice([2, 2.0])}
    if t == 'prn':
        return {'t': 'pr', 'fc': s * fc, 'e0': s * e0, 'eu': s * max(eu, e0 * 1.01), 'n': sig(r, r.uniform(1.2, 1.95))}
    if t == 'bl':
        return {'t': t, 'fc': s * fc, 'ec': s * 0.00175, 'ecu': s * 0.0035}
    if t == 'sargin':
        return {'t': t, 'fc': s * fc, 'e1': s * 0.0022, 'eu': s * 0.0035, 'k': sig(r, r.uniform(1.9, 2.6))}
    if t == 'pop':
        return {'t': t, 'fc': s * fc, 'ec': s * 0.0022, 'ecu': s * 0.0035, 'Ec': sig(r, fc / 0.0022 * r.uniform(1.5, 3))}
    if t == 'user':
        return {'t': t, 'x': [-0.0035, -0.002, -0.001, 0.0, 0.0001, 0.001], 'y': [-0.9 * fc, -fc, -0.6 * fc, 0.0, 0.06 * fc, 0.01], 'flag': 0, 'as': 'list', 'eps_u': None}
    return {'t': 'elastic', 'E': sig(r, r.uniform(2e4, 4e4)), 'eps_u': None}


def steel(r, kinds=('ep', 'ep', 'ep', 'ep', 'epx', 'user', 'init', 'elastic'), su=None):
    t = r.choice(kinds)
    fy = r.choice([435.0, 500, 355, 235, sig(r, r.uniform(200, 900))])
    E = r.choice([200000, 200000.0, 210000, 195000])
    su = su or r.choice([0.0675, 0.05, 0.025, 0.01, sig(r, r.uniform(0.012, 0.08))])
    if t == 'ep':
        return {'t': t, 'E': E, 'fy': fy, 'Eh': r.choice([0, 0.0, sig(r, r.uniform(50, 3000))]), 'su': su}
    if t == 'epx':
        return {'t': 'ep', 'E': E, 'fy': fy, 'Eh': r.choice([0, 0.0, sig(r, r.uniform(50, 3000))]), 'su': None}
    if t == 'user':
        y = fy / E
        return {'t': t, 'x': [-su, -y, 0.0, y, su], 'y': [-1.1 * fy, -fy, 0.0, fy, 1.1 * fy], 'flag': r.choice([0, 1]), 'as': 'list', 'eps_u': None}
    if t == 'init':
        return {'t': 'init', 'law': {'t': 'ep', 'E': E, 'fy': max(fy, 1400.0), 'Eh': 0, 'su': max(su, 0.02)}, 'e': sig(r, r.uniform(1e-3, 6e-3)), 'compat': r.random() < 0.85}
    if t == 'par':
        return {'t': 'par', 'laws': [{'t': 'ep', 'E': E, 'fy': fy, 'Eh': 0.0, 'su': su}, {'t': 'ep', 'E': 1e4, 'fy': 50.0, 'Eh': 0.0, 'su': su}], 'w': r.choice([None, [0.7, 0.3]])}
    return {'t': 'elastic', 'E': float(E), 'eps_u': None}


def pascals(l):
    o = dict(l)
    for k in ('E', 'fy', 'Eh', 'fc', 'Ec'):
        if o.get(k):
            o[k] = o[k] * 1e6
    if 'y' in o:
        o['y'] = [v * 1e6 for v in o['y']]
    if 'law' in o:
        o['law'] = pascals(o['law'])
    if 'laws' in o:
        o['laws'] = [pascals(x) for x in o['laws']]
    return o


def rect(x0, y0, x1, y1):
    return [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]


def ngon(cx, cy, rad, n):
    return [(cx + rad * math.cos(2 * math.pi * i / n), cy + rad * math.sin(2 * math.pi * i / n)) for i in range(n)]


def voids(r, b, h, t):
    """A rectangle with several cells, or with voids that do not contain their centroids."""
    x0, x1, y0, y1 = -b / 2 + t, b / 2 - t, -h / 2 + t, h / 2 - t
    w, v = x1 - x0, y1 - y0
    kind = r.choice(['cells', 'cells', 'ell', 'cee', 'filled'])
    if kind == 'cells':
        n = r.choice([2, 2, 3, 4])
        web = w / n * r.uniform(0.15, 0.3)
        cw = (w - (n - 1) * web) / n
        holes = []
        for i in range(n):
            a, q = x0 + i * (cw + web), r.choice([0.0, 0.0, r.uniform(0.05, 0.4)]) * v
            hole = r.choice([rect(a, y0 + q, a + cw, y1), rect(a, y0 + q, a + cw, y1), [(a, y0 + q), (a + cw, y0 + q), (a + cw / 2, y1)],
                             [(a + cw * 0.25, y0), (a + cw * 0.75, y0), (a + cw, v / 2 + y0), (a + cw * 0.75, y1), (a + cw * 0.25, y1), (a, v / 2 + y0)]])
            holes.append(hole if r.random() < 0.5 else hole[::-1])
    else:
        p = min(w, v) * r.uniform(0.05, 0.12)
        hole = [(x0, y0), (x1, y0), (x1, y0 + p), (x0 + p, y0 + p)] + ([(x0 + p, y1 - p), (x1, y1 - p), (x1, y1)] if kind != 'ell' else [(x0 + p, y1)]) + [(x0, y1)]
        holes = [hole]
    out = [[rect(-b / 2, -h / 2, b / 2, h / 2), holes, 'c']]
    if kind == 'filled':
        out.append([holes[0], [], 'a'])
    return out


def layout(r, kind=None):
    """Outlines and bars of a section: surfaces [exterior, holes, role], bars [x, y, d, role]."""
    kind = kind or r.choice(['rect', 'rect', 'rect', 'tee', 'box', 'circle', 'ell', 'steel', 'steel', 'composite', 'layers', 'free', 'free', 'apart', 'channel', 'encased', 'plate'])
    b = float(r.choice([200, 250, 300, 400, round(r.uniform(150, 900))]))
    h = float(r.choice([300, 400, 500, 600, round(r.uniform(200, 1500))]))
    c = r.choice([30.0, 40.0, 50.0])
    d = r.choice([10, 12, 16, 20, 25, 28, 28, 45, 70])
    bars = []
    alt = random.Random(f'{kind} {b} {h} {c} {d}')   # leaves the draws of the other layouts as they are
    if alt.random() < 0.15:
        d = alt.uniform(6, 40)

    def row(y, n, x0, x1, dia=None, role='s'):
        for i in range(n):
            bars.append([x0 + (x1 - x0) * (i / (n - 1) if n > 1 else 0.5), y, dia or d, role])

    two = r.random() < 0.25   # two kinds of bars
    if kind in ('rect', 'layers', 'encased'):
        row(-h / 2 + c, r.randint(2, 5), -b / 2 + c, b / 2 - c)
        if r.random() < 0.75:
            row(h / 2 - c, r.randint(2, 4), -b / 2 + c, b / 2 - c, r.choice([8, 12, 16, 20]), 't' if two else 's')
        if r.random() < 0.3:
            row(0.0, 2, -b / 2 + c, b / 2 - c, 10)
        if kind == 'rect':
            return kind, [[rect(-b / 2, -h / 2, b / 2, h / 2), [], 'c']], bars
        if kind == 'layers':
            k = r.uniform(-0.3, 0.4) * h
            return kind, [[rect(-b / 2, -h / 2, b / 2, k), [], 'c'], [rect(-b / 2, k, b / 2, h / 2), [], 'd']], bars
        i = [(-b / 6, -h / 4), (b / 6, -h / 4), (b / 6, -h / 5), (b / 40, -h / 5), (b / 40, h / 5), (b / 6, h / 5), (b / 6, h / 4), (-b / 6, h / 4),
             (-b / 6, h / 5), (-b / 40, h / 5), (-b / 40, -h / 5), (-b / 6, -h / 5)]
        return kind, [[rect(-b / 2, -h / 2, b / 2, h / 2), [i], 'c'], [i, [], 'a']], bars
    if kind == 'bar':   # symmetric about the origin
        return kind, [[rect(-b / 2, -h / 2, b / 2, h / 2), [rect(-b / 3, -h / 3, b / 3, h / 3)] if r.random() < 0.3 else [], 'a']], bars
    if kind == 'plate':   # a corner at the origin
        return kind, [[rect(0, 0, r.choice([50.0, 100.0]), r.choice([100.0, 200.0, 400.0])), [], r.choice('aac')]], bars
    if kind == 'tee':
        B, t = b * r.uniform(1.5, 4), h * r.uniform(0.15, 0.35)
        row(c, r.randint(2, 4), -b / 2 + c, b / 2 - c)
        row(h - c, r.randint(2, 4), -B / 2 + c, B / 2 - c, 10, 't' if two else 's')
        return kind, [[[(-b / 2, 0), (b / 2, 0), (b / 2, h - t), (B / 2, h - t), (B / 2, h), (-B / 2, h), (-B / 2, h - t), (-b / 2, h - t)], [], 'c']], bars
    if kind == 'box':
        t = min(b, h) * r.uniform(0.15, 0.3)
        row(-h / 2 + c, r.randint(2, 6), -b / 2 + c, b / 2 - c)
        row(h / 2 - c, r.randint(2, 6), -b / 2 + c, b / 2 - c)
        hole = rect(-b / 2 + t, -h / 2 + t, b / 2 - t, h / 2 - t)
        if alt.random() < 0.6:
            return kind, voids(alt, b, h, t), bars
        return kind, [[rect(-b / 2, -h / 2, b / 2, h / 2), [hole], 'c']], bars
    if kind == 'circle':
        n = r.choice([12, 16, 20])
        nb = r.randint(4, 10)
        for x, y in ngon(0, 0, b - c, nb):
            bars.append([x, y, d, 's'])
        hole = [ngon(0, 0, b * r.uniform(0.3, 0.6), 10)] if r.random() < 0.3 else []
        return kind, [[ngon(0, 0, b, n), hole, 'c']], bars
    if kind == 'ell':
        t1, t2 = b * r.uniform(0.3, 0.5), h * r.uniform(0.25, 0.45)
        bars.extend([[c, c, d, 's'], [b - c, c, d, 's'], [c, h - c, d, 's'], [t1 - c, h - c, d, 't' if two else 's']])
        return kind, [[[(0, 0), (b, 0), (b, t2), (t1, t2), (t1, h), (0, h)], [], 'c']], bars
    if kind in ('steel', 'composite', 'channel'):
        tf, tw = h * r.uniform(0.03, 0.08), b * r.uniform(0.03, 0.1)
        if kind == 'channel':
            pts = [(0, 0), (b, 0), (b, tf), (tw, tf), (tw, h - tf), (b, h - tf), (b, h), (0, h)]
        else:
            pts = [(-b / 2, 0), (b / 2, 0), (b / 2, tf), (tw / 2, tf), (tw / 2, h - tf), (b / 2, h - tf), (b / 2, h), (-b / 2, h), (-b / 2, h - tf), (-tw / 2, h - tf), (-tw / 2, tf), (-b / 2, tf)]
        surf = [[pts, [], 'a']]
        if kind == 'composite':
            B, t = b * r.uniform(2, 6), h * r.uniform(0.2, 0.5)
            surf.append([rect(-B / 2, h, B / 2, h + t), [], 'c'])
            if r.random() < 0.7:
                row(h + t / 2, r.randint(2, 6), -B / 2 + c, B / 2 - c, 10)
        return kind, surf, bars
    if kind == 'apart':
        row(-h / 2 + c, 2, -b / 2 + c, b / 2 - c)
        row(h / 2 - c, 2, -b / 2 + c, b / 2 - c)
        g = b * r.uniform(1.2, 3)
        row(-h / 2 + c, 2, g - b / 2 + c, g + b / 2 - c)
        return kind, [[rect(-b / 2, -h / 2, b / 2, h / 2), [], 'c'], [rect(g - b / 2, -h / 2, g + b / 2, h / 4), [], r.choice('cd')]], bars
    p = polygon(r, size=b, holes=r.choice([0, 0, 1]))
    q = p.buffer(-0.12 * b)
    if not q.is_empty:
        ring = list((q if q.geom_type == 'Polygon' else max(q.geoms, key=lambda z: z.area)).exterior.coords)[:-1]
        for x, y in r.sample(ring, min(len(ring), r.randint(1, 5))):
            bars.append([x, y, d, r.choice('sst') if two else 's'])
    return kind, [[list(p.exterior.coords)[:-1], [list(i.coords)[:-1] for i in p.interiors], 'c']], bars


def section(r, laws=None, kind=None, **kw):
    """A random section: (description, geometry)."""
    from shapely import Point, Polygon

    from structuralcodes.geometry import CompoundGeometry, PointGeometry, SurfaceGeometry, add_reinforcement
    from structuralcodes.materials.basic import GenericMaterial

    kind, surfs, bars = layout(r, kind)
    laws = laws or {}
    role = {'c': laws.get('c') or concrete(r), 'd': laws.get('d') or concrete(r), 's': laws.get('s') or steel(r),
            't': laws.get('t') or steel(r), 'a': laws.get('a') or steel(r, ('ep', 'ep', 'user', 'elastic'))}
    names = sorted({s[2] for s in surfs} | {b[3] for b in bars})
    rho = {'c': 2500, 'd': 2400.0, 's': 7850, 't': 7850.0, 'a': r.choice([7850, 8000.5])}
    si = r.random() < kw.get('si', 0.1)   # metres and pascals
    if si:
        role = {k: pascals(v) for k, v in role.items()}
        surfs = [[[(x / 1000, y / 1000) for x, y in e], [[(x / 1000, y / 1000) for x, y in i] for i in hs], m] for e, hs, m in surfs]
        bars = [[x / 1000, y / 1000, d / 1000, m] for x, y, d, m in bars]
    mats = {k: GenericMaterial(density=rho[k], constitutive_law=build(role[k])) for k in names}
    turn = r.choice([0, 0, 0, 0, 90, 30, 17.3, -45, r.uniform(0, 360)])
    dx, dy = r.choice([(0, 0), (0, 0), (0, 0), (100.0, -250.0), (r.uniform(-500, 500), r.uniform(-500, 500)), (0.0, -400.0), (5000.0, 3000.0)])
    if kind == 'plate' and r.random() < 0.7:
        turn = dx = dy = 0
    if kind == 'bar':
        dx = dy = 0
    if si:
        dx, dy = dx / 1000, dy / 1000
    parts = []
    flag = r.random() < 0.92
    for ext, holes, m in surfs:
        k = {'concrete': flag} if m in 'cd' else {}
        parts.append(SurfaceGeometry(Polygon(ext, holes), mats[m], **k))
    if r.random() < 0.3:
        for x, y, d, m in bars:
            parts.append(PointGeometry(Point(x, y), d, mats[m]))
        g = parts[0] if len(parts) == 1 else CompoundGeometry(parts)
    else:
        g = parts[0] if len(parts) == 1 else CompoundGeometry(parts)
        for x, y, d, m in bars:
            g = add_reinforcement(g, (x, y), d, mats[m])
    if turn:
        g = g.rotate(turn, use_radians=False)
    if dx or dy:
        g = g.translate(dx, dy)
    if isinstance(g, SurfaceGeometry) and r.random() < 0.5:
        g = CompoundGeometry([g])
    return {'kind': kind, 'names': names, 'role': role, 'mats': mats, 'rho': rho}, g


def encode(desc, g):
    """The section of the specification: read from the geometry that was built."""
    from structuralcodes.geometry import SurfaceGeometry

    idx = {id(desc['mats'][n].constitutive_law): i + 1 for i, n in enumerate(desc['names'])}
    surfs = [g] if isinstance(g, SurfaceGeometry) else g.geometries
    bars = [] if isinstance(g, SurfaceGeometry) else g.point_geometries
    key = {i + 1: n for i, n in enumerate(desc['names'])}
    s = [{'r': rings(x.polygon), 'l': idx[id(x.material.constitutive_law)], 'conc': bool(x.concrete)} for x in surfs]
    b = [{'x': num(x.x), 'y': num(x.y), 'd': num(x.diameter), 'a': num(math.pi * x.diameter**2 / 4), 'l': idx[id(x.material.constitutive_law)]} for x in bars]
    for x in s + b:
        x['rho'] = num(desc['rho'][key[x['l']]])
    laws = []
    for n in desc['names']:
        l = desc['role'][n]
        p = []
        if l['t'] in ('sargin', 'pop') or (l['t'] == 'pr' and l['n'] != 2):
            rg, co = desc['mats'][n].constitutive_law.__marin__(strain=(0.0, 1.0))
            p = [{'lo': num(min(a, c)), 'hi': num(max(a, c)), 'c': [num(v) for v in k]} for (a, c), k in zip(rg, co)]
        e0 = capture(desc['mats'][n].constitutive_law.get_tangent, 0)[0]
        laws.append({'law': enclaw(l), 'pieces': p, 'e0': e0['v'] if e0['k'] == 'num' else 'nan'})
    return {'s': s, 'b': b, 'laws': laws, 'rc': any(x['conc'] for x in s)}, idx


def mesh_of(data, n):
    """Fibres of the first n entries of the integration data."""
    return [[{'x': num(x), 'y': num(y), 'a': num(a)} for x, y, a in zip(np.atleast_1d(d[0]), np.atleast_1d(d[1]), np.atleast_1d(d[2]))] for d in data[:n]]


def gensec(g, fiber, size=None, alt=None):
    from structuralcodes.sections import GenericSection

    k = {'integrator': 'fiber'} if fiber else {}
    if alt is not None and alt.random() < 0.3:   # names in any case, a single surface as it is
        k = {'integrator': alt.choice(['Fiber', 'FIBER'] if fiber else ['marin', 'Marin', 'MARIN'])}
        if len(getattr(g, 'geometries', [])) == 1 and not g.point_geometries:
            g = g.geometries[0]
    if fiber and size is not None:
        k['mesh_size'] = size
    return GenericSection(g, **k)


def start(r, op, laws=None, kind=None, pfiber=0.35, sizes=(None, 0.01, 0.02, 0.05), **kw):
    """A section and the beginning of its event: (section, event, description)."""
    fiber = r.random() < pfiber
    desc, g = section(r, laws, kind, **({'si': 0} if fiber and kw.get('mmfiber') else kw))
    size = r.choice(sizes) if fiber else None
    sec = gensec(g, fiber, size, random.Random(str(r.getstate()[1][:4])))
    spec, idx = encode(desc, g)
    e = {'op': op, 'kind': desc['kind'], 'sec': spec, 'fiber': fiber, 'size': num(0.01 if size is None else size), 'mesh': []}
    if fiber:
        data = sec.section_calculator.integrator.integrate_strain_response_on_geometry(sec.geometry, [0, 0, 0], mesh_size=sec.section_calculator.mesh_size)[-1]
        e['mesh'] = mesh_of(data, len(spec['s']))
    return sec, e, desc


# ------------------------------------------------------------------ integrate
def limits_of(desc):
    out = [0.0, 0.0]
    for n in desc['names']:
        l = desc['role'][n]
        out += {'pr': lambda: [-abs(l['e0']), -abs(l['eu'])], 'ep': lambda: [l['fy'] / l['E'], -l['fy'] / l['E']],
                'sargin': lambda: [-abs(l['e1']), -abs(l['eu'])]}.get(l['t'], lambda: [-0.0035])()
    return out


def plane(r, g, desc):
    """A strain plane: through a chosen strain at a chosen point, mild or wild."""
    from structuralcodes.geometry import SurfaceGeometry

    x0, x1, y0, y1 = g.calculate_extents()
    size = max(x1 - x0, y1 - y0)
    u = r.random()
    if u < 0.12:
        return [r.choice([0.0, -0.001, 0.001, -0.002, -0.0035, r.uniform(-0.004, 0.004)]), 0.0, 0.0]
    amp = r.choice([1e-5, 1e-3, 4e-3, 4e-3, 0.01, 0.03]) * r.uniform(0.2, 1)
    if any(desc['role'][n]['t'] == 'ep' and desc['role'][n]['su'] is None for n in desc['names']):
        amp = min(amp, 0.9e-3)
    k = amp / size
    ang = r.choice([0, 0, math.pi, math.pi / 2, -math.pi / 2, r.uniform(-math.pi, math.pi), r.uniform(-math.pi, math.pi), math.pi / 4, -2.1])
    cy, cz = k * math.cos(ang), k * math.sin(ang)
    if ang == 0:
        cz = 0.0
    x, y = r.uniform(x0, x1), r.uniform(y0, y1)
    if r.random() < 0.3:   # a strain of the law exactly along an edge or through a corner
        surfs = [g] if isinstance(g, SurfaceGeometry) else g.geometries
        x, y = r.choice(r.choice(surfs).polygon.exterior.coords)
        if r.random() < 0.7:
            k = r.choice([1e-5, 2e-6, k, 2.0**-17, sig(r, k)])
            cy, cz = r.choice([(k, 0.0), (-k, 0.0), (0.0, k), (0.0, -k)])
    e = r.choice(limits_of(desc)) * (r.random() < 0.7) if amp > 0.9e-3 else 0.0
    return [e - cy * y + cz * x, cy, cz]


def forces(x):
    try:
        return [num(v) for v in x[:3]]
    except Exception:
        return []


def matrix(x):
    try:
        return [[num(v) for v in row] for row in x]
    except Exception:
        return []


def integrate(seed):
    r = random.Random(seed)
    sec, e, desc = start(r, 'integrate')
    calc = sec.section_calculator
    e['q'] = []
    for _ in range(4):
        pl = plane(r, sec.geometry, desc)
        given = r.choice([list, tuple, np.array])(pl)
        how = r.random() < 0.5
        if how:
            f = lambda m: calc.integrate_strain_profile(given, **({} if m == 'stress' and r.random() < 0.5 else {'integrate': m}))  # noqa: E731
        else:
            def f(m):
                k = {'mesh_size': calc.mesh_size} if e['size'] != num(0.01) or r.random() < 0.5 else {}
                o = calc.integrator.integrate_strain_response_on_geometry(sec.geometry, given, integrate=m, **k)
                return o[0] if m == 'modulus' else o[:-1]
        order = ['stress', 'modulus']
        r.shuffle(order)
        o = {}
        for m in order:
            _, _, o[m] = capture(f, m)
        e['q'].append({'pl': arg(pl), 'st': forces(o['stress']), 'md': matrix(o['modulus'])})
    return e


def refuse(seed):
    """Sizes of fibres and questions that make no sense."""
    r = random.Random(seed)
    desc, g = section(r)
    e = {'op': 'refuse', 'fiber': False, 'q': []}
    for _ in range(4):
        fiber, what = r.random() < 0.7, r.choice(['size', 'size', 'question', 'both'])
        size = r.choice([0, -0.0, -0.01, -1, 1, 1.0, 0.5, math.nextafter(1, 2), 1.5, 2, 100]) if what != 'question' else 0.5
        ask = r.choice(['stress', 'modulus']) if what == 'size' else r.choice(['strain', '', 'Stress ', 'tangent'])
        u = r.random()

        def f():
            sec = gensec(g, fiber)
            if u < 0.5:
                sec.section_calculator.mesh_size = size
                return sec.section_calculator.integrate_strain_profile([-1e-4, 1e-7, 0], ask)
            k = {'mesh_size': size} if fiber or u < 0.7 else {}
            return sec.section_calculator.integrator.integrate_strain_response_on_geometry(sec.geometry, [-1e-4, 1e-7, 0], ask, **k)

        raw = capture(f)[2]
        e['q'].append({'fiber': fiber, 'size': num(size), 'ask': ask, 'err': type(raw).__name__ if isinstance(raw, Exception) else ''})
    return e


def moment(seed):
    """Moments of area of a random polygon."""
    from structuralcodes.sections import marin_integration

    r = random.Random(seed)
    ring = rings(polygon(r, size=r.choice([1.0, 300.0]), holes=0))[0]
    closed = [*ring, ring[0]]
    y, z = [float(p[0]) for p in closed], [float(p[1]) for p in closed]
    q = []
    for _ in range(6):
        m = r.randint(0, 4)
        n = r.randint(0, 6 - m)
        q.append({'m': m, 'n': n, 'v': capture(marin_integration, *(f(v) for f, v in zip([r.choice([list, np.array, tuple])] * 2, (y, z))), m, n)[0]})
    return {'op': 'moment', 'kind': '', 'fiber': False, 'sec': {'s': [], 'b': [], 'laws': [], 'rc': False}, 'ring': ring, 'q': q}


# ---------------------------------------------------------------------- gross
GROSS = ['area', 'area_reinforcement', 'ea', 'mass', 'perimeter', 'sy', 'sz', 'e_sy', 'e_sz', 'cy', 'cz', 'iyy', 'izz', 'iyz', 'iyy_c', 'izz_c', 'iyz_c',
         'i11', 'i22', 'theta', 'e_iyy', 'e_izz', 'e_iyz', 'e_iyy_c', 'e_izz_c', 'e_iyz_c', 'e_i11', 'e_i22', 'e_theta']


def whole(o):
    """An answer is made of finite numbers; 'not finite' is an observation of its own."""
    def fine(x):
        if isinstance(x, dict):
            return all(fine(y) for y in x.values())
        if isinstance(x, list):
            return all(fine(y) for y in x)
        return x not in ('nan', 'inf', '-inf', 'NaN', 'Infinity', '-Infinity')
    return o if fine(o) else {'k': 'not finite'}


def properties(v):
    if isinstance(v, Exception):
        return {'k': type(v).__name__}
    if v is None:
        return {'k': 'none'}
    try:
        return whole({'k': 'ok', 'g': {k: num(getattr(v, k)) for k in GROSS}})
    except Exception:
        return {'k': 'other'}


def outline(g):
    """Outline of the union of the surfaces, where rounding leaves no doubt about it."""
    from shapely.ops import unary_union

    ps = [x.polygon for x in g.geometries]
    a = unary_union(ps)
    d = 1e-6 * max(abs(v) for v in a.bounds)
    b, c = (unary_union([p.buffer(k * d, join_style=2) for p in ps]) for k in (1, 2))
    if len({x.geom_type for x in (a, b, c)}) > 1:
        return {'k': 'unclear'}
    if a.geom_type != 'Polygon':
        return {'k': 'several'}
    if abs(a.exterior.length - b.exterior.length) > 1e-3 * b.exterior.length:
        return {'k': 'unclear'}
    return {'k': 'one', 'r': rings(a)[0]}


def gross(seed):
    r = random.Random(seed)
    sec, e, desc = start(r, 'gross')
    g = sec.geometry
    if r.random() < 0.3:
        capture(sec.section_calculator.integrate_strain_profile, [1e-4, 1e-6, 0])
    e['v'] = properties(capture(lambda: sec.gross_properties)[2])
    e['outline'] = outline(g)
    e['alike'] = alike(r, sec.gross_properties) if e['v']['k'] == 'ok' else []
    return e


def alike(r, p):
    """Are properties close to some that differ in one of them?"""
    out = []
    for _ in range(3):
        q = copy.copy(p)
        f = r.choice(list(vars(p)))
        a = float(getattr(p, f))
        tol = r.choice([None, None, (1e-3, 0), (0, 1e-3), (1e-2, 1e-2)])
        b = a * (1 + r.choice([0, 1e-7, 3e-6, 3e-5, 3e-4, -3e-6, -3e-5, 0.1])) + r.choice([0, 0, 1e-9, 1e-4, -1e-2])
        setattr(q, f, b)
        k = {} if tol is None else {'rtol': tol[0], 'atol': tol[1]}
        raw = capture(lambda: p.isclose(q, **k))[2]
        out.append({'a': num(a), 'b': num(b), 'tol': [num(x) for x in tol or (1e-5, 1e-8)], 'nan': any(math.isnan(x) for x in [*vars(p).values(), b]),
                    'r': bool(raw) if isinstance(raw, (bool, np.bool_)) else 'other'})
        out[-1]['r'] = {True: 'yes', False: 'no'}.get(out[-1]['r'], 'other')
    return out


def p_gross(c):
    c.judge('Trace_Sections', fork_map(gross, seeds(c, 'gross', c.n(700, 15000)), fresh=False, chunk=8))


# -------------------------------------------------------------------- cracked
def elastic_parts(g):
    """A compound of elastic parts as a section of the specification."""
    laws, s, b = [], [], []
    for x in [*g.geometries, *g.point_geometries]:
        e0 = capture(x.material.constitutive_law.get_tangent, 0)[0]
        laws.append({'law': {'t': 'elastic'}, 'pieces': [], 'e0': e0['v'] if e0['k'] == 'num' else 'nan'})
        p = {'l': len(laws), 'rho': num(x.density)}
        if hasattr(x, 'polygon'):
            s.append({'r': rings(x.polygon), 'conc': bool(x.concrete), **p})
        else:
            b.append({'x': num(x.x), 'y': num(x.y), 'd': num(x.diameter), 'a': num(math.pi * x.diameter**2 / 4), **p})
    return {'s': s, 'b': b, 'laws': laws, 'rc': False}


def angle(r):
    return r.choice([0, 0.0, math.pi, math.pi / 2, -math.pi / 2, math.pi / 4, 3.9, 2 * math.pi, r.uniform(-math.pi, math.pi), r.uniform(-math.pi, math.pi), r.uniform(0, 2 * math.pi)])


def related(r, q, th, n):
    """Sometimes an inclination or a force that was asked for before, or turned."""
    if q and r.random() < 0.35:
        old = r.choice(q)
        o = float(old['th'])
        th, n = r.choice([(o + math.pi, float(old['n'])), (-o, n), (o, n), (th, float(old['n'])), (o - math.pi, n), (o + math.pi / 2, n), (math.pi - o, n)])
    return th, n


def cracked(seed):
    from structuralcodes.sections import calculate_elastic_cracked_properties

    r = random.Random(seed)
    sec, e, desc = start(r, 'cracked', pfiber=0.2)
    th = angle(r)
    k = {'theta': th} if th != 0 or r.random() < 0.5 else {}
    first = r.random() < 0.5
    if first:
        again = capture(lambda: calculate_elastic_cracked_properties(sec, **k))[2]
    _, _, v = capture(lambda: calculate_elastic_cracked_properties(sec, return_cracked_section=True, **k))
    if not first:
        again = capture(lambda: calculate_elastic_cracked_properties(sec, **k))[2]
    pair = isinstance(v, tuple) and len(v) == 2
    e.update(th=num(th), v=properties(v[0] if pair else v), again=properties(again), whole=properties(capture(lambda: sec.gross_properties)[2]), cut=e['sec'], cutmesh=[])
    if pair:
        try:
            e['cut'] = elastic_parts(v[1])
            if e['fiber']:
                g = gensec(v[1], True)
                e['cutmesh'] = mesh_of(g.section_calculator.integrator.integrate_strain_response_on_geometry(v[1], [0, 0, 0], mesh_size=0.01)[-1], len(v[1].geometries))
        except Exception as ex:
            e['v'] = {'k': type(ex).__name__}
    elif e['v']['k'] == 'ok':
        e['v'] = {'k': 'no section'}
    return e


def p_cracked(c):
    c.judge('Trace_Sections', fork_map(cracked, seeds(c, 'cracked', c.n(500, 10000)), fresh=False, chunk=8))


# ------------------------------------------------------------------- strength
def used_mesh(sec, e):
    """The fibres that the calculator has been working with."""
    if e['fiber']:
        try:
            e['mesh'] = mesh_of(sec.section_calculator.integration_data, len(e['sec']['s']))
        except Exception:  # noqa: S110
            pass


def axial_force(r, lo, hi):
    w = hi - lo
    return r.choice([0, 0.0, 0, lo + w * r.random(), lo + w * r.random(), lo + 0.5 * lo * 0 + w * r.choice([1e-3, 0.02, 0.98, 0.999]), r.uniform(lo, 0) if lo < 0 else 0.0, lo, hi,
                     lo - abs(lo) * 1e-3 - 1, hi + abs(hi) * 1e-3 + 1, round(lo + w * r.random(), -3)])


def the_range(calc, r):
    """Least and greatest axial force, asked for in any order."""
    o = {}
    for k in r.sample(['n_min', 'n_max'], 2):
        o[k] = capture(lambda: getattr(calc, k))[2]
    try:
        return float(o['n_min']), float(o['n_max'])
    except Exception:
        return None


def bending(v):
    if isinstance(v, Exception):
        return {'k': type(v).__name__}
    try:
        return whole({'k': 'ok', 'r': {'theta': num(v.theta), 'n': num(v.n), 'my': num(v.m_y), 'mz': num(v.m_z), 'pl': [num(v.eps_a), num(v.chi_y), num(v.chi_z)]}})
    except Exception:
        return {'k': 'other'}


LIMITED = ('pr', 'pr', 'pr', 'pr', 'bl', 'prn', 'sargin', 'pop', 'user')


def brittle(r):
    """Laws with limits that mean something; often the same limits for all bars."""
    su = r.choice([0.0675, 0.05, 0.025, 0.01, sig(r, r.uniform(0.012, 0.08))])
    kinds = ('ep', 'ep', 'ep', 'ep', 'epx', 'user', 'init', 'par') if r.random() < 0.3 else ('ep', 'ep', 'ep', 'user')
    su = su if r.random() < 0.75 else None
    c = concrete(r, LIMITED)
    return {'c': c, 'd': c if r.random() < 0.6 else concrete(r, LIMITED), 's': steel(r, kinds, su), 't': steel(r, kinds, su), 'a': steel(r, ('ep', 'ep', 'user'), su)}


def slight(seed):
    """Small sections in metres under large axial forces: next to no curvature."""
    return strength(seed, True)


def strength(seed, small=False):
    r = random.Random(seed)
    sec, e, desc = start(r, 'strength', brittle(r), **({'kind': 'plate', 'pfiber': 0, 'si': 1} if small else {}))
    calc = sec.section_calculator
    rng = the_range(calc, r)
    e.update(nmin='nan', nmax='nan', q=[])
    if rng is None:
        return e
    e['nmin'], e['nmax'] = map(num, rng)
    for _ in range(4):
        th, n = related(r, e['q'], angle(r), axial_force(r, *rng))
        if small:
            th, n = r.choice([0.0, math.pi / 2, math.pi, -math.pi / 2, th]), r.choice(rng) * r.uniform(0.85, 0.999)
        k = {a: b for a, b in (('theta', th), ('n', n)) if b != 0 or r.random() < 0.5}
        o = capture(lambda: calc.calculate_bending_strength(**k))[2]
        e['q'].append({'th': num(th), 'n': num(n), 'v': bending(o)})
    used_mesh(sec, e)
    return e


def planes(seed):
    """The searches for strain planes in the frame of the neutral axis, asked directly."""
    r = random.Random(seed)
    sec, e, desc = start(r, 'planes', brittle(r))
    calc = sec.section_calculator
    e.update(q=[], lo='nan', hi='nan')
    if r.random() < 0.3:   # of another geometry: leaves no trace
        capture(lambda: calc.find_equilibrium_fixed_curvature(sec.geometry.rotate(0.7), 0.0, -1e-6, 0.0))
    v = capture(lambda: tuple(calc.calculate_limit_axial_load()))[2]
    if isinstance(v, Exception):
        return e
    e['lo'], e['hi'] = (num(x) for x in v)
    lo, hi = float(v[0]), float(v[1])
    todo = ['balanced', 'balanced', 'pivot', 'pivot', 'fixed', 'check', 'check']
    r.shuffle(todo)
    for of in todo:
        th = 0.0 if e['fiber'] else r.choice([0.0, angle(r)])
        g = sec.geometry if th == 0 and (e['fiber'] or r.random() < 0.5) else sec.geometry.rotate(-th)
        yld = r.random() < 0.4
        k = {'yielding': yld} if yld or r.random() < 0.3 else {}
        n, chi = axial_force(r, lo, hi), 0.0
        if of == 'balanced':
            f = lambda: calc.get_balanced_failure_strain(g, **k)  # noqa: E731
        elif of == 'pivot':
            f = lambda: calc.find_equilibrium_fixed_pivot(g, n, **k)  # noqa: E731
        elif of == 'fixed':
            x0, x1, y0, y1 = g.calculate_extents()
            chi = r.choice([0.0, -1, 1, r.uniform(-1, 1), r.uniform(-4, 4)]) * 2e-3 / (y1 - y0)
            e0 = r.choice([0.0, r.uniform(-2e-3, 2e-3)])
            f = lambda: calc.find_equilibrium_fixed_curvature(g, n, chi, e0)  # noqa: E731
        else:
            n = r.choice([lo, hi, math.nextafter(lo, -math.inf), math.nextafter(hi, math.inf), 1.01 * lo, 1.01 * hi, n])
            f = lambda: calc.check_axial_load(n)  # noqa: E731
        raw = capture(f)[2]
        o = {'of': of, 'th': num(th), 'yld': yld, 'n': num(n), 'chi': num(chi), 'yn': 'nan', 'yp': 'nan', 'pl': []}
        if isinstance(raw, Exception):
            o['k'] = type(raw).__name__
        else:
            try:
                if of == 'balanced':
                    o['yn'], o['yp'], raw = num(raw[0]), num(raw[1]), raw[2]
                o.update(k='ok', pl=[] if of == 'check' else [num(x) for x in raw])
            except Exception:
                o['k'] = 'other'
        e['q'].append(o)
    used_mesh(sec, e)
    return e


def p_strength(c):
    c.judge('Trace_Sections', fork_map(strength, seeds(c, 'strength', c.n(400, 4500)), fresh=False, chunk=4)
            + fork_map(slight, seeds(c, 'slight', c.n(60, 600)), fresh=False, chunk=4)
            + fork_map(planes, seeds(c, 'planes', c.n(150, 1500)), fresh=False, chunk=4))


# ----------------------------------------------------------- moment-curvature
def curve(v):
    if isinstance(v, Exception):
        return {'k': type(v).__name__}
    try:
        return whole({'k': 'ok', 'r': {'theta': num(v.theta), 'n': num(v.n), **{k: [num(x) for x in getattr(v, a)]
                for k, a in (('cy', 'chi_y'), ('cz', 'chi_z'), ('ea', 'eps_axial'), ('my', 'm_y'), ('mz', 'm_z'))}}})
    except Exception:
        return {'k': 'other'}


def turned(v, th):
    """Curvature of the strength about the inclined axis."""
    try:
        return num(v.chi_y * math.cos(th) + v.chi_z * math.sin(th))
    except Exception:
        return 'none'


def curvature(seed):
    r = random.Random(seed)
    sec, e, desc = start(r, 'curvature', brittle(r), 'plate' if r.random() < 0.06 else None)
    calc = sec.section_calculator
    rng = the_range(calc, r)
    e.update(nmin='nan', nmax='nan', q=[])
    if rng is None:
        return e
    e['nmin'], e['nmax'] = map(num, rng)
    for _ in range(2):
        th, n = related(r, e['q'], angle(r), axial_force(r, *rng))
        exact = desc['kind'] == 'plate' and r.random() < 0.8
        if exact:   # numbers for which sums come out exactly
            th, n = r.choice([0, 0, math.pi]), 0
        k = {a: b for a, b in (('theta', th), ('n', n)) if b != 0 or r.random() < 0.5}
        first, pre, post = 1e-8, 10, 10
        chi = []
        order = [0, 1]
        r.shuffle(order)
        for w in order:
            if w:
                ult = turned(capture(lambda: calc.calculate_bending_strength(theta=th, n=n))[2], th)
                continue
            auto = r.random() < (0.1 if exact else 0.65)
            if auto:
                if r.random() < 0.6:
                    first = r.choice([1e-8, -1e-8, 1e-7, 1e-6, -1e-6, 1e-5, 1e-4, 1e-3])
                    k['chi_first'] = first
                if r.random() < 0.9:
                    pre, post = r.choice([(2, 1), (3, 2), (4, 3), (2, 5), (5, 1), (3, 0), (6, 4)])
                    k['num_pre_yield'], k['num_post_yield'] = pre, post
            else:
                x0, x1, y0, y1 = sec.geometry.calculate_extents()
                top = r.choice([1e-4, 1e-3, 3e-3, 5e-3, 8e-3, 0.02, 0.1]) / max(x1 - x0, y1 - y0)
                m = r.randint(1, 5)
                chi = [-top * (i + 1) / m for i in range(m)]
                u = r.random()
                if u < 0.3:
                    chi = [-x for x in chi]
                elif u < 0.5:
                    chi = [x * r.choice([1, -1, 0, 0.3]) for x in chi]
                elif u < 0.6:
                    chi = [round(x, 6) for x in chi]
                elif u < 0.65:
                    chi = []
                if exact:
                    chi = [r.choice([1, -1]) * r.choice([5e-6, 1e-5, 2e-5, 4e-5, 8e-5]) for _ in range(m)]
                k['chi'] = r.choice([list, np.array, tuple])(chi)
                if r.random() < 0.2:
                    k['num_pre_yield'] = 3
            v = curve(capture(lambda: calc.calculate_moment_curvature(**k))[2])
        e['q'].append({'th': num(th), 'n': num(n), 'auto': auto, 'first': num(first), 'pre': pre, 'post': post, 'chi': [num(x) for x in chi], 'ult': ult, 'v': v})
    used_mesh(sec, e)
    return e


def p_curvature(c):
    c.judge('Trace_Sections', fork_map(curvature, seeds(c, 'curvature', c.n(200, 5000)), fresh=False, chunk=2))


# -------------------------------------------------------------------- domains
def rows(x):
    return [[num(v) for v in row] for row in np.asarray(x)]


def domain(v, of):
    if isinstance(v, Exception):
        return {'k': type(v).__name__}
    try:
        o = {'st': rows(v.strains), 'fo': rows(v.forces),
             'cols': [[num(x) for x in getattr(v, k)] for k in ('n', 'm_y', 'm_z', 'e_a', 'k_y', 'k_z')]}
        if of != 'mm':
            o['fn'] = [int(x) for x in v.field_num]
        if of != 'nm':
            o['angles'] = int(v.num_theta)
        if of != 'nmm':
            o['theta'] = num(v.theta) if of == 'nm' else [num(x) for x in v.theta]
        return whole({'k': 'ok', 'r': o})
    except Exception:
        return {'k': 'other'}


def fields(r, small):
    """Numbers and spacings of the fields as keywords, and as the specification sees them."""
    nums, types, k = [1, 2, 15, 10, 3, 4], ['linear', 'linear', 'geometric', 'linear', 'linear', 'linear'], {}
    if small or r.random() < 0.9:
        for i in range(6):
            nums[i] = k[f'num_{i + 1}'] = r.choice([1, 1, 2, 3] if i == 5 else [0, 1, 1, 2, 3])
        if r.random() < 0.03:
            i = r.randrange(6)
            nums[i] = k[f'num_{i + 1}'] = 0 if i == 5 else -1
    num_ = []
    if r.random() < (0.1 if small else 0.25):
        num_ = [r.choice([n for n in range(1, 45) if all(int(n / 35 * j) == n * j // 35 for j in (1, 2, 15, 10, 3, 4))])]
        k['num'] = num_[0]
    if r.random() < 0.5:
        for i in r.sample(range(6), r.randint(1, 6)):
            types[i] = k[f'type_{i + 1}'] = r.choice(['linear', 'geometric', 'geometric', 'quadratic'] + ['cubic'] * (r.random() < 0.02))
    return {'num': num_, 'nums': nums, 'types': types}, k


def domains(seed):
    r = random.Random(seed)
    sec, e, desc = start(r, 'domains', brittle(r))
    calc = sec.section_calculator
    e.update(nmin='nan', nmax='nan', q=[])
    of = r.choice(['nm', 'nm', 'nm', 'nmm', 'mm'])
    if of == 'nm':
        th = angle(r)
        x, k = fields(r, False)
        a = {'theta': th} if th != 0 or r.random() < 0.5 else {}
        full = r.random() < 0.4
        todo = [(th, {}), (th + math.pi, {'theta': th + math.pi})] if full else [(th, a)]
        if full:
            todo.append((th, {**a, 'complete_domain': True}))
        r.shuffle(todo)
        out = [(t, b, domain(capture(lambda: calc.calculate_nm_interaction_domain(**{**b, **({'theta': t} if t != 0 else {})}, **{p: v for p, v in k.items()}))[2], of)) for t, b in todo]
        other = next((v for t, b, v in out if t != th), {'k': 'none'})
        for t, b, v in out:
            e['q'].append({'of': of, 'th': num(t), **x, 'complete': 'complete_domain' in b, 'other': other, 'v': v})
    elif of == 'nmm':
        x, k = fields(r, True)
        m = r.choice([1, 2, 3, 5, 9])
        e['q'].append({'of': of, 'angles': m, **x, 'v': domain(capture(lambda: calc.calculate_nmm_interaction_domain(num_theta=m, **k))[2], of)})
    else:
        rng = the_range(calc, r)
        if rng:
            e['nmin'], e['nmax'] = map(num, rng)
            n, m = axial_force(r, *rng), r.choice([1, 2, 3, 5, 9, 32])
            k = {'n': n} if n != 0 or r.random() < 0.5 else {}
            if m != 32:
                k['num_theta'] = m
            e['q'].append({'of': of, 'angles': m, 'n': num(n), 'v': domain(capture(lambda: calc.calculate_mm_interaction_domain(**k))[2], of)})
    used_mesh(sec, e)
    return e


KNOWN = ['known:domains:109', 'known:domains:1285']   # sections that show the known findings


def p_domains(c):
    c.judge('Trace_Sections', fork_map(domains, KNOWN + seeds(c, 'domains', c.n(300, 6000)), fresh=False, chunk=4))


def seeds(c, name, n):
    return [f'{SEED}:{name}:{i}' for i in range(n)]


def p_integrate(c):
    c.judge('Trace_Sections', fork_map(integrate, seeds(c, 'integrate', c.n(600, 12000)), fresh=False, chunk=8)
            + fork_map(refuse, seeds(c, 'refuse', c.n(60, 600)), fresh=False, chunk=8)
            + fork_map(moment, seeds(c, 'moment', c.n(100, 2000)), fresh=False, chunk=8))


# ------------------------------------------------------------- strain profile
def gentle(r, g, desc):
    """A plane of small strains: elastic, or compressed all over."""
    x0, x1, y0, y1 = g.calculate_extents()
    size = max(x1 - x0, y1 - y0)
    k = r.choice([0.0, r.uniform(0, 6e-4)]) / size
    ang = r.uniform(-math.pi, math.pi)
    cy, cz = k * math.cos(ang), k * math.sin(ang)
    e = r.choice([0.0, -3e-4, r.uniform(-8e-4, 5e-4), r.uniform(-7e-4, -3e-4)])
    x, y = r.choice([(x0 + x1) / 2, x0, x1]), r.choice([(y0 + y1) / 2, y0, y1])
    return [e - cy * y + cz * x, cy, cz]


def profile(seed):
    r = random.Random(seed)
    laws = None
    u = r.random()
    if u < 0.3:   # elastic until yield
        laws = {k: {'t': 'elastic', 'E': sig(r, r.uniform(2e4, 4e4)), 'eps_u': None} for k in 'cd'}
        laws.update({k: steel(r, ('ep', 'ep', 'elastic')) for k in 'sta'})
    elif u < 0.45:
        laws = brittle(r)
    sym = r.random() < 0.15   # pure bending beyond yield
    if sym:
        laws = {'a': steel(r, ('ep',))}
    sec, e, desc = start(r, 'profile', laws, 'bar' if sym else None)
    calc = sec.section_calculator
    e['q'] = []
    for _ in range(4):
        pl = gentle(r, sec.geometry, desc) if r.random() < 0.4 else plane(r, sec.geometry, desc)
        if sym and r.random() < 0.8:
            pl = [0.0, *pl[1:]]
        o = forces(capture(calc.integrate_strain_profile, pl)[2])
        f = r.choice([1, 1, 1, 0.5, 0.8, 0.1, 3])
        loads = [float(v) * f for v in o] if len(o) == 3 and all(math.isfinite(float(v)) for v in o) else [0.0] * 3
        u = r.random()
        if u < 0.05:
            loads = [0.0] * 3
        elif u < 0.15:
            loads = [float(round(v)) for v in loads]
        elif u < 0.2 or sym and u < 0.6:
            loads[0 if sym else r.randrange(3)] = 0.0
        k = {}
        if r.random() < 0.5:
            k['initial'] = r.random() < 0.8
        if r.random() < 0.6:
            k['max_iter'] = r.choice([0, 1, 2, 3, 5, 10, 20, 100, 100])
        if r.random() < 0.7:
            k['tol'] = r.choice([1e-3, 1e-5, 1e-7, 1e-8, 1e-9, 1e-10])
        if 0.2 <= u < 0.3:   # a whole axial force with moments that are not
            loads[0] = float(round(loads[0]))
        ints = r.random() < 0.5
        as_given = [int(x) if ints and x == int(x) and abs(x) < 1e15 else r.choice([float, np.float64])(x) for x in loads]
        v = capture(lambda: calc.calculate_strain_profile(*as_given, **k))[2]
        if isinstance(v, BaseException):
            v = {'k': type(v).__name__}
        else:
            v = forces(v)
            v = whole({'k': 'ok', 'r': v}) if len(v) == 3 else {'k': 'other'}
        e['q'].append({'loads': [num(x) for x in loads], 'pl0': arg(pl) if f == 1 and loads == [float(x) for x in o] else [],
                       'initial': k.get('initial', False), 'max': k.get('max_iter', 10), 'tol': num(k.get('tol', 1e-6)), 'v': v})
    return e


def p_profile(c):
    c.judge('Trace_Sections', fork_map(profile, seeds(c, 'profile', c.n(400, 8000)), fresh=False, chunk=4))
