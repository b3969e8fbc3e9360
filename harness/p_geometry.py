"""Geometries: motions, algebra, splitting, placement of bars, shapes."""
import math
import random

from kit import SEED, arg, capture, fork_map, num

MATS = {}


def materials():
    """A few materials shared by all geometries of this process."""
    if not MATS:
        from structuralcodes.materials.basic import ElasticMaterial, ElasticPlasticMaterial, GenericMaterial
        from structuralcodes.materials.concrete import create_concrete
        from structuralcodes.materials.reinforcement import create_reinforcement

        MATS['c30'] = create_concrete(30, design_code='ec2_2004')
        MATS['c50'] = create_concrete(50, design_code='mc2010')
        MATS['s500'] = create_reinforcement(500, 200000, 540, 0.05, design_code='ec2_2004')
        MATS['el'] = ElasticMaterial(E=30000.0, density=700.0)
        MATS['ep'] = ElasticPlasticMaterial(E=210000.0, fy=355.0, density=7850.0)
        MATS['gen'] = GenericMaterial(density=1234.0, constitutive_law=MATS['el'].constitutive_law)
    return MATS


def mat(m):
    from structuralcodes.materials.concrete import Concrete

    for k, v in materials().items():
        if v is m:
            name = k
            break
    else:
        name = 'new'
    try:
        e0 = num(m.constitutive_law.get_tangent(0.0))
    except Exception:
        e0 = 'nan'
    return {'id': name, 'cls': type(m).__name__, 'dens': num(m.density), 'e0': e0, 'concrete': isinstance(m, Concrete)}


def label(x):
    return '' if x is None else str(x)


def rings(poly):
    """Rings of a shapely polygon or of all polygons of a collection."""
    if poly.is_empty:
        return []
    return [[[num(x), num(y)] for x, y in r.coords[:-1]] for r in (poly.exterior, *poly.interiors)]


def polygons(shape):
    if shape.geom_type == 'Polygon':
        return [] if shape.is_empty else [shape]
    return [p for g in getattr(shape, 'geoms', []) for p in polygons(g)]


def surf(s):
    empty = s.polygon.is_empty
    return {'r': rings(s.polygon), 'm': mat(s.material), 'c': bool(s.concrete), 'n': label(s.name), 'g': label(s.group_label),
            'area': num(s.area), 'dens': num(s.density), 'cen': [] if empty else [num(v) for v in s.centroid]}


def bar(b):
    return {'x': num(b.x), 'y': num(b.y), 'd': num(b.diameter), 'a': num(b.area), 'm': mat(b.material),
            'n': label(b.name), 'g': label(b.group_label), 'dens': num(b.density)}


def geo(g):
    from structuralcodes.geometry import CompoundGeometry, PointGeometry, SurfaceGeometry

    if isinstance(g, SurfaceGeometry):
        ext = [] if g.polygon.is_empty else [num(v) for v in g.calculate_extents()]
        return {'k': 'surface', 's': [surf(g)], 'b': [], 'area': num(g.area), 'ext': ext, 'rc': False}
    if isinstance(g, PointGeometry):
        return {'k': 'bar', 's': [], 'b': [bar(g)], 'area': num(g.area), 'ext': [], 'rc': False}
    if isinstance(g, CompoundGeometry):
        ext = [] if not g.geometries or any(s.polygon.is_empty for s in g.geometries) else [num(v) for v in g.calculate_extents()]
        return {'k': 'compound', 's': [surf(s) for s in g.geometries], 'b': [bar(b) for b in g.point_geometries],
                'area': num(g.area), 'ext': ext, 'rc': bool(g.reinforced_concrete)}
    return {'k': type(g).__name__, 's': [], 'b': [], 'area': '0', 'ext': [], 'rc': False}


# ------------------------------------------------------------ random shapes
def value(r, size):
    u = r.random()
    v = r.uniform(-size, size)
    return float(round(v)) if u < 0.4 else (round(v, 2) if u < 0.7 else v)


def star(r, cx, cy, rad, n):
    """A polygon without self-intersections around a point."""
    a0 = r.uniform(0, 2 * math.pi)
    angs = [a0 + 2 * math.pi * (i + r.uniform(-0.3, 0.3)) / n for i in range(n)]
    return [(cx + rad * r.uniform(0.45, 1) * math.cos(a), cy + rad * r.uniform(0.45, 1) * math.sin(a)) for a in angs]


def polygon(r, size=None, holes=None):
    """A random polygon: rectangle, L, T, star, with up to two holes."""
    from shapely import Polygon

    size = size or r.choice([1.0, 10.0, 300.0, 300.0, 2000.0])
    far = 20 if r.random() < 0.07 else 2
    cx, cy = (0.0, 0.0) if r.random() < 0.3 else (value(r, far * size), value(r, far * size))
    w, h = (float(f'{size * r.uniform(0.4, 1.6):.3g}') for _ in range(2))
    u = r.random()
    if u < 0.35:
        ring = [(cx - w / 2, cy - h / 2), (cx + w / 2, cy - h / 2), (cx + w / 2, cy + h / 2), (cx - w / 2, cy + h / 2)]
    elif u < 0.5:
        t1, t2 = w * r.uniform(0.2, 0.6), h * r.uniform(0.2, 0.6)
        ring = [(0, 0), (w, 0), (w, t2), (t1, t2), (t1, h), (0, h)]
        ring = [(cx + x, cy + y) for x, y in ring]
    elif u < 0.65:
        t1, t2 = w * r.uniform(0.2, 0.6), h * r.uniform(0.2, 0.6)
        ring = [(-t1 / 2, 0), (t1 / 2, 0), (t1 / 2, h - t2), (w / 2, h - t2), (w / 2, h), (-w / 2, h), (-w / 2, h - t2), (-t1 / 2, h - t2)]
        ring = [(cx + x, cy + y) for x, y in ring]
    else:
        ring = star(r, cx, cy, size, r.choice([3, 3, 4, 5, 6, 8]))
    if r.random() < 0.3:
        ring = ring[::-1]
    k = r.randrange(len(ring))
    p = Polygon(ring[k:] + ring[:k])
    if not p.is_valid:
        return polygon(r, size, holes)
    n = r.choice([0, 0, 0, 1, 1, 2]) if holes is None else holes
    x0, y0, x1, y1 = p.bounds
    done = []
    for _ in range(20 * n):
        if len(done) == n:
            break
        c = (r.uniform(x0, x1), r.uniform(y0, y1))
        q = star(r, *c, r.uniform(0.05, 0.2) * min(x1 - x0, y1 - y0), r.choice([3, 4, 5]))
        if r.random() < 0.5:
            q = q[::-1]
        P = Polygon(q)
        if P.is_valid and p.buffer(-1e-3 * size).contains(P) and all(P.distance(d) > 1e-3 * size for d in done):
            done.append(P)
    return Polygon(p.exterior.coords, [d.exterior.coords for d in done]) if done else p


def group(r):
    return r.choice([None, None, 'top', 'bottom', 'g 1'])


def surface(r, size=None, holes=None):
    from structuralcodes.geometry import SurfaceGeometry

    m = materials()[r.choice(['c30', 'c30', 'c50', 'el', 'ep', 'gen'])]
    k = {}
    if r.random() < 0.3:
        k['concrete'] = r.random() < 0.7
    if r.random() < 0.6:
        k['name'] = r.choice(['web', 'flange', 'deck'])
    if r.random() < 0.5:
        k['group_label'] = group(r)
    return SurfaceGeometry(polygon(r, size, holes), m, **k)


def point(r, size):
    from structuralcodes.geometry import PointGeometry

    k = {}
    if r.random() < 0.5:
        k['name'] = r.choice(['b1', 'b2'])
    if r.random() < 0.5:
        k['group_label'] = group(r)
    return PointGeometry((value(r, size), value(r, size)), r.choice([8, 12, 16.0, 20, 32.5, r.uniform(0.004, 0.04), r.uniform(4, 40)]), materials()[r.choice(['s500', 'ep', 'gen'])], **k)


def any_geometry(r, size, deep=0):
    from structuralcodes.geometry import CompoundGeometry

    u = r.random()
    if u < 0.45 or deep > 2:
        return surface(r, size)
    if u < 0.55:
        return point(r, size)
    if u < 0.62:
        parts = [surface(r, size) for _ in range(r.randint(0, 3))] + [point(r, size) for _ in range(r.randint(3, 12))]
        r.shuffle(parts)
        return CompoundGeometry(parts)
    return CompoundGeometry([any_geometry(r, size, deep + 1) for _ in range(r.randint(1, 3))])


# ------------------------------------------------------------------- events
def makes(seed):
    """Geometries made of the right and the wrong things."""
    import numpy as np
    from shapely import LineString, MultiPolygon, Point
    from structuralcodes.geometry import CompoundGeometry, PointGeometry, SurfaceGeometry

    r = random.Random(seed)
    size = r.choice([1.0, 300.0])
    m = materials()[r.choice(['c30', 'el', 's500'])]
    notmat = {'law': m.constitutive_law, 'text': 'C30', 'none': None, 'class': type(m), 'list': [m]}
    p = polygon(r, size)
    x = r.uniform(-size, size)
    notpoly = {'points': list(p.exterior.coords), 'line': LineString(p.exterior.coords), 'multi': MultiPolygon([p]), 'none': None, 'ring': p.exterior}
    g = {'surface': surface(r, size), 'bar': PointGeometry((x, 1.0), 12, m), 'compound': any_geometry(r, size, 3)}
    out = []
    for _ in range(6):
        good = {'mat': r.random() < 0.5, 'shape': r.random() < 0.6}
        mk, mv = ('material', m) if good['mat'] else r.choice(list(notmat.items()))
        what = r.choice(['surface', 'bar', 'copy', 'copy', 'mirror', 'several'])
        e = {'what': what, 'mat': mk, 'shape': 'right', 'n': 0, 'k': 0}
        if what == 'surface':
            if not good['shape']:
                e['shape'] = r.choice(list(notpoly))
            q = notpoly.get(e['shape'], p)
            f = lambda: SurfaceGeometry(q, mv)  # noqa: E731
        elif what == 'bar':
            q = r.choice([(x, 1.0), [x, 2.0], np.array([1.0, x]), Point(x, 1)])
            if not good['shape']:
                e['shape'], q = r.choice([('one', [x]), ('one', (x,)), ('one', np.array([x])), ('none', [])])
            f = lambda: PointGeometry(q, 16, mv)  # noqa: E731
        elif what == 'copy':
            a = r.choice(list(g))
            b = a if good['shape'] else r.choice(list(g))
            e['shape'] = 'right' if type(g[a]) is type(g[b]) else 'other'
            if mk == 'none':
                e['mat'] = 'material'   # none: an elastic material
            f = lambda: type(g[a]).from_geometry(g[b], mv)  # noqa: E731
        elif what == 'mirror':
            e['mat'] = 'material'
            a = g[r.choice(list(g))]
            line = LineString([(0, 0), (x, size)])
            if not good['shape']:
                e['shape'], line = r.choice([('points', ((0, 0), (1, 1))), ('point', Point(0, 0)), ('number', 0.5), ('none', None), ('polygon', p)])
            f = lambda: a.mirror(line)  # noqa: E731
        else:
            e['n'] = r.randint(1, 3)
            e['k'] = e['n'] if good['shape'] else r.randint(0, 4)
            ps = MultiPolygon([rect_at(i * 10 * size, size) for i in range(e['n'])])
            ms = [m] * e['k']
            if not good['mat'] and e['k']:
                ms[-1] = mv
            else:
                e['mat'] = 'material'
            f = lambda: CompoundGeometry(ps, ms)  # noqa: E731
        raw = capture(f)[2]
        e['err'] = type(raw).__name__ if isinstance(raw, Exception) else ''
        out.append({'op': 'make', 'before': [], 'after': [], 'err': '', 'q': e})
    return out


def rect_at(x, s):
    from shapely import Polygon

    return Polygon([(x, 0), (x + s, 0), (x + s, s), (x, s)])


def run(op, f, operands, **fields):
    """Record one operation and return (event, result)."""
    before = [geo(g) for g in operands]
    _, _, raw = capture(f)
    err = type(raw).__name__ if isinstance(raw, Exception) else ''
    e = {'op': op, 'err': err, 'before': before, 'after': [geo(g) for g in operands], **fields}
    if operands:
        e['g'] = before[0]
    return e, (None if err else raw)


def done(e, res):
    if res is not None:
        e['o'] = geo(res)
    return e


def pts(r, size):
    return [value(r, 2 * size), value(r, 2 * size)]


ANGLES = [0.0, math.pi / 2, -math.pi / 2, math.pi, math.pi / 4, 2 * math.pi, 3 * math.pi / 2, 1.0, -0.3]


def motion(r, g, size):
    """A random motion of g: (event, result, inverse)."""
    from shapely import LineString, Point

    u = r.random()
    if u < 0.35:
        d = pts(r, size)
        w = r.random()
        if w < 0.2:  # components left out are zero
            d = r.choice([[d[0], 0.0], [0.0, d[1]], [0.0, 0.0]])
            k = {n: v for n, v in zip(('dx', 'dy'), d) if v}
            ev, res = run('translate', lambda: g.translate(**k), [g], d=arg(d))
        else:
            ev, res = run('translate', lambda: g.translate(*d), [g], d=arg(d))
        return ev, res, lambda x: x.translate(-d[0], -d[1])
    if u < 0.75:
        rad = r.random() < 0.6
        t = r.choice(ANGLES) if r.random() < 0.6 else r.uniform(-7, 7)
        if not rad:
            t = r.choice([0, 90, 180, 270, -90, 45, 30.0, 360]) if r.random() < 0.6 else r.uniform(-400, 400)
        k = {}
        p = [0.0, 0.0]
        if r.random() < 0.6:
            p = pts(r, size)
            k['point'] = Point(p) if r.random() < 0.2 else tuple(p)
        if not rad or r.random() < 0.3:
            k['use_radians'] = rad
        ev, res = run('rotate', (lambda: g.rotate(**k)) if t == 0 and r.random() < 0.5 else (lambda: g.rotate(t, **k)), [g], t=num(t), p=arg(p), radians=rad)
        return ev, res, lambda x: x.rotate(-t, **k)
    if u > 0.97:  # about something else than a line
        bad = r.choice([Point(1, 2), Point(0, 0).buffer(1), ((0, 0), (1, 1)), 'x', None])
        return {'op': 'axis', **{k: v for k, v in run('axis', lambda: g.mirror(bad), [g])[0].items() if k != 'op'}}, None, None
    p = pts(r, size)
    q = r.choice([[p[0] + 1.0, p[1]], [p[0], p[1] - size], pts(r, size)])
    if math.hypot(q[0] - p[0], q[1] - p[1]) < 1e-3 * size:
        q = [p[0] + size, p[1] + size]
    ax = LineString([p, q])
    ev, res = run('mirror', lambda: g.mirror(ax), [g], p=arg(p), q=arg(q))
    return ev, res, lambda x: x.mirror(ax)


def motions(seed):
    """A history of motions and its way back."""
    r = random.Random(seed)
    size = r.choice([1.0, 300.0, 2000.0])
    g0 = g = any_geometry(r, size)
    out, back = [], []
    for _ in range(r.randint(1, 5)):
        ev, res, inv = motion(r, g, size)
        out.append(done(ev, res))
        if res is None:
            return out
        g = res
        back.append(inv)
    for inv in reversed(back):
        _, _, x = capture(inv, g)
        if isinstance(x, Exception):
            break
        g = x
    else:
        out.append({'op': 'restore', 'err': '', 'before': [], 'after': [], 'g': geo(g0), 'o': geo(g)})
    return out


def pieces(g, h):
    """Number of separate parts of the largest difference (by shapely)."""
    n = 0
    for s in geo_surfaces(g):
        p = s.polygon
        for t in geo_surfaces(h):
            p = p - t.polygon
        n = max(n, len(polygons(p)))
    return n


def geo_surfaces(g):
    from structuralcodes.geometry import CompoundGeometry, SurfaceGeometry

    if isinstance(g, CompoundGeometry):
        return list(g.geometries)
    return [g] if isinstance(g, SurfaceGeometry) else []


def algebra(seed):
    """A history of additions, subtractions and copies."""
    from shapely import MultiPolygon
    from structuralcodes.geometry import CompoundGeometry, PointGeometry

    r = random.Random(seed)
    size = r.choice([1.0, 300.0])
    g = any_geometry(r, size)
    out = []
    for _ in range(r.randint(1, 4)):
        u = r.random()
        h = any_geometry(r, size, r.choice([0, 3]))
        if u < 0.3:
            a, b = (g, h) if r.random() < 0.5 else (h, g)
            ev, res = run('join', lambda: a + b, [a, b])
            ev['gs'] = ev['before']
        elif u < 0.38:
            many = [g, h, any_geometry(r, size)]
            ev, res = run('join', lambda: CompoundGeometry(list(many)), many)
            ev['gs'] = ev['before']
        elif u < 0.45:
            new = materials()[r.choice(['el', 'c50', 's500'])] if r.random() < 0.5 else None
            k = {} if new is None else {'new_material': new}
            ev, res = run('copy', lambda: type(g).from_geometry(g, **k), [g], m=[] if new is None else [mat(new)])
        elif u < 0.5:
            ps = [polygon(r, size) for _ in range(r.randint(1, 3))]
            ps = [p for i, p in enumerate(ps) if all(p.disjoint(q) for q in ps[:i])]
            same = r.random() < 0.5
            ms = materials()[r.choice(['c30', 'el'])] if same else [materials()[r.choice(['c30', 'el', 'ep'])] for _ in ps]
            ev, res = run('join', lambda: CompoundGeometry(MultiPolygon(ps), ms), [])
            mm = [ms] * len(ps) if same else ms
            names = [label(s.name) for s in res.geometries] if res is not None else []
            ev['gs'] = [{'s': [{'r': rings(p), 'm': mat(m), 'c': mat(m)['concrete'], 'n': n, 'g': '', 'area': '', 'dens': '', 'cen': []}], 'b': []}
                        for p, m, n in zip(ps, mm, names)]
            ev['g'] = {'s': [], 'b': []}
        else:
            if isinstance(g, PointGeometry):
                g = surface(r, size)
            a, b = (g, h) if r.random() < 0.7 or isinstance(h, PointGeometry) else (h, g)
            ev, res = run('sub', lambda: a - b, [a, b], pieces=pieces(a, b))
            ev['h'] = ev['before'][1]
        out.append(done(ev, res))
        if res is not None:
            g = res
        if sum(len(s.polygon.exterior.coords) for s in geo_surfaces(g)) > 40:
            break
    return out


def splits(seed):
    from shapely import LineString
    from structuralcodes.geometry import create_line_point_angle

    r = random.Random(seed)
    out = []
    size = r.choice([1.0, 300.0, 2000.0])
    g = surface(r, size)
    x0, y0, x1, y1 = g.polygon.bounds
    v = list(g.polygon.exterior.coords)

    def somewhere():
        u = r.random()
        if u < 0.2:
            return tuple(r.choice(v))
        if u < 0.3:
            return (x0 + (x1 - x0) * r.uniform(-0.5, 1.5), y0 + (y1 - y0) * r.uniform(-0.5, 1.5))
        if u < 0.4:
            return ((x0 + x1) / 2, (y0 + y1) / 2)
        return (r.uniform(x0, x1), r.uniform(y0, y1))

    def angle():
        u = r.random()
        if u < 0.45:
            return r.choice([0.0, math.pi / 2, -math.pi / 2, math.pi, math.pi / 4, 3 * math.pi / 4, 3 * math.pi / 2, -math.pi / 4])
        if u < 0.55:
            return math.pi / 2 + r.choice([-1, 1]) * 10 ** r.uniform(-9, -2)
        return r.uniform(-math.pi, math.pi)

    for _ in range(3):
        p = somewhere()
        if r.random() < 0.65:
            t = angle()
            if r.random() < 0.25:  # along an edge
                ring = r.choice([g.polygon.exterior, *g.polygon.interiors]).coords
                i = r.randrange(len(ring) - 1)
                (ax, ay), (bx, by) = ring[i], ring[i + 1]
                u = r.choice([0.0, 1.0, 0.5, r.random()])
                p, t = (ax + u * (bx - ax), ay + u * (by - ay)), math.atan2(by - ay, bx - ax)
                if r.random() < 0.4:  # a thin slice
                    w = r.choice([-1, 1]) * size * 10 ** r.uniform(-6, -1)
                    p = (p[0] - w * math.sin(t), p[1] + w * math.cos(t))
            line, rec = (p, t), {'a': arg(p), 'b': [], 't': num(t)}
        else:
            q = r.choice([somewhere(), (p[0], p[1] + 1), (p[0] - 1, p[1])])
            L = math.hypot(q[0] - p[0], q[1] - p[1])
            if L < 1e-3 * size:
                continue
            far = 6 * (math.hypot(x1 - x0, y1 - y0)) / L
            a = (p[0] - far * (q[0] - p[0]), p[1] - far * (q[1] - p[1]))
            b = (p[0] + far * (q[0] - p[0]), p[1] + far * (q[1] - p[1]))
            line, rec = LineString([a, b]), {'a': arg(a), 'b': arg(b), 't': ''}
        ev, res = run('split', lambda: g.split(line), [g], line=rec)
        if res is not None:
            ev['above'] = [rings(getattr(x, 'polygon', x)) for x in res[0]]
            ev['below'] = [rings(getattr(x, 'polygon', x)) for x in res[1]]
        out.append(ev)
    t, p, q = angle(), somewhere(), somewhere()
    if r.random() < 0.4:  # along an edge
        ring = r.choice([g.polygon.exterior, *g.polygon.interiors]).coords
        i = r.randrange(len(ring) - 1)
        p, t = ring[i], math.atan2(ring[i + 1][1] - ring[i][1], ring[i + 1][0] - ring[i][0])
    d = abs((q[0] - p[0]) * -math.sin(t) + (q[1] - p[1]) * math.cos(t))
    if d > 1e-3 * size:
        lines = tuple(create_line_point_angle(z, t, g.polygon.bounds) for z in (p, q))
        if r.random() < 0.2:
            from shapely import MultiLineString

            lines = MultiLineString(lines)
        ev, res = run('band', lambda: g.split_two_lines(lines), [g], t=num(t), p=arg(p), q=arg(q))
        if res is not None:
            ev['parts'] = [rings(x) for x in polygons(res)]
            ev['rk'] = getattr(res, 'geom_type', type(res).__name__)
        out.append(ev)
    return out


def placements(seed):
    from structuralcodes.geometry import PointGeometry, add_reinforcement, add_reinforcement_circle, add_reinforcement_line

    r = random.Random(seed)
    size = 300.0
    g = any_geometry(r, size) if r.random() < 0.3 else surface(r, size)
    if type(g).__name__ == 'PointGeometry':
        g = surface(r, size)
    out = []
    for _ in range(r.randint(1, 4)):
        m = materials()[r.choice(['s500', 'ep'])]
        d = r.choice([8, 12, 16.0, 25.4, r.uniform(0.004, 0.04), r.uniform(4, 40)])
        grp = group(r)
        k = {} if grp is None else {'group_label': grp}
        com = dict(d=num(d), m=mat(m), grp=label(grp))
        u = r.random()
        n = r.choice([0, 0, 1, 2, 2, 3, 4, 5, 9, -1])
        ends = {}
        for z in ('first', 'last'):
            if r.random() < 0.35:
                ends[z] = r.random() < 0.5
        ends_rec = {'first': ends.get('first', True), 'last': ends.get('last', True)}
        if u < 0.15:
            p = pts(r, size)
            own = r.random() < 0.4
            if own and r.random() < 0.4:
                p = (list(p) + [7.0, 0.0, 1.0])[:r.choice([1, 3, 4, 5])]
            ev, res = run('bar', lambda: g + PointGeometry(p, d, m, **k) if own else add_reinforcement(g, tuple(p), d, m, **k), [g], p=arg(p), **com)
        elif u < 0.6:
            p, q = pts(r, size), pts(r, size)
            if r.random() < 0.5:
                q = r.choice([[p[0] + r.choice([-300.0, 300.0, 450]), p[1]], [p[0], p[1] + 250.0], [p[0] + 300.0, p[1] - 400.0]])
            L = math.hypot(q[0] - p[0], q[1] - p[1])
            if L < 1:
                continue
            s = 0.0
            if r.random() < 0.6:
                s = r.choice([L / 3, L / 7, L / 10, 0.1 * L, 50.0, 75, L, L * 1.5, L / max(n - 1, 1), 0.99 * L / max(n - 1, 1), L * 0.3 / max(n, 1), -10.0, r.uniform(L / 12, L * 1.1)])
            w = r.random()
            if w < 0.2:   # metres
                a, b = r.choice([(1, 0), (0, 1), (-1, 0)])
                L = r.choice([0.3, 0.6, 0.7, 0.9, 1.2, 1.4])
                p = [r.choice([0.0, 0.05, -0.15]) for _ in range(2)]
                q = [round(p[0] + L * a, 2), round(p[1] + L * b, 2)]
                s = r.choice([0.0, 0.1, 0.1, 0.05, 0.15, 0.2, 0.07, 0.3])
            elif w < 0.4:  # all numbers and quotients exact
                p = [float(r.randint(-40, 40)) for _ in range(2)]
                L = r.choice([60.0, 120.0, 240.0, 300.0, 500.0])
                a, b = r.choice([(1, 0), (0, 1), (-1, 0), (0, -1), (0.6, 0.8), (-0.8, 0.6)])
                q = [p[0] + round(L * a), p[1] + round(L * b)]
                s = r.choice([0.0, 10.0, 20.0, 30.0, 60.0, 120.0, 37.5, 7.0, L, L + 1, L / max(n - 1, 1) if n in (2, 3, 5, 9) else 4.0])
            kk = dict(k, **ends)
            if n or r.random() < 0.5:
                kk['n'] = n
            if s or r.random() < 0.5:
                kk['s'] = s
            ev, res = run('line', lambda: add_reinforcement_line(g, tuple(p), tuple(q), d, m, **kk), [g], p=arg(p), q=arg(q), n=n, s=num(s), **ends_rec, **com)
        else:
            c, rad = pts(r, size), r.choice([100.0, 120, 37.5, r.uniform(20, 300)])
            a0, a1 = 0.0, 2 * math.pi
            kk = dict(k, **ends)
            if r.random() < 0.6:
                a0 = r.choice([0.0, math.pi / 2, -1.0, r.uniform(-3, 3)])
                a1 = a0 + r.choice([math.pi, math.pi / 2, 2 * math.pi, r.uniform(0.2, 6.2), 0.0, -1.0, 7.0, 2 * math.pi - 10 ** r.uniform(-8, -2), 2 * math.pi + 10 ** r.uniform(-8, -2)])
                kk.update(start_angle=a0, stop_angle=a1)
            L = rad * (a1 - a0) if a1 > a0 else rad
            s = 0.0
            if r.random() < 0.6:
                s = r.choice([L / 3, L / 8, L / 10, 50.0, L * 1.2, L / max(n - 1, 1), 0.9 * L / max(n - 1, 1), L / max(n, 1), 0.7 * L / max(n, 1), -5.0, r.uniform(L / 12, L * 1.1)])
            if n or r.random() < 0.5:
                kk['n'] = n
            if s or r.random() < 0.5:
                kk['s'] = s
            ev, res = run('circle', lambda: add_reinforcement_circle(g, tuple(c), rad, d, m, **kk), [g], c=arg(c), r=num(rad), n=n, s=num(s), a0=num(a0), a1=num(a1), **ends_rec, **com)
        out.append(done(ev, res))
        if res is not None:
            g = res
    return out


def shapes(seed):
    from structuralcodes.geometry import CircularGeometry, RectangularGeometry

    r = random.Random(seed)
    m = materials()[r.choice(['c30', 'el', 'ep'])]
    k, rec = {}, {'m': mat(m), 'c': False, 'grp': '', 'org': []}
    if r.random() < 0.6:
        org = r.choice([(0.0, 0.0), [value(r, 500), value(r, 500)], (value(r, 5000), value(r, 5000))])
        if r.random() < 0.12:
            org = r.choice([(1.0,), (1.0, 2.0, 3.0)])
        k['origin'] = org
        rec['org'] = arg(org)
    if r.random() < 0.4:
        k['concrete'] = rec['c'] = r.random() < 0.6
    name = r.choice(['', '', 'rect'])
    if name:
        k['name'] = name
    g = group(r)
    if g is not None:
        k['group_label'] = g
        rec['grp'] = g
    dim = lambda: r.choice([200.0, 300, 1.0, 0.0, -1.0, r.uniform(1, 2000), r.uniform(1, 2000), r.uniform(0.01, 1)])  # noqa: E731
    if r.random() < 0.5:
        w, h = dim(), dim()
        ev, res = run('rect', lambda: RectangularGeometry(w, h, m, **k), [], w=num(w), h=num(h), n=name, **rec)
        if res is not None:
            ev['dims'] = [num(res.width), num(res.height)]
    else:
        dia = dim()
        n = r.choice([20, 20, 4, 8, 12, 30, 37, 50, 100])
        if n != 20 or r.random() < 0.5:
            k['n_points'] = n
        ev, res = run('disc', lambda: CircularGeometry(dia, m, **k), [], dia=num(dia), n=n, name=name, **rec)
        if res is not None:
            ev['dims'] = [num(res.diameter), num(res.radius)]
    return [done(ev, res)]


def many(c, f, n):
    import structuralcodes  # noqa: F401

    materials()
    seeds = [f'{SEED}:{f.__name__}:{i}' for i in range(n)]
    return [e for es in fork_map(f, seeds, fresh=False, chunk=8) for e in es]


def p_motion(c):
    c.judge('Trace_Geometry', many(c, motions, c.n(400, 6000)))
    c.judge('Trace_Lattice', [e for e in p_lattice(c) if e['op'] in ('move', 'copy')])


def p_algebra(c):
    c.judge('Trace_Geometry', many(c, algebra, c.n(250, 4000)) + many(c, makes, c.n(60, 600)))
    c.judge('Trace_Lattice', [e for e in p_lattice(c) if e['op'] != 'move'])


def p_split(c):
    c.judge('Trace_Geometry', many(c, splits, c.n(300, 5000)))


def p_bars(c):
    c.judge('Trace_Geometry', many(c, placements, c.n(400, 6000)))


def p_shapes(c):
    c.judge('Trace_Profiles', profile_events(c))
    c.judge('Trace_Geometry', many(c, shapes, c.n(400, 4000)))


# ------------------------------------------------------------------ lattice
LAT = {'conc': 'c30', 'elas': 'el', 'stee': 's500', 'plas': 'ep'}


def cells_polygon(cells):
    from shapely import box, unary_union

    return unary_union([box(x, y, x + 1, y + 1) for x, y in cells])


def base(name):
    from shapely import Polygon
    from structuralcodes.geometry import CompoundGeometry, PointGeometry, RectangularGeometry, SurfaceGeometry

    m = materials()
    if name == 'R':
        return RectangularGeometry(3, 2, m['c30'], origin=(1.5, 1), name='R')
    if name == 'H':
        hole = [(0, 0), (1, 0), (1, 1), (0, 1)]
        return SurfaceGeometry(Polygon([(-1, -1), (2, -1), (2, 2), (-1, 2)], [hole]), m['el'], name='H', group_label='ring')
    if name == 'L':
        return SurfaceGeometry(Polygon([(0, 0), (3, 0), (3, 1), (1, 1), (1, 3), (0, 3)]), m['el'], concrete=True, name='L')
    if name == 'B':
        return PointGeometry((1, 1), 16, m['s500'], name='B', group_label='low')
    s = SurfaceGeometry(Polygon([(1, 0), (2, 0), (2, 2), (1, 2)]), m['ep'], name='C', group_label='x')
    return CompoundGeometry([s, PointGeometry((0, 2), 16, m['s500'], name='Cb')])


def lattice_step(g, op, arg_):
    from shapely import LineString

    if op == 'plus':
        return g + base(arg_)
    if op == 'onto':
        return base(arg_) + g
    if op == 'minus':
        return g - base(arg_)
    if op == 'from':
        return base(arg_) - g
    if op == 'copy':
        return type(g).from_geometry(g, new_material=materials()['c30'])
    return {
        'right': lambda: g.translate(1, 0), 'leftup': lambda: g.translate(dx=-2, dy=1),
        'quarter': lambda: g.rotate(math.pi / 2), 'back': lambda: g.rotate(-90, (1, 2), use_radians=False),
        'half': lambda: g.rotate(math.pi, point=(2, 1)), 'mirx': lambda: g.mirror(LineString([(1, 5), (1, -3)])),
        'miry': lambda: g.mirror(LineString([(-2, 0), (7, 0)])), 'diag': lambda: g.mirror(LineString([(0, 1), (4, 5)])),
        'anti': lambda: g.mirror(LineString([(2, -2), (-1, 1)])),
    }[arg_]()


def lattice_view(g):
    o = geo(g)
    back = {v: k for k, v in LAT.items()}
    pick = lambda x: {'m': back.get(x['m']['id'], x['m']['id']), 'n': x['n'], 'g': x['g']}  # noqa: E731
    return {
        'o': {'s': [dict(pick(s), r=s['r'], c=s['c'], area=s['area']) for s in o['s']],
              'b': [dict(pick(b), x=b['x'], y=b['y'], d=b['d']) for b in o['b']]},
        'compound': o['k'] == 'compound', 'rc': o['rc'], 'area': o['area'],
    }


def lattice_walk(group):
    """Replay the histories that begin alike, each prefix only once."""
    objs, out = {}, []
    for start, hists in group:
        objs[()] = (base(start), 'ok')
        before = {}
        for h in hists:
            for i in range(1, len(h) + 1):
                key = tuple(map(tuple, h[:i]))
                if key not in objs:
                    g = objs[key[:-1]][0]
                    before.setdefault(key[:-1], lattice_view(g))
                    _, _, raw = capture(lattice_step, g, *key[-1])
                    objs[key] = (g, type(raw).__name__) if isinstance(raw, Exception) else (raw, 'ok')
        for key in map(lambda h: tuple(map(tuple, h)), hists):
            parent = objs[key[:-1]][0]
            out.append({'op': key[-1][0], 'h': {'start': start, 'ops': [list(x) for x in key]}, 'r': objs[key][1],
                        'kept': lattice_view(parent) == before[key[:-1]], **lattice_view(objs[key][0])})
        objs.clear()
    return out


def p_lattice(c):
    """Histories of the lattice model, replayed."""
    from kit import HarnessError, tlc

    r = tlc('MC_Lattice', cfg='MC_Lattice_deep.cfg' if c.thorough else 'MC_Lattice.cfg', workers=8)
    c.add_tlc(r)
    if not r.ok:
        raise HarnessError('\n'.join(x for x in r.text.splitlines() if '@H|' not in x)[-3000:])
    import json

    hists = [json.loads(x.strip().strip('"')[3:].replace('\\"', '"')) for x in r.text.splitlines() if x.strip().strip('"').startswith('@H|')]
    c.cov['model'] = {'histories': len(hists), 'depth': 3 if c.thorough else 2}
    groups = {}
    for h in hists:
        groups.setdefault((h['start'], tuple(h['ops'][0])), []).append(h['ops'])
    materials()
    return [e for es in fork_map(lattice_walk, [[(k[0], v)] for k, v in groups.items()], fresh=False) for e in es]



# ----------------------------------------------------------------- profiles
VALUES = ['A', 'Iy', 'Iz', 'Iyz', 'Icsi', 'Ieta', 'theta', 'Wely', 'Welz', 'Wply', 'Wplz', 'iy', 'iz']


def ring_of(poly):
    return [[num(x), num(y)] for x, y in poly.exterior.coords[:-1]]


def profile(job):
    import structuralcodes.geometry.profiles as pf

    fam, name, given, seed = job
    r = random.Random(seed)
    cls = getattr(pf, fam)
    e = {'op': 'profile', 'fam': fam, 'name': name, 'given': arg(given)}
    _, _, p = capture(cls, given)
    e['err'] = type(p).__name__ if isinstance(p, Exception) else ''
    if e['err']:
        return e
    order = VALUES[:]
    r.shuffle(order)
    e['ring'] = ring_of(p.polygon)
    e['v'] = {}
    for k in order:
        _, _, v = capture(getattr, p, k)
        e['v'][k] = 'nan' if isinstance(v, Exception) else num(v)
    e['same'] = all(num(getattr(p, k)) == e['v'][k] for k in VALUES)
    e['ring3'] = ring_of(p.polygon)
    _, _, q = capture(cls.get_polygon, given)
    e['ring2'] = ring_of(q) if hasattr(q, 'exterior') else [['0', '0'], ['1', '0'], ['0', '1']]
    e['dims'] = {k: num(getattr(p, k)) for k in ('h', 'b', 'tw', 'tf', 'r', 'r1', 'r2', 't') if hasattr(p, k)}
    return e


def profile_events(c):
    import json
    import os

    import structuralcodes.geometry.profiles as pf
    from kit import SPEC

    jobs, out = [], []
    with open(os.path.join(SPEC, 'profiles.ndjson')) as f:
        rows = [json.loads(x) for x in f]
    for row in rows:
        fam, names = row['fam'], list(row['tab'])
        cls = getattr(pf, fam)
        _, _, listed = capture(cls.profiles)
        out.append({'op': 'names', 'fam': fam, 'names': list(listed) if isinstance(listed, (list, tuple)) else []})
        for n in names:
            jobs.append((fam, n, n, f'{SEED}:{n}'))
        numeric = fam in ('IPE', 'IPN', 'UPN', 'UPE')
        if numeric:
            for n in c.rng.sample(names, 6):
                v = int(n[len(fam):])
                jobs.append((fam, n, v if c.rng.random() < 0.5 else float(v), f'{SEED}:{n}'))
        n = c.rng.choice(names)
        for bad in ['', n.lower(), n + ' ', n[:-1] + '~', fam, 'XYZ', n + '0', ' ' + n] + ([10, 99.9] if numeric else []):
            if bad in names:
                continue
            for f in (cls, cls.get_polygon):
                _, _, x = capture(f, bad)
                out.append({'op': 'unknown', 'fam': fam, 'given': arg(bad), 'err': type(x).__name__ if isinstance(x, Exception) else ''})
    return out + fork_map(profile, jobs, fresh=False, chunk=8)
