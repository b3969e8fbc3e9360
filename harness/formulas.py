"""Calls of the formula functions of the design codes."""
import copy

import numpy as np

from gen import Arr, Opt, draw
from kit import HarnessError, arg, capture


def same(a, b):
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and np.array_equal(a, b)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


# functions that convert what they are given, so that plain lists work as well
LISTS = {'ec2_2004': {'beta_ct', 'fctm_time', 'eps_cs', 'eps_cd', 'beta_ds', 'eps_ca', 'beta_as', 'phi', 'beta_c'},
         'mc2010': {'beta_e', 'beta_ds', 'beta_bs'}}


def call_event(mod, name, kw, vec, m, r, asarray=True, **more):
    """Call mod.name(**kw) with private copies of the arguments and record."""
    real = {}
    whole = name != 'phi_eq' and r.random() < 0.25   # integers are numbers as well (phi_eq asks for them)
    if whole and vec and r.random() < 0.5:
        kw = {k: [float(round(x)) for x in v] if isinstance(v, list) and all(isinstance(x, (int, float)) and x >= 2 for x in v) else v for k, v in kw.items()}
    asarray = asarray and not (vec and name in LISTS.get(m, ()) and r.random() < 0.3)
    for k, v in kw.items():
        if isinstance(v, list) and asarray and vec:
            real[k] = np.array(v, dtype=float)
        else:
            real[k] = copy.deepcopy(v)
    if whole:
        for k, v in real.items():
            if isinstance(v, float) and abs(v) < 1e9 and v == int(v):
                real[k] = int(v)
            elif isinstance(v, np.ndarray) and v.ndim == 1 and np.all(v == np.round(v)) and np.all(abs(v) < 1e9):
                real[k] = v.astype(int)
            elif isinstance(v, list) and v and all(isinstance(x, float) and abs(x) < 1e9 and x == int(x) for x in v):
                real[k] = [int(x) for x in v]
    before = copy.deepcopy(real)
    f = getattr(mod, name, None)
    if f is None:
        out, w = {'k': 'err', 'v': 'missing'}, False
    else:
        out, w, raw = capture(f, **real)
    ok = all(same(before[k], real[k]) for k in real)
    if f is not None:   # what is handed out belongs to the caller
        if isinstance(raw, np.ndarray) and raw.ndim and raw.flags.writeable:
            raw[...] = -12345
        elif isinstance(raw, (dict, list)):
            raw.clear()
    ev = {'m': m, 'f': name, 'vec': bool(vec), 'a': {k: arg(v) for k, v in kw.items()},
          'o': out, 'w': bool(w), 'same': ok}
    ev.update(more)
    return ev


def run_table(c, mod, m, table, n, r):
    """n calls of every function of a table name -> domains."""
    out = []
    for name, spec in table.items():
        reps = n
        if isinstance(spec, tuple):
            spec, reps = spec[0], max(1, int(n * spec[1]))
        if not spec:
            reps = 1
        fix = spec.pop('_fix', None) if isinstance(spec, dict) else None
        for _ in range(reps):
            kw, vec = draw(spec, r)
            if fix:
                kw = fix(kw, r)
                if kw is None:
                    continue
            out.append(call_event(mod, name, kw, vec, m, r))
            if r.random() < 0.08:   # once more
                out.append(call_event(mod, name, kw, vec, m, r))
        if fix:
            spec['_fix'] = fix
    return out
