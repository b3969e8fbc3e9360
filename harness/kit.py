"""Shared machinery: recording of calls, TLC runs, verdicts and evidence."""
import hashlib
import json
import math
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
TIER = 'quick'
STUCK = None
SEED = int(os.environ.get('VERIF_SEED', '1'))
SPEC = os.path.join(VERIF, 'spec')
TLA = '/opt/veriftools/tla'
CP = f'{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar'


class HarnessError(Exception):
    """Something in the machinery, not in the library, went wrong."""


class NoAnswer(BaseException):
    """The library is still busy after a time (of the processor) without reason."""


class Stuck(Exception):
    """The library does not come back; the event that says so."""


PATIENCE = 80


class patience:
    """Interrupts what is inside after PATIENCE seconds of processor time."""

    def __enter__(self):
        def ring(*_):
            raise NoAnswer

        self.mine = signal.getitimer(signal.ITIMER_VIRTUAL)[0] == 0
        if self.mine:
            signal.signal(signal.SIGVTALRM, ring)
            signal.setitimer(signal.ITIMER_VIRTUAL, PATIENCE, 5)

    def __exit__(self, *_):
        if self.mine:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def num(x):
    """Encode a real number for Flt.tla."""
    x = float(x)
    if math.isnan(x):
        return 'nan'
    if math.isinf(x):
        return 'inf' if x > 0 else '-inf'
    return repr(x)


def isnum(x):
    import numpy as np

    return isinstance(x, (int, float, np.integer, np.floating)) and not isinstance(
        x, (bool, np.bool_)
    )


def enc(x):
    """Encode a result, tagged with its kind."""
    import numpy as np

    if x is None:
        return {'k': 'none'}
    if isinstance(x, (bool, np.bool_)):
        return {'k': 'bool', 'v': bool(x)}
    if isnum(x):
        return {'k': 'num', 'v': num(x)}
    if isinstance(x, str):
        return {'k': 'str', 'v': x}
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return enc(x.item())
    if isinstance(x, np.ndarray) and x.ndim > 1:
        return {'k': 'mat', 'v': [[num(v) for v in r] for r in x.tolist()]}
    if isinstance(x, (list, tuple, np.ndarray)):
        if all(isnum(v) for v in x):
            return {'k': 'seq', 'v': [num(v) for v in x]}
        return {'k': 'other', 'v': repr(type(x))}
    if isinstance(x, dict) and all(isnum(v) for v in x.values()):
        return {'k': 'rec', 'v': {str(a): num(b) for a, b in x.items()}}
    return {'k': 'other', 'v': type(x).__name__}


def arg(x):
    """Encode an argument: numbers as strings, the rest as it is."""
    import numpy as np

    if isinstance(x, (bool, str)):
        return x
    if x is None:
        return 'None'
    if isnum(x):
        return num(x)
    if isinstance(x, dict):
        return {k: arg(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, np.ndarray)):
        return [arg(v) for v in x]
    raise HarnessError(f'argument {x!r}')


def capture(f, *a, **k):
    """Call f; return (encoded result, warned, raw result)."""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        outer = signal.getitimer(signal.ITIMER_VIRTUAL)[0] > 0
        try:
            with patience():
                r = f(*a, **k)
                out = enc(r)
        except Exception as ex:  # the outcome of the call is the observation
            r = ex
            out = {'k': 'err', 'v': type(ex).__name__}
        except NoAnswer:
            if outer:
                raise
            r, out = RuntimeError('no answer'), {'k': 'err', 'v': 'NoAnswer'}
    warned = any(
        issubclass(x.category, UserWarning)
        and not issubclass(x.category, DeprecationWarning)
        for x in w
    )
    return out, warned, r


def java_classes():
    """Directory with the compiled Flt override (built when needed)."""
    src = [os.path.join(SPEC, 'java', n) for n in ('Flt.java', 'FltValue.java')]
    h = hashlib.sha1(b''.join(open(s, 'rb').read() for s in src)).hexdigest()[:12]
    for root in (os.path.join(VERIF, 'build'), os.path.join(tempfile.gettempdir(), 'verif_build')):
        d = os.path.join(root, h)
        if os.path.exists(os.path.join(d, 'ok')):
            return d
        try:
            os.makedirs(root, exist_ok=True)
            t = tempfile.mkdtemp(dir=root)
        except OSError:
            continue
        p = subprocess.run(['javac', '-d', t, '-cp', CP, *src], capture_output=True, text=True)
        if p.returncode:
            raise HarnessError('javac: ' + p.stderr)
        open(os.path.join(t, 'ok'), 'w').close()
        try:
            os.rename(t, d)
        except OSError:
            if os.path.exists(os.path.join(d, 'ok')):
                shutil.rmtree(t, ignore_errors=True)
                return d
            return t
        return d
    raise HarnessError('no place for the java classes')


class Tlc:
    """Outcome of one TLC run."""

    def __init__(self, text, rc, wall):
        text = '\n'.join(x for x in text.splitlines() if x.strip() and not x.startswith('Loading '))
        self.text, self.rc, self.wall = text, rc, wall
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', text)
        self.generated, self.distinct = map(int, m[-1]) if m else (0, 0)
        self.bad = []
        for line in text.splitlines():
            line = line.strip().strip('"')
            if line.startswith('@BAD|'):
                _, p, v = line.split('|', 2)
                self.bad.append((int(p), v.replace('\\"', '"')))
        self.ok = 'Model checking completed. No error has been found' in text
        self.violated = re.findall(r'Invariant (\w+) is violated', text) + re.findall(
            r'property (\w+) (?:is|was) violated', text
        )


def tlc(module, cfg=None, trace=None, workers=8, env=None, extra=(), timeout=800):
    """Run TLC on a module of /verif/spec."""
    meta = tempfile.mkdtemp(prefix='tlc_')
    e = dict(os.environ)
    e.update(env or {})
    if trace:
        e['TRACE'] = trace
    cmd = [
        'java', '-Xss128m', '-Xmx10g', '-XX:+UseParallelGC', '-XX:-UsePerfData',
        '-cp', f'{java_classes()}:{CP}', 'tlc2.TLC',
        '-nowarning', '-noGenerateSpecTE', '-deadlock', '-metadir', meta, '-workers', str(workers),
        '-config', cfg or f'{module}.cfg', *extra, f'{module}.tla',
    ]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return Tlc(p.stdout + p.stderr, p.returncode, time.time() - t0)


def evaluation(r):
    """TLC stopped because an expression has no value for an observation."""
    return ('OutOfMemory' not in r.text and 'StackOverflow' not in r.text and 'Parsing or semantic' not in r.text
            and re.search(r'[Ee]valuat|RuntimeException|Attempted to', r.text) is not None)


def singly(module, events, r, workers, timeout):
    """Find the observations outside the domain of the specification by
    halving: nothing that they say can be explained by it, they are rejected."""
    t0 = time.time()
    bad, parts, good, fails = [], [events], 0, 0
    while parts and fails < 8 and time.time() - t0 < timeout / 4:
        p = parts.pop()
        with tempfile.NamedTemporaryFile('w', suffix='.ndjson') as f:
            f.writelines(json.dumps(ev) + '\n' for ev in p)
            f.flush()
            q = tlc(module, trace=f.name, workers=workers, timeout=timeout) if p is not events else r
        if q.ok:
            good += len(p)
            r.generated += q.generated
            r.distinct += q.distinct
            bad += [(p[i - 1], v) for i, v in q.bad]
        elif not evaluation(q):
            raise HarnessError(f'TLC failed on {module}:\n' + q.text[q.text.find('Error'):][:3000])
        elif len(p) == 1:
            fails += 1
            bad.append((p[0], '{"no value in the specification"}'))
        else:
            parts += [p[:len(p) // 2], p[len(p) // 2:]]
    if not good:
        raise HarnessError(f'TLC explains nothing of {module}:\n' + r.text[r.text.find('Error'):][:3000])
    return r, bad


def validate(module, events, workers=8, keep=None, timeout=800):
    """Judge a list of independent events against a trace specification.

    Returns (Tlc, [(event, clauses)]).
    """
    d = tempfile.mkdtemp(prefix='trace_')
    try:
        path = os.path.join(d, 'trace.ndjson')
        with open(path, 'w') as f:
            for ev in events:
                f.write(json.dumps(ev) + '\n')
        r = tlc(module, trace=path, workers=workers, timeout=timeout)
        if not r.ok and len(events) > 1 and evaluation(r):
            return singly(module, events, r, workers, timeout)
        chunks = min(24, -(-len(events) // (-(-len(events) // 24)))) if events else 0
        if not r.ok:
            raise HarnessError(f'TLC failed on {module}:\n' + r.text[r.text.find('Error'):][:3000])
        if r.distinct != len(events) + chunks:
            raise HarnessError(
                f'{module}: {r.distinct} states for {len(events)} events\n' + r.text[-3000:]
            )
        return r, [(events[p - 1], v) for p, v in r.bad]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def patient(f, items):
    """f of the items; where there is no answer, an event that says so and nothing more."""
    out = []
    for item in items:
        if STUCK.is_set():
            break
        try:
            with patience():
                out.append(f(item))
        except NoAnswer:
            STUCK.set()
            out.append({'op': 'noanswer', 'noanswer': True, 'item': repr(item)[:2000]})
    return out


def fork_map(f, items, workers=8, fresh=True, chunk=1):
    """f(item) for all items, in forked children (a new one for each if fresh)."""
    import functools
    import multiprocessing

    global STUCK
    if not items:
        return []
    sys.stdout.flush()
    ctx = multiprocessing.get_context('fork')
    STUCK = ctx.Event()
    with ctx.Pool(workers, maxtasksperchild=1 if fresh else None) as pool:
        chunks = [items[i:i + chunk] for i in range(0, len(items), chunk)]
        it = pool.imap(functools.partial(patient, f), chunks)
        out, wall = [], time.time() + 700
        try:
            for ch in chunks:
                got = it.next(max(1, wall - time.time()) if TIER == 'quick' else None)
                for x in got:
                    if isinstance(x, dict) and 'noanswer' in x:
                        raise Stuck(x)
                out.extend(got)
        except multiprocessing.TimeoutError:   # not even the timer gets through
            raise Stuck({'op': 'noanswer', 'noanswer': True, 'item': repr(ch)[:2000]}) from None
    return out


def known_findings():
    """Entries of the committed known-findings file."""
    out = []
    with open(os.path.join(VERIF, 'known_findings.json')) as f:
        for x in json.load(f):
            out.append(x)
    return out


class Check:
    """One run of the check of one property."""

    def __init__(self, prop, tier, level='model_checking'):
        global TIER
        TIER = tier
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.rng = random.Random(f'{SEED}:{prop}')
        self.states = self.transitions = self.traces = 0
        self.samples, self.viol, self.known = [], [], []
        self.cov, self.assumptions = {}, []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def add_tlc(self, r):
        self.states += r.distinct
        self.transitions += r.generated

    def judge(self, module, events, describe=None, **k):
        """Validate events, sort the rejected ones in known and new."""
        t = time.time()
        r, bad = validate(module, events, **k)
        self.add_tlc(r)
        self.traces += len(events)
        c = self.cov.setdefault('modules', {}).setdefault(module, {'events': 0, 'rejected': 0, 'tlc_wall_s': 0.0})
        c['events'] += len(events)
        c['rejected'] += len(bad)
        c['tlc_wall_s'] = round(c['tlc_wall_s'] + r.wall, 2)
        ops = self.cov.setdefault('events_per_operation', {})
        for e in events:
            key = f"{e.get('m', '') if isinstance(e.get('m', ''), str) else ''}.{e.get('f', e.get('op', '?'))}".strip('.')
            ops[key] = ops.get(key, 0) + 1
        if events and len(self.samples) < 4:
            self.samples.append(events[self.rng.randrange(len(events))])
        for e, v in bad:
            self.reject(e, v)
        return r, bad

    def reject(self, event, clauses):
        for kf in known_findings():
            if kf.get('status') == 'known' and kf['property'] == self.prop and matches(kf['match'], event, clauses):
                self.known.append((kf, event))
                return
        self.viol.append({'event': event, 'clauses': clauses})

    def finish(self):
        """Print the verdict, write the evidence and return the exit code."""
        seen = []
        for kf, _ in self.known:
            if kf['id'] not in seen:
                seen.append(kf['id'])
                n = sum(1 for k, _ in self.known if k['id'] == kf['id'])
                print(f"KNOWN-FINDING: property={self.prop} {kf['id']}: {kf['what']} ({n} observations)")
        cov = {
            'states': self.states,
            'transitions': self.transitions,
            'traces_validated_against_impl': self.traces,
            'samples': [x if len(json.dumps(x)) < 100000 else json.dumps(x)[:2000] for x in self.samples[:4]],
            'known_finding_observations': len(self.known),
        }
        cov.update(self.cov)
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': SEED, 'level': self.level,
            'coverage': cov, 'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viol),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{self.prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        rep = os.path.join(VERIF, 'evidence', f'{self.prop}_replay.json')
        if self.viol:
            with open(rep, 'w') as f:
                json.dump({
                    'property': self.prop, 'seed': SEED, 'tier': self.tier,
                    'how': f'VERIF_SEED={SEED} sh check.sh {self.prop} {self.tier}',
                    'violations': self.viol[:200],
                }, f, indent=1)
            for v in self.viol[:5]:
                print('  rejected:', json.dumps(v)[:600])
            print(f'{len(self.viol)} of the observations are not allowed by the specification')
            print(f'VIOLATION property={self.prop} replay={rep}')
            return 1
        if os.path.exists(rep):
            os.remove(rep)
        print(f'{self.prop} ({self.tier}) held: {self.traces} observations of the code judged, '
              f'{self.states} states, {time.time() - self.t0:.1f} s')
        return 0


def matches(pattern, event, clauses):
    """A known finding names fields of the event and the clauses that fail."""
    for k, v in pattern.items():
        if k == 'clauses':
            if isinstance(v, list):   # these clauses and no others
                if not set(re.findall('"([^"]*)"', clauses)) <= set(v):
                    return False
            elif v not in clauses:
                return False
            continue
        cur = event
        for part in k.split('.'):
            if not isinstance(cur, dict) or part not in cur:
                return False
            cur = cur[part]
        if isinstance(v, list):
            if cur not in v:
                return False
        elif cur != v:
            return False
    return True
