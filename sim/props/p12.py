"""P12: quantities are values: what is made from one never changes it."""

import os

import numpy

from .. import engine, loader, seams, units, world
from . import common

KINDS = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}
FAULTS = ['EIO', 'HDF', 'MemoryError', 'EINTR']

UNITS = {
    'length': ['m', 'km', 'cm', 'au'],
    'time': ['s', 'day', 'h', 'min'],
    'mass': ['kg', 'g'],
    'energy': ['J', 'erg', 'MeV'],
    'speed': ['m / s', 'km / h', 'cm / s'],
    'density': ['g / cm^3', 'kg / m^3'],
}
NAMES = ['x', 'y', 'z']
SIZES = {'x': 2, 'y': 3, 'z': 3}
ARRAYS = ('array', 'larray', 'variable', 'lvariable', 'file')
TINY = 1e-9


def size_of(unit):
    return units.parse(units.plain(unit))


# ------------------------------------------------------------------ the model

class Model:
    """Values in SI units, physical dimensions, names of the axes."""

    def __init__(self, kind, si, what, names=None):
        self.kind = kind
        self.si = numpy.array(si, dtype=float)
        self.what = tuple(what)
        self.names = list(names or [])
        self.unit = None        # the unit it must be printed in, if fixed
        self.group = None       # where its units come from, if known
        self.mag = float(numpy.max(numpy.abs(self.si))) if self.si.size else 0.
        self.maybe = False      # may as well be refused

    def like(self, si, what=None, names=None, kind=None):
        return Model(kind or self.kind, si, self.what if what is None else
                     what, self.names if names is None else names)


def picked(text, n):
    """JSON form of one index -> a user's index."""
    if isinstance(text, dict):
        return slice(*text['slice'])
    if text == '...':
        return Ellipsis
    return text


def subscript(model, index, single):
    """What a subscript selects, or None if goats need not accept it."""
    these = [picked(i, None) for i in index]
    nd = model.si.ndim
    if Ellipsis in [i for i in these if i is Ellipsis]:
        k = [i is Ellipsis for i in these].index(True)
        these[k:k+1] = [slice(None)]*(nd - len(these) + 1)
    these += [slice(None)]*(nd - len(these))
    if len(these) != nd:
        return None
    keep = model.names or any(isinstance(i, list) for i in these)
    out = model.si
    for ax, i in enumerate(these):
        if isinstance(i, int):
            i = [i]
        out = out[(slice(None),)*ax + (i,)]
    if not keep:
        drop = tuple(ax for ax, i in enumerate(these) if isinstance(i, int))
        out = out.squeeze(axis=drop) if drop else out
    return out


def spread(a, names, full):
    """View an array on a larger set of axes."""
    order = [n for n in full if n in names]
    out = a.transpose([names.index(n) for n in order])
    shape = [a.shape[names.index(n)] if n in names else 1 for n in full]
    return out.reshape(shape)


def combine(f, p, q):
    """The model of p f q; None where it has to be refused."""
    if f in '+-':
        if p.what != q.what:
            return None
        sure = p.unit is not None and q.unit is not None
        if sure and p.unit != q.unit:
            return None
        if p.names != q.names:
            if sorted(p.names) != sorted(q.names):
                return None
            other = spread(q.si, q.names, p.names)
        else:
            other = q.si
        out = p.like(p.si + other if f == '+' else p.si - other)
        out.unit = p.unit
        out.maybe = not sure
        return out
    s = 1 if f == '*' else -1
    what = tuple(a + s*b for a, b in zip(p.what, q.what))
    if p.names or q.names:
        full = p.names + [n for n in q.names if n not in p.names]
        a, b = spread(p.si, p.names, full), spread(q.si, q.names, full)
    else:
        full, a, b = [], p.si, q.si
    return p.like(a*b if s == 1 else a/b, what, full)


# ------------------------------------------------------------- the real thing

def family(kind):
    return {'larray': 'array', 'lvariable': 'variable',
            'file': 'variable'}.get(kind, kind)


def create(env, op):
    from goats.core import datafile, index, measurable, physical, variable
    kind = op['kind']
    if kind == 'axis':
        data = index.Data(range(len(op['v'])), values=numpy.array(op['v']))
        return index.Array(data, unit=op['unit'])
    if kind == 'measured':
        return measurable.Scalar(op['v'], unit=op['unit'])
    if kind == 'scalar':
        return physical.Scalar(op['v'], unit=op['unit'])
    if kind == 'vector':
        return physical.Vector(list(op['v']), unit=op['unit'])
    if kind == 'array':
        return physical.Array(numpy.array(op['v']), unit=op['unit'])
    if kind == 'larray':
        return physical.Array(op['v'], unit=op['unit'])
    if kind == 'variable':
        return variable.Quantity(numpy.array(op['v']), unit=op['unit'],
                                 dimensions=op['names'])
    if kind == 'lvariable':
        return variable.Quantity(op['v'], unit=op['unit'],
                                 dimensions=tuple(op['names']))
    path = os.path.join(env.base, *op['path'])
    found = datafile.Interface(path).variables[op['var']]
    return variable.Quantity(found.data, unit=op['unit'],
                             dimensions=found.axes if hasattr(found, 'axes')
                             else found.dimensions)


def view(q):
    """Everything a user can see of a quantity."""
    if isinstance(q, numpy.ndarray) or not hasattr(q, 'unit'):
        arr = numpy.array(q, dtype=float)
        return {'shape': list(arr.shape),
                'values': [float(i) for i in arr.ravel()], 'bare': True}
    if hasattr(q, 'dimensions'):
        arr = numpy.array(q)
        assert list(q.shape) == list(arr.shape), 'shape'
        assert q.ndim == arr.ndim, 'ndim'
        names = [str(d) for d in q.dimensions]
    elif type(q).__module__ == 'goats.core.index':
        arr = numpy.array(q)
        assert len(q) == len(arr), 'len'
        assert list(q) == list(range(len(arr))), 'points'
        names = []
    elif hasattr(q, '_array'):
        arr = numpy.array(q)
        assert list(q.shape) == list(arr.shape), 'shape'
        names = []
    elif hasattr(q, '__len__'):
        arr = numpy.array(q.data)
        assert len(q) == len(arr), 'len'
        names = []
    else:
        arr = numpy.array(float(q))
        names = []
    return {'shape': list(arr.shape), 'names': names,
            'values': [float(i) for i in arr.ravel()], '_unit': str(q.unit),
            'kind': type(q).__name__}


APPLY = {'+': lambda a, b: a + b, '-': lambda a, b: a - b,
         '*': lambda a, b: a * b, '/': lambda a, b: a / b}


def inplace(f, a, b):
    if f == '+':
        a += b
    elif f == '-':
        a -= b
    elif f == '*':
        a *= b
    else:
        a /= b
    return a


def perform(env, pool, op):
    """Do it; the result (not yet stored)."""
    kind = op['op']
    if kind == 'make':
        return create(env, op)
    q = pool[op['a']]
    if kind == 'look':
        return q
    if kind == 'convert':
        return q[op['unit']]
    if kind == 'sub':
        these = tuple(picked(i, None) for i in op['index'])
        return q[these[0] if op.get('single') else these]
    if kind == 'copy':
        return type(q)(q)
    if kind == 'arith':
        return APPLY[op['f']](q, pool[op['b']])
    if kind == 'scale':
        k = op['k']
        return {'l': lambda: k*q, 'r': lambda: q*k, 'd': lambda: q/k,
                'n': lambda: -q, 'a': lambda: abs(q),
                'p': lambda: q**2}[op['how']]()
    if kind == 'squeeze':
        return numpy.squeeze(q)
    if kind == 'mean':
        return numpy.mean(q, **({} if op['axis'] is None
                                else {'axis': op['axis']}))
    if kind == 'inplace':
        return inplace(op['f'], type(q)(q), pool[op['b']])
    if kind == 'scribble':
        arr = numpy.asarray(q)
        if arr.flags.writeable:
            arr[...] = -12345.0
        return q
    raise ValueError(kind)


# ------------------------------------------------------------------ the checks

def expected(pool, op, files):
    """Model of the result; None if it has to be refused."""
    m = derived(pool, op, files)
    if m is not None and 'a' in op:
        # rounding errors scale with what went into a result
        p = pool[op['a']].mag
        q = pool[op['b']] if 'b' in op else None
        f = op.get('f')
        if f in ('+', '-'):
            p = max(p, q.mag)
        elif f == '*':
            p = p*q.mag
        elif f == '/':
            p = p/float(numpy.min(numpy.abs(q.si)))
        elif op.get('how') == 'p':
            p = p*p
        elif op['op'] == 'scale':
            p = p*max(op['k'], 1)
        m.mag = max(m.mag, p)
    return m


def derived(pool, op, files):
    kind = op['op']
    if kind == 'make':
        factor, what = size_of(op['unit'])
        v = files(op) if op['kind'] == 'file' else op['v']
        names = op.get('names', [])
        m = Model(op['kind'], numpy.array(v, dtype=float)*factor, what, names)
        m.unit, m.group = op['unit'], op['group']
        return m
    p = pool[op['a']]
    if kind in ('look', 'scribble', 'copy'):
        m = p.like(p.si)
        m.unit, m.group = p.unit, p.group
        return m
    if kind == 'convert':
        if op['unit'] in ('mks', 'cgs'):
            m = p.like(p.si)
            m.group = p.group
            m.maybe = p.group is None   # 'min h' and the like
            return m
        factor, what = size_of(op['unit'])
        if what != p.what:
            return None
        m = p.like(p.si)
        m.unit, m.group = op['unit'], p.group
        m.maybe = p.group is None
        return m
    if kind == 'sub':
        out = subscript(p, op['index'], op.get('single'))
        m = p.like(out)
        m.unit, m.group = p.unit, p.group
        return m
    if kind in ('arith', 'inplace'):
        return combine(op['f'], p, pool[op['b']])
    if kind == 'scale':
        k = op['k']
        si = {'l': p.si*k, 'r': p.si*k, 'd': p.si/k, 'n': -p.si,
              'a': abs(p.si), 'p': p.si**2}[op['how']]
        if op['how'] == 'p':
            return p.like(si, tuple(2*x for x in p.what))
        m = p.like(si)
        m.unit, m.group = p.unit, p.group
        return m
    if kind == 'squeeze':
        m = p.like(p.si.squeeze(), names=[
            n for n, s in zip(p.names, p.si.shape) if s != 1])
        m.unit, m.group = p.unit, p.group
        return m
    if kind == 'mean':
        axis = op['axis']
        m = p.like(p.si.mean(axis=axis), names=[] if axis is None else [
            n for i, n in enumerate(p.names) if i != axis])
        m.unit, m.group = p.unit, p.group
        return m
    raise ValueError(kind)


def differs(model, got):
    """How a quantity differs from what it has to be."""
    if 'error' in got:
        return f'refused: {got["error"]}'
    if got['shape'] != list(model.si.shape):
        return f'shape {got["shape"]}, expected {list(model.si.shape)}'
    if got.get('bare'):
        if model.unit is None:
            return None
        factor = size_of(model.unit)[0]
    else:
        have = units.parse(got['_unit'])
        if have is None:
            return f'unit {got["_unit"]!r}'
        if any(abs(a - b) > 1e-9 for a, b in zip(have[1], model.what)):
            return f'unit {got["_unit"]!r}, expected {model.what}'
        factor = have[0]
        if model.unit is not None:
            want = size_of(model.unit)[0]
            if abs(factor - want) > TINY*want:
                return f'unit {got["_unit"]!r}, expected {model.unit!r}'
        if model.names and got['names'] != model.names:
            return f'axes {got["names"]}, expected {model.names}'
    want = model.si.ravel()
    have = numpy.array(got['values'])*factor
    if not numpy.all(numpy.abs(have - want) <= 1e-7*numpy.abs(want)
                     + 1e-9*model.mag):
        return (f'values {got["values"][:6]} in {got.get("_unit")!r}, '
                f'expected {(want/factor)[:6].tolist()}')
    return None


class P12(engine.Base):

    ID = 'P12'
    RUNS = (1200, 60000)
    BUDGET = (300, 2400)
    RULE = ('distinct (operation, kinds and shapes of its operands, fault or '
            'abort point that struck it or its predecessor)')
    REAL = ['goats.core.physical', 'goats.core.variable',
            'goats.core.measurable', 'goats.core.metadata',
            'goats.core.metric', 'goats.core.datafile', 'netCDF4', 'numpy']
    STUBBED = ['aborts are raised by the instrumented statement points',
               'I/O errors are raised at the netCDF4 seams']
    MODULES = ('goats.core.physical', 'goats.core.variable',
               'goats.core.measurable', 'goats.core.datafile')

    def warm(self, env):
        import random
        for i in range(6):
            scenario = self.scenario(random.Random(f'warm{i}'), env, 'quick',
                                     i)
            self.execute(env, scenario, None, None)

    # -- data files ----------------------------------------------------------

    def content(self, env, path, var):
        """The values in a data file, read without goats."""
        memo = self.__dict__.setdefault('_files', {})
        key = (tuple(path), var)
        if key not in memo:
            ds = seams.REAL['Dataset'](os.path.join(env.base, *path), 'r')
            v = ds.variables[var]
            memo[key] = [str(d) for d in v.dimensions], numpy.array(
                v[...], dtype=float)
            ds.close()
        return memo[key]

    def files(self, env):
        return lambda op: self.content(env, op['path'], op['var'])[1]

    # -- scenarios -------------------------------------------------------------

    def scenario(self, rng, env, tier, index):
        ops, pool = [], {}
        lookup = self.files(env)
        disturbed = rng.random() < 0.7
        fresh = rng.choice([0.05, 0.15, 0.3])
        mix = rng.choice(['any', 'variable', 'variable', 'array', 'small'])

        def values(shape):
            if not shape:
                return round(rng.uniform(0.5, 9.0), 3)
            return [values(shape[1:]) for _ in range(shape[0])]

        def make():
            group = rng.choice(sorted(UNITS))
            unit = rng.choice(UNITS[group])
            kinds = {
                'any': ['measured', 'scalar', 'vector', 'axis', *ARRAYS],
                'variable': ['variable', 'lvariable', 'file', 'file'],
                'array': ['array', 'larray', 'array', 'larray', 'axis'],
                'small': ['measured', 'scalar', 'vector'],
            }[mix]
            kind = rng.choice(kinds)
            op = {'op': 'make', 'kind': kind, 'unit': unit, 'group': group}
            if kind in ('measured', 'scalar'):
                op['v'] = values(())
            elif kind in ('vector', 'axis'):
                op['v'] = values((rng.choice([1, 3, 3]),))
            elif kind in ('array', 'larray'):
                op['v'] = values(rng.choice(
                    [(3,), (2, 3), (2, 3), (2, 3, 3), (1, 3)]))
            elif kind in ('variable', 'lvariable'):
                names = rng.sample(NAMES, rng.choice([1, 2, 2, 3]))
                mates = [m for m in pool.values()
                         if len(m.names) > 1 and m.unit and m.group
                         and set(m.names) <= set(NAMES)]
                if mates and rng.random() < 0.6:
                    m = rng.choice(mates)
                    names = rng.sample(m.names, len(m.names))
                    op.update(unit=m.unit, group=m.group)
                op['names'] = names
                op['v'] = values(tuple(SIZES[n] for n in names))
            else:
                d = rng.choice(['A', 'B', 'C'])
                op['path'] = [d, 'obs000000.nc']
                op['var'] = rng.choice(['R', 'T', 'P', 'Br', 'Rho', 'Vr'])
                try:
                    op['names'] = self.content(env, op['path'], op['var'])[0]
                except KeyError:
                    return None
            return op

        def one_index(n):
            x = rng.random()
            if x < 0.3:
                return rng.randrange(-n, n) if n else 0
            if x < 0.6:
                return {'slice': [None, None, None]}
            lo = rng.choice([None, 0, 1, -1, -2])
            hi = rng.choice([None, 1, 2, n, -1, n + 3])
            return {'slice': [lo, hi, rng.choice([None, None, 1, 2])]}

        def index_for(m):
            shape = m.si.shape
            nd = len(shape)
            x = rng.random()
            if x < 0.3 and nd >= 2:
                # lists, with slices or an ellipsis
                out = []
                for n in shape:
                    if rng.random() < 0.5:
                        out.append([rng.randrange(n) for _ in range(
                            rng.choice([1, 2, 2, 3]))])
                    else:
                        i = one_index(n)
                        while isinstance(i, int):
                            i = one_index(n)
                        out.append(i)
                if not any(isinstance(i, list) for i in out):
                    k = rng.randrange(nd)
                    out[k] = [rng.randrange(shape[k]) for _ in range(2)]
            else:
                out = [one_index(n) for n in shape]
                if rng.random() < 0.2:
                    out = out[:rng.randint(1, nd)]
            if rng.random() < 0.3 and len(out) >= 2:
                k = rng.randrange(len(out))
                j = rng.randint(k, len(out))
                if len(out) == nd:
                    cut = out[:k] + ['...'] + out[j:]
                    lists = [i for i in cut if isinstance(i, list)]
                    if (lists or not any(isinstance(i, list) for i in out)
                            ) and len(cut) >= 2:
                        out = cut
            return out

        def derive():
            slots = list(pool)
            # chains are more telling than bushes
            a = rng.choice(slots if rng.random() < 0.5 else slots[-2:])
            m = pool[a]
            kind = family(m.kind)
            x = rng.random()
            if kind == 'axis' and x >= 0.25:
                return {'op': rng.choice(['copy', 'look', 'scribble']),
                        'a': a}
            if m.group and rng.random() < 0.2:
                # conversions and copies of each other
                x = rng.choice([0.0, 0.5])
            if x < 0.25:
                unit = rng.choice(
                    (UNITS[m.group] if m.group else []) + ['mks', 'cgs'])
                if rng.random() < 0.1:
                    unit = rng.choice(UNITS[rng.choice(sorted(UNITS))])
                return {'op': 'convert', 'a': a, 'unit': unit}
            if x < 0.45 and kind in ('array', 'variable') and m.si.ndim:
                if any(n == 0 for n in m.si.shape):
                    return None
                index = index_for(m)
                op = {'op': 'sub', 'a': a, 'index': index}
                if len(index) == 1 and not isinstance(index[0], list):
                    op['single'] = rng.random() < 0.7
                return op
            if x < 0.53:
                return {'op': 'copy', 'a': a}
            if x < 0.78:
                mates = [s for s in slots if family(pool[s].kind) == kind]
                b = rng.choice(mates)
                f = rng.choice(['+', '-', '*', '*', '/'])
                if f in '+-' and rng.random() < 0.8:
                    close = [s for s in mates if pool[s].unit
                             and pool[s].unit == m.unit
                             and sorted(pool[s].names) == sorted(m.names)]
                    b = rng.choice(close or mates)
                n = pool[b]
                if f == '/' and (n.si.size == 0 or numpy.any(n.si == 0)):
                    return None
                if max(map(abs, m.what + n.what)) > 3:
                    return None
                if kind == 'variable':
                    for name in set(m.names) & set(n.names):
                        if (m.si.shape[m.names.index(name)]
                                != n.si.shape[n.names.index(name)]):
                            return None
                    if len(set(m.names) | set(n.names)) > 4:
                        return None
                elif m.si.shape != n.si.shape:
                    return None
                small = kind in ('measured', 'scalar', 'vector')
                return {'op': 'inplace' if small and rng.random() < 0.4
                        else 'arith', 'a': a, 'b': b, 'f': f}
            if x < 0.88:
                how = rng.choice(['l', 'r', 'd', 'n', 'a', 'p'])
                if how == 'p' and max(map(abs, m.what)) > 3:
                    return None
                return {'op': 'scale', 'a': a, 'how': how,
                        'k': rng.choice([2.0, 0.5, 3, 10.0])}
            if x < 0.92 and kind in ('array', 'variable'):
                return {'op': 'scribble', 'a': a}
            if kind == 'variable' and m.si.ndim:
                if x < 0.96:
                    if all(s != 1 for s in m.si.shape) or (
                            all(s == 1 for s in m.si.shape)):
                        return None
                    return {'op': 'squeeze', 'a': a}
                if m.si.ndim > 1:
                    return {'op': 'mean', 'a': a,
                            'axis': rng.randrange(m.si.ndim)}
            return {'op': 'look', 'a': a}

        n = rng.randint(8, 30)
        while len(ops) < n:
            op = make() if len(pool) < 2 or rng.random() < fresh else derive()
            if op is None:
                continue
            m = expected(pool, op, lookup)
            if m is not None and (m.si.size > 400 or not numpy.all(
                    numpy.isfinite(m.si))):
                continue
            if disturbed and rng.random() < 0.5:
                for _ in range(rng.choice([1, 1, 2, 3])):
                    bad = dict(op, drop=True)
                    if rng.random() < 0.4 and mix in ('any', 'variable'):
                        bad['fault'] = {
                            'call': 'ncread', 'n': rng.choice([1, 1, 2]),
                            'count': rng.choice([1, 1, 9]),
                            'exc': rng.choice(FAULTS)}
                    else:
                        bad['abort'] = {
                            'at': rng.randint(1, rng.choice([10, 60, 400])),
                            'exc': rng.choice(sorted(KINDS))}
                    ops.append(bad)
                    if 'b' in op or 'a' in op:
                        ops.append({'op': 'look', 'a': op['a'],
                                    'drop': True})
            if m is None or m.maybe or op['op'] in ('look', 'scribble') or (
                    op['op'] == 'mean' and op['axis'] is None):
                ops.append(dict(op, drop=True))
                continue
            slot = f'q{len(pool)}'
            ops.append(dict(op, to=slot))
            pool[slot] = m
            if op['op'] == 'sub' and m.si.ndim == 0:
                m.kind = 'scalar'
        for slot in sorted(pool):
            ops.append({'op': 'look', 'a': slot, 'drop': True})
        return {'ops': ops}

    # -- execution ----------------------------------------------------------------

    def execute(self, env, scenario, work, prepared):
        os.chdir(env.base)
        pool, out = {}, []
        seams.SEAM.reset()
        for op in scenario['ops']:
            aborted = []
            seams.SEAM.fired = []
            if op.get('fault'):
                seams.SEAM.arm([op['fault']])
            if op.get('abort'):
                common.arm(op['abort'], aborted, KINDS)
            q = None
            try:
                if any(op.get(k) not in pool for k in 'ab' if k in op):
                    got = {'skipped': True}
                else:
                    q = perform(env, pool, op)
                    got = view(q)
            except KeyboardInterrupt:
                got = {'error': 'KeyboardInterrupt'}
            except AssertionError as err:
                loader.CONTROL.armed = False
                got = {'error': f'inconsistent {err}'}
            except Exception as err:
                loader.CONTROL.armed = False
                got = {'error': type(err).__name__,
                       'message': loader.message(err)}
            loader.CONTROL.armed = False
            seams.SEAM.disarm()
            if op.get('to') and q is not None:
                pool[op['to']] = q
            out.append({'got': got, 'fired': [
                *map(list, seams.SEAM.fired), *[[a] for a in aborted]]})
        return out

    def judge(self, env, scenario, outcome, work):
        _, history = outcome
        lookup = self.files(env)
        pool = {}
        violation = None
        seen, faults, ops = set(), {}, {}
        last = None
        for i, (op, rec) in enumerate(zip(scenario['ops'], history)):
            got = rec['got']
            if got.get('skipped') or any(
                    op.get(k) not in pool for k in 'ab' if k in op):
                continue
            m = expected(pool, op, lookup)
            if op.get('to') and m is not None and not m.maybe:
                pool[op['to']] = m
                if op['op'] == 'sub' and m.si.ndim == 0:
                    m.kind = 'scalar'
            ops[op['op']] = ops.get(op['op'], 0) + 1
            for f in rec['fired']:
                key = f[2] if len(f) == 3 else op['abort']['exc']
                faults[key] = faults.get(key, 0) + 1
            last = rec['fired'] or last
            seen.add(engine.digest([
                op['op'], op.get('f'), op.get('how'),
                [(pool[op[k]].kind, pool[op[k]].si.shape)
                 for k in 'ab' if k in op], last]))
            if rec['fired'] and 'error' in got:
                continue
            if m is None:
                why = None if 'error' in got else (
                    f'accepted: {got}, expected refusal')
            elif m.maybe and 'error' in got:
                why = None
            else:
                why = differs(m, got)
            if why and not violation:
                violation = {'kind': f'{op["op"]}', 'op': i,
                             'detail': [op, why]}
        return {
            'violation': violation, 'digest': engine.digest(history),
            'nontrivial': sorted(seen),
            'stats': {'operations': ops, 'faults': faults},
            'sample': scenario['ops'][:5],
        }
