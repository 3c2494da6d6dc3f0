"""Drive real goats through its public API, one JSON operation at a time."""

import os
import pathlib

import numpy

from . import loader, units


def decode(value):
    """JSON form of a constraint -> what a user would type."""
    if isinstance(value, dict):
        if 'slice' in value:
            return slice(*value['slice'])
        if 'range' in value:
            return range(*value['range'])
        if 'measure' in value:
            return tuple(value['measure'])
        raise ValueError(value)
    return value


FORMS = ['list', 'nested', 'nestedlist', 'pairs', 'vector', 'measurement']
SEQUENCES = ['tuple', 'array']


def dress(value, form):
    """The same constraint, written in another way."""
    if form is None:
        return value
    if isinstance(value, list):
        return tuple(value) if form == 'tuple' else (
            numpy.array(value) if form == 'array' else value)
    if not isinstance(value, tuple):
        return value
    from goats.core import measurable, physical
    *numbers, unit = value
    if form == 'list':
        return list(value)
    if form == 'nested':
        return (list(numbers), unit)
    if form == 'nestedlist':
        return [list(numbers), unit]
    if form == 'pairs':
        return [(x, unit) for x in numbers]
    if form == 'vector':
        return (physical.Vector(numbers, unit=unit) if len(numbers) > 1
                else physical.Scalar(numbers[0], unit=unit))
    if form == 'measurement':
        return measurable.measure(*value)
    return value


def arguments(op):
    """The constraints of an operation as a user would pass them."""
    forms = op.get('forms', {})
    return {k: dress(decode(v), forms.get(k))
            for k, v in op.get('cons', {}).items()}


def unit_tokens(unit):
    """What a unit means: its SI factor and dimensions where they are known."""
    if unit is None:
        return None
    known = units.parse(unit)
    if known is None:
        return ' '.join(sorted(str(unit).split()))
    nuc = 'nuc ' if 'nuc' in str(unit) else ''
    return f'{nuc}{known[0]:.10e} {known[1]}'


def text(unit):
    """The unit as printed (never compared, only parsed)."""
    return None if unit is None else str(unit)


def numbers(array):
    arr = numpy.array(array)
    if arr.dtype.kind in 'US' or arr.dtype == object:
        return {'shape': list(arr.shape), 'text': [str(i) for i in arr.ravel()]}
    return {'shape': list(arr.shape), 'values': [float(i) for i in arr.ravel()]}


def canon_scalar(this):
    unit = getattr(this, 'unit', None)
    data = getattr(this, 'data', this)
    try:
        value = float(this)
    except (TypeError, ValueError):
        value = str(data)
    return {'value': value, 'unit': unit_tokens(unit), '_unit': text(unit)}


def canon_observation(obs):
    """Everything a user can see of an observation."""
    dims = [str(d) for d in obs.dimensions]
    axes = {}
    for d in dims:
        try:
            axis = obs[d]
        except (MemoryError, OSError, RuntimeError):
            raise       # what faults and aborts look like
        except Exception as err:
            axes[d] = {'error': type(err).__name__}
            continue
        if hasattr(axis, 'data') and isinstance(
            axis.data, (list, tuple)
        ) and any(isinstance(i, str) for i in axis.data):
            axes[d] = {'text': [str(i) for i in axis.data]}
        elif type(axis).__name__ == 'Observation':
            axes[d] = {'observation': True}
        else:
            axes[d] = dict(
                numbers(axis), unit=unit_tokens(getattr(axis, 'unit', None)),
                _unit=text(getattr(axis, 'unit', None)))
    assumptions = {}
    for p in obs.parameters:
        assumptions[str(p)] = canon_scalar(obs[p])
    return {
        'data': numbers(obs.data),
        'array': numbers(obs.array),
        'unit': unit_tokens(obs.unit),
        '_unit': text(obs.unit),
        'dims': dims,
        'axes': axes,
        'assumptions': assumptions,
    }


def canon_quantity(q):
    """A variable, argument or similar object."""
    kind = type(q).__name__
    if kind == 'Argument':
        data = q.data
        try:
            data = numbers(data)
        except Exception:
            data = str(data)
        return {'kind': kind, 'data': data, 'unit': unit_tokens(q.unit),
                '_unit': text(q.unit)}
    if hasattr(q, 'dimensions'):
        return {
            'kind': 'Quantity', 'data': numbers(q),
            'unit': unit_tokens(q.unit), '_unit': text(q.unit),
            'dims': [str(d) for d in q.dimensions],
        }
    return {'kind': kind, 'data': numbers(q),
            'unit': unit_tokens(getattr(q, 'unit', None)),
            '_unit': text(getattr(q, 'unit', None))}


class Session:
    """One user's session with goats."""

    def __init__(self, root):
        from goats import eprem
        self.eprem = eprem
        self.root = root
        self.places = {}        # directories that are elsewhere
        self.observers = {}
        self.held = {}
        self.results = {}

    # -- paths -----------------------------------------------------------

    def source(self, op):
        if op.get('dir') is None:
            return None
        full = self.full(op['dir'])
        how = op.get('how', 'path')
        if how == 'path':
            return pathlib.Path(full)
        if how == 'str':
            return full
        if how == 'rel':
            return os.path.relpath(full)
        if how == 'relpath':
            return pathlib.Path(os.path.relpath(full))
        raise ValueError(how)

    def config(self, op):
        cfg = op.get('cfg')
        if cfg is None or isinstance(cfg, str):
            return cfg
        d, name = cfg
        return os.path.join(self.full(d), name)

    def full(self, d):
        return self.places.get(d) or os.path.join(self.root, d)

    # -- operations --------------------------------------------------------

    def run(self, op):
        """Run one operation; every outcome is a JSON-able dictionary."""
        try:
            result = getattr(self, 'op_' + op['op'])(op)
        except Exception as err:
            return {'error': type(err).__name__, 'message': loader.message(err)}
        return {'ok': result}

    def op_new(self, op):
        cls = getattr(self.eprem, op['cls'])
        kwargs = {}
        if op.get('dir') is not None:
            kwargs['source'] = self.source(op)
        if op.get('cfg') is not None:
            kwargs['config'] = self.config(op)
        if op.get('system') is not None:
            kwargs['system'] = op['system']
        self.observers[op['o']] = cls(op['id'], **kwargs)
        return True

    def op_update(self, op):
        kwargs = {}
        if op.get('dir') is not None:
            kwargs['source'] = self.source(op)
        if op.get('cfg') is not None:
            kwargs['config'] = self.config(op)
        this = self.observers[op['o']]
        return this.update(**kwargs) is this

    def op_paths(self, op):
        this = self.observers[op['o']]

        def rel(p):
            if p is None:
                return None
            for d, full in self.places.items():
                if str(p).startswith(os.path.join(full, '')):
                    return os.path.join(d, os.path.relpath(str(p), full))
            return os.path.relpath(str(p), self.root)

        return {'data': rel(this.datapath), 'conf': rel(this.confpath)}

    def observable(self, op):
        this = self.observers[op['o']][op['name']]
        for unit in op.get('units', ()):
            this = this[unit]
        return this

    def op_observe(self, op):
        cons = arguments(op)
        result = self.observable(op).observe(**cons)
        for unit in op.get('post', ()):
            result = result[unit]
        if 'r' in op:
            self.results[op['r']] = result
        return canon_observation(result)

    def op_hold(self, op):
        self.held[op['h']] = self.observable(op)
        return True

    def op_hobserve(self, op):
        this = self.held[op['h']]
        for unit in op.get('units', ()):
            this = this[unit]
        cons = arguments(op)
        result = this.observe(**cons)
        for unit in op.get('post', ()):
            result = result[unit]
        if 'r' in op:
            self.results[op['r']] = result
        return canon_observation(result)

    def op_result(self, op):
        result = self.results[op['r']]
        for unit in op.get('post', ()):
            result = result[unit]
        return canon_observation(result)

    def op_meta(self, op):
        this = self.observable(op)
        return {
            'unit': unit_tokens(this.unit), '_unit': text(this.unit),
            'dims': [str(d) for d in this.dimensions],
            'parameters': sorted(str(p) for p in this.parameters),
        }

    def op_axis(self, op):
        this = getattr(self.observers[op['o']], op['name'])
        for unit in op.get('units', ()):
            this = this[unit]
        return canon_quantity(this)

    def op_item(self, op):
        return canon_quantity(self.observers[op['o']][op['key']])

    def op_observables(self, op):
        return sorted(
            ' | '.join(sorted(str(i) for i in g))
            for g in self.observers[op['o']].observables
        )

    def op_chdir(self, op):
        os.chdir(os.path.join(self.root, op['dir']))
        return True


def close(a, b, rtol=1e-9):
    if a == b:
        return True
    if a != a and b != b:
        return True
    if a in (float('inf'), float('-inf')) or b in (float('inf'), float('-inf')):
        return False
    return abs(a - b) <= rtol*max(abs(a), abs(b))


def differ(a, b, rtol=1e-9, path=''):
    """First difference between two canonical results, or None."""
    if isinstance(a, float) and isinstance(b, (int, float)) or (
        isinstance(b, float) and isinstance(a, (int, float))
    ):
        return None if close(a, b, rtol) else f'{path}: {a!r} != {b!r}'
    if type(a) is not type(b):
        return f'{path}: {a!r} != {b!r}'[:300]
    if isinstance(a, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k == 'message' or k.startswith('_'):
                continue
            if k not in a or k not in b:
                return f'{path}.{k}: only on one side'
            found = differ(a[k], b[k], rtol, f'{path}.{k}')
            if found:
                return found
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f'{path}: length {len(a)} != {len(b)}'
        for i, (x, y) in enumerate(zip(a, b)):
            found = differ(x, y, rtol, f'{path}[{i}]')
            if found:
                return found
        return None
    return None if a == b else f'{path}: {a!r} != {b!r}'[:300]
