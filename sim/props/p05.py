"""P05: units mean the same thing at any time, on any thread."""

import fractions
import json
import math
import random

import numpy

from .. import engine, loader, sched, session, units
from . import common

C = 2.99792458e10

GROUPS = {
    'length': ['m', 'km', 'cm', 'mm', 'au', 'um', 'nm', 'Mm', 'dm', 'hm',
               'meter', 'kilometer', 'centimeter'],
    'time': ['s', 'ms', 'min', 'h', 'day', 'd', 'hour', 'second', 'ks',
             'minute', 'ps', 'millisecond'],
    'energy': ['J', 'erg', 'eV', 'MeV', 'keV', 'GeV', 'kJ', 'TeV',
               'electronvolt', 'megaelectronvolt', 'joule'],
    'mass': ['kg', 'g', 'mg', 'ug', 'kilogram', 'gram', 'Mg'],
    'field': ['T', 'nT', 'G', 'uT', 'mG', 'nanotesla', 'gauss'],
    'charge': ['C', 'e', 'statC', 'uC', 'coulomb', 'statcoulomb'],
    'angle': ['rad', 'deg', 'radian', 'degree'],
    'force': ['N', 'dyn', 'kN', 'newton', 'dyne'],
    'current': ['A', 'mA', 'kA', 'ampere', 'statA'],
    'pressure': ['Pa', 'kPa', 'nPa', 'hPa', 'pascal'],
    'power': ['W', 'kW', 'MW', 'watt'],
    'frequency': ['Hz', 'kHz', 'GHz', 'hertz'],
    'voltage': ['V', 'mV', 'kV', 'volt', 'statV'],
    'temperature': ['K', 'MK', 'mK', 'kelvin'],
    'amount': ['mol', 'mmol', 'mole'],
    'flux': ['Wb', 'Mx', 'weber', 'mWb'],
    'radioactivity': ['Bq', 'Ci', 'kBq', 'mCi'],
    'dosage': ['Gy', 'mGy', 'gray'],
    'viscosity': ['P', 'cP', 'poise'],
    'capacitance': ['F', 'uF', 'nF', 'farad'],
    'inductance': ['H', 'mH', 'henry'],
    'conductance': ['S', 'mS'],
    'resistance': ['ohm', 'Ω', 'kΩ', 'mΩ'],
}
ELECTRIC_GROUPS = ('field', 'charge', 'current', 'voltage', 'flux',
                   'capacitance', 'inductance', 'conductance', 'resistance')
# quantities: exponents of (kg, m, s, A[, K, mol]); the mks unit is one of
# those, the cgs unit follows unless the quantity is electric
KNOWN = {
    'acceleration': (0, 1, -2, 0), 'area': (0, 2, 0, 0),
    'amount': (0, 0, 0, 0, 0, 1), 'capacitance': (-1, -2, 4, 2),
    'charge': (0, 0, 1, 1), 'charge density': (0, -3, 1, 1),
    'conductance': (-1, -2, 3, 2), 'conductivity': (-1, -3, 3, 2),
    'current': (0, 0, 0, 1), 'current density': (0, -2, 0, 1),
    'dosage': (0, 2, -2, 0), 'electric charge': (0, 0, 1, 1),
    'electric field': (1, 1, -3, -1), 'electromotance': (1, 2, -3, -1),
    'energy': (1, 2, -2, 0), 'energy density': (1, -1, -2, 0),
    'force': (1, 1, -2, 0), 'frequency': (0, 0, -1, 0),
    'impedance': (1, 2, -3, -2), 'inductance': (1, 2, -2, -2),
    'induction': (1, 0, -2, -1), 'length': (0, 1, 0, 0),
    'magnetic field': (1, 0, -2, -1), 'magnetic flux': (1, 2, -2, -1),
    'magnetic induction': (1, 0, -2, -1),
    'magnetic intensity': (0, -1, 0, 1), 'magnetic moment': (0, 2, 0, 1),
    'magnetization': (0, -1, 0, 1), 'magnetomotance': (0, 0, 0, 1),
    'mass': (1, 0, 0, 0), 'mass density': (1, -3, 0, 0),
    'momentum': (1, 1, -1, 0), 'momentum density': (1, -2, -1, 0),
    'number density': (0, -3, 0, 0), 'particle distribution': (0, -6, 3, 0),
    'permeability': (1, 1, -2, -2), 'permittivity': (-1, -3, 4, 2),
    'polarization': (0, -2, 1, 1), 'potential': (1, 2, -3, -1),
    'power': (1, 2, -3, 0), 'power density': (1, -1, -3, 0),
    'pressure': (1, -1, -2, 0), 'resistance': (1, 2, -3, -2),
    'resistivity': (1, 3, -3, -2), 'temperature': (0, 0, 0, 0, 1, 0),
    'thermal conductivity': (1, 1, -3, 0, -1, 0), 'time': (0, 0, 1, 0),
    'speed': (0, 1, -1, 0), 'vector potential': (1, 1, -2, -1),
    'velocity': (0, 1, -1, 0), 'viscosity': (1, -1, -1, 0),
    'volume': (0, 3, 0, 0), 'vorticity': (0, 0, -1, 0),
    'wavenumber': (0, -1, 0, 0), 'work': (1, 2, -2, 0),
    'identity': (0, 0, 0, 0), 'number': (0, 0, 0, 0), 'ratio': (0, 0, 0, 0),
    'reluctance': (-1, -2, 2, 2), 'radioactivity': (0, 0, -1, 0),
}
# what one unit of the first is worth in the second
ELECTRIC = [
    ('F', 'cm', C*C*1e-9), ('C', 'statC', C/10), ('S', 'cm / s', C*C*1e-9),
    ('A', 'statA', C/10), ('Wb', 'Mx', 1e8), ('T', 'G', 1e4),
    ('A / m', 'Oe', 4e-3*math.pi), ('V', 'statV', 1e8/C),
    ('J', 'erg', 1e7), ('N', 'dyn', 1e5), ('W', 'erg / s', 1e7),
    ('ohm', 's / cm', 1e9/C**2), ('H', 's^2 / cm', 1e9/C**2),
    ('A / Wb', '1 / cm', 4e-9*math.pi), ('Pa', 'dyn / cm^2', 10.0),
    ('kg / (m s)', 'P', 10.0), ('H / m', '1', 1e7/(4*math.pi)),
    ('C / m^2', 'statC / cm^2', C*1e-5), ('nuc', 'kg', units.NUC),
    ('amu', 'g', 1e3*units.NUC), ('C', 'A s', 1.0), ('V', 'J / C', 1.0),
    ('T', 'Wb / m^2', 1.0), ('J', 'N m', 1.0), ('W', 'J / s', 1.0),
    ('Pa', 'N / m^2', 1.0), ('N', 'kg m / s^2', 1.0),
    ('Bq', 'Ci', 1/3.7e10), ('Gy', 'erg / g', 1e4), ('kg', 'g', 1e3),
]
QUANTITIES = {
    'length': GROUPS['length'], 'time': GROUPS['time'],
    'energy': GROUPS['energy'], 'mass': GROUPS['mass'],
    'force': GROUPS['force'], 'magnetic induction': ['T', 'G', 'nT'],
    'charge': ['C', 'statC', 'e'], 'frequency': ['Hz', 'kHz'],
}
JUNK = ['foo', 'xyz', 'kgg', 'm // s', 'bar foo']
CANCEL = ['km / m', 'au cm^-1', 'mm^2 / m^2', 'eV / J', 'N m / J', 'h / s']
KINDS = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}


def spell(rng, terms):
    """One of the ways to write a product of powers."""
    terms = list(terms)
    rng.shuffle(terms)
    style = rng.randrange(4)
    up = [(s, p) for s, p in terms if p > 0]
    down = [(s, -p) for s, p in terms if p < 0]

    def one(s, p):
        return s if p == 1 else f'{s}^{p}'

    gap = rng.choice([' ', ' ', ' * '])
    if style == 0 or not down:
        return gap.join(one(s, p) for s, p in terms)
    top = gap.join(one(s, p) for s, p in up) or '1'
    slash = rng.choice(['/', ' / '])
    if len(down) == 1:
        return top + slash + one(*down[0])
    if style == 1:
        return top + ''.join(slash + one(s, p) for s, p in down)
    return top + slash + '(' + gap.join(one(s, p) for s, p in down) + ')'


def shape_of(rng):
    names = rng.sample(sorted(GROUPS), rng.choice([1, 1, 2, 2, 3, 4]))
    powers = [1, 1, 1, 2, 3, -1, -1, -2, -3]
    if rng.random() < 0.15:
        powers += [fractions.Fraction(n, 2) for n in (1, 3, -1, -3)]*2
    return [(g, rng.choice(powers)) for g in names]


def _mate(rng, shape):
    return spell(rng, [(rng.choice(GROUPS[g]), p) for g, p in shape])


def value_of(text):
    return units.parse(units.plain(text))


def pad(dims):
    return (*dims, 0.0, 0.0)[:6]


def trim(dims):
    dims = tuple(dims)
    return dims if any(dims[4:]) else dims[:4]


def make_request(rng, shapes):
    """A request about a few units (each spelled in a few ways)."""
    shape = rng.choice(shapes)
    x = rng.random()

    def mate(rng, shape):
        text = json.dumps(shape, default=str)
        return _mate(random.Random(f'{text}{rng.randrange(5)}'), shape)

    a, b = mate(rng, shape), mate(rng, shape)
    other = mate(rng, rng.choice(shapes))
    if x < 0.16:
        return {'op': 'conv', 'a': a, 'b': b}
    if x < 0.18:
        return tour(rng)
    if x < 0.21:
        u, v, _ = rng.choice(ELECTRIC)
        if rng.random() < 0.5:
            u, v = v, u
        return {'op': 'conv', 'a': u, 'b': v}
    if x < 0.23:
        return {'op': 'conv', 'a': a, 'b': rng.choice([other] + JUNK)}
    if x < 0.32:
        return {'op': 'unit', 'a': a}
    if x < 0.36:
        return {'op': 'unit', 'a': rng.choice(JUNK + CANCEL)}
    if x < 0.43:
        same = spell(rng, [(s, p) for s, p in parts(a)])
        return {'op': rng.choice(['eq', 'ne', 'or']), 'a': a,
                'b': rng.choice([b, same, other])}
    if x < 0.48:
        return {'op': 'floor', 'a': a, 'b': rng.choice([b, b, b, other])}
    if x < 0.56:
        return {'op': rng.choice(['mul', 'div']), 'a': a, 'b': other}
    if x < 0.60:
        return {'op': 'pow', 'a': a, 'n': rng.choice([2, 3, -1, -2, 1, 0.5])}
    if x < 0.66:
        return {'op': 'get', 'system': rng.choice(['mks', 'cgs']),
                'unit': rng.choice([a, mate(rng, shape)])}
    if x < 0.69:
        if rng.random() < 0.3:
            names = rng.sample(sorted(KNOWN), 12)
            return {'op': 'quantities', 'items': [
                [n, rng.choice(sorted(KNOWN))] for n in names]}
        return {'op': 'get', 'system': rng.choice(['mks', 'cgs']),
                'quantity': rng.choice(sorted(KNOWN) + [
                    'flux', 'fluence', 'Energy', 'nonsense', 'MASS'])}
    if x < 0.73:
        q = rng.choice(sorted(QUANTITIES))
        these = QUANTITIES[q]
        return {'op': 'qconv', 'q': q,
                'a': rng.choice(these + ['mks', 'cgs']),
                'b': rng.choice(these + ['mks', 'cgs'])}
    if x < 0.76:
        return {'op': 'const', 'name': rng.choice(
            ['c', 'e', 'eV', 'h', 'hbar', 'k', 'me', 'mp', 'G', 'mu0', 'ep0',
             'au', 'nope']), 'system': rng.choice(['mks', 'cgs'])}
    if x < 0.85:
        return {'op': 'convert', 'kind': rng.choice(
            ['scalar', 'vector', 'array', 'variable', 'measure']),
            'a': a, 'b': rng.choice([b, b, b, 'mks', 'cgs', other]),
            'v': [round(rng.uniform(-9, 9), 3) for _ in range(3)]}
    if x < 0.94:
        return {'op': 'arith', 'kind': rng.choice(
            ['scalar', 'vector', 'array', 'variable']),
            'a': a, 'b': rng.choice([a, a, b, other]),
            'f': rng.choice(['+', '-', '+', '*', '/', '<']),
            'v': [round(rng.uniform(1, 9), 3) for _ in range(3)],
            'w': [round(rng.uniform(1, 9), 3) for _ in range(3)]}
    x = rng.random()
    group = GROUPS[rng.choice(sorted(GROUPS))]
    if x < 0.3:
        return {'op': 'scribble', 'a': rng.choice(group), 'b': a}
    if x < 0.5:
        return {'op': 'reduction', 'a': a, 'system': rng.choice(
            ['mks', 'cgs', None])}
    if x < 0.7:
        return {'op': 'ratio', 'a': rng.choice(group), 'b': rng.choice(
            [rng.choice(group), rng.choice(group), 'm', 'foo'])}
    return {'op': 'named', 'a': rng.choice(group + JUNK[:2]),
            'b': rng.choice(group)}


def tour(rng):
    """Conversions between many units of one quantity."""
    group = rng.choice(sorted(GROUPS))
    bases = sorted({BASES[u] for u in GROUPS[group]})
    few = rng.choice([list('mk'), list('Mun'), rng.sample(units.ALL, 3)]) + ['']

    def one():
        u = rng.choice(bases)
        p = rng.choice(few)
        return p + u if p in list(units.BASE[u][2]) else u

    power = rng.choice(['', '', '', '^2', ' s', '^-1', '^1/2', '^-3/2'])
    target = one()
    return {'op': 'tour', 'pairs': [
        [one() + power, (target if rng.random() < 0.6 else one()) + power]
        for _ in range(12)]}


def parts(text):
    out = []
    for piece in units.plain(text).split():
        name, _, power = piece.partition('^')
        if name == '1':
            continue
        out.append((name, fractions.Fraction(power or '1')))
    return out


# ------------------------------------------------------------- the real thing

def words(text):
    return ' '.join(sorted(str(text).split()))


def show(unit):
    return {'unit': session.unit_tokens(unit), '_unit': str(unit)}


def build(kind, values, unit):
    from goats.core import measurable, physical, variable
    if kind == 'scalar':
        return physical.Scalar(values[0], unit=unit)
    if kind == 'vector':
        return physical.Vector(values, unit=unit)
    if kind == 'array':
        return physical.Array(numpy.array(values), unit=unit)
    if kind == 'measure':
        return physical.Vector(measurable.measure((*values, unit)))
    return variable.Quantity(numpy.array(values), dimensions=['x'], unit=unit)


def display(q):
    if isinstance(q, (bool, numpy.bool_)):
        return {'truth': bool(q)}
    if hasattr(q, 'unit'):
        if hasattr(q, '_array'):
            data = numpy.array(q._array)
        else:
            data = numpy.array(q.data)
        return {'values': [float(i) for i in data.ravel()], **show(q.unit)}
    return {'raw': session.numbers(q)}


def answer(op):
    from goats.core import metric, physical, symbolic
    kind = op['op']
    if kind == 'conv':
        got = metric.conversion(op['a'], op['b'])
        return {'value': None if got is None else float(got)}
    if kind == 'tour':
        out = []
        for a, b in op['pairs']:
            try:
                out.append(float(metric.conversion(a, b)))
            except Exception as err:
                out.append(type(err).__name__)
        return {'factors': out}
    if kind == 'unit':
        u = metric.Unit(op['a'])
        out = show(u)
        out['norm'] = {s: show(u.norm[s]) for s in ('mks', 'cgs')}
        out['dimensions'] = {
            s: words(u.dimensions[s]) for s in ('mks', 'cgs')}
        out['dimensionless'] = bool(u.dimensionless)
        out['quantity'] = words(u.quantity)
        return out
    if kind in ('eq', 'ne', 'or'):
        u = metric.Unit(op['a'])
        v = metric.Unit(op['b']) if kind == 'or' else op['b']
        return {'truth': bool(
            u == v if kind == 'eq' else u != v if kind == 'ne' else u | v)}
    if kind == 'floor':
        return {'value': float(metric.Unit(op['a']) // metric.Unit(op['b']))}
    if kind == 'mul':
        return show(metric.Unit(op['a']) * metric.Unit(op['b']))
    if kind == 'div':
        return show(metric.Unit(op['a']) / metric.Unit(op['b']))
    if kind == 'pow':
        return show(metric.Unit(op['a']) ** op['n'])
    if kind == 'get':
        system = metric.System(op['system'])
        return show(system.get_unit(
            **{k: op[k] for k in ('unit', 'quantity') if k in op}))
    if kind == 'qconv':
        return {'value': float(
            metric.Quantity(op['q']).convert(op['a']).to(op['b']))}
    if kind == 'const':
        return display(physical.Constants(op['system'])[op['name']])
    if kind == 'convert':
        return display(build(op['kind'], op['v'], op['a'])[op['b']])
    if kind == 'arith':
        p = build(op['kind'], op['v'], op['a'])
        q = build(op['kind'], op['w'], op['b'])
        return display({
            '+': lambda: p + q, '-': lambda: p - q, '*': lambda: p * q,
            '/': lambda: p / q, '<': lambda: p < q}[op['f']]())
    if kind == 'named':
        n = metric.NamedUnit(op['a'])
        out = {'name': n.name, 'symbol': n.symbol, 'scale': float(n.scale),
               'quantity': n.quantity, 'equal': bool(n == op['b'])}
        out['systems'] = {k: sorted(v) for k, v in n.systems.items()}
        out['dimensions'] = {k: None if v is None else words(v)
                             for k, v in n.dimensions.items()}
        out['decomposed'] = words(n.decomposed)
        out['allowed'] = [n.is_allowed_in(s) for s in ('mks', 'cgs')]
        try:
            out['norm'] = {s: str(n.norm[s]) for s in ('mks', 'cgs')}
        except metric.UnitParsingError:
            out['norm'] = None      # the canonical unit is an expression
        return out
    if kind == 'scribble':
        # what is handed out belongs to the caller
        n = metric.NamedUnit(op['a'])
        n.systems.clear()
        n.dimensions.clear()
        got = metric.Unit(op['b']).norm
        got['mks'] = got['cgs'] = None
        try:
            n.norm.clear()
        except metric.UnitParsingError:
            pass
        return {'value': None}
    if kind == 'reduction':
        got = metric.reduction(op['a'], op['system'])
        if got is None:
            return {'value': None}
        return {'scale': float(got.scale), 'system': got.system,
                'units': sorted(str(u) for u in got.units)}
    if kind == 'ratio':
        return {'value': float(metric.ratio(op['a'], op['b'])),
                'inverse': float(metric.NamedUnit(op['a']) // op['b'])}
    if kind == 'quantities':
        return {'items': [
            answer({'op': 'quantity', 'name': n, 'other': other})
            for n, other in op['items']]}
    if kind == 'quantity':
        this = metric.Quantity(op['name'])
        other = metric.Quantity(op['other'])
        out = {s: show(this[s].unit) for s in ('mks', 'cgs')}
        out['dimension'] = [words(this[s].dimension) for s in ('mks', 'cgs')]
        out['table'] = words(symbolic.Expression(this.dimensions['mks']))
        out['equivalent'] = bool(this | other)
        out['equal'] = [this == other, this == op['name'].upper(),
                        this == this]
        out['system'] = {s: show(metric.System(s)[op['name']].unit)
                         for s in ('mks', 'cgs')}
        return out
    raise ValueError(kind)


def attempt(op):
    try:
        return answer(op)
    except KeyboardInterrupt as err:
        return {'error': 'KeyboardInterrupt', 'message': str(err)}
    except Exception as err:
        return {'error': type(err).__name__}


# ------------------------------------------------------------- the judgement

def close(a, b, rel=1e-9):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= rel*max(abs(a), abs(b))
    return a == b


def same(a, b):
    """Equal answers (units by meaning, numbers up to rounding)."""
    if isinstance(a, dict) and isinstance(b, dict):
        if 'error' in a or 'error' in b:
            return 'error' in a and 'error' in b
        keys = {k for k in {*a, *b} if not k.startswith('_')}
        return all(k in a and k in b and same(a[k], b[k]) for k in keys)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(same, a, b))
    return close(a, b)


def meaning(unit):
    return units.parse(unit)


def means(got, want, what):
    """Complaint unless a printed unit means what it should."""
    have = meaning(got['_unit'])
    if have is None or want is None:
        return None
    if not (close(have[0], want[0], 1e-6) and have[1] == want[1]):
        return f'{what}: {got["_unit"]!r} means {have}, expected {want}'


def canonical(name, system, got, what):
    """Complaint unless a unit is the canonical one of a quantity."""
    dims = KNOWN[name]
    factor = 1.0
    if system == 'cgs':
        if dims[3] or name == 'radioactivity':
            return None
        factor = 1e-3**dims[0]*1e-2**dims[1]
    return means(got, (factor, tuple(float(d) for d in dims)), what)


def base_of(name):
    """The symbol of a unit without its prefix."""
    for long in sorted(units.LONG, key=len, reverse=True):
        if name.startswith(long) and name[len(long):] in units.NAMES:
            return units.NAMES[name[len(long):]]
    if name in units.ALONE:
        return units.ALONE[name]
    if name == 'ohm':
        return 'Ω'
    if name in ('day', 'hour'):
        return name[0]
    if name in units.BASE:
        return name
    for p in sorted(units.PREFIX, key=len, reverse=True):
        if p and name.startswith(p) and name[len(p):] in units.BASE:
            return name[len(p):]


BASES = {u: base_of(u) for these in GROUPS.values() for u in these}


def wrong(op, got):
    """Complaint if an independent table of units contradicts the answer."""
    kind = op['op']
    refused = 'error' in got
    if got.get('error') in ('RecursionError', 'SystemError', 'MemoryError'):
        return f'{op}: {got}'
    a = value_of(op['a']) if 'a' in op and op['a'] not in JUNK else None
    b = value_of(op['b']) if op.get('b') not in JUNK + [
        'mks', 'cgs', None] else None
    if kind == 'conv':
        for u, v, f in ELECTRIC:
            for x, y, w in ((u, v, f), (v, u, 1/f)):
                if (op['a'], op['b']) == (x, y):
                    if refused or got['value'] is None or not close(
                            got['value'], w, 1e-5):
                        return f'{x} to {y}: {got}, expected {w}'
                    return None
    if kind == 'tour':
        for (x, y), f in zip(op['pairs'], got['factors']):
            want = value_of(x)[0]/value_of(y)[0]
            if not isinstance(f, float) or not close(f, want, 1e-6):
                return f'{x!r} to {y!r}: {f}, expected {want} ({op})'
    if kind in ('conv', 'floor'):
        if op['b'] in JUNK:
            if not refused and got['value'] is not None:
                return f'converted a unit to {op["b"]!r}: {got}'
            return None
        if not a or not b:
            return None
        if mates(op['a'], op['b']):
            want = a[0]/b[0] if kind == 'conv' else b[0]/a[0]
            if refused or got['value'] is None or not close(
                    got['value'], want, 1e-6):
                return f'{kind} {op["a"]!r} {op["b"]!r}: {got}, not {want}'
        elif distinct(op['a'], op['b']) and not refused and (
                got['value'] is not None):
            return f'{op["a"]!r} {op["b"]!r}: {got}, expected refusal'
    if kind == 'unit':
        if op['a'] in JUNK:
            return None
        if refused:
            return f'{op["a"]!r} was refused: {got}'
        if op['a'] in CANCEL:
            return None
        return means(got, a, op['a'])
    if kind in ('eq', 'ne', 'or'):
        if refused:
            return f'{kind} {op["a"]!r} {op["b"]!r} was refused: {got}'
        if kind == 'or':
            if mates(op['a'], op['b']):
                return None if got['truth'] else 'consistent units: no'
            if distinct(op['a'], op['b']):
                return 'inconsistent units: yes' if got['truth'] else None
            return None
        truth = got['truth'] == (kind == 'eq')
        if mates(op['a'], op['b']):
            if truth != close(a[0], b[0], 1e-9):
                return f'{kind} {op["a"]!r} {op["b"]!r}: {got}'
        elif distinct(op['a'], op['b']) and truth:
            return f'{kind} {op["a"]!r} {op["b"]!r}: {got}'
    if kind in ('mul', 'div', 'pow') and plainly(op):
        if refused:
            return f'{kind} {op} was refused: {got}'
        if kind == 'pow':
            n = op['n']
            want = a[0]**n, trim(x*n for x in a[1])
        else:
            s = 1 if kind == 'mul' else -1
            want = a[0]*b[0]**s, trim(
                x + s*y for x, y in zip(pad(a[1]), pad(b[1])))
        if not means(got, known(op, want), ''):
            return None
        return means(got, want, f'{kind} {op}')
    if kind == 'get' and 'unit' in op and not refused:
        have = meaning(got['_unit'])
        if have and have[1] != value_of(op['unit'])[1] and not electric(op['unit']):
            return f'{op}: {got}'
    if kind == 'get' and op.get('quantity') in KNOWN:
        if refused:
            return f'{op} was refused: {got}'
        return canonical(op['quantity'], op['system'], got, str(op))
    if kind == 'quantities':
        if refused:
            return f'{op} was refused: {got}'
        for (n, other), this in zip(op['items'], got['items']):
            if found := wrong({'op': 'quantity', 'name': n, 'other': other},
                              this):
                return found
    if kind == 'quantity':
        if refused:
            return f'{op} was refused: {got}'
        for system in ('mks', 'cgs'):
            for this in (got, got['system']):
                if found := canonical(op['name'], system, this[system],
                                      str(op)):
                    return found
        dims = [0.0]*6
        for term in got['table'].split():
            base, _, power = term.partition('^')
            if base != '1':
                dims['MLTIHN'.index(base)] += float(
                    fractions.Fraction(power or '1'))
        x = pad(KNOWN[op['name']])
        listed = op['name'] in ('impedance', 'resistance', 'resistivity')
        if tuple(dims) != (*x[:3], x[3] + listed, *x[4:]) and (
                tuple(dims) != x):
            return f'{op}: {got}, expected dimensions {x}'
        same = op['name'] == op['other']
        if got['equal'] != [same, True, True]:
            return f'{op}: {got}'
        x, y = KNOWN[op['name']], KNOWN[op['other']]
        if got['equivalent'] and x != y or same and not got['equivalent']:
            return f'{op}: {got}'
    if kind == 'ratio' and b and a:
        alike = BASES.get(op['a']) == BASES.get(op['b'])
        if alike and (refused or not close(got['value'], a[0]/b[0], 1e-9)
                      or not close(got['inverse'], b[0]/a[0], 1e-9)):
            return f'{op}: {got}, expected {a[0]/b[0]}'
        if not alike and not refused:
            return f'{op}: {got}, expected refusal'
    if kind == 'named' and op['a'] not in JUNK and not refused:
        if BASES.get(op['a']) and got['equal'] != (
                BASES.get(op['a']) == BASES.get(op['b']) and a == b):
            return f'{op}: {got}'
    if kind == 'qconv' and not refused:
        if a and b and not close(got['value'], a[0]/b[0], 1e-6):
            return f'{op}: {got}'
    if kind == 'convert' and op['b'] not in ('mks', 'cgs'):
        if mates(op['a'], op['b']):
            v = op['v'][:1] if op['kind'] == 'scalar' else op['v']
            want = [x*a[0]/b[0] for x in v]
            if refused or len(want) != len(got['values']) or not all(
                    close(x, y, 1e-6) for x, y in zip(got['values'], want)):
                return f'{op}: {got}, expected {want}'
            return means(got, b, str(op))
        if distinct(op['a'], op['b']) and not refused:
            return f'{op}: {got}, expected refusal'
    if kind == 'arith' and op['f'] in '+-' and a and b:
        if a[1] != b[1] and distinct(op['a'], op['b']) and not refused:
            return f'{op}: {got}, expected refusal'
        if not refused:
            # whatever is accepted has to be physically right
            s = 1 if op['f'] == '+' else -1
            n = 1 if op['kind'] == 'scalar' else 3
            want = [x*a[0] + s*y*b[0] for x, y in zip(op['v'], op['w'])][:n]
            have = meaning(got['_unit'])
            top = max(abs(x*a[0]) for x in op['v'])
            if have and not all(abs(x*have[0] - y) <= 1e-6*top
                                for x, y in zip(got['values'], want)):
                return f'{op}: {got}, expected {want}'
    if kind == 'arith' and op['f'] in '*/' and plainly(op):
        if refused:
            return f'{op} was refused: {got}'
        s = 1 if op['f'] == '*' else -1
        n = 1 if op['kind'] == 'scalar' else 3
        want = [x*a[0]*(y*b[0])**s
                for x, y in zip(op['v'], op['w'])][:n]
        have = meaning(got['_unit'])
        if have and not all(close(x*have[0], y, 1e-6)
                            for x, y in zip(got['values'], want)):
            return f'{op}: {got}, expected {want}'
        dims = trim(x + s*y for x, y in zip(pad(a[1]), pad(b[1])))
        if have and have[1] not in (dims, known(op, (1.0, dims))[1]):
            return f'{op}: {got}, expected dimensions {dims}'
    return None


def signature(text):
    """The physical dimensions, group by group."""
    out = {}
    for s, p in parts(text):
        g = next((g for g, these in GROUPS.items() if s in these), None)
        if g is None or g in out:
            return None
        out[g] = p
    return out


def mates(a, b):
    x, y = signature(a), signature(b)
    return x is not None and x == y


def electric(text):
    return any(g in (signature(text) or {'field': 1})
               for g in ELECTRIC_GROUPS)


def distinct(a, b):
    """Certainly of different physical dimension."""
    if electric(a) or electric(b):
        return False
    for this in (a, b):
        if 'angle' in (signature(this) or {'angle': 1}):
            return False
    return value_of(a)[1] != value_of(b)[1]


CGS = {'G', 'statC', 'statA', 'statV', 'Mx', 'Oe'}


def plainly(op):
    """Units whose products cannot mix two metric systems."""
    return all((BASES.get(s) or s) not in CGS
               for k in ('a', 'b') if k in op for s, _ in parts(op[k]))


def ohms(text):
    """The power of a bare ohm in a unit."""
    return sum(p for s, p in parts(text) if s in ('ohm', 'Ω'))


def known(op, want):
    """What the listed finding (dimension of the ohm) makes of a product."""
    n = ohms(op['a'])
    if op['op'] == 'pow':
        n *= op['n']
    else:
        n += ohms(op['b'])*(-1 if op['op'] == 'div' or op.get('f') == '/'
                            else 1)
    dims = list(pad(want[1]))
    dims[3] += n
    return want[0], trim(dims)


# ------------------------------------------------------------- the property

class P05(engine.Base):

    ID = 'P05'
    RUNS = (400, 40000)
    BUDGET = (300, 2400)
    RULE = ('distinct (request, preceding abort or context switch) pairs and '
            'schedules')
    REAL = ['goats.core.metric', 'goats.core.symbolic', 'goats.core.metadata',
            'goats.core.aliased', 'goats.core.physical',
            'goats.core.variable', 'goats.core.measurable']
    STUBBED = ['aborts are raised by the instrumented statement points',
               'thread scheduler (seeded baton at statements)',
               'threading.Lock/RLock inside goats (cooperative)']
    MODULES = ('goats.core.metric', 'goats.core.physical',
               'goats.core.variable', 'goats.core.measurable')
    SIZE = 420

    def menu(self, env, index):
        label = f'{self.ID}:{env.seed}:{index//1000}'
        memo = self.__dict__.setdefault('_menus', {})
        if label not in memo:
            rng = random.Random(f'menu:{label}')
            shapes = [shape_of(rng) for _ in range(40)]
            memo[label] = [make_request(rng, shapes)
                           for _ in range(self.SIZE)]
        return memo[label]

    def warm(self, env):
        rng = random.Random('warm')
        shapes = [shape_of(rng) for _ in range(10)]
        for _ in range(100):
            attempt(make_request(rng, shapes))

    def fresh(self, env, op):
        """What a brand-new process answers, and the lines it executes."""
        op = common.strip(op)

        def ask():
            visits = {}

            def handler(point):
                visits[point] = visits.get(point, 0) + 1

            loader.CONTROL.handler = handler
            loader.CONTROL.armed = True
            got = attempt(op)
            loader.CONTROL.armed = False
            return got, list(visits.items())

        status, value = env.oracle(['fresh', op], ask)
        if status != 'ok':
            raise RuntimeError(f'oracle {status}: {value}')
        return value

    def scenario(self, rng, env, tier, index):
        menu = self.menu(env, index)
        few = menu if rng.random() < 0.4 else rng.sample(menu, 12)
        threads = rng.random() < 0.4
        ops = []
        n = rng.randint(10, 40)
        for _ in range(n):
            op = dict(rng.choice(few))
            if threads:
                op['client'] = rng.randrange(3)
            elif rng.random() < 0.5:
                exc = rng.choice(sorted(KINDS))
                for _ in range(rng.choice([1, 1, 2, 3])):
                    ops.append(dict(op, abort={
                        'rank': rng.random(), 'exc': exc,
                        'visit': rng.choice([0.0, 0.0, rng.random()])}))
                if rng.random() < 0.4:
                    continue
            ops.append(op)
        # requests of this run alone: judged by the table, not by an oracle
        shapes = [shape_of(rng) for _ in range(4)]
        for _ in range(rng.randint(4, 12)):
            op = tour(rng) if rng.random() < 0.3 else make_request(rng, shapes)
            op['free'] = True
            if threads:
                op['client'] = rng.randrange(3)
            ops.insert(rng.randint(0, len(ops)), op)
        scenario = {'ops': ops}
        if threads and rng.random() < 0.6:
            # the same work in every thread, nearly in step
            close = [op for op in menu if op['op'] in (
                'eq', 'ne', 'or', 'floor', 'mul', 'div', 'arith', 'convert')]
            ops[:] = ops[:rng.choice([2, 4, 8])] + (
                rng.sample(close, min(6, len(close))))
            rng.shuffle(ops)
            ops[:] = [dict(op, client=c) for c in range(rng.choice([2, 2, 3]))
                      for op in ops]
        if threads:
            scenario['schedule'] = rng.randrange(1 << 30)
            scenario['rate'] = rng.choice([0.001, 0.003, 0.01, 0.1])
            scenario['focus'] = rng.choice([None, 0.1, 0.3, 0.3])
        return scenario

    def prepare(self, env, scenario, work):
        plans = {}
        for i, op in enumerate(scenario['ops']):
            if op.get('free'):
                continue
            _, found = self.fresh(env, op)
            plan = op.get('abort')
            if plan and found:
                place, visits = found[int(plan['rank']*len(found))]
                plans[i] = place, 1 + int(plan['visit']*(visits - 1))
        return plans

    def execute(self, env, scenario, work, plans):
        ops = scenario['ops']
        if 'schedule' not in scenario:
            return {'history': [self.perform(op, plans.get(i))
                                for i, op in enumerate(ops)]}
        results = {}

        def task(c):
            def body():
                for i, op in enumerate(ops):
                    if op['client'] == c:
                        results[i] = {'got': attempt(op), 'fired': []}
            return body

        focus = scenario.get('focus')
        baton = sched.Baton(random.Random(scenario['schedule']),
                            0.0001 if focus else scenario['rate'], focus)
        clients = sorted({op['client'] for op in ops})
        _, errors = baton.run([task(c) for c in clients])
        return {
            'history': [results.get(i) or {
                'got': {'error': 'never finished'}, 'fired': []}
                for i in range(len(ops))],
            'errors': [repr(e) for e in errors if e is not None],
            'steps': baton.steps, 'switches': baton.switches,
            'trace': engine.digest(baton.trace),
        }

    def perform(self, op, target):
        fired = []
        plan = op.get('abort')
        if plan and target:
            place, left = target[0], [target[1]]

            def handler(point):
                if point != place:
                    return
                left[0] -= 1
                if left[0] == 0:
                    loader.CONTROL.armed = False
                    fired.append([loader.POINTS[point], plan['exc']])
                    raise KINDS[plan['exc']]('simulated')

            loader.CONTROL.handler = handler
            loader.CONTROL.armed = True
        got = attempt(op)
        loader.CONTROL.armed = False
        return {'got': got, 'fired': fired}

    def judge(self, env, scenario, outcome, work):
        _, record = outcome
        violation = None
        seen, faults = set(), {}
        last = None
        checked = 0
        for i, (op, rec) in enumerate(zip(scenario['ops'],
                                          record['history'])):
            if rec['fired']:
                for f in rec['fired']:
                    faults[f[1]] = faults.get(f[1], 0) + 1
                    last = f
                continue
            want = rec['got'] if op.get('free') else self.fresh(env, op)[0]
            checked += 1
            if last:
                seen.add(engine.digest([common.strip(op), last]))
            why = None
            if not same(rec['got'], want):
                why = ['history', [rec['got'], want]]
            else:
                complaint = wrong(op, rec['got'])
                if complaint:
                    why = ['wrong', [complaint]]
            if why and not violation:
                violation = {'kind': why[0], 'op': i,
                             'detail': [common.strip(op)] + why[1]}
        if record.get('errors') and not violation:
            violation = {'kind': 'thread-died', 'op': 0,
                         'detail': record['errors']}
        if record.get('trace'):
            seen.add(record['trace'])
        return {
            'violation': violation,
            'digest': engine.digest(record),
            'nontrivial': sorted(seen),
            'stats': {'operations': len(scenario['ops']), 'checked': checked,
                      'faults': faults, 'steps': record.get('steps', 0),
                      'switches': record.get('switches', 0)},
            'sample': scenario['ops'][:4],
        }

    def shrink(self, scenario):
        yield from super().shrink(scenario)
        ops = scenario['ops']
        for i, op in enumerate(ops):
            if op.get('abort'):
                new = {k: v for k, v in op.items() if k != 'abort'}
                yield dict(scenario, ops=ops[:i] + [new] + ops[i+1:])
        if 'rate' in scenario:
            for rate in (0.001, 0.003, 0.01):
                if rate < scenario['rate']:
                    yield dict(scenario, rate=rate)
