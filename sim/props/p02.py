"""P02: every observation equals what the reference model computes."""

import os

import numpy

from .. import engine, model, seams, session, units, workload, world
from . import common

RTOL = 1e-6
FAULTS = ['EIO', 'HDF', 'ENOENT', 'EACCES', 'EMFILE', 'MemoryError']


def alias(name):
    """Canonical key of a quantity's alias."""
    for key, (names, _) in workload.QUANTITIES.items():
        if name == key or name in names:
            return key
    raise model.Unsupported(name)


def draw_world(rng, seed, n):
    """A few dataset directories, as JSON."""
    out = {}
    for i in range(n):
        config = {}
        for key, lo, hi in (('lamo', 0.05, 0.9), ('mfpRadialPower', 0.5, 3.0),
                            ('rigidityPower', 0.1, 1.5),
                            ('kperxkpar', 0.01, 0.9)):
            if rng.random() < 0.6:
                config[key] = repr(round(rng.uniform(lo, hi), 4))
        out[f'W{i}'] = {
            'data': world.random_spec(rng, f'{seed}-{i}'), 'config': config,
            'name': 'obs000000.nc'}
        if out[f'W{i}']['data']['kind'] == 'flux':
            out[f'W{i}']['name'] = 'flux000000.nc'
    return out


def build_world(worlds, root):
    for d, w in worlds.items():
        os.makedirs(os.path.join(root, d), exist_ok=True)
        world.write_dataset(os.path.join(root, d, w['name']),
                            world.random_dataset(w['data']))
        with open(os.path.join(root, d, 'run.cfg'), 'w') as fp:
            fp.write(world.config_text(w['config']))


class Reference:
    """The model of all observers of a run."""

    def __init__(self, worlds):
        self.data = {d: model.Data(world.random_dataset(w['data']))
                     for d, w in worlds.items()}
        self.config = {d: w['config'] for d, w in worlds.items()}

    def observe(self, d, name, cons):
        key = name
        try:
            key = alias(name)
        except model.Unsupported:
            pass
        return key, model.observe(
            self.data[d], self.config[d], key, cons, alias)


def near(got, want, rtol=RTOL):
    got, want = numpy.asarray(got, float), numpy.asarray(want, float)
    if got.shape != want.shape:
        return False
    scale = numpy.maximum(numpy.abs(got), numpy.abs(want))
    return bool(numpy.all(numpy.abs(got - want) <= rtol*scale))


def compare(got, want, system, asked=None):
    """First way in which an observation departs from the model, or None."""
    if got['dims'] != want['dims']:
        return f"dimensions {got['dims']} instead of {want['dims']}"
    shape = list(want['values'].shape)
    if got['data']['shape'] != shape:
        return f"shape {got['data']['shape']} instead of {shape}"
    squeezed = [n for n in shape if n != 1]
    if got['array']['shape'] != squeezed:
        return f"array shape {got['array']['shape']} instead of {squeezed}"
    unit = units.parse(got['_unit'])
    if unit is None:
        if want['single']:
            return f"unit {got['_unit']!r} is unknown"
        return None
    factor, dims = unit
    if dims != tuple(float(x) for x in want['physical']):
        if system == 'cgs' and not want['single']:
            return None
        return f"unit {got['_unit']!r} does not measure this quantity"
    if asked is not None and asked not in ('mks', 'cgs'):
        expected = units.parse(units.plain(asked))
        if expected and abs(expected[0] - factor) > 1e-9*factor:
            return f"unit {got['_unit']!r} instead of {asked!r}"
    elif (asked or system) == 'mks' and want['single']:
        if abs(factor - 1.0) > 1e-9 and 'nuc' not in got['_unit']:
            return f"unit {got['_unit']!r} is not an MKS unit"
    flat = want['values'].ravel()
    for label in ('data', 'array'):
        values = numpy.array(got[label].get('values', []))*factor
        if not near(values, flat):
            bad = [i for i in range(len(flat)) if len(values) == len(flat)
                   and not near(values[i:i+1], flat[i:i+1])]
            return (f'{label}: {len(bad)} wrong values of {len(flat)}'
                    + (f', first {values[bad[0]]!r} instead of '
                       f'{flat[bad[0]]!r} (SI)' if bad else ''))
    for d, values in want['axes'].items():
        if values is None or d not in got['axes']:
            continue
        axis = got['axes'][d]
        if d == 'species':
            if axis.get('text') != [str(v) for v in values]:
                return f'axis {d}: {axis} instead of {values}'
            continue
        if 'values' not in axis:
            return f'axis {d}: {axis}'
        f = 1.0
        if axis.get('_unit'):
            f = (units.parse(axis['_unit']) or (None,))[0]
            if f is None:
                return f"axis {d}: unit {axis['_unit']!r}"
        if not near(numpy.array(axis['values'])*f, values):
            return f"axis {d}: {axis['values']} {axis['_unit']} vs {values}"
    for name, value in want['parameters'].items():
        if name not in got['assumptions']:
            if want['single']:
                return f'parameter {name} is not listed'
            continue
        have = got['assumptions'][name]
        f = 1.0
        if have.get('_unit') not in (None, '1'):
            f = (units.parse(have['_unit']) or (None,))[0]
            if f is None:
                return f'parameter {name}: {have}'
        if abs(float(have['value'])*f - value) > RTOL*max(abs(value), 1e-300):
            return f'parameter {name}: {have} instead of {value} (SI)'
    return None


AXES = {'time': 'time', 'shell': 'shell', 'energy': 'egrid', 'mu': 'mu',
        'radius': 'R', 'theta': 'T', 'phi': 'P', 'species': None}


class P02(engine.Base):

    ID = 'P02'
    RUNS = (320, 20000)
    BUDGET = (300, 2400)
    RULE = ('distinct (dataset shape, quantity, kinds of constraint, unit, '
            'fault) observations compared with the model')
    REAL = ['goats (all of it)', 'netCDF4/HDF5', 'numpy', 'scipy',
            'file system (scratch directory)']
    STUBBED = ['I/O errors are raised at the netCDF4.Dataset, netCDF4 '
               'variable and open seams']

    def scenario(self, rng, env, tier, index):
        worlds = draw_world(rng, f'{env.seed}:{index}', rng.choice([1, 2, 2]))
        dirs = sorted(worlds)
        observers, ops = {}, []
        for i in range(rng.choice([1, 2, 3])):
            slot = f's{i}'
            d = rng.choice(dirs)
            observers[slot] = d
            ops.append({'op': 'new', 'o': slot, 'cls': 'Stream', 'id': 0,
                        'dir': d, 'cfg': 'run.cfg',
                        'system': rng.choice(['mks', 'mks', 'mks', None, 'cgs']),
                        'how': rng.choice(['path', 'str', 'rel'])})
        n = rng.randint(6, 16)
        raws = {d: world.random_dataset(w['data']) for d, w in worlds.items()}
        faulty = rng.random() < 0.6
        for _ in range(n):
            slot = rng.choice(sorted(observers))
            data = raws[observers[slot]]
            x = rng.random()
            if x < 0.84:
                key, name, choices = workload.pick_name(rng)
                op = {'op': 'observe', 'o': slot, 'name': name,
                      'cons': workload.answerable(rng, data)}
                if rng.random() < 0.4:
                    op['forms'] = workload.forms(rng, op['cons'], 0.5)
                u = workload.units(rng, choices)
                if u:
                    op['units'] = u
                p = workload.units(rng, choices, 0.2)
                if p:
                    op['post'] = p
            elif x < 0.92:
                key, name, choices = workload.pick_name(rng)
                op = {'op': 'meta', 'o': slot, 'name': name}
            else:
                op = {'op': 'axis', 'o': slot, 'name': rng.choice(sorted(AXES))}
            ops.append(op)
        for op in ops:
            if faulty and rng.random() < 0.3:
                op['fault'] = {
                    'call': rng.choice(['ncread', 'ncread', 'ncread', 'ncopen',
                                        'open']),
                    'n': rng.randint(1, 6), 'count': rng.choice([1, 1, 1, 9]),
                    'exc': rng.choice(FAULTS)}
        return {'worlds': worlds, 'ops': ops}

    def prepare(self, env, scenario, work):
        build_world(scenario['worlds'], work)

    def execute(self, env, scenario, work, prepared):
        os.chdir(work)
        s = session.Session(work)
        out = []
        for op in scenario['ops']:
            seams.SEAM.fired = []
            if op.get('fault'):
                seams.SEAM.arm([op['fault']])
            got = s.run(op)
            seams.SEAM.disarm()
            fired = list(seams.SEAM.fired)
            record = {'got': got, 'fired': fired}
            if op['op'] == 'new' and 'error' in got and fired:
                record['retry'] = s.run(op)
            out.append(record)
        return out

    def judge(self, env, scenario, outcome, work):
        _, history = outcome
        ref = Reference(scenario['worlds'])
        stats = {'observations': 0, 'compared': 0, 'no_opinion': 0,
                 'fault_errors': 0, 'faults': {}, 'faults_survived': 0}
        seen = set()
        violation = None
        where, system = {}, {}

        def fail(i, kind, detail):
            nonlocal violation
            if violation is None:
                violation = {'kind': kind, 'op': i,
                             'detail': [scenario['ops'][i], detail]}

        for i, (op, rec) in enumerate(zip(scenario['ops'], history)):
            got, fired = rec['got'], rec['fired']
            for f in fired:
                label = f'{f[0]}:{f[2]}'
                stats['faults'][label] = stats['faults'].get(label, 0) + 1
            if op['op'] == 'new':
                where[op['o']] = op['dir']
                system[op['o']] = op.get('system') or 'mks'
                final = rec.get('retry', got)
                if 'error' in final:
                    fail(i, 'cannot-build', final)
                continue
            d = where.get(op.get('o'))
            if d is None:
                continue
            if 'error' in got and fired:
                stats['fault_errors'] += 1
                continue
            stats['faults_survived'] += bool(fired)
            data = ref.data[d]
            if op['op'] == 'axis':
                found = self.axis(data, op, got)
                stats['compared'] += 1
                if found:
                    fail(i, 'axis', found)
                continue
            stats['observations'] += op['op'] == 'observe'
            try:
                key, want = ref.observe(d, op['name'], op.get('cons', {}))
            except model.Unsupported:
                stats['no_opinion'] += 1
                continue
            if op['op'] == 'meta':
                if 'error' in got:
                    if want['single']:
                        fail(i, 'meta', got)
                    continue
                got = got['ok']
                if want['single']:
                    u = units.parse(got['_unit'])
                    dims = tuple(float(x) for x in want['physical'])
                    if got['dims'] != want['dims']:
                        fail(i, 'meta', [got['dims'], want['dims']])
                    elif u is None or u[1] != dims:
                        fail(i, 'meta', [got['_unit'], dims])
                    stats['compared'] += 1
                continue
            if 'error' in got:
                fail(i, 'refused', got)
                continue
            asked = (op.get('units', []) + op.get('post', []) or [None])[-1]
            found = compare(got['ok'], want, system[op['o']], asked)
            stats['compared'] += 1
            seen.add(engine.digest([
                key, scenario['worlds'][d]['data']['sizes'], asked,
                scenario['worlds'][d]['data']['kind'],
                sorted((k, type(v).__name__, sorted(v) if isinstance(v, dict)
                        else 0) for k, v in op['cons'].items()),
                [list(f) for f in fired]]))
            if found:
                fail(i, 'wrong', found)
        return {
            'stats': stats,
            'digest': engine.digest(history),
            'nontrivial': sorted(seen),
            'violation': violation,
            'sample': {'worlds': scenario['worlds'],
                       'ops': scenario['ops'][:3]},
        }

    def axis(self, data, op, got):
        name = op['name']
        if 'error' in got:
            return got
        got = got['ok']
        if name == 'species':
            want = world.species(data.raw)
            have = got['data'].get('text')
            return None if have == want else f'{have} instead of {want}'
        values = data.arr(AXES[name])
        if name == 'energy' and values.ndim == 2:
            values = values[0]
        f = 1.0
        if got.get('_unit'):
            f = (units.parse(got['_unit']) or (None,))[0]
            if f is None:
                return f"unit {got['_unit']!r}"
        have = numpy.array(got['data'].get('values', []))*f
        if list(values.shape) != got['data']['shape']:
            return f"shape {got['data']['shape']} vs {values.shape}"
        return None if near(have, values.ravel()) else f'{got} vs {values}'

    def shrink(self, scenario):
        yield from super().shrink(scenario)
