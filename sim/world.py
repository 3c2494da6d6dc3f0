"""The simulated world: EPREM-like datasets and configuration files.

The catalogue is a pure function of a catalogue seed.  `describe()` gives, for
every logical directory, the raw numpy content of every data file (what the
reference model reads); `materialise()` writes the same content to disk (what
the real code reads).
"""

import os
import random
import shutil

import numpy

import netCDF4

REAL_DATASET = netCDF4.Dataset

T, S, P, E, M = 'time', 'shell', 'species', 'energy', 'mu'

ELEMENTS = [(1.0, 1.0, 'H+'), (4.0, 2.0, 'He++'), (12.0, 6.0, 'C6+')]

UNITS = {
    'time': 'julian date', 'shell': 'shell', 'mu': 'cos(mu)',
    'mass': 'nucleon', 'charge': 'e-', 'egrid': 'MeV', 'vgrid': 'km/s',
    'R': 'au', 'T': 'rad', 'P': 'rad',
    'Br': 'nT', 'Bt': 'nT', 'Bp': 'nT',
    'Vr': 'km/s', 'Vt': 'km/s', 'Vp': 'km/s',
    'Rho': 'cm^-3', 'Dist': 's^3/km^6',
    'flux': '# / cm^2 s sr MeV',
    'preEruption': 'julian date', 'phiOffset': 'julian date',
}


MORE = [(1.0, 1.0), (4.0, 2.0), (12.0, 6.0), (4.0, 1.0), (16.0, 6.0),
        (56.0, 14.0)]


def symbol(mass, charge):
    base = {1: 'H', 4: 'He', 12: 'C', 16: 'O', 56: 'Fe'}[int(mass)]
    return base + '+'*int(charge)


def species(data):
    return [symbol(m, q) for m, q in zip(
        data['vars']['mass'][1], data['vars']['charge'][1])]


def random_dataset(spec):
    """A dataset drawn from a small JSON description."""
    rng = random.Random(f"dataset:{spec['seed']}")
    data = _data(rng, spec['kind'], *spec['sizes'],
                 egrid2d=spec.get('egrid2d', True))
    nsp = spec['sizes'][2]
    if spec.get('order'):
        chosen = rng.sample(MORE, nsp)
        data['vars']['mass'] = ((P,), numpy.array([m for m, _ in chosen]))
        data['vars']['charge'] = ((P,), numpy.array([q for _, q in chosen]))
    if spec.get('samegrid') and data['egrid2d']:
        for name in ('egrid', 'vgrid'):
            dims, values = data['vars'][name]
            values[...] = values[:1]
    if spec.get('fixed'):
        # shells that do not move
        dims, values = data['vars']['R']
        values[...] = values[:1]
    return data


def random_spec(rng, seed):
    flux = rng.random() < 0.25
    nsp = rng.choice([1, 1, 2, 3])
    egrid2d = nsp > 1 or rng.random() < 0.8
    return {
        'seed': seed, 'kind': 'flux' if flux else 'obs', 'egrid2d': egrid2d,
        'sizes': [rng.choice([2, 3, 4, 6]), rng.choice([1, 2, 4, 5]), nsp,
                  rng.choice([3, 4, 6]), rng.choice([1, 2, 4])],
        'order': rng.random() < 0.5, 'samegrid': rng.random() < 0.4,
        'fixed': rng.random() < 0.2,
    }


def _data(rng, kind, nt, ns, nsp, ne, nm, egrid2d=True):
    """Build the raw arrays of one dataset."""
    def rand(*shape):
        n = int(numpy.prod(shape)) if shape else 1
        return numpy.array([rng.random() for _ in range(n)]).reshape(shape)

    def randn(*shape):
        n = int(numpy.prod(shape)) if shape else 1
        return numpy.array([rng.gauss(0, 1) for _ in range(n)]).reshape(shape)

    v = {}
    v['time'] = ((T,), 2.0 + 10*rng.random() + numpy.cumsum(0.05 + rand(nt)))
    v['shell'] = ((S,), numpy.arange(ns))
    v['mu'] = ((M,), numpy.linspace(-1, 1, nm) + 0.01*rng.random())
    v['mass'] = ((P,), numpy.array([m for m, _, _ in ELEMENTS[:nsp]]))
    v['charge'] = ((P,), numpy.array([q for _, q, _ in ELEMENTS[:nsp]]))
    egrid = numpy.cumsum(0.1 + rand(nsp, ne), axis=1)
    vgrid = 1e3*numpy.cumsum(1.0 + rand(nsp, ne), axis=1)
    if egrid2d:
        v['egrid'] = ((P, E), egrid)
        v['vgrid'] = ((P, E), vgrid)
    else:
        v['egrid'] = ((E,), egrid[0])
        v['vgrid'] = ((E,), vgrid[0])
    v['R'] = ((T, S), 0.1 + 0.1*rng.random() + numpy.cumsum(
        0.1 + 0.4*rand(nt, ns), axis=1))
    v['T'] = ((T, S), 0.2 + 2.5*rand(nt, ns))
    v['P'] = ((T, S), 6.0*rand(nt, ns))
    for name in ('Br', 'Bt', 'Bp'):
        v[name] = ((T, S), 5.0*randn(nt, ns))
    for name in ('Vr', 'Vt', 'Vp'):
        v[name] = ((T, S), 300 + 60*randn(nt, ns))
    v['Rho'] = ((T, S), 1.0 + 5.0*rand(nt, ns))
    if kind == 'flux':
        v['flux'] = ((T, S, P, E), 0.1 + rand(nt, ns, nsp, ne))
    else:
        v['Dist'] = ((T, S, P, E, M), 0.1 + rand(nt, ns, nsp, ne, nm))
    v['preEruption'] = ((), numpy.array(rng.random()))
    v['phiOffset'] = ((T,), rand(nt))
    dims = {T: nt, S: ns, P: nsp, E: ne, M: nm}
    return {'dims': dims, 'vars': v, 'kind': kind, 'egrid2d': egrid2d}


CONFIGS = {
    'run.cfg': {'lamo': '0.5', 'mfpRadialPower': '1.9', 'kperxkpar': '0.02'},
    'alt.cfg': {'lamo': '0.125', 'rigidityPower': '0.4', 'kperxkpar': '0.3',
                'mfpRadialPower': '2.5'},
    'empty.cfg': {},
}


def catalogue(seed=0):
    """Create the logical content of the world."""
    rng = random.Random(f'catalogue:{seed}')
    make = lambda *a, **k: _data(rng, *a, **k)
    files = {
        # one species
        'A': {
            'obs000000.nc': make('obs', 4, 5, 1, 4, 3),
            'flux000001.nc': make('flux', 4, 5, 1, 4, 3),
            'p_obs000.nc': make('obs', 3, 4, 1, 3, 2),
        },
        # same names and same shapes as A, other values; both templates
        'B': {
            'obs000000.nc': make('obs', 4, 5, 1, 4, 3),
            'flux000000.nc': make('flux', 3, 3, 1, 4, 3),
            'flux000001.nc': make('flux', 4, 5, 1, 4, 3),
            'p_obs000.nc': make('obs', 3, 4, 1, 3, 2),
        },
        # other shapes, two species
        'C': {
            'obs000000.nc': make('obs', 3, 6, 2, 3, 4),
            'obs000001.nc': make('obs', 3, 2, 2, 5, 2),
            'p_obs000.nc': make('obs', 5, 3, 2, 4, 3),
        },
        # flux only, one-dimensional energy grid
        'D': {
            'flux000000.nc': make('flux', 4, 4, 1, 5, 2, egrid2d=False),
            'obs000001.nc': make('obs', 3, 4, 1, 4, 3, egrid2d=False),
        },
        # no data at all
        'N': {},
    }
    configs = {}
    for i, d in enumerate(files):
        configs[d] = {
            name: {
                k: (v if d == 'A' else repr(round(float(v)*(1 + i/8), 6)))
                for k, v in content.items()
            }
            for name, content in CONFIGS.items()
        }
    configs['B']['only-b.cfg'] = {'lamo': '0.75', 'rigidityPower': '0.2'}
    configs['X'] = {'outside.cfg': {'lamo': '0.3', 'kperxkpar': '0.11'}}
    files['X'] = {}
    return {'files': files, 'configs': configs}


def write_dataset(path, data, fmt='NETCDF4_CLASSIC'):
    """Write one dataset to disk."""
    nc = REAL_DATASET(str(path), 'w', format=fmt)
    try:
        for name, size in data['dims'].items():
            nc.createDimension(name, size)
        for name, (dims, values) in data['vars'].items():
            kind = 'i4' if name == 'shell' else 'f8'
            var = nc.createVariable(name, kind, dims)
            var.units = UNITS[name]
            var[...] = values
    finally:
        nc.close()


def config_text(content):
    """Render a configuration file."""
    lines = ['# an EPREM configuration file', '']
    for i, (k, v) in enumerate(content.items()):
        lines.append(f'{k}={v}' + ('  # inline' if i % 2 else ''))
        lines.append('')
    return '\n'.join(lines) + '\n'


def materialise(root, cat):
    """Write the whole world below `root`."""
    for d, files in cat['files'].items():
        path = os.path.join(root, d)
        os.makedirs(path, exist_ok=True)
        for name, data in files.items():
            write_dataset(os.path.join(path, name), data)
        for name, content in cat['configs'].get(d, {}).items():
            with open(os.path.join(path, name), 'w') as fp:
                fp.write(config_text(content))


def clone(src, dst):
    """Copy a materialised world."""
    shutil.copytree(src, dst, dirs_exist_ok=True)


def locate(cat, cls, ident, directory):
    """The data file an observer must use, or None."""
    names = (
        [f'obs{ident:06}.nc', f'flux{ident:06}.nc'] if cls == 'Stream'
        else [f'p_obs{ident:03}.nc']
    )
    for name in names:
        if name in cat['files'][directory]:
            return name
    return None
