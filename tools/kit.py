"""A small EPREM-like dataset and configuration file for a demonstration."""

import os
import shutil
import sys
import tempfile

import netCDF4
import numpy

UNITS = {
    'time': 'julian date', 'shell': 'shell', 'mu': 'cos(mu)',
    'mass': 'nucleon', 'charge': 'e-', 'egrid': 'MeV', 'vgrid': 'km/s',
    'R': 'au', 'T': 'rad', 'P': 'rad',
    'Br': 'nT', 'Bt': 'nT', 'Bp': 'nT',
    'Vr': 'km/s', 'Vt': 'km/s', 'Vp': 'km/s',
    'Rho': 'cm^-3', 'Dist': 's^3/km^6', 'flux': '# / cm^2 s sr MeV',
    'preEruption': 'julian date', 'phiOffset': 'julian date',
}
T, S, P, E, M = 'time', 'shell', 'species', 'energy', 'mu'


def content(seed=0, sizes=(4, 5, 1, 4, 3), kind='obs', masses=(1.0, 4.0, 12.0),
            charges=(1.0, 2.0, 6.0)):
    rng = numpy.random.RandomState(seed)
    nt, ns, nsp, ne, nm = sizes
    v = {
        'time': ((T,), 1.0 + numpy.cumsum(0.5 + rng.rand(nt))),
        'shell': ((S,), numpy.arange(ns)),
        'mu': ((M,), numpy.linspace(-1, 1, nm)),
        'mass': ((P,), numpy.array(masses[:nsp])),
        'charge': ((P,), numpy.array(charges[:nsp])),
        'egrid': ((P, E), numpy.cumsum(0.1 + rng.rand(nsp, ne), axis=1)),
        'vgrid': ((P, E), 1e3*numpy.cumsum(1 + rng.rand(nsp, ne), axis=1)),
        'R': ((T, S), 0.2 + numpy.cumsum(0.1 + 0.3*rng.rand(nt, ns), axis=1)),
        'T': ((T, S), 0.3 + 2*rng.rand(nt, ns)),
        'P': ((T, S), 6*rng.rand(nt, ns)),
        'Rho': ((T, S), 1 + 5*rng.rand(nt, ns)),
        'preEruption': ((), numpy.array(0.25)),
        'phiOffset': ((T,), rng.rand(nt)),
    }
    for name in ('Br', 'Bt', 'Bp'):
        v[name] = ((T, S), 5*rng.randn(nt, ns))
    for name in ('Vr', 'Vt', 'Vp'):
        v[name] = ((T, S), 300 + 60*rng.randn(nt, ns))
    if kind == 'flux':
        v['flux'] = ((T, S, P, E), 0.1 + rng.rand(nt, ns, nsp, ne))
    else:
        v['Dist'] = ((T, S, P, E, M), 0.1 + rng.rand(nt, ns, nsp, ne, nm))
    return dict(zip((T, S, P, E, M), sizes)), v


def write(path, **kwargs):
    dims, variables = content(**kwargs)
    nc = netCDF4.Dataset(path, 'w', format='NETCDF4_CLASSIC')
    for name, size in dims.items():
        nc.createDimension(name, size)
    for name, (dimensions, values) in variables.items():
        var = nc.createVariable(
            name, 'i4' if name == 'shell' else 'f8', dimensions)
        var.units = UNITS[name]
        var[...] = values
    nc.close()
    return variables


def config(path, **values):
    with open(path, 'w') as fp:
        for k, v in values.items():
            fp.write(f'{k}={v}\n')


class Scratch:

    def __enter__(self):
        self.cwd = os.getcwd()
        self.path = tempfile.mkdtemp(prefix='goats-demo-')
        return self.path

    def __exit__(self, *exc):
        os.chdir(self.cwd)
        shutil.rmtree(self.path, ignore_errors=True)


def check(condition, text):
    if not condition:
        print('FAILED:', text)
        sys.exit(1)
