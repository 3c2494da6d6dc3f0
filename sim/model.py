"""Small executable reference model of EPREM observations.

Everything is computed straight from the raw arrays of a dataset, in SI units,
with none of goats' code.
"""

import numpy
from scipy import integrate

from . import units

T, S, P, E, M = 'time', 'shell', 'species', 'energy', 'mu'
EV, NUC, AU = units.EV, units.NUC, units.AU
C, MP = 2.9979e8, 1.6726e-27
MEV = 1e6*EV

FACTORS = {
    'time': 86400.0, 'shell': 1, 'mu': 1.0, 'mass': NUC, 'charge': EV,
    'egrid': MEV, 'vgrid': 1e3, 'R': AU, 'T': 1.0, 'P': 1.0,
    'Br': 1e-9, 'Bt': 1e-9, 'Bp': 1e-9, 'Vr': 1e3, 'Vt': 1e3, 'Vp': 1e3,
    'Rho': 1e6, 'Dist': 1e-18, 'flux': 1e4/MEV,
}

LENGTH, SPEED, FIELD = (0, 1, 0, 0), (0, 1, -1, 0), (1, 0, -2, -1)
NONE, ENERGY, RATE = (0, 0, 0, 0), (1, 2, -2, 0), (0, 0, -1, 0)
DIMS = {
    'time': (0, 0, 1, 0), 'shell': NONE, 'mu': NONE, 'mass': (1, 0, 0, 0),
    'charge': (0, 0, 1, 1), 'egrid': ENERGY, 'vgrid': SPEED, 'R': LENGTH,
    'T': NONE, 'P': NONE, 'Br': FIELD, 'Bt': FIELD, 'Bp': FIELD,
    'Vr': SPEED, 'Vt': SPEED, 'Vp': SPEED, 'Rho': (0, -3, 0, 0),
    'Dist': (0, -6, 3, 0), 'x': LENGTH, 'y': LENGTH, 'z': LENGTH,
    'B': FIELD, 'V': SPEED, 'BV': (1, 1, -3, -1), 'Vpara': SPEED,
    'Vperp': SPEED, 'angle': NONE, 'divV': RATE, 'density ratio': NONE,
    'rigidity': (1, 1, -2, -1), 'mfp': LENGTH, 'ar': RATE,
    'ed': (1, -1, -2, 0), 'ae': ENERGY, 'isodist': (0, -6, 3, 0),
    'flux': (-1, -4, 1, 0), 'fluence': (-1, -4, 2, 0),
    'intflux': (0, -2, -1, 0),
}

DEFAULTS = {'lambda0': 1.0*AU, 'mfp_radial_power': 2.0,
            'rigidity_power': 1/3, 'kper_kpar': 0.01, 'minimum_energy': 0.0}
CONFIG = {'lamo': ('lambda0', AU), 'mfpRadialPower': ('mfp_radial_power', 1),
          'rigidityPower': ('rigidity_power', 1), 'kperxkpar': ('kper_kpar', 1)}
NEEDS = {'mfp': ['lambda0', 'mfp_radial_power', 'rigidity_power'],
         'ar': ['kper_kpar'], 'intflux': ['minimum_energy']}


class Unsupported(Exception):
    """The model has no opinion on this request."""


def parameters(config, cons):
    """Values (SI) of the physical parameters of one observation."""
    out = dict(DEFAULTS)
    for key, value in (config or {}).items():
        if key in CONFIG:
            name, factor = CONFIG[key]
            out[name] = float(value)*factor
    for key in out:
        if key in cons:
            out[key] = si(cons[key])[0]
    return out


def si(value):
    """SI values of a measured constraint (or plain number)."""
    if isinstance(value, dict):
        *numbers, unit = value['measure']
        factor = units.parse(unit)[0]
        return [float(x)*factor for x in numbers]
    return [float(value)]


class Data:
    """One dataset, in SI units."""

    def __init__(self, raw):
        self.raw = raw
        self.sizes = raw['dims']
        self.flux_file = raw['kind'] == 'flux'
        self.egrid2d = raw['egrid2d']

    def base(self, name):
        if name not in self.raw['vars'] or name not in FACTORS:
            raise Unsupported(name)
        dims, values = self.raw['vars'][name]
        return numpy.asarray(values, dtype=float)*FACTORS[name], dims

    def arr(self, name):
        return self.base(name)[0]

    # -- computed quantities ----------------------------------------------

    def vec(self, kind):
        return [self.arr(kind + c) for c in 'rtp']

    def rig(self, energy):
        """Momentum / charge, (species, energy)."""
        m = self.arr('mass')[:, None]
        q = self.arr('charge')[:, None]
        rest = m*C**2
        return numpy.sqrt((energy + rest)**2 - rest**2)/C/q

    def get(self, key, par):
        """(values, dims) of the full, unconstrained quantity."""
        if key in FACTORS and not (key == 'flux' and not self.flux_file):
            return self.base(key)
        method = getattr(self, 'q_' + key.replace(' ', '_'), None)
        if method is None:
            raise Unsupported(key)
        return method(par)

    def q_x(self, par):
        r, t, p = self.arr('R'), self.arr('T'), self.arr('P')
        return r*numpy.sin(t)*numpy.cos(p), (T, S)

    def q_y(self, par):
        r, t, p = self.arr('R'), self.arr('T'), self.arr('P')
        return r*numpy.sin(t)*numpy.sin(p), (T, S)

    def q_z(self, par):
        return self.arr('R')*numpy.cos(self.arr('T')), (T, S)

    def mag(self, kind):
        a, b, c = self.vec(kind)
        return numpy.sqrt(a*a + b*b + c*c)

    def dot(self):
        return sum(b*v for b, v in zip(self.vec('B'), self.vec('V')))

    def q_B(self, par):
        return self.mag('B'), (T, S)

    def q_V(self, par):
        return self.mag('V'), (T, S)

    def q_BV(self, par):
        return self.mag('B')*self.mag('V'), (T, S)

    def q_Vpara(self, par):
        return self.dot()/self.mag('B'), (T, S)

    def q_Vperp(self, par):
        para = self.dot()/self.mag('B')
        return numpy.sqrt(self.mag('V')**2 - para**2), (T, S)

    def ang(self):
        return numpy.arccos(numpy.clip(
            self.dot()/(self.mag('B')*self.mag('V')), -1, 1))

    def q_angle(self, par):
        return self.ang(), (T, S)

    def q_divV(self, par):
        if self.sizes[T] < 2:
            raise Unsupported('one time')
        t = self.arr('time')
        y = numpy.log(self.arr('Rho'))
        out = numpy.empty_like(y)
        n = len(t)
        out[0] = (y[1] - y[0])/(t[1] - t[0])
        out[-1] = (y[-1] - y[-2])/(t[-1] - t[-2])
        for i in range(1, n - 1):
            h0, h1 = t[i] - t[i-1], t[i+1] - t[i]
            out[i] = (h0**2*y[i+1] + (h1**2 - h0**2)*y[i] - h1**2*y[i-1])/(
                h0*h1*(h0 + h1))
        return -out, (T, S)

    def q_density_ratio(self, par):
        rho = self.arr('Rho')
        return rho/rho[:1], (T, S)

    def q_rigidity(self, par):
        return self.rig(self.arr('egrid')), (P, E)

    def q_mfp(self, par):
        ratio = self.rig(self.arr('egrid'))/self.rig(numpy.array([MEV]))
        r = (self.arr('R')/AU)**par['mfp_radial_power']
        g = ratio**par['rigidity_power']
        return (par['lambda0']*r[:, :, None, None]*g[None, None]), (T, S, P, E)

    def q_ar(self, par):
        if not self.egrid2d:
            raise Unsupported('one-dimensional speeds')
        n = self.sizes[S]
        ahead = [min(i + 1, n - 1) for i in range(n)]
        behind = [max(i - 1, 0) for i in range(n)]
        v = self.vec('V')
        v1v2 = sum(c[:, ahead]*c[:, behind] for c in v)
        v1 = self.mag('V')[:, ahead]
        dv = v1*numpy.abs(1 - v1v2/v1**2)
        a = self.ang()
        ratio = numpy.cos(a)**2 + par['kper_kpar']*numpy.sin(a)**2
        mfp, _ = self.q_mfp(par)
        vp = self.arr('vgrid')
        kappa = mfp*ratio[:, :, None, None]*vp[None, None]/3.0
        k = kappa/self.mag('V')[:, :, None, None]
        dx = 3.0*(k[:, ahead] + k[:, behind])
        return dv[:, :, None, None]/dx, (T, S, P, E)

    def iso(self):
        if self.flux_file:
            raise Unsupported('no distribution')
        return numpy.mean(self.arr('Dist'), axis=-1)

    def q_isodist(self, par):
        return self.iso(), (T, S, P, E)

    def speeds(self):
        if self.sizes[E] < 2:
            raise Unsupported('one energy')
        v = self.arr('vgrid')
        return v, numpy.gradient(v, axis=-1)

    def q_ed(self, par):
        v, dv = self.speeds()
        return MP*numpy.sum(v**4*self.iso()*dv, axis=-1), (T, S, P)

    def q_ae(self, par):
        v, dv = self.speeds()
        f = self.iso()
        return 0.5*MP*numpy.sum(v**4*f*dv, axis=-1)/numpy.sum(
            v**2*f*dv, axis=-1), (T, S, P)

    def fl(self):
        if self.flux_file:
            return self.arr('flux')
        return 2*self.arr('egrid')/MP**2*self.iso()

    def q_flux(self, par):
        return self.fl(), (T, S, P, E)

    def q_fluence(self, par):
        return integrate.simpson(self.fl(), x=self.arr('time'), axis=0), (
            S, P, E)

    def q_intflux(self, par):
        f = self.fl()
        grid = self.arr('egrid')
        if grid.ndim == 1:
            grid = grid[None]
        if grid.shape[0] != f.shape[2]:
            raise Unsupported('energies')
        low = par['minimum_energy']
        out = numpy.zeros((*f.shape[:3], 1))
        for s, e in enumerate(grid):
            y = f[:, :, s, :]
            if low >= e[0]:
                i = int(numpy.searchsorted(e, low, side='right')) - 1
                if i > len(e) - 2:
                    raise Unsupported('minimum energy above the grid')
                slope = numpy.log(y[..., i+1]/y[..., i])/numpy.log(e[i+1]/e[i])
                first = y[..., i]*(low/e[i])**slope
                y = numpy.concatenate([first[..., None], y[..., i+1:]], -1)
                e = numpy.concatenate([[low], e[i+1:]])
            out[:, :, s, 0] = integrate.simpson(y, x=e, axis=-1)
        return out, (T, S, P, 'minimum energy')


# ---------------------------------------------------------------- constraints

from .world import species  # noqa: E402


def measured(value):
    return isinstance(value, dict) and 'measure' in value


def indices(value, size, names=None):
    """Indices selected by a constraint that is not measured."""
    if isinstance(value, dict):
        if 'slice' in value:
            return list(range(*slice(*value['slice']).indices(size)))
        return list(range(*value['range']))
    out = []
    for item in value if isinstance(value, list) else [value]:
        out.append(names.index(item) if isinstance(item, str) else int(item))
    return out


def interp(x, y, target):
    """Linear interpolation of y (leading axis) at target."""
    x = numpy.asarray(x)
    hit = numpy.nonzero(x == target)[0]
    if len(hit):
        return y[hit[0]]
    i = int(numpy.searchsorted(x, target))
    if i == 0 or i == len(x):
        raise Unsupported('outside the grid')
    w = (target - x[i-1])/(x[i] - x[i-1])
    return (1 - w)*y[i-1] + w*y[i]


COORDINATES = {'time', 'shell', 'mu', 'egrid', 'R', 'T', 'P'}
RADIUS = ('radius', 'r', 'R')


def constrain(data, key, values, dims, cons):
    """Apply constraints: (values, axes)."""
    raw = data.raw
    radius = [cons[k] for k in RADIUS if k in cons]
    special = radius or any(measured(v) for k, v in cons.items()
                            if k in (T, E, M))
    if key in COORDINATES and special:
        raise Unsupported('interpolated coordinate')
    axes = {}
    if S in dims and radius:
        if T not in dims:
            raise Unsupported('radius without time')
        targets = si(radius[-1])
        a = numpy.moveaxis(values, (dims.index(T), dims.index(S)), (0, 1))
        R = data.arr('R')
        rows = [numpy.stack([interp(R[t], a[t], x) for x in targets])
                for t in range(len(R))]
        values = numpy.moveaxis(
            numpy.stack(rows), (0, 1), (dims.index(T), dims.index(S)))
        axes[S] = None
    for dim, name in ((E, 'egrid'), (T, 'time'), (M, 'mu')):
        if dim not in dims or not measured(cons.get(dim)):
            continue
        if dim == M:
            targets = [float(x) for x in cons[dim]['measure'][:-1]]
        else:
            targets = si(cons[dim])
        ref = data.arr(name)
        k = dims.index(dim)
        if ref.ndim == 2:
            j = dims.index(P) if P in dims else None
            if j is None:
                raise Unsupported('energies without species')
            a = numpy.moveaxis(values, (j, k), (0, 1))
            rows = [numpy.stack([interp(ref[s], a[s], x) for x in targets])
                    for s in range(len(ref))]
            values = numpy.moveaxis(numpy.stack(rows), (0, 1), (j, k))
        else:
            a = numpy.moveaxis(values, k, 0)
            values = numpy.moveaxis(
                numpy.stack([interp(ref, a, x) for x in targets]), 0, k)
        axes[dim] = targets
    names = species(raw)
    for dim, name in ((T, 'time'), (S, 'shell'), (P, None), (E, 'egrid'),
                      (M, 'mu')):
        if dim not in dims or dim in axes:
            continue
        size = raw['dims'][dim]
        idx = (indices(cons[dim], size, names) if dim in cons
               else list(range(size)))
        if any(i < 0 or i >= size for i in idx):
            raise Unsupported('index')
        values = numpy.take(values, idx, axis=dims.index(dim))
        if dim == P:
            axes[dim] = [names[i] for i in idx]
        elif dim == S:
            axes[dim] = idx
        else:
            ref = data.arr(name)
            if ref.ndim == 2:
                if len(ref) > 1:
                    axes[dim] = None
                    continue
                ref = ref[0]
            axes[dim] = [float(ref[i]) for i in idx]
    return values, axes


def composite(text):
    """Terms of a product or quotient of known quantities."""
    out, sign = [], 1
    for token in text.replace('*', ' * ').replace('/', ' / ').split():
        if token == '*':
            sign = 1
        elif token == '/':
            sign = -1
        else:
            out.append((token, sign))
    return out


ORDER = (T, S, P, E, M, 'minimum energy')


def observe(data, config, key, cons, alias=None):
    """Expected observation: values, dims, axes, SI dimensions, parameters."""
    par = parameters(config, cons)
    terms = [(key, 1)] if key in DIMS else [
        (alias(name), sign) for name, sign in composite(key)]
    values, dims, physical, used = None, (), [0, 0, 0, 0], []
    for name, sign in terms:
        v, d = data.get(name, par)
        if values is None:
            values, dims = (v if sign > 0 else 1/v), d
        else:
            merged = [x for x in ORDER if x in set(dims) | set(d)]
            a = expand(values, dims, merged)
            b = expand(v, d, merged)
            values, dims = (a*b if sign > 0 else a/b), tuple(merged)
        physical = [x + sign*y for x, y in zip(physical, DIMS[name])]
        used += [n for n in NEEDS.get(name, ()) if n not in used]
    if not numpy.all(numpy.isfinite(values)):
        raise Unsupported('not finite')
    values, axes = constrain(data, key, values, dims, cons)
    return {
        'values': values, 'dims': list(dims), 'axes': axes,
        'physical': tuple(physical),
        'parameters': {n: par[n] for n in used},
        'single': len(terms) == 1,
    }


def expand(values, dims, merged):
    shape = [values.shape[dims.index(d)] if d in dims else 1 for d in merged]
    order = [dims.index(d) for d in merged if d in dims]
    return numpy.transpose(values, order).reshape(shape)
