"""Random but well-formed requests, drawn from one seeded generator."""

from . import session, world

VEL = ['km/s', 'cm/s', 'au/day', 'm/s', 'km/h']
LEN = ['au', 'km', 'cm', 'm']
ANG = ['deg', 'rad']
MAG = ['nT', 'G', 'T', 'uT']
FLUX = ['# / (cm^2 s sr MeV/nuc)', '# / (cm^2 s sr erg/nuc)']

QUANTITIES = {
    'time': (['time', 't', 'times'], ['day', 'hour', 'min', 's']),
    'shell': (['shell', 'shells'], []),
    'mu': (['mu', 'pitch angle', 'pitch-angle cosine'], []),
    'mass': (['mass', 'm'], ['g', 'nuc', 'kg']),
    'charge': (['charge', 'q'], ['e', 'C', 'statC']),
    'egrid': (['energy', 'egrid', 'E'], ['MeV', 'erg', 'keV', 'J']),
    'vgrid': (['speed', 'vgrid', 'vparticle'], VEL),
    'R': (['radius', 'R', 'r'], LEN),
    'T': (['theta', 'T'], ANG),
    'P': (['phi', 'P'], ANG),
    'Br': (['Br', 'br'], MAG), 'Bt': (['Bt', 'btheta'], MAG),
    'Bp': (['Bp', 'bphi'], MAG),
    'Vr': (['Vr', 'vr'], VEL), 'Vt': (['Vt', 'vtheta'], VEL),
    'Vp': (['Vp', 'Vphi'], VEL),
    'Rho': (['rho', 'Rho'], ['cm^-3', 'm^-3', 'km^-3']),
    'Dist': (['dist', 'Dist', 'f'], ['s^3/km^6', 's^3/cm^6']),
    'x': (['x', 'X'], LEN), 'y': (['y', 'Y'], LEN), 'z': (['z', 'Z'], LEN),
    'B': (['B', 'b_mag', '|B|', 'bmag', 'b mag'], MAG),
    'V': (['V', 'v_mag', 'v'], VEL),
    'BV': (['BV', 'bv_mag', '|BV|'], ['G cm/s', 'nT km/s']),
    'Vpara': (['Vpara', 'v_para'], VEL),
    'Vperp': (['Vperp', 'v_perp'], VEL),
    'angle': (['flow_angle', 'flow angle', 'angle'], ANG),
    'divV': (['div_v', 'div(V)', 'divV'], ['1/s', '1/day', '1/hour']),
    'density ratio': (['density_ratio', 'density ratio', 'n2/n1'], []),
    'rigidity': (['rigidity', 'Rg'], ['kg m / (s C)', 'g cm / (s C)']),
    'mfp': (['mfp', 'mean free path', 'mean_free_path'], LEN),
    'ar': (['acceleration rate', 'acceleration_rate'], ['1/s', '1/hour']),
    'ed': (['energy density', 'energy_density'], ['erg/cm^3', 'MeV/cm^3']),
    'ae': (['average energy', 'average_energy'], ['MeV', 'erg', 'keV']),
    'isodist': (['isotropic distribution', 'isodist'],
                ['s^3/km^6', 's^3/cm^6']),
    'flux': (['flux', 'J', 'J(E)', 'Flux'], FLUX),
    'fluence': (['fluence'], ['# / (cm^2 sr MeV/nuc)']),
    'intflux': (['integral flux', 'integral_flux'],
                ['# / (cm^2 s sr)', '# / (m^2 s sr)']),
    'Vr / Br': (['Vr / Br', 'vr / br'], []),
    'Vr * Br / B': (['Vr * Br / B', 'Vr*Br/B'], VEL),
    'mfp / Vr': (['mfp / Vr', 'mfp / vr'], ['hour', 'day']),
    'rho * R': (['rho * r', 'Rho * radius'], ['cm^-2', 'km^-2']),
}
COMMON = ['Vr', 'Br', 'R', 'flux', 'Dist', 'intflux', 'fluence', 'mfp',
          'egrid', 'x', 'B', 'isodist', 'ar', 'time', 'Rho', 'V', 'divV']

BAD_KEYS = ['nope', 'Vs', 'brr', 'idw', 'fluxx', 'Vr / nope', 'radios',
            'energi', 'flow', 'mass density', '']


def pick_name(rng, names=None):
    key = rng.choice(names or (
        COMMON if rng.random() < 0.5 else list(QUANTITIES)))
    aliases, units = QUANTITIES[key]
    return key, rng.choice(aliases), units


def measure(rng, lo, hi, unit, n=1, factor=1.0):
    span = hi - lo
    values = [round((lo + span*(0.02 + 0.96*rng.random()))*factor, 12)
              for _ in range(n)]
    return {'measure': [*values, unit]}


def forms(rng, cons, chance):
    """How to write constraints down (without changing what they mean)."""
    out = {}
    for name, value in cons.items():
        if rng.random() > chance:
            continue
        if isinstance(value, list):
            out[name] = rng.choice(session.SEQUENCES)
        elif isinstance(value, dict) and 'measure' in value:
            out[name] = rng.choice(session.FORMS)
    return out


def constraints(rng, data, rich=True):
    """Observing constraints that suit a dataset (mostly)."""
    dims = data['dims']
    cons = {}
    if rng.random() < 0.55:
        n = dims['time']
        kind = rng.randrange(6)
        tv = data['vars']['time'][1]
        if kind == 0:
            cons['time'] = rng.randrange(n)
        elif kind == 1:
            cons['time'] = sorted(rng.sample(range(n), rng.randint(1, n)))
        elif kind == 2:
            a = rng.randrange(n)
            cons['time'] = {'slice': [a, rng.randint(a + 1, n)]}
        elif kind == 3:
            cons['time'] = measure(rng, tv[0], tv[-1], 'day',
                                   rng.randint(1, 2))
        elif kind == 4:
            cons['time'] = measure(rng, tv[0], tv[-1], 'hour', 1, 24.0)
        else:
            i = rng.randrange(n)
            cons['time'] = {'measure': [float(tv[i]), 'day']}
    if rng.random() < 0.5:
        n = dims['shell']
        kind = rng.randrange(4)
        if kind == 0:
            cons['shell'] = rng.randrange(n)
        elif kind == 1:
            cons['shell'] = sorted(rng.sample(range(n), rng.randint(1, n)))
        elif kind == 2:
            cons['shell'] = {'range': [0, rng.randint(1, n)]}
        else:
            R = data['vars']['R'][1]
            lo, hi = R[:, 0].max(), R[:, -1].min()
            if lo < hi:
                name = rng.choice(['radius', 'radius', 'r', 'R'])
                cons[name] = measure(rng, lo, hi, 'au')
    if rng.random() < 0.45:
        n = dims['species']
        if rng.random() < 0.6:
            cons['species'] = rng.choice(world.species(data))
        else:
            cons['species'] = rng.randrange(n)
    if rng.random() < 0.4:
        n = dims['energy']
        if rng.random() < 0.5:
            cons['energy'] = rng.randrange(n)
        else:
            eg = data['vars']['egrid'][1]
            lo = eg[..., 0].max()
            hi = eg[..., -1].min()
            if lo < hi:
                unit, f = rng.choice([('MeV', 1.0), ('keV', 1e3)])
                cons['energy'] = measure(rng, lo, hi, unit,
                                         rng.randint(1, 2), f)
    if rng.random() < 0.15:
        cons['mu'] = rng.randrange(dims['mu'])
    if rich and rng.random() < 0.25:
        cons[rng.choice(['minimum_energy', 'minimum_energy', 'minimum energy'])] = (
            measure(rng, 0.3, 1.0, 'MeV'))
    if rich and rng.random() < 0.2:
        cons[rng.choice(['lambda0', 'lambda0', 'lamo'])] = measure(
            rng, 0.01, 0.9, 'au')
    if rich and rng.random() < 0.1:
        cons['mfp_radial_power'] = round(1 + rng.random(), 3)
    if rich and rng.random() < 0.1:
        cons['kper_kpar'] = round(rng.random(), 3)
    if rng.random() < 0.08:
        # something the library must refuse
        bad = rng.randrange(4)
        if bad == 0:
            cons['species'] = 'Xx'
        elif bad == 1:
            cons['shell'] = 10*dims['shell']
        elif bad == 2:
            cons['time'] = {'measure': [1e6, 'day']}
        else:
            cons['energy'] = {'measure': [1.0, 'kg']}
    return cons


def units(rng, choices, chance=0.4):
    if not choices or rng.random() > chance:
        return []
    n = 1 if rng.random() < 0.7 else 2
    out = [rng.choice(choices) for _ in range(n)]
    if rng.random() < 0.1:
        out.append(rng.choice(['mks', 'cgs']))
    return out


def observe(rng, data, slot, names=None, **extra):
    key, name, choices = pick_name(rng, names)
    op = {'op': 'observe', 'o': slot, 'name': name,
          'cons': constraints(rng, data)}
    u = units(rng, choices)
    if u:
        op['units'] = u
    p = units(rng, choices, 0.15)
    if p:
        op['post'] = p
    if rng.random() < 0.03:
        op['units'] = [rng.choice(['kg', 'furlong', 'm/kg', 'cgs'])]
    op.update(extra)
    return op


SENSITIVE = {
    'mfp': ['lambda0', 'mfp_radial_power', 'kper_kpar', 'rigidity_power'],
    'ar': ['lambda0', 'mfp_radial_power', 'kper_kpar', 'rigidity_power'],
    'mfp / Vr': ['lambda0', 'mfp_radial_power', 'rigidity_power'],
    'intflux': ['minimum_energy'],
}
_KEY_OF = {a: k for k, (aliases, _) in QUANTITIES.items() for a in aliases}


def parameter(rng, name):
    """A value for a runtime parameter."""
    if name == 'lambda0':
        return measure(rng, 0.01, 0.9, 'au')
    if name == 'minimum_energy':
        return measure(rng, 0.1, 2.0, 'MeV')
    return round(0.05 + 2*rng.random(), 3)


def sensitise(rng, op):
    """Make a request depend on the parameters of its quantity."""
    for name in SENSITIVE.get(_KEY_OF.get(op['name']), ()):
        if rng.random() < 0.5:
            op['cons'][name] = parameter(rng, name)
    return op


def revalue(rng, data, name, value):
    """Another value of the same kind for a constraint."""
    dims = data['dims']
    if isinstance(value, dict) and 'measure' in value:
        *old, unit = value['measure']
        if len(old) > 1 and rng.random() < 0.4:
            new = list(reversed(old)) if rng.random() < 0.5 else old[:1]
        else:
            new = [x*rng.uniform(0.8, 1.2) for x in old]
        return {'measure': [*new, unit]}
    size = dims.get(name)
    if size is None:
        return parameter(rng, name)
    if isinstance(value, str):
        names = world.species(data)
        return rng.choice([rng.choice(names), names.index(value)
                           if value in names else 0])
    if isinstance(value, list):
        return sorted(rng.sample(range(size), rng.randint(1, size)))
    if isinstance(value, dict):
        a = rng.randrange(size)
        return {list(value)[0]: [a, rng.randint(a + 1, size)]}
    return rng.randrange(size)


def relative(rng, data, op):
    """A request that differs a little from another one."""
    new = {k: (dict(v) if isinstance(v, dict) else v) for k, v in op.items()}
    cons = new['cons']
    kind = rng.randrange(7)
    if kind <= 2 and cons:
        for name in sorted(cons):
            if rng.random() < 0.7:
                cons[name] = revalue(rng, data, name, cons[name])
    elif kind == 3 and cons:
        del cons[rng.choice(sorted(cons))]
    elif kind == 4:
        other = constraints(rng, data)
        for name in sorted(other)[:1]:
            cons.setdefault(name, other[name])
    elif kind == 5:
        key = _KEY_OF.get(op['name'])
        if key:
            aliases, choices = QUANTITIES[key]
            new['name'] = rng.choice(aliases)
            new['units'] = units(rng, choices, 0.7)
    else:
        key, new['name'], choices = pick_name(rng)
        new['units'] = units(rng, choices)
        new.pop('post', None)
    return new


def answerable(rng, data):
    """Constraints that every well-behaved dataset must answer."""
    dims, var = data['dims'], data['vars']
    cons = {}
    multi = dims['species'] > 1 and not (
        data['egrid2d'] and (var['egrid'][1] == var['egrid'][1][:1]).all())

    def pick(n):
        kind = rng.randrange(4)
        if kind == 0:
            return rng.randrange(n)
        if kind == 1:
            out = rng.sample(range(n), rng.randint(1, n))
            return sorted(out) if rng.random() < 0.7 else out
        a = rng.randrange(n)
        b = rng.randint(a + 1, n)
        if kind == 2:
            step = rng.choice([1, 1, 2])
            return {'slice': [a, b, step]}
        return {'range': [a, b]}

    def inside(values, unit, factor, node=True):
        out = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if node and rng.random() < 0.3:
                out.append(float(rng.choice(list(values))))
            else:
                lo, hi = values[0], values[-1]
                out.append(float(lo + (hi - lo)*rng.uniform(0.02, 0.98)))
        return {'measure': [*(x*factor for x in out), unit]}

    if rng.random() < 0.55:
        if rng.random() < 0.5:
            cons['time'] = pick(dims['time'])
        else:
            unit, f = rng.choice([('day', 1.0), ('hour', 24.0), ('s', 86400.0)])
            cons['time'] = inside(var['time'][1], unit, f, unit == 'day')
    if rng.random() < 0.6:
        R = var['R'][1]
        lo, hi = R[:, 0].max(), R[:, -1].min()
        if rng.random() < 0.5 and lo < hi:
            unit, f = rng.choice([('au', 1.0), ('au', 1.0),
                                  ('km', 1.495978707e8)])
            fixed = (R == R[:1]).all()
            if fixed and rng.random() < 0.4:
                x = float(rng.choice(list(R[0])))
                f, unit = 1.0, 'au'
            else:
                x = float(lo + (hi - lo)*rng.uniform(0.02, 0.98))
            cons[rng.choice(['radius', 'radius', 'r', 'R'])] = {
                'measure': [x*f, unit]}
        else:
            cons['shell'] = pick(dims['shell'])
    if rng.random() < 0.5:
        names = world.species(data)
        if rng.random() < 0.6:
            cons['species'] = rng.choice(names)
        else:
            cons['species'] = pick(dims['species'])
    if rng.random() < 0.5:
        if rng.random() < 0.4:
            cons['energy'] = pick(dims['energy'])
        else:
            eg = var['egrid'][1]
            eg = eg if eg.ndim == 2 else eg[None]
            lo, hi = eg[:, 0].max(), eg[:, -1].min()
            grid = [lo, hi] if multi else list(eg[0])
            if lo < hi:
                unit, f = rng.choice([('MeV', 1.0), ('keV', 1e3)])
                cons['energy'] = inside(grid, unit, f,
                                        not multi and unit == 'MeV')
    if rng.random() < 0.3:
        if rng.random() < 0.5 or dims['mu'] < 2:
            cons['mu'] = pick(dims['mu'])
        else:
            cons['mu'] = inside(var['mu'][1], '1', 1.0, False)
    if rng.random() < 0.4:
        cons['minimum_energy'] = {'measure': [rng.uniform(0.05, 2.0), 'MeV']}
        if rng.random() < 0.3:
            cons['minimum_energy']['measure'][0] *= 1e3
            cons['minimum_energy']['measure'][1] = 'keV'
    if rng.random() < 0.3:
        cons['lambda0'] = {'measure': [rng.uniform(0.01, 0.9), 'au']}
    if rng.random() < 0.2:
        cons['mfp_radial_power'] = round(rng.uniform(0.5, 3), 3)
    if rng.random() < 0.2:
        cons['rigidity_power'] = round(rng.uniform(0.1, 1.5), 3)
    if rng.random() < 0.2:
        cons['kper_kpar'] = round(rng.uniform(0.01, 0.9), 3)
    return cons
