"""An independent table of units (SI factors and dimensions).

Used to judge unit strings and converted values without asking goats.
Dimensions are exponents of (kg, m, s, A), followed by (K, mol) where those
are not zero; angles, counts and nucleon numbers
are dimensionless, except that a bare nucleon measures mass.
"""

import fractions
import math
import re

AU = 1.495978707e11
EV = 1.6022e-19
NUC = 1.6605e-27
CGS_C = 2.99792458e10

PREFIX = {'': 1.0, 'Y': 1e24, 'Z': 1e21, 'E': 1e18, 'P': 1e15, 'T': 1e12,
          'G': 1e9, 'M': 1e6, 'k': 1e3, 'h': 1e2, 'da': 1e1, 'd': 1e-1,
          'c': 1e-2, 'm': 1e-3, 'u': 1e-6, 'μ': 1e-6, 'n': 1e-9, 'p': 1e-12,
          'f': 1e-15, 'a': 1e-18, 'z': 1e-21, 'y': 1e-24}
LONG = {'yotta': 'Y', 'zetta': 'Z', 'exa': 'E', 'peta': 'P', 'tera': 'T',
        'giga': 'G', 'mega': 'M', 'kilo': 'k', 'hecto': 'h', 'deca': 'da',
        '': '', 'deci': 'd', 'centi': 'c', 'milli': 'm', 'micro': 'u',
        'nano': 'n', 'pico': 'p', 'femto': 'f', 'atto': 'a', 'zepto': 'z',
        'yocto': 'y'}
ALL = ' '.join(PREFIX).split()

#        factor, (kg, m, s, A[, K, mol]), prefixes
BASE = {
    'm': (1.0, (0, 1, 0, 0), ALL),
    'au': (AU, (0, 1, 0, 0), ''),
    'g': (1e-3, (1, 0, 0, 0), ALL),
    's': (1.0, (0, 0, 1, 0), ALL),
    'min': (60.0, (0, 0, 1, 0), ''),
    'h': (3600.0, (0, 0, 1, 0), ''),
    'hour': (3600.0, (0, 0, 1, 0), ''),
    'd': (86400.0, (0, 0, 1, 0), ''),
    'day': (86400.0, (0, 0, 1, 0), ''),
    'A': (1.0, (0, 0, 0, 1), ALL),
    'rad': (1.0, (0, 0, 0, 0), 'm'),
    'deg': (math.pi/180, (0, 0, 0, 0), ''),
    'sr': (1.0, (0, 0, 0, 0), ''),
    '#': (1.0, (0, 0, 0, 0), ''),
    '1': (1.0, (0, 0, 0, 0), ''),
    'count': (1.0, (0, 0, 0, 0), ''),
    'J': (1.0, (1, 2, -2, 0), ALL),
    'erg': (1e-7, (1, 2, -2, 0), 'mkMun'),
    'eV': (EV, (1, 2, -2, 0), ALL),
    'C': (1.0, (0, 0, 1, 1), ALL),
    'e': (EV, (0, 0, 1, 1), ''),
    'statC': (10.0/CGS_C, (0, 0, 1, 1), 'mkMun'),
    'statA': (10.0/CGS_C, (0, 0, 0, 1), 'mkMun'),
    'statV': (1e-8*CGS_C, (1, 2, -3, -1), 'mkMun'),
    'T': (1.0, (1, 0, -2, -1), ALL),
    'G': (1e-4, (1, 0, -2, -1), ALL),
    'Wb': (1.0, (1, 2, -2, -1), 'mukMn'),
    'Mx': (1e-8, (1, 2, -2, -1), 'mkMun'),
    'N': (1.0, (1, 1, -2, 0), ALL),
    'dyn': (1e-5, (1, 1, -2, 0), 'mkMun'),
    'Pa': (1.0, (1, -1, -2, 0), ALL),
    'W': (1.0, (1, 2, -3, 0), ALL),
    'Hz': (1.0, (0, 0, -1, 0), ALL),
    'V': (1.0, (1, 2, -3, -1), ALL),
    'Ω': (1.0, (1, 2, -3, -2), 'mkM'),
    'ohm': (1.0, (1, 2, -3, -2), ''),
    'S': (1.0, (-1, -2, 3, 2), 'mu'),
    'F': (1.0, (-1, -2, 4, 2), 'mun'),
    'H': (1.0, (1, 2, -2, -2), 'mu'),
    'K': (1.0, (0, 0, 0, 0, 1, 0), 'mkM'),
    'mol': (1.0, (0, 0, 0, 0, 0, 1), 'mk'),
    'Gy': (1.0, (0, 2, -2, 0), 'mu'),
    'Bq': (1.0, (0, 0, -1, 0), 'kMGmun'),
    'Ci': (3.7e10, (0, 0, -1, 0), 'mukMn'),
    'P': (0.1, (1, -1, -1, 0), 'cm'),
    'nuc': (None, None, ''),
    'nucleon': (None, None, ''),
}
# names that may be written out, with or without a prefix
NAMES = {
    'meter': 'm', 'gram': 'g', 'second': 's', 'ampere': 'A', 'joule': 'J',
    'electronvolt': 'eV', 'coulomb': 'C', 'tesla': 'T', 'gauss': 'G',
    'newton': 'N', 'pascal': 'Pa', 'watt': 'W', 'hertz': 'Hz', 'volt': 'V',
    'kelvin': 'K', 'mole': 'mol', 'weber': 'Wb', 'farad': 'F', 'henry': 'H',
}
ALONE = {
    'minute': 'min', 'radian': 'rad', 'degree': 'deg', 'steradian': 'sr',
    'erg': 'erg', 'dyne': 'dyn', 'statcoulomb': 'statC', 'maxwell': 'Mx',
    'poise': 'P', 'gray': 'Gy', 'becquerel': 'Bq', 'Curie': 'Ci',
    'statampere': 'statA', 'statvolt': 'statV',
}
NAMED = {
    **{long + name: (PREFIX[short]*BASE[symbol][0], BASE[symbol][1])
       for long, short in LONG.items() for name, symbol in NAMES.items()},
    **{name: BASE[symbol][:2] for name, symbol in ALONE.items()},
}


def token(name):
    """Factor and dimensions of one unit symbol, or None."""
    if name in BASE and name not in ('nuc', 'nucleon'):
        return BASE[name][:2]
    if name in NAMED:
        return NAMED[name]
    for symbol, (factor, dims, allowed) in BASE.items():
        if len(name) > len(symbol) and name.endswith(symbol):
            p = name[:-len(symbol)]
            if p in PREFIX and p in list(allowed):
                return PREFIX[p]*factor, dims
    return None


def parse(text):
    """(SI factor, dimensions) of a formatted unit string, or None."""
    parts = str(text).split()
    if parts in (['nuc'], ['nucleon']):
        return NUC, (1.0, 0.0, 0.0, 0.0)
    factor = 1.0
    dims = [fractions.Fraction(0)]*6
    for part in parts:
        name, _, power = part.partition('^')
        try:
            n = fractions.Fraction(power) if power else fractions.Fraction(1)
        except ValueError:
            return None
        if name in ('nuc', 'nucleon'):
            continue    # per-nucleon energies: a pure number
        got = token(name)
        if got is None:
            return None
        factor *= got[0]**float(n)
        for i, g in enumerate(got[1]):
            dims[i] += n*g
    if not any(dims[4:]):
        dims = dims[:4]
    return factor, tuple(float(d) for d in dims)


def plain(text):
    """Rewrite 'a b / (c d/e)' style units as a product of powers."""
    out = []

    def walk(s, sign):
        s = s.strip()
        depth, tokens, cur = 0, [], ''
        for i, ch in enumerate(s):
            if ch == '/' and s[i+1:i+2].isdigit() and re.search(
                    r'\^-?[0-9]+$', cur):
                cur += ch       # a rational exponent
                continue
            if ch == '(':
                depth += 1
            elif ch == ')':
                depth -= 1
            if depth == 0 and ch in ' */':
                tokens.append(cur)
                tokens.append(ch)
                cur = ''
            else:
                cur += ch
        tokens.append(cur)
        flip = False
        for t in tokens:
            if t in ('', ' ', '*'):
                continue
            if t == '/':
                flip = True
                continue
            this = -sign if flip else sign
            flip = False
            if t.startswith('('):
                walk(t[1:-1], this)
                continue
            name, _, power = t.partition('^')
            n = fractions.Fraction(power or '1')*this
            out.append(name if n == 1 else f'{name}^{n}')
    walk(text, 1)
    return ' '.join(out)
