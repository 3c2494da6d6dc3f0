"""Synthetic EPREM source code: what it says, and how it is written in C."""

import json
import random

from . import seams


def template():
    """The parameters that the package ships with."""
    from . import loader
    path = f'{loader.ROOT}/goats/eprem/runtime.json'
    with seams.REAL['open'](path) as fp:
        return json.load(fp)


def variant(base, seed):
    """Another version of the source code: new values, names come and go."""
    rng = random.Random(f'eprem:{seed}')
    types = dict(base['_BASETYPES_H'])
    params = {k: dict(v) for k, v in base['_CONFIGURATION_C'].items()}
    for name, value in list(types.items()):
        try:
            x = float(value)
        except ValueError:
            continue
        if name in ('T', 'F') or rng.random() < 0.4:
            continue
        if value.isdigit():
            types[name] = str(rng.randrange(1, 500))
        else:
            types[name] = repr(round(x*rng.uniform(0.5, 1.5), 40))
    for name, info in list(params.items()):
        x = rng.random()
        if x < 0.06 and name not in KEEP:
            del params[name]
            continue
        if x < 0.5:
            number(rng, info)
        if rng.random() < 0.05 and info['mode'] != 'readDoubleArray':
            info['alias'] = name + rng.choice(['X', 'New', '2'])
    for i in range(rng.randrange(8)):
        kind = rng.choice(['readInt', 'readDouble', 'readString'])
        info = {'mode': kind, 'default': '1'}
        if kind != 'readString':
            info.update(minimum='0', maximum='BADVALUE')
        number(rng, info)
        params[f'extra{rng.randrange(10**6)}'] = info
    return {'_BASETYPES_H': types, '_CONFIGURATION_C': params}


KEEP = {'simStartTime', 'tDel', 'omegaSun', 'lamo', 'mass', 'charge'}


def number(rng, info):
    kind = info['mode']
    if kind == 'readInt':
        if info['default'].isdigit():
            info['default'] = str(rng.randrange(9))
    elif kind == 'readDouble':
        try:
            float(info['default'])
        except ValueError:
            return
        info['default'] = rng.choice(
            ['0.0', repr(round(rng.uniform(0, 10), 4)), '2.5e-4', '1e5'])
    elif kind == 'readDoubleArray':
        info['default'] = f"[{rng.choice(['1.0', '0', '2.5', '4'])}]"
    elif kind == 'readString':
        info['default'] = rng.choice(['', 'abc', 'a_b.txt'])


def basetypes_h(spec, rng):
    lines = ['#ifndef BASETYPES_H', '#define BASETYPES_H', '', '/* types */',
             'typedef double Scalar_t;', '#define MAX(a,b) ((a)>(b)?(a):(b))']
    items = list(spec['_BASETYPES_H'].items())
    rng.shuffle(items)
    for name, value in items:
        gap = rng.choice([' ', '  ', '\t'])
        lines.append(f'#define {name}{gap}{value}')
        if rng.random() < 0.1:
            lines.append('')
    lines += ['', '#endif']
    return '\n'.join(lines) + '\n'


def configuration_c(spec, rng):
    lines = ['#include "configuration.h"', '', 'Config_t config;', '',
             'void getParams(char *filename) {', '']
    items = list(spec['_CONFIGURATION_C'].items())
    rng.shuffle(items)
    calls = []
    for name, info in items:
        kind = info['mode']
        key = info.get('alias', name)
        pad = ' '*rng.choice([0, 2, 4])
        eq = rng.choice([' = ', '=', '  = '])
        if kind == 'readDoubleArray':
            value = info['default'].strip('[]')
            lines.append(f'  Scalar_t default_{name}[1]{eq}{{{value}}};')
            args = f', &config.{name}Size, default_{name}'
            calls.append(f'{pad}config.{name}{eq}{kind}("{key}"{args});')
        elif kind == 'readString':
            calls.append(f'{pad}config.{name}{eq}(char*)readString'
                         f'("{key}", "{info["default"]}");')
        else:
            args = ', '.join(info[k] for k in
                             ('default', 'minimum', 'maximum'))
            calls.append(f'{pad}config.{name}{eq}{kind}("{key}", {args});')
        if rng.random() < 0.1:
            calls.append(f'  // config.{name} = readInt("{name}", 99, 0, 1);')
    lines += calls + ['}', '']
    return '\n'.join(lines) + '\n'


def write(folder, spec, seed):
    rng = random.Random(f'text:{seed}')
    for name, text in (('baseTypes.h', basetypes_h(spec, rng)),
                       ('configuration.c', configuration_c(spec, rng))):
        with seams.REAL['open'](f'{folder}/{name}', 'w') as fp:
            fp.write(text)
