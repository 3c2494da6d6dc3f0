"""P13: the names of one thing are interchangeable."""

import os

from .. import engine, loader, seams, session, workload
from . import common

KINDS = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}
NAMES = ['a', 'b', 'ab', 'c', 'mfp', 'mean free path', 'mean_free_path',
         'r', 'R', 'x', 'x y', 'V']
# Constraints that may be given by any of these names.
ALSO = [['radius', 'r', 'R']]
FAULTS = ['EIO', 'HDF', 'MemoryError', 'EINTR']
GONE = 'gone'


# ------------------------------------------------------------------ the model
#
# A mapping is {frozenset of names: value}, a collection of groups is a set of
# frozensets, a name map is {frozenset of names: canonical name}.

class Refused(Exception):
    """goats has to refuse this."""


class Unclear(Exception):
    """What this has to do is not laid down."""


def owner(state, name):
    for group in state:
        if name in group:
            return group
    return None


def joined(groups, others):
    out = [frozenset(g) for g in groups]
    for other in others:
        new = frozenset(other)
        for g in [g for g in out if g & new]:
            out.remove(g)
            new |= g
        out.append(new)
    return frozenset(out)


def pairs(op):
    return {frozenset(names): value for names, value in op['items']}


def after(kind, state, op, pool):
    """(answer, states it may be left in by an abort ..., final state)."""
    what = op['op']
    if what == 'set':
        names = frozenset(op['names'])
        if op['as'] == 'one':
            names = owner(state, op['names'][0]) or names
        elif op['as'] == 'tuple' or names not in state:
            if any(owner(state, n) for n in names):
                raise Unclear
        return None, [{**state, names: op['value']}]
    if what in ('del', 'pop'):
        group = owner(state, op['name'])
        if group is None:
            if what == 'pop' and 'default' in op:
                return op['default'], [state]
            raise Refused
        left = {k: v for k, v in state.items() if k != group}
        return (state[group] if what == 'pop' else None), [left]
    if what == 'clear':
        # group after group, in the order of the mapping (which is not ours)
        return None, [{}]
    if what == 'setdefault':
        group = owner(state, op['name'])
        if group is not None:
            return state[group], [state]
        return op['value'], [{**state, frozenset([op['name']]): op['value']}]
    if what == 'update':
        out, steps = dict(state), []
        for name, value in op['items']:
            group = owner(out, name) or frozenset([name])
            out = {**out, group: value}
            steps.append(out)
        return None, steps or [state]
    if what == 'alias':
        group = owner(state, op['name'])
        new = [n for n in op['names'] if n != op['name']]
        if not new:
            return None, [state]
        if group is None or any(owner(state, n) for n in new):
            raise Refused
        out, steps = dict(state), [state]
        for name in new:
            value = out[group]
            out = {k: v for k, v in out.items() if k != group}
            group = group | {name}
            out[group] = value
            steps.append(out)
        return None, steps
    if what == 'add':
        if any(owner(state, n) for n in op['names']):
            raise Refused
        return None, [state | {frozenset(op['names'])}]
    if what == 'discard':
        return None, [frozenset(g for g in state if op['name'] not in g)]
    if what == 'join':
        out, steps = state, [state]
        for form, these in op['others']:
            out = joined(out, these)
        return None, [state, out]
    if what == 'squeeze':
        if not all(isinstance(v, dict) for v in state.values()):
            raise Unclear
        return None, [{k: v['n'] for k, v in state.items()}]
    if what == 'invert':
        if any(isinstance(v, list) for v in state.values()):
            raise Unclear
        return None, [{frozenset([v]): sorted(k) for k, v in state.items()}]
    raise ValueError(what)


def built(op, pool):
    """(kind, state) of something new."""
    what = op['op']
    if what == 'new':
        kind = op['kind']
        if kind == 'groups':
            return kind, frozenset(frozenset(n) for n, _ in op['items'])
        if kind == 'names':
            return kind, {frozenset(n): n[0] for n, _ in op['items']}
        state = pairs(op)
        if op['form'] == 'aliases' and not op['squeeze']:
            state = {k: {'n': v} for k, v in state.items()}
        if op['form'] in ('keys', 'keymap', 'keygroups'):
            state = {k: op['value'] for k in state}
        return kind, state
    kind, state = pool[op['a']]
    if what == 'copy':
        return kind, state
    if what in ('asmap', 'asmut'):
        return {'asmap': 'map', 'asmut': 'mut'}[what], state
    if what == 'or':
        other = pool[op['b']][1]
        if any(g not in state and any(g & h for h in state) for g in other):
            raise Unclear
        return kind, {**state, **other}
    if what == 'merge':
        for form, these in op['others']:
            state = joined(state, these)
        return kind, state
    if what == 'without':
        return kind, frozenset(
            g for g in state
            if not any(n in g for n in op['names'])
            and g != frozenset(op['whole'] or ['\0']))
    raise ValueError(what)


MAKERS = ('new', 'copy', 'asmap', 'asmut', 'or', 'merge', 'without')
MUTATORS = ('set', 'del', 'pop', 'clear', 'setdefault', 'update', 'alias',
            'add', 'discard', 'join', 'invert', 'squeeze')


def dumped(kind, state):
    """How the model looks from outside."""
    if kind == 'groups':
        return {
            'groups': sorted(sorted(g) for g in state),
            'flat': sorted(n for g in state for n in g),
            'len': len(state),
            'find': {n: sorted(owner(state, n)) for n in NAMES
                     if owner(state, n)},
        }
    flat = {n: v for g, v in state.items() for n in g}
    rows = sorted([n, str(v)] for n, v in flat.items())
    out = {
        'keys': sorted(flat), 'len': len(flat), 'items': rows,
        'values': sorted(str(v) for v in flat.values()),
        'groups': sorted([sorted(g), str(v)] for g, v in state.items()),
        'get': {n: str(flat[n]) for n in NAMES if n in flat},
    }
    if kind != 'names':
        out['flat'] = rows
        out['alias'] = {
            n: [sorted(g), sorted(g - {n})] for g in state for n in g}
        out['whole'] = len(state)
        out['tuple'] = 'refused'
    return out


# -------------------------------------------------------------- the real thing

def text(value):
    if isinstance(value, list):
        return str(sorted(value))
    return str(value)


def dump(kind, this):
    """Everything a user can see, through every way of looking."""
    from goats.core import aliased
    if kind == 'groups':
        find = {}
        for n in NAMES:
            found = this.find(n)
            if (found is not None) != (n in this):
                raise AssertionError(f'{n!r}: in and find disagree')
            if found is not None:
                find[n] = sorted(found)
        return {'groups': sorted(sorted(g) for g in this),
                'flat': sorted(this.flat), 'len': len(this), 'find': find}
    get = {}
    for n in NAMES:
        try:
            get[n] = text(this[n])
        except KeyError:
            if n in this:
                raise AssertionError(f'{n!r} is in but not found')
        else:
            if n not in this:
                raise AssertionError(f'{n!r} is found but not in')
    items = list(this.items())
    out = {
        'keys': sorted(this), 'len': len(this),
        'items': sorted([n, text(v)] for n, v in items),
        'values': sorted(text(v) for v in this.values()),
        'groups': sorted(
            [sorted(g), text(v)] for g, v in this.items(aliased=True)),
        'get': get,
    }
    for view in (this.keys(), this.values(), this.items()):
        if len(view) != len(this):
            raise AssertionError('the length of a view')
    if sorted(this.keys()) != out['keys']:
        raise AssertionError('keys and iteration disagree')
    if kind != 'names':
        out['flat'] = sorted([n, text(v)] for n, v in this.flat.items())
        out['alias'] = {
            n: [sorted(this.alias(n, include=True)), sorted(this.alias(n))]
            for n in this}
        n = 0
        for group in this.keys(aliased=True):
            turned = aliased.Group(*reversed(list(group)))
            if text(this[turned]) != text(this[group]):
                raise AssertionError(f'{group} found otherwise than {turned}')
            n += 1
        out['whole'] = n
        out['tuple'] = 'refused'
        try:
            this[tuple(sorted(this)[:2])]
        except KeyError:
            pass
        else:
            out['tuple'] = 'accepted'
    return out


def spelled(form, these):
    from goats.core import aliased
    if form == 'groups':
        return [aliased.Groups(*map(tuple, these))]
    if form == 'group':
        return [aliased.Group(*g) for g in these]
    if form == 'str':
        return [g[0] if len(g) == 1 else tuple(g) for g in these]
    if form == 'list':
        return [list(g) for g in these]
    return [tuple(g) for g in these]


def make(op, pool):
    """Build one object; the user's own container is spoilt afterwards."""
    from goats.core import aliased
    what = op['op']
    if what != 'new':
        this = pool[op['a']]
        if what == 'copy':
            return this.copy()
        if what == 'asmap':
            return aliased.Mapping(this)
        if what == 'asmut':
            return aliased.MutableMapping(this)
        if what == 'or':
            return this | pool[op['b']]
        if what == 'merge':
            others = [x for form, g in op['others'] for x in spelled(form, g)]
            return this.merge(*others)
        if what == 'without':
            keys = list(op['names'])
            if op['whole']:
                keys.append(aliased.Group(*op['whole']))
            return this.without(*keys)
    items, form = op['items'], op['form']
    if op['kind'] == 'groups':
        return aliased.Groups(*(
            n[0] if len(n) == 1 and form == 'str' else tuple(n)
            for n, _ in items))
    if op['kind'] == 'names':
        if form == 'iterable':
            refs = [n[0] for n, _ in items]
            defs = [list(n) for n, _ in items]
            out = aliased.NameMap(defs, refs)
            for d in defs:
                d.clear()
            refs.clear()
            return out
        if form == 'flat':
            defs = {n[0]: list(n) for n, _ in items}
        else:
            defs = {n[0]: {'aliases': tuple(n[1:])} for n, _ in items}
        return aliased.NameMap(defs)
    cls = {'map': aliased.Mapping, 'mut': aliased.MutableMapping}[op['kind']]
    if form == 'keys':
        return cls.fromkeys([tuple(n) for n, _ in items], value=op['value'])
    if form == 'keygroups':
        return cls.fromkeys(
            aliased.Groups(*(tuple(n) for n, _ in items)), value=op['value'])
    if form == 'keymap':
        return cls.fromkeys(
            {n[0]: {'aliases': tuple(n[1:]), 'x': 0} for n, _ in items},
            value=op['value'])
    if form in ('aliases', 'other'):
        key = 'aliases' if form == 'aliases' else 'also'
        user = {n[0]: {key: n[1] if len(n) == 2 else tuple(n[1:]), 'n': v}
                for n, v in items}
        out = cls(user) if form == 'aliases' else cls(user, aliases=key)
        if op['squeeze'] or form == 'other':
            out = out.squeeze(strict=bool(items) and op['strict'])
    elif form in ('groups', 'mapping'):
        user = {n[0]: v for n, v in items}
        known = [tuple(n) for n, _ in items]
        aliases = (aliased.Groups(*known) if form == 'groups'
                   else aliased.Mapping({n: None for n in known}))
        out = cls(user, aliases=aliases)
    else:
        user = {n[0] if len(n) == 1 and form == 'str' else tuple(n): v
                for n, v in items}
        out = cls(user)
    user.clear()
    return out


def change(op, this):
    """Change one object in place; the answer."""
    from goats.core import aliased
    what = op['op']
    if what == 'set':
        key = {'one': lambda: op['names'][0],
               'tuple': lambda: tuple(op['names']),
               'group': lambda: aliased.Group(*reversed(op['names'])),
               }[op['as']]()
        this[key] = op['value']
        return None
    if what == 'del':
        del this[op['name']]
        return None
    if what == 'pop':
        extra = (op['default'],) if 'default' in op else ()
        return this.pop(op['name'], *extra)
    if what == 'clear':
        return this.clear()
    if what == 'setdefault':
        return this.setdefault(op['name'], op['value'])
    if what == 'update':
        return this.update(dict(op['items']))
    if what == 'alias':
        return this.alias(op['name'], *op['names'])
    if what == 'add':
        return this.add(tuple(op['names']))
    if what == 'discard':
        return this.discard(op['name'])
    if what == 'join':
        others = [x for form, g in op['others'] for x in spelled(form, g)]
        return this.update(*others)
    if what == 'squeeze':
        return None if this.squeeze(op['strict']) is this else 'another'
    if what == 'invert':
        return None if this.invert() is this else 'another object'
    raise ValueError(what)


SETS = {'or': lambda x, y: x | y, 'and': lambda x, y: x & y,
        'sub': lambda x, y: x - y, 'xor': lambda x, y: x ^ y,
        'eq': lambda x, y: x == y,
        'disjoint': lambda x, y: x.isdisjoint(y)}


class P13(common.ObserverProperty):

    ID = 'P13'
    RUNS = (700, 20000)
    BUDGET = (240, 2400)
    RULE = ('distinct (operation, size of the object, outcome) triples and '
            'distinct (quantity, constraints) asked by all of its names')
    REAL = ['goats', 'netCDF4/HDF5 and the file system (observers)']
    STUBBED = ['arrival of aborts', 'failing reads']
    MODULES = ['goats.core.aliased', 'goats.core.observer']

    # -- scenarios ------------------------------------------------------------

    def scenario(self, rng, env, tier, index):
        if index % 7 == 6:
            return self.observers(rng, env, index)
        return self.containers(rng, tier)

    def observers(self, rng, env, index):
        label = f'{self.ID}:{env.seed}:{index//400}'
        menu = common.menu(env, label, 8, 20)
        k = rng.randrange(len(menu.specs))
        data = common.data_of(env.cat, menu.specs[k])
        ops = [{'op': 'new', 'o': 'o', **menu.specs[k]}]
        quantities = [q for q in workload.QUANTITIES if '/ ' not in q
                      and '*' not in q]
        for _ in range(rng.randint(3, 6)):
            key, name, choices = workload.pick_name(rng, quantities)
            cons = workload.constraints(rng, data)
            op = {'op': 'alike', 'key': key, 'name': name,
                  'order': rng.randrange(1000),
                  'cons': cons,
                  'units': workload.units(rng, choices)}
            workload.sensitise(rng, op)
            op['aka'] = {c: [rng.choice(g) for _ in range(6)]
                         for g in ALSO for c in g if c in cons}
            x = rng.random()
            if x < 0.25:
                op['fault'] = {'call': 'ncread', 'n': rng.choice([1, 2, 3]),
                               'count': rng.choice([1, 1, 9]),
                               'exc': rng.choice(FAULTS)}
            elif x < 0.5:
                op['abort'] = {'at': int(10**rng.uniform(0, 4)),
                               'exc': rng.choice(sorted(KINDS))}
            ops.append(op)
        return {'kind': 'observer', 'ops': ops}

    def containers(self, rng, tier):
        pool, ops = {}, []
        disturbed = rng.random() < 0.6
        focus = rng.choice(['maps', 'maps', 'groups', 'names', 'any'])
        values = iter(range(1, 10000))

        def items(most=4):
            names = rng.sample(NAMES, rng.randint(0, len(NAMES)))
            sizes = rng.choice([[1, 1, 2, 2, 3, 4], [1, 2, 5, 7, 11]])
            out = []
            while names and len(out) < most:
                n = min(len(names), rng.choice(sizes))
                out.append([names[:n], next(values)])
                names = names[n:]
            return out

        def others():
            out = []
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                these = [g for g, _ in items(rng.choice([1, 1, 2, 3]))]
                out.append([rng.choice(
                    ['tuple', 'tuple', 'list', 'str', 'group', 'groups']),
                    these])
            return out

        def new():
            kind = {'maps': ['map', 'mut', 'mut'], 'groups': ['groups'],
                    'names': ['names'],
                    'any': ['map', 'mut', 'groups', 'names']}[focus]
            kind = rng.choice(kind)
            op = {'op': 'new', 'kind': kind, 'items': items()}
            op['form'] = rng.choice({
                'groups': ['tuple', 'str'],
                'names': ['iterable', 'flat', 'nested'],
            }.get(kind, ['tuple', 'tuple', 'str', 'aliases', 'aliases',
                         'other', 'groups', 'mapping', 'keys', 'keymap',
                         'keygroups']))
            if kind in ('map', 'mut'):
                op['squeeze'] = rng.random() < 0.5
                op['strict'] = rng.random() < 0.5
                op['value'] = next(values)
            return op

        def known(state):
            flat = sorted(n for g in state for n in g)
            return rng.choice(flat) if flat else None

        def draw():
            if not pool or rng.random() < 0.08 and len(pool) < 7:
                return new()
            slot = rng.choice(sorted(pool))
            kind, state = pool[slot]
            name = known(state)
            if name is None or rng.random() < 0.2:
                name = rng.choice(NAMES)
            op = {'a': slot}
            makers = ['copy'] if kind != 'groups' else []
            if kind in ('map', 'mut') and state and rng.random() < 0.3 and (
                    all(isinstance(v, dict) for v in state.values())):
                return {'op': 'squeeze', 'a': slot,
                        'strict': rng.random() < 0.5}
            x = rng.random()
            if x < 0.12:
                return {'op': 'algebra', 'f': rng.choice(sorted(SETS)),
                        'x': rng.sample(NAMES, rng.randint(1, 4)),
                        'y': rng.sample(NAMES, rng.randint(1, 4)),
                        'plain': rng.random() < 0.5}
            if x < 0.3 and len(pool) > 1:
                b = rng.choice(sorted(pool))
                if (pool[b][0] == 'groups') == (kind == 'groups') and (
                        'names' not in (kind, pool[b][0])):
                    return {'op': 'same', 'a': slot, 'b': b}
            if kind in ('map', 'mut'):
                makers += ['asmap', 'asmut']
                partner = [
                    s for s in sorted(pool) if pool[s][0] in ('map', 'mut')
                    and all(g in state or not any(g & h for h in state)
                            for g in pool[s][1])]
                if partner:
                    makers += ['or', 'or']
                    op['b'] = rng.choice(partner)
            if kind == 'groups':
                makers += ['merge', 'without']
            if len(pool) < 7 and makers and (
                    rng.random() < 0.3 or kind == 'map'):
                op['op'] = rng.choice(makers)
                if op['op'] == 'merge':
                    op['others'] = others()
                if op['op'] == 'without':
                    op['names'] = rng.sample(NAMES, rng.randint(0, 2))
                    op['whole'] = (sorted(rng.choice(sorted(
                        state, key=sorted)), reverse=True)
                        if state and rng.random() < 0.4 else None)
                if op['op'] != 'or':
                    op.pop('b', None)
                return op
            op.pop('b', None)
            if kind == 'mut':
                op['op'] = rng.choice([
                    'set', 'set', 'set', 'del', 'del', 'pop', 'clear',
                    'setdefault', 'update', 'alias', 'alias', 'alias'])
                if op['op'] == 'set':
                    op['as'] = rng.choice(['one', 'one', 'tuple', 'group'])
                    op['value'] = next(values)
                    op['names'] = [name]
                    free = [n for n in NAMES if not owner(state, n)]
                    if op['as'] == 'tuple':
                        if len(free) < 2:
                            return None
                        op['names'] = rng.sample(free, rng.choice([2, 3])
                                                 if len(free) > 2 else 2)
                    if op['as'] == 'group':
                        if not state:
                            return None
                        op['names'] = sorted(rng.choice(sorted(
                            state, key=sorted)))
                elif op['op'] == 'update':
                    op['items'] = [[n, next(values)] for n in
                                   rng.sample(NAMES, rng.randint(0, 4))]
                elif op['op'] == 'alias':
                    op['name'] = name
                    op['names'] = rng.sample(NAMES, rng.choice([1, 1, 2, 3]))
                    if rng.random() < 0.6:
                        op['names'] = [n for n in op['names']
                                       if not owner(state, n)]
                    if not op['names']:
                        return None
                elif op['op'] != 'clear':
                    op['name'] = name
                    if op['op'] == 'setdefault':
                        op['value'] = next(values)
                    if op['op'] == 'pop' and rng.random() < 0.3:
                        op['default'] = next(values)
                return op
            if kind == 'groups':
                op['op'] = rng.choice(['add', 'add', 'discard', 'join',
                                       'join', 'join'])
                if op['op'] == 'add':
                    names = rng.sample(NAMES, rng.randint(1, 3))
                    if rng.random() < 0.7:
                        names = [n for n in names if not owner(state, n)]
                    if not names:
                        return None
                    op['names'] = names
                elif op['op'] == 'discard':
                    op['name'] = name
                else:
                    op['others'] = others()
                return op
            if kind == 'names' and not any(
                    isinstance(v, list) for v in state.values()) and (
                        rng.random() < 0.3):
                return {'op': 'invert', 'a': slot}
            return None

        for _ in range(rng.choice([8, 14, 24]) * (2 if tier != 'quick'
                                                 else 1)):
            op = draw()
            if op is None:
                continue
            if disturbed and op['op'] not in ('same', 'algebra') and (
                    rng.random() < 0.5):
                ops.append(dict(op, abort={
                    'at': rng.randint(1, rng.choice([6, 15, 40, 120])),
                    'exc': rng.choice(sorted(KINDS))}))
                continue
            if op['op'] in MAKERS:
                slot = f's{len(ops)}'
                try:
                    pool[slot] = built(op, pool)
                except Unclear:
                    continue
                ops.append(dict(op, to=slot))
            elif op['op'] in MUTATORS:
                kind, state = pool[op['a']]
                try:
                    pool[op['a']] = kind, after(kind, state, op, pool)[1][-1]
                except Refused:
                    pass
                except Unclear:
                    continue
                ops.append(op)
            else:
                ops.append(op)
        return {'kind': 'containers', 'ops': ops}

    # -- execution -------------------------------------------------------------

    def execute(self, env, scenario, work, prepared):
        os.chdir(env.base)
        seams.SEAM.reset()
        if scenario['kind'] == 'observer':
            return self.ask(env, scenario)
        from goats.core import aliased
        pool, kinds, out = {}, {}, []
        for op in scenario['ops']:
            if any(op.get(k) not in pool for k in 'ab' if k in op):
                out.append({'skipped': True})
                continue
            aborted, answer = [], None
            if op.get('abort'):
                common.arm(op['abort'], aborted, KINDS)
            this = None
            try:
                if op['op'] in MAKERS:
                    this = make(op, pool)
                elif op['op'] == 'same':
                    answer = pool[op['a']] == pool[op['b']]
                elif op['op'] == 'algebra':
                    x = aliased.Group(*op['x'])
                    y = list(op['y']) if op['plain'] else (
                        aliased.Group(*op['y']))
                    answer = SETS[op['f']](x, y)
                    if not isinstance(answer, bool):
                        answer = sorted(answer)
                    again = aliased.Group(*reversed(op['x']))
                    if sorted(x) != sorted(op['x']) or (
                            sorted(y) != sorted(op['y'])):
                        answer = 'an operand changed'
                    if not (x == again and hash(x) == hash(again)
                            and len({x, again}) == 1):
                        answer = 'the order of the names matters'
                else:
                    answer = change(op, pool[op['a']])
                rec = {'answer': answer}
            except KeyboardInterrupt:
                rec = {'error': 'KeyboardInterrupt'}
            except Exception as err:
                rec = {'error': type(err).__name__,
                       'message': loader.message(err)}
            loader.CONTROL.armed = False
            rec['fired'] = aborted
            if op.get('to') and this is not None:
                pool[op['to']] = this
                kinds[op['to']] = op.get('kind') or (
                    {'asmap': 'map', 'asmut': 'mut'}.get(op['op'])
                    or kinds[op['a']])
            rec['pool'] = {}
            for slot, this in pool.items():
                try:
                    rec['pool'][slot] = dump(kinds[slot], this)
                except Exception as err:
                    rec['pool'][slot] = {
                        'error': f'{type(err).__name__}: {err}'[:300]}
            out.append(rec)
        return out

    def ask(self, env, scenario):
        s = session.Session(env.base)
        out = []
        for op in scenario['ops']:
            if op['op'] == 'new':
                out.append(s.run(op))
                continue
            if 'o' not in s.observers:
                out.append({'skipped': True})
                continue
            listed = [sorted(str(i) for i in g)
                      for g in s.observers['o'].observables]
            group = [g for g in listed if op['name'] in g]
            names = group[0] if group else [op['name']]
            k = op['order'] % len(names)
            names = (names[k:] + names[:k])[:6]
            request = {'op': 'observe', 'o': 'o', 'cons': op['cons'],
                       'units': op['units']}
            fired = []
            if op.get('fault') or op.get('abort'):
                if op.get('fault'):
                    seams.SEAM.arm([op['fault']])
                if op.get('abort'):
                    common.arm(op['abort'], fired, KINDS)
                try:
                    s.run({**request, 'name': names[0]})
                except KeyboardInterrupt:
                    pass
                loader.CONTROL.armed = False
                fired += [f[2] for f in seams.SEAM.fired]
                seams.SEAM.disarm()
                seams.SEAM.fired = []
            answers = [
                s.run({**request, 'name': n, 'cons': {
                    op['aka'][c][i] if i and c in op['aka'] else c: v
                    for c, v in op['cons'].items()}})
                for i, n in enumerate(names)]
            metas = [s.run({'op': 'meta', 'o': 'o', 'name': n,
                            'units': op['units']}) for n in names]
            found = [bool(s.observers['o'].observes(n)) for n in names]
            out.append({'names': names, 'group': group, 'answers': answers,
                        'metas': metas, 'found': found, 'fired': fired})
        return out

    # -- judgement ---------------------------------------------------------------

    def judge(self, env, scenario, outcome, work):
        _, history = outcome
        if scenario['kind'] == 'observer':
            return self.compare(scenario, history)
        pool = {}
        violation = None
        seen, faults, count = set(), {}, {}
        for i, (op, rec) in enumerate(zip(scenario['ops'], history)):
            if rec.get('skipped') or any(
                    op.get(k) not in pool for k in 'ab' if k in op):
                continue
            count[op['op']] = count.get(op['op'], 0) + 1
            fired = rec['fired']
            for _ in fired:
                exc = op['abort']['exc']
                faults[exc] = faults.get(exc, 0) + 1
            why, states = None, None
            stopped = fired and 'error' in rec
            if op['op'] in MAKERS:
                try:
                    new = built(op, pool)
                except Unclear:
                    continue
                if 'error' in rec and not stopped:
                    why = f'refused: {rec["error"]} {rec.get("message")}'
                elif not stopped and op.get('to'):
                    pool[op['to']] = new
            elif op['op'] == 'same':
                (k, p), (_, q) = pool[op['a']], pool[op['b']]
                if k == 'groups':
                    want = p == q
                else:
                    want = ({n: v for g, v in p.items() for n in g}
                            == {n: v for g, v in q.items() for n in g})
                if rec.get('answer') is not want:
                    why = f'{rec} instead of {want}'
            elif op['op'] == 'algebra':
                want = SETS[op['f']](frozenset(op['x']), frozenset(op['y']))
                want = want if isinstance(want, bool) else sorted(want)
                if rec.get('answer') != want or 'error' in rec:
                    why = f'{rec} instead of {want}'
            else:
                kind, state = pool[op['a']]
                try:
                    answer, states = after(kind, state, op, pool)
                except Unclear:
                    del pool[op['a']]
                    continue
                except Refused:
                    if 'error' not in rec:
                        why = f'accepted: {rec["answer"]}'
                else:
                    if stopped:
                        states = [state, *states]
                        if op['op'] == 'clear':
                            states = GONE
                    else:
                        states = states[-1:]
                        if 'error' in rec:
                            why = (f'refused: {rec["error"]} '
                                   f'{rec.get("message")}')
                        elif rec['answer'] != answer:
                            why = f'{rec["answer"]} instead of {answer}'
            if states == GONE:
                left = rec['pool'][op['a']]
                kind, state = pool[op['a']]
                now = {g: v for g, v in state.items()
                       if [sorted(g), str(v)] in left.get('groups', [])}
                states = [now]
            if states is not None and not why:
                kind, state = pool[op['a']]
                got = rec['pool'][op['a']]
                fits = [s for s in states if dumped(kind, s) == got]
                if fits:
                    pool[op['a']] = kind, fits[-1]
                else:
                    want = dumped(kind, states[-1])
                    why = first(want, got)
            for slot, (kind, state) in pool.items():
                if why:
                    break
                got = rec['pool'].get(slot)
                want = dumped(kind, state)
                if got != want:
                    why = f'{slot}: {first(want, got)}'
            size = len(pool[op['a']][1]) if op.get('a') in pool else 0
            seen.add(engine.digest([
                op['op'], op.get('form'), op.get('as'), op.get('f'), size,
                bool(fired), 'error' in rec, fired[:1]]))
            if why and not violation:
                violation = {'kind': op['op'], 'op': i, 'detail': [op, why]}
        return {
            'violation': violation, 'digest': engine.digest(history),
            'nontrivial': sorted(seen),
            'stats': {'operations': count, 'faults': faults},
            'sample': scenario['ops'][:5],
        }

    def compare(self, scenario, history):
        violation = None
        seen, faults, asked = set(), {}, 0
        for i, (op, rec) in enumerate(zip(scenario['ops'], history)):
            if op['op'] == 'new' or rec.get('skipped'):
                continue
            why = None
            for f in rec['fired']:
                key = op['abort']['exc'] if op.get('abort') else f
                faults[key] = faults.get(key, 0) + 1
            listed = workload.QUANTITIES[op['key']][0]
            if not rec['group']:
                continue        # the dataset does not have it
            if len(rec['group']) != 1:
                why = f'{op["name"]!r} is listed {len(rec["group"])} times'
            elif not set(listed) <= set(rec['group'][0]):
                why = f'{listed} are not all in {rec["group"]}'
            elif not all(rec['found']):
                why = f'not observable: {rec["names"]} {rec["found"]}'
            for what in ('answers', 'metas'):
                head, *rest = rec[what]
                for name, other in zip(rec['names'][1:], rest):
                    asked += 1
                    found = session.differ(head, other)
                    if found and not why:
                        why = (f'{what} to {rec["names"][0]!r} and {name!r} '
                               f'differ: {found}')
            seen.add(engine.digest([op['key'], op['cons'], op['units']]))
            if why and not violation:
                violation = {'kind': 'alike', 'op': i, 'detail': [op, why]}
        return {
            'violation': violation, 'digest': engine.digest(history),
            'nontrivial': sorted(seen),
            'stats': {'operations': {'alike': asked}, 'faults': faults},
            'sample': scenario['ops'][:3],
        }

    def shrink(self, scenario):
        yield from super().shrink(scenario)
        ops = scenario['ops']
        for i, op in enumerate(ops):
            for key in ('items', 'others'):
                for j in range(len(op.get(key) or ())):
                    new = dict(op)
                    new[key] = op[key][:j] + op[key][j+1:]
                    yield dict(scenario, ops=ops[:i] + [new] + ops[i+1:])


def first(want, got):
    if not isinstance(got, dict) or 'error' in got:
        return f'{got}'
    for k in want:
        if want[k] != got.get(k):
            return f'{k}: {got.get(k)} instead of {want[k]}'
    return 'more than expected'
