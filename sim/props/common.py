"""Pieces shared by the properties that drive observers."""

import json
import os
import random

from .. import engine, loader, session, workload, world


def strip(op):
    """The part of an operation that matters to its answer."""
    drop = {'o', 'h', 'r', 'fault', 'faults', 'how', 'client', 'abort',
            'probe'}
    return {k: v for k, v in op.items()
            if k not in drop and not (v == [] and k in ('units', 'post'))}


def revisit(rng, menu, k, h, base):
    """Observe a held observable, mostly as some request of the menu would."""
    every = [r for r in menu.requests[k] if r['op'] == 'observe']
    same = [r for r in every if r['name'] == base['name']
            and r.get('units', []) == base.get('units', [])]
    other = [r for r in every if r['name'] == base['name'] and r.get('units')
             and not base.get('units')]
    if other and rng.random() < 0.5:
        # a conversion of the observable, not of what it was obtained from
        r = rng.choice(other)
        return {'op': 'hobserve', 'h': h, 'cons': r['cons'],
                'units': r['units'], 'post': r.get('post', [])}
    if same and rng.random() < 0.9:
        r = rng.choice(same)
        return {'op': 'hobserve', 'h': h, 'cons': r['cons'],
                'post': r.get('post', [])}
    return {'op': 'hobserve', 'h': h, 'cons': rng.choice(every)['cons']}


def spec_of(op):
    return {k: op.get(k) for k in ('cls', 'id', 'dir', 'cfg', 'system')}


def fresh_answers(env, pairs, places=False):
    """What brand-new processes answer, each to one single request.

    One pristine process per observer builds it; every request is then put to
    its own fork of that process, so no request can influence another.
    """
    todo = {}
    for spec, op in pairs:
        request = strip(op)
        if env.recall([spec, request]) is None or (
            places and env.recall(['places', spec, request]) is None
        ):
            todo.setdefault(json.dumps(spec, sort_keys=True), []).append(
                request)

    for text, requests in todo.items():
        spec = json.loads(text)

        def one(s, request):
            visits = {}

            def handler(point):
                visits[point] = visits.get(point, 0) + 1

            if places:
                loader.CONTROL.handler = handler
                loader.CONTROL.armed = True
            answer = s.run({**request, 'o': 'o', 'h': 'h'})
            loader.CONTROL.armed = False
            return answer, list(visits.items())

        def ask(spec=spec, requests=requests):
            os.chdir(env.base)
            s = session.Session(env.base)
            new = s.run({'op': 'new', 'o': 'o', **spec})
            if 'error' in new:
                return [('ok', (new, []))]*len(requests)
            return [
                engine.in_child(lambda: one(s, r), 120.0) for r in requests
            ]

        status, values = engine.in_child(ask, 600.0)
        if status != 'ok':
            raise RuntimeError(f'oracle {status}: {values}')
        for request, (status, value) in zip(requests, values):
            if status != 'ok':
                raise RuntimeError(f'oracle {status}: {value}')
            env.remember([spec, request], value[0])
            if places:
                env.remember(['places', spec, request], value[1])
            env.oracle_calls += 1


def fresh_answer(env, spec, op):
    """What a brand-new process answers to this single request."""
    request = strip(op)
    value = env.recall([spec, request])
    if value is None:
        fresh_answers(env, [(spec, request)])
        value = env.recall([spec, request])
    return value


def pick_spec(rng, cat, systems=('mks', 'mks', None, 'cgs')):
    """A buildable observer."""
    while True:
        d = rng.choice(['A', 'A', 'B', 'B', 'C', 'D'])
        cls = rng.choice(['Stream', 'Stream', 'Stream', 'Point'])
        ident = rng.choice([0, 0, 0, 1])
        if world.locate(cat, cls, ident, d):
            break
    cfg = rng.choice(['run.cfg', 'run.cfg', 'alt.cfg', 'empty.cfg',
                      ['X', 'outside.cfg']])
    return {'cls': cls, 'id': ident, 'dir': d, 'cfg': cfg,
            'system': rng.choice(list(systems))}


def data_of(cat, spec):
    name = world.locate(cat, spec['cls'], spec['id'], spec['dir'])
    return cat['files'][spec['dir']][name]


class Menu:
    """The observers and requests that the runs of one seed draw from.

    Requests recur across runs, so that fresh-process answers can be shared.
    """

    def __init__(self, cat, label, nspecs, nrequests, systems=None):
        rng = random.Random(label)
        self.specs = []
        while len(self.specs) < nspecs:
            spec = pick_spec(rng, cat)
            if systems:
                spec['system'] = rng.choice(systems)
            if self.specs and rng.random() < 0.4:
                # the same data seen by a differently configured observer
                spec = {**rng.choice(self.specs),
                        'system': rng.choice(systems or ['mks', 'cgs']),
                        'cfg': rng.choice(['run.cfg', 'alt.cfg'])}
            if spec not in self.specs:
                self.specs.append(spec)
        self.requests = []
        self.families = []
        for spec in self.specs:
            data = data_of(cat, spec)
            found = []
            families = []
            names = rng.sample(list(workload.QUANTITIES), 8)
            while len(found) < nrequests:
                op = self.request(
                    rng, data, names if rng.random() < 0.5 else None)
                found.append(op)
                if op['op'] != 'observe':
                    continue
                workload.sensitise(rng, op)
                family = [op]
                for _ in range(rng.choice([0, 2, 3])):
                    if len(found) < nrequests:
                        found.append(workload.relative(
                            rng, data, rng.choice(family)))
                        family.append(found[-1])
                if len(family) > 1:
                    families.append(family)
            self.requests.append(found)
            self.families.append(families)

    @staticmethod
    def request(rng, data, names=None):
        x = rng.random()
        if x < 0.70:
            op = workload.observe(rng, data, None, names)
            op.pop('o')
            return op
        if x < 0.80:
            key, name, choices = workload.pick_name(rng, names)
            return {'op': 'meta', 'name': name,
                    'units': workload.units(rng, choices)}
        if x < 0.88:
            name, choices = rng.choice([
                ('time', ['day', 's']), ('shell', []), ('species', []),
                ('energy', ['MeV', 'erg']), ('mu', []),
                ('radius', ['au', 'km']), ('theta', ['deg']), ('phi', []),
            ])
            return {'op': 'axis', 'name': name,
                    'units': workload.units(rng, choices)}
        if x < 0.93:
            return {'op': 'item', 'key': rng.choice(workload.BAD_KEYS)}
        if x < 0.97:
            return {'op': 'item', 'key': rng.choice(
                ['preEruption', 'phiOffset', 'rigidityPower', 'idealShockJump',
                 'idw_p'])}
        return {'op': 'observables'}


def arm(plan, aborted, kinds):
    """Abort at the n-th statement from now on."""
    left = [plan['at']]

    def handler(point):
        left[0] -= 1
        if left[0] == 0:
            loader.CONTROL.armed = False
            aborted.append(loader.POINTS[point])
            raise kinds[plan['exc']]('simulated')

    loader.CONTROL.handler = handler
    loader.CONTROL.armed = True


_MENUS = {}


def menu(env, label, nspecs, nrequests, **kwargs):
    key = (label, nspecs, nrequests)
    if key not in _MENUS:
        _MENUS[key] = Menu(env.cat, f'menu:{label}', nspecs, nrequests,
                           **kwargs)
    return _MENUS[key]


class ObserverProperty(engine.Base):

    def warm(self, env):
        """Give the just-in-time compiler something to chew on."""
        these = menu(env, 'warm', 5, 24)
        for spec, requests in zip(these.specs, these.requests):
            s = session.Session(env.base)
            s.run({'op': 'new', 'o': 'o', **spec})
            for request in requests:
                s.run({**request, 'o': 'o'})
