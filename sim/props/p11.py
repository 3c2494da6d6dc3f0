"""P11: threads that use their own observers do not disturb each other."""

import os
import random

from .. import engine, loader, sched, session
from . import common, p01


class P11(p01.P01):

    ID = 'P11'
    RUNS = (160, 6000)
    BUDGET = (360, 2400)
    RULE = 'distinct schedules (sequences of context switches)'
    STUBBED = ['thread scheduler (seeded baton at statements and I/O calls)',
               'threading.Lock/RLock inside goats (cooperative)']

    def scenario(self, rng, env, tier, index):
        label = f'{self.ID}:{env.seed}:{index//400}'
        menu = common.menu(env, label, 6, 24)
        n = rng.choice([2, 2, 3])
        same = rng.random() < 0.5
        first = rng.randrange(len(menu.specs))
        convert = rng.random() < 0.5
        ops = []
        for c in range(n):
            k = first if same and rng.random() < 0.8 else (
                rng.randrange(len(menu.specs)))
            ops.append({'op': 'new', 'o': f's{c}', 'client': c,
                        **menu.specs[k]})
            pool = menu.requests[k]
            if convert:
                # conversions meet in the registries that threads share
                pool = [r for r in pool if r.get('units') or r.get('post')
                        or any(isinstance(v, dict) and 'measure' in v
                               for v in r.get('cons', {}).values())] or pool
            if len(pool) > 4 and rng.random() < 0.5:
                pool = rng.sample(pool, 4)
            for _ in range(rng.randint(1, 3)):
                ops.append(dict(rng.choice(pool), o=f's{c}', client=c))
        return {
            'ops': ops, 'schedule': rng.randrange(1 << 30),
            'rate': rng.choice([0.0003, 0.001, 0.003, 0.01, 0.1]),
            'focus': rng.choice([None, 0.1, 0.3, 0.3]),
            'prebuilt': rng.random() < 0.6,
        }

    def execute(self, env, scenario, work, prepared):
        os.chdir(env.base)
        # HDF5 prints its internal diagnostics from every thread but the first
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 2)
        sessions, results = {}, {}
        clients = sorted({op['client'] for op in scenario['ops']})
        for c in clients:
            sessions[c] = session.Session(env.base)
        for i, op in enumerate(scenario['ops']):
            if op['op'] == 'new' and scenario['prebuilt']:
                results[i] = sessions[op['client']].run(op)

        def task(c):
            def body():
                for i, op in enumerate(scenario['ops']):
                    if op['client'] == c and i not in results:
                        results[i] = sessions[c].run(op)
            return body

        baton = sched.Baton(random.Random(scenario['schedule']),
                            0.0001 if scenario['focus'] else
                            scenario['rate'], scenario['focus'])
        _, errors = baton.run([task(c) for c in clients])
        return {
            'history': [results.get(i) or {'error': 'never finished'}
                        for i in range(len(scenario['ops']))],
            'errors': [repr(e) for e in errors if e is not None],
            'steps': baton.steps, 'switches': baton.switches,
            'trace': engine.digest(baton.trace),
        }

    def judge(self, env, scenario, outcome, work):
        status, record = outcome
        failed = [(i, got) for i, (op, got) in enumerate(zip(
            scenario['ops'], record['history']))
            if op['op'] == 'new' and 'error' in got]
        verdict = super().judge(
            env, scenario, (status, record['history']), work)
        if failed:
            verdict['violation'] = {
                'kind': 'cannot-build', 'op': failed[0][0],
                'detail': [failed[0][1], record['errors']]}
        verdict['stats'].update(
            steps=record['steps'], switches=record['switches'])
        if record['errors'] and not verdict['violation']:
            verdict['violation'] = {'kind': 'thread-died', 'op': 0,
                                    'detail': record['errors']}
        verdict['digest'] = engine.digest(record)
        verdict['nontrivial'] = record['trace']
        return verdict

    def shrink(self, scenario):
        yield from super().shrink(scenario)
        for rate in (0.0003, 0.001, 0.003, 0.01):
            if rate < scenario['rate']:
                yield dict(scenario, rate=rate)
