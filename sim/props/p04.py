"""P04: a request that is aborted at any statement leaves no trace."""

import os

from .. import engine, loader, session, world
from . import common, p03

KINDS = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}

GENERAL = ('metric', 'symbolic', 'aliased', 'iterables', 'metadata')


class P04(p03.P03):

    ID = 'P04'
    RUNS = (84, 6000)
    RULE = ('distinct (request, kind of abort, source line at which it was '
            'aborted) triples')
    STUBBED = ['aborts are raised by the instrumented statement points']

    def scenario(self, rng, env, tier, index):
        label = f'{self.ID}:{env.seed}:{index//400}'
        menu = common.menu(env, label, 5, 24)
        nobs = rng.choice([1, 1, 2])
        picks = [rng.randrange(len(menu.specs)) for _ in range(nobs)]
        specs = {f's{i}': k for i, k in enumerate(picks)}
        ops = []

        def abort():
            exc = rng.choice(sorted(KINDS))
            if rng.random() < 0.25:
                top = rng.choice([30, 300, 3000, 30000])
                return {'at': rng.randint(1, top), 'exc': exc}
            # a place (every source line that the request would reach is as
            # likely as any other) and one of its visits
            return {'rank': rng.random(), 'exc': exc,
                    'near': rng.random() < 0.5,
                    'visit': rng.choice([0.0, 0.0, rng.random(), 1.0])}

        if rng.random() < 0.6:
            return {'ops': self.probes(rng, menu, picks[0], abort)}
        for slot, k in specs.items():
            new = {'op': 'new', 'o': slot, 'how': rng.choice(['path', 'str']),
                   **menu.specs[k]}
            for _ in range(rng.choice([0, 1, 2])):
                ops.append(dict(new, abort=abort()))
            ops.append(new)
        n = len(ops) + rng.randint(10, 60 if tier != 'quick' else 40)
        few = {s: rng.sample(menu.requests[k], 6) for s, k in specs.items()}
        held = []
        while len(ops) < n:
            slot = rng.choice(sorted(specs))
            op = dict(rng.choice(few[slot]), o=slot)
            x = rng.random()
            if op['op'] == 'observe' and x < 0.15:
                op = {'op': 'hold', 'o': slot, 'name': op['name'],
                      'h': f'h{len(held)}', 'units': op.get('units', [])}
                ops.append(op)
                held.append((op['h'], slot, op))
                continue
            if held and x > 0.85:
                h, slot, base = rng.choice(held)
                op = common.revisit(rng, menu, specs[slot], h, base)
            if rng.random() < 0.8:
                for _ in range(rng.choice([1, 2, 3, 5])):
                    ops.append(dict(op, abort=abort()))
            if rng.random() < 0.6:
                ops.append(op)
        for slot in sorted(specs):
            for op in few[slot][:3]:
                ops.append(dict(op, o=slot))
        return {'ops': ops}

    def probes(self, rng, menu, k, abort):
        """One new observer; every probe starts from there, in a fork."""
        ops = [{'op': 'new', 'o': 's0', 'how': 'path', **menu.specs[k]}]
        named = [r for r in menu.requests[k] if 'name' in r]
        for n in range(rng.randint(8, 16)):
            first = rng.choice(named)
            for _ in range(rng.choice([1, 1, 1, 2])):
                ops.append(dict(first, o='s0', probe=n, abort=abort()))
            others = [r for r in named if r['name'] != first['name']]
            for r in [rng.choice(others or named), first]:
                ops.append(dict(r, o='s0', probe=n))
        return ops

    def execute(self, env, scenario, work, prepared):
        ops = scenario['ops']
        out, i = [], 0
        s = None
        while i < len(ops):
            j = i + 1
            while j < len(ops) and ops[j].get('probe') == ops[i].get('probe'):
                j += 1
            part = {'ops': ops[i:j]}
            plans = [prepared.get(n) for n in range(i, j)]

            def go(part=part, plans=plans):
                self.plans = plans
                return super(P04, self).execute(
                    env, part, env.base, None, s)

            if ops[i].get('probe') is None:
                s = s or session.Session(env.base)
                out += go()
            else:
                status, value = engine.in_child(go, 200.0)
                if status != 'ok':
                    raise RuntimeError(f'probe {status}: {value}')
                out += value
            i = j
        return out

    def places(self, env, spec, request):
        """The source lines a fresh process reaches, with their visits."""
        if request is not None:
            return env.recall(['places', spec, common.strip(request)])

        def build():
            visits = {}

            def handler(point):
                visits[point] = visits.get(point, 0) + 1

            os.chdir(env.base)
            s = session.Session(env.base)
            loader.CONTROL.handler = handler
            loader.CONTROL.armed = True
            s.run({'op': 'new', 'o': 'o', **spec})
            loader.CONTROL.armed = False
            return list(visits.items())

        status, found = env.oracle(['places', spec], build)
        if status != 'ok':
            raise RuntimeError(f'oracle {status}: {found}')
        return found

    def prepare(self, env, scenario, work):
        """Where each abort strikes: a source line and a visit of it."""
        specs, held, plans, wanted = {}, {}, {}, {}
        for i, op in enumerate(scenario['ops']):
            slot = op.get('o')
            if op['op'] == 'new':
                specs[slot] = common.spec_of(op)
            elif op['op'] == 'hold':
                held[op['h']] = op
            plan = op.get('abort')
            if not plan or 'rank' not in plan:
                continue
            if op['op'] == 'hobserve':
                if op['h'] not in held:
                    continue
                base = held[op['h']]
                slot = base['o']
                request = {'op': 'observe', 'name': base['name'],
                           'units': [*base.get('units', []),
                                     *op.get('units', [])],
                           'cons': op['cons'], 'post': op.get('post', [])}
            else:
                request = None if op['op'] == 'new' else common.strip(op)
            if slot not in specs:
                continue
            wanted[i] = plan, specs[slot], request
        common.fresh_answers(env, [
            (spec, request) for _, spec, request in wanted.values()
            if request is not None], True)
        for i, (plan, spec, request) in wanted.items():
            found = self.places(env, spec, request)
            if plan.get('near'):
                # the code of observers rather than that of units and names
                found = [f for f in found if not loader.POINTS[f[0]].split(
                    ':')[0].endswith(GENERAL)] or found
            if found:
                place, visits = found[int(plan['rank']*len(found))]
                plans[i] = (place, 1 + int(plan['visit']*(visits - 1)))
        return plans

    def perform(self, s, op):
        target = self.plans.pop(0)
        plan = op.get('abort')
        if plan:
            self.arm(plan, target)
        try:
            return s.run(op)
        except KeyboardInterrupt as err:
            return {'error': 'KeyboardInterrupt', 'message': str(err)}
        finally:
            loader.CONTROL.armed = False

    def arm(self, plan, target):
        if 'at' in plan:
            place, left = None, [plan['at']]
        elif target:
            place, left = target[0], [target[1]]
        else:
            return

        def handler(point):
            if place is not None and point != place:
                return
            left[0] -= 1
            if left[0] == 0:
                loader.CONTROL.armed = False
                self.fired.append(['abort', loader.POINTS[point],
                                   plan['exc']])
                raise KINDS[plan['exc']]('simulated')

        loader.CONTROL.handler = handler
        loader.CONTROL.armed = True

    def before(self, op):
        self.fired = []

    def after(self, op):
        loader.CONTROL.armed = False
        return self.fired

    def judge(self, env, scenario, outcome, work):
        verdict = super().judge(env, scenario, outcome, work)
        _, history = outcome
        seen = set()
        faults = {}
        for op, rec in zip(scenario['ops'], history):
            for f in rec['fired']:
                seen.add(engine.digest([common.strip(
                    {k: v for k, v in op.items() if k != 'abort'}), f]))
                faults[f[2]] = faults.get(f[2], 0) + 1
        verdict['stats']['faults'] = faults
        verdict['nontrivial'] = sorted(seen)
        return verdict

    def shrink(self, scenario):
        yield from super().shrink(scenario)
        ops = scenario['ops']
        for i, op in enumerate(ops):
            if op.get('abort'):
                new = {k: v for k, v in op.items() if k != 'abort'}
                yield dict(scenario, ops=ops[:i] + [new] + ops[i+1:])
