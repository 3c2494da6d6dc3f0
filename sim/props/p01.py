"""P01: observations do not depend on what happened earlier in the session."""

from .. import engine, session, workload
from . import common


class P01(common.ObserverProperty):

    ID = 'P01'
    LEVEL = 'exploration'
    RUNS = (96, 6000)
    BUDGET = (300, 2400)
    RULE = 'distinct operation sequences (requests in order, slots ignored)'
    REAL = ['goats (all of it)', 'netCDF4/HDF5', 'numpy', 'scipy',
            'file system (scratch directory)']
    STUBBED = []

    def scenario(self, rng, env, tier, index):
        big = tier != 'quick'
        # a new menu every 400 runs keeps long explorations from repeating
        label = f'{self.ID}:{env.seed}:{index//400}'
        menu = common.menu(env, label, 10, 40)
        nobs = rng.choice([1, 2, 2, 3])
        picks = [rng.randrange(len(menu.specs)) for _ in range(nobs)]
        specs, pending = {}, []
        for i, k in enumerate(picks):
            specs[f's{i}'] = k
            pending.append({'op': 'new', 'o': f's{i}',
                            'how': rng.choice(['path', 'str', 'rel']),
                            **menu.specs[k]})
        ops = [pending.pop(0)]
        live = ['s0']
        held, results, kin = {}, {}, {}
        # sometimes hammer a few requests, sometimes roam
        few = rng.random() < 0.5
        favourites = {
            s: rng.sample(menu.requests[k], 5) for s, k in specs.items()}
        n = rng.randint(8, 60 if big else 40)
        while len(ops) < n:
            if pending and rng.random() < 0.3:
                op = pending.pop(0)
                live.append(op['o'])
                ops.append(op)
                continue
            slot = rng.choice(live)
            pool = (favourites[slot] if few and rng.random() < 0.7
                    else menu.requests[specs[slot]])
            op = dict(rng.choice(pool), o=slot)
            last = kin.get(slot)
            if last and rng.random() < 0.6:
                op = dict(rng.choice(last), o=slot)
            elif menu.families[specs[slot]] and rng.random() < 0.4:
                kin[slot] = rng.choice(menu.families[specs[slot]])
                op = dict(rng.choice(kin[slot]), o=slot)
            else:
                kin.pop(slot, None)
            x = rng.random()
            if op['op'] == 'observe' and x < 0.15:
                op['r'] = f'r{len(results)}'
                results[op['r']] = slot, op['name']
            elif op['op'] == 'observe' and x < 0.35:
                op = {'op': 'hold', 'o': slot, 'name': op['name'],
                      'h': f'h{len(held)}', 'units': op.get('units', [])}
                if rng.random() < 0.5:
                    op['units'] = []
                held[op['h']] = (slot, op)
            elif x > 0.92 and results:
                op = {'op': 'result', 'r': rng.choice(sorted(results))}
                of, name = results[op['r']]
                known = [r['units'] for r in menu.requests[specs[of]]
                         if r.get('name') == name and r.get('units')]
                if known and rng.random() < 0.4:
                    op['post'] = rng.choice(known)
            elif x > 0.75 and held:
                h = rng.choice(sorted(held))
                slot, base = held[h]
                op = common.revisit(rng, menu, specs[slot], h, base)
            ops.append(op)
        return {'ops': ops}

    def execute(self, env, scenario, work, prepared):
        import os
        os.chdir(env.base)
        s = session.Session(env.base)
        return [s.run(op) for op in scenario['ops']]

    def pairs(self, scenario, history):
        """(step, spec, request) of every step with a fresh equivalent."""
        specs, held, results = {}, {}, {}
        for i, (op, got) in enumerate(zip(scenario['ops'], history)):
            kind = op['op']
            slot = op.get('o')
            request = op
            if kind == 'new':
                specs[slot] = common.spec_of(op)
                continue
            if kind == 'hold':
                if 'ok' in got:
                    held[op['h']] = op
                request = {'op': 'hold', 'name': op['name'],
                           'units': op.get('units', [])}
            elif kind == 'hobserve':
                if op['h'] not in held:
                    continue
                base = held[op['h']]
                slot = base['o']
                request = {'op': 'observe', 'name': base['name'],
                           'units': [*base.get('units', []),
                                     *op.get('units', [])],
                           'cons': op['cons'], 'post': op.get('post', [])}
            elif kind == 'result':
                if op['r'] not in results:
                    continue
                slot, request = results[op['r']]
                if op.get('post'):
                    request = dict(request, post=[
                        *request.get('post', []), *op['post']])
            if slot not in specs:
                continue
            yield i, specs[slot], request
            if 'r' in op and kind == 'observe' and 'ok' in got:
                results[op['r']] = (slot, {
                    k: v for k, v in op.items() if k != 'r'})

    def judge(self, env, scenario, outcome, work):
        _, history = outcome
        stats = {'ops': {}, 'compared': 0, 'refusals': 0}
        for op, got in zip(scenario['ops'], history):
            stats['ops'][op['op']] = stats['ops'].get(op['op'], 0) + 1
            stats['refusals'] += 'error' in got
        violation = None
        steps = list(self.pairs(scenario, history))
        common.fresh_answers(env, [(spec, req) for _, spec, req in steps])
        for i, spec, request in steps:
            got = history[i]
            want = common.fresh_answer(env, spec, request)
            stats['compared'] += 1
            found = session.differ(got, want)
            if found:
                violation = {
                    'kind': f"history:{scenario['ops'][i]['op']}", 'op': i,
                    'detail': [found, got.get('message'),
                               want.get('message')]}
                break
        for i, (op, got) in enumerate(zip(scenario['ops'], history)):
            if op['op'] == 'new' and 'error' in got and not violation:
                violation = {'kind': 'history:new', 'op': i,
                             'detail': [f'cannot build observer: {got}']}
        return {
            'stats': stats,
            'digest': engine.digest(history),
            'nontrivial': engine.digest(
                [common.strip(o) for o in scenario['ops']]),
            'violation': violation,
            'sample': {'ops': scenario['ops'][:4]},
        }
