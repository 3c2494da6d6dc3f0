"""P07: the parameter database is always a complete one."""

import json
import os
import random
import shutil

from .. import engine, eprem_src, loader, sched, seams

KINDS = ['kill', 'kill', 'kill', 'power', 'power', 'ENOSPC', 'EIO', 'EDQUOT',
         'short', 'KeyboardInterrupt', 'MemoryError', 'EACCES', 'EROFS']


class P07(engine.Base):

    ID = 'P07'
    RUNS = (240, 20000)
    BUDGET = (300, 2400)
    MODULES = ('goats.eprem.runtime',)
    RULE = ('distinct (operation, kind of fault, mutating call or source line '
            'where it struck) triples')
    REAL = ['goats.eprem.runtime and all it imports', 'json',
            'file system (scratch directory)']
    STUBBED = ['process crash (the fork exits at the chosen call or '
               'statement)', 'power loss (unsynchronised bytes are cut off)',
               'disk errors and short writes', 'thread scheduler']

    def warm(self, env):
        from goats.eprem import runtime
        base = eprem_src.template()
        folder = os.path.join(env.scratch, 'warm')
        os.makedirs(folder)
        for i in range(6):
            eprem_src.write(folder, eprem_src.variant(base, i), i)
            runtime.generate_defaults(folder, os.path.join(folder, 'db'))
            try:
                dict(runtime.Runtime())
            except Exception:
                pass

    def scenario(self, rng, env, tier, index):
        sources = [rng.randrange(10**6) for _ in range(rng.choice([1, 2, 3]))]
        outs = [None, None, 'db0', 'db1.json', 'deep/db2.txt', 'link']
        outs = rng.sample(outs, rng.choice([1, 2, 3]))

        calm = [k for k in KINDS if k not in ('kill', 'power')]

        def generate(plain=False, deadly=True):
            op = {'op': 'generate', 'source': rng.randrange(len(sources)),
                  'out': rng.choice(outs)}
            x = rng.random()
            if x < 0.2:
                op['action'] = 'append'
            elif x < 0.4:
                op['action'] = 'write'
            elif x < 0.44:
                op['action'] = 'replace'    # no such action
            if plain or rng.random() < 0.25:
                return op
            x = rng.random()
            if x < 0.55:
                op['disk'] = {rng.choice(['n', 'back']):
                              rng.randint(1, rng.choice([2, 5, 9])),
                              'kind': rng.choice(KINDS if deadly else calm),
                              'fraction': rng.choice(
                                  [0.0, 0.3, rng.random(), 0.99]),
                              'sticky': rng.random() < 0.3}
            elif x < 0.62 and deadly:
                op['after'] = rng.choice([0.0, rng.random(), 0.99])
            elif x < 0.9:
                op['stop'] = {'back': rng.choice([
                    rng.randint(1, 12), rng.randint(1, 200)]),
                    'kind': rng.choice(
                        ['kill', 'power', 'KeyboardInterrupt',
                         'MemoryError'][0 if deadly else 2:]),
                    'fraction': rng.random()}
            else:
                op['read'] = {'call': 'open', 'n': rng.randint(1, 6),
                              'exc': rng.choice(['EIO', 'ENOENT', 'EACCES'])}
            return op

        ops = []
        for _ in range(rng.randint(2, 6 if tier == 'quick' else 10)):
            x = rng.random()
            if x < 0.5:
                ops.append(generate())
            elif x < 0.65:
                # several calls by one process; the source code may change
                steps = []
                for _ in range(rng.randint(2, 4)):
                    if rng.random() < 0.3:
                        steps.append({'op': 'edit', 'source': rng.randrange(
                            len(sources)), 'seed': rng.randrange(10**6)})
                    steps.append(generate(deadly=False))
                steps.append(generate(plain=True))
                ops.append({'op': 'session', 'steps': steps})
            elif x < 0.75:
                ops.append({'op': 'defaults'})
            elif x < 0.82:
                ops.append({'op': 'damage', 'out': rng.choice(outs),
                            'how': rng.choice(['missing', 'garbage',
                                               'partial'])})
            else:
                tasks = [generate(True) for _ in range(rng.choice([1, 1, 2]))]
                tasks += [{'op': 'watch', 'out': rng.choice(outs)}
                          for _ in range(rng.choice([1, 2]))]
                for t in tasks:
                    if t['op'] == 'generate':
                        t['out'] = tasks[-1]['out']
                        t.pop('action', None)
                ops.append({'op': 'race', 'tasks': tasks,
                            'schedule': rng.randrange(1 << 30),
                            'rate': rng.choice([0.001, 0.01, 0.05]),
                            'focus': rng.choice([None, 0.1, 0.3])})
        ops.append({'op': 'generate', 'source': 0, 'out': rng.choice(outs)})
        ops.append({'op': 'defaults'})
        return {'sources': sources, 'ops': ops}

    # -- the durable world -------------------------------------------------

    def prepare(self, env, scenario, work):
        shutil.copytree(os.path.join(loader.ROOT, 'goats'),
                        os.path.join(work, 'src', 'goats'),
                        ignore=shutil.ignore_patterns('__pycache__'))
        base = eprem_src.template()
        specs = []
        for i, seed in enumerate(scenario['sources']):
            folder = os.path.join(work, f'eprem{i}')
            os.makedirs(folder)
            specs.append(eprem_src.variant(base, seed))
            eprem_src.write(folder, specs[-1], seed)
        out = os.path.join(work, 'out')
        os.makedirs(os.path.join(out, 'deep'))
        for name in ('db0.json', 'real.json'):
            with seams.REAL['open'](os.path.join(out, name), 'w') as fp:
                json.dump({**base, 'note': {'kept': name}}, fp)
        os.symlink('real.json', os.path.join(out, 'link.json'))
        return base, specs

    @staticmethod
    def place(work, out):
        """The file that holds a database."""
        if out is None:
            return os.path.join(work, 'src', 'goats', 'eprem', 'runtime.json')
        stem = os.path.splitext(out)[0]
        return os.path.join(work, 'out', stem + '.json')

    def content(self, work, out):
        try:
            with seams.REAL['open'](self.place(work, out)) as fp:
                text = fp.read()
        except FileNotFoundError:
            return {'missing': True}
        try:
            return {'json': json.loads(text)}
        except ValueError:
            return {'broken': f'{len(text)} characters, not a database'}

    # -- one run -------------------------------------------------------------

    def execute(self, env, scenario, work, prepared):
        base, specs = prepared
        os.chdir(work)
        loader.relocate(os.path.join(work, 'src'))
        with sched.patched():
            loader.fresh('goats.eprem.runtime')
        seams.SEAM.forbid = ('/repo', '/opt', '/usr')
        out = []
        names = sorted({op.get('out') for op in self.flat(scenario)
                        if 'out' in op} | {None}, key=str)
        state = {name: self.content(work, name) for name in names}
        counts = {}
        for i, op in enumerate(scenario['ops']):
            record = {}
            if op['op'] == 'damage':
                state[op['out']] = self.damage(work, op, state[op['out']])
                out.append({'ok': True})
                continue
            if op['op'] == 'session':
                for step in op['steps']:
                    if step['op'] == 'generate' and (
                            step.get('stop') or 'back' in step.get(
                                'disk', ())):
                        key = step['source'], step.get('action')
                        if key not in counts:
                            counts[key] = self.length(work, step)
                status, value = engine.in_child(
                    lambda: self.sequence(work, op, specs, names, state,
                                          base, counts), 240.0)
                if status != 'ok':
                    raise RuntimeError(f'{status}: {value}')
                for step in op['steps']:
                    if step['op'] == 'edit':
                        specs[step['source']] = eprem_src.variant(
                            base, step['seed'])
                state = {name: self.content(work, name) for name in names}
                out.append({'steps': value})
                continue
            if op['op'] == 'race':
                status, value = engine.in_child(
                    lambda: self.race(work, op, specs, state), 120.0)
            elif op['op'] == 'defaults':
                status, value = engine.in_child(
                    lambda: self.defaults(), 120.0)
            else:
                length = 0, 0
                if op.get('stop') or 'back' in op.get('disk', ()):
                    key = op['source'], op.get('action')
                    if key not in counts:
                        counts[key] = self.length(work, op)
                    length = counts[key]
                status, value = engine.in_child(
                    lambda: self.generate(work, op, length), 120.0)
            if status == 'died':
                record['died'] = os.WEXITSTATUS(value) == 77
                record['where'] = self.where(work)
                if not record['died']:
                    raise RuntimeError(f'wait status {value}')
            elif status != 'ok':
                raise RuntimeError(f'{status}: {value}')
            else:
                record.update(value)
            state = self.account(work, op, record, names, state, base, specs)
            if op['op'] == 'defaults' and 'json' in state[None]:
                record['agrees'] = self.agrees(record, state[None]['json'])
            out.append(record)
        return out

    def account(self, work, op, record, names, before, base, specs):
        """Record what an operation did to the databases."""
        state = {name: self.content(work, name) for name in names}
        record['changed'] = {
            str(n): self.label(state[n], before[n], base, specs, op)
            for n in names if state[n] != before[n]}
        record['broken'] = {str(n): state[n]['broken'] for n in names
                            if 'broken' in state[n]
                            and state[n] != before[n]}
        want = self.expected(op, before, specs)
        if want is not None:
            record['expected'] = state[op['out']] == want
        return state

    def sequence(self, work, op, specs, names, state, base, counts):
        """Several calls by one process."""
        specs, records = list(specs), []
        for step in op['steps']:
            if step['op'] == 'edit':
                i = step['source']
                specs[i] = eprem_src.variant(base, step['seed'])
                folder = os.path.join(work, f'eprem{i}')
                eprem_src.write(folder, specs[i], step['seed'])
                for name in os.listdir(folder):
                    os.utime(os.path.join(folder, name), (10**9, 10**9))
                records.append({'ok': True})
                continue
            key = step['source'], step.get('action')
            record = self.generate(work, step, counts.get(key, (0, 0)))
            state = self.account(work, step, record, names, state, base,
                                 specs)
            records.append(record)
        return records

    @staticmethod
    def flat(scenario):
        for op in scenario['ops']:
            yield op
            yield from op.get('tasks', ())
            yield from op.get('steps', ())

    def expected(self, op, before, specs):
        """The database after a complete operation (None: must refuse)."""
        if op['op'] != 'generate' or op.get('action') == 'replace':
            return None
        new = specs[op['source']]
        if op.get('action') == 'append':
            old = before[op['out']]
            if 'json' not in old:
                return None
            new = {**new, **old['json']}
        return {'json': new}

    def label(self, now, before, base, specs, op):
        """What a changed database is."""
        if 'json' not in now:
            return 'gone' if 'missing' in now else 'broken'
        ops = op.get('tasks', [op])
        for o in ops:
            if o['op'] != 'generate':
                continue
            want = self.expected(o, {o.get('out'): before}, specs)
            if want is not None and now == want:
                return 'new'
        return 'other'

    def damage(self, work, op, old):
        path = self.place(work, op['out'])
        if op['how'] == 'missing':
            if op['out'] != 'link' and os.path.exists(path):
                os.unlink(path)
        elif 'json' in old:
            text = json.dumps(old['json'])
            if op['how'] == 'partial':
                text = text[:len(text)//2]
            else:
                text = 'garbage'
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with seams.REAL['open'](path, 'w') as fp:
                fp.write(text)
        return self.content(work, op['out'])

    # -- processes -------------------------------------------------------------

    def call(self, work, op):
        from goats.eprem import runtime
        kwargs = {}
        if op['out'] is not None:
            kwargs['output'] = os.path.join(work, 'out', op['out'])
        if 'action' in op:
            kwargs['action'] = op['action']
        runtime.generate_defaults(
            os.path.join(work, f"eprem{op['source']}"), **kwargs)

    def length(self, work, op):
        """How many statements a complete operation takes."""
        def count():
            seen = [0]

            def handler(point):
                seen[0] += 1

            loader.CONTROL.handler = handler
            loader.CONTROL.armed = True
            seams.SEAM.mutations = 0
            seams.SEAM.disk = {'n': 1 << 30, 'kind': 'EIO'}
            try:
                self.call(work, {**op, 'out': 'length'})
            except Exception:
                pass
            loader.CONTROL.armed = False
            calls, seams.SEAM.disk = seams.SEAM.mutations, None
            return seen[0], calls

        status, value = engine.in_child(count, 60.0)
        for name in os.listdir(os.path.join(work, 'out')):
            if 'length' in name:
                os.unlink(os.path.join(work, 'out', name))
        return value if status == 'ok' else (0, 0)

    def where(self, work):
        try:
            with seams.REAL['open'](os.path.join(work, 'where')) as fp:
                return json.load(fp)
        except FileNotFoundError:
            return None
        finally:
            try:
                os.unlink(os.path.join(work, 'where'))
            except FileNotFoundError:
                pass

    def note(self, work, what):
        with seams.REAL['open'](os.path.join(work, 'where'), 'w') as fp:
            json.dump(what, fp)

    def generate(self, work, op, length):
        fired = []
        seams.SEAM.fired = []
        if op.get('disk'):
            seams.SEAM.mutations = 0
            seams.SEAM.dirty = {}
            plan = dict(op['disk'])
            if 'back' in plan:
                plan['n'] = max(1, length[1] + 1 - plan['back'])
            seams.SEAM.disk = plan
            die = seams.die

            def note(kind, fraction):
                self.note(work, [seams.SEAM.trail[-1], kind])
                die(kind, fraction)

            seams.die = note
        if op.get('read'):
            seams.SEAM.arm([op['read']])
        if op.get('stop'):
            plan = op['stop']
            left = [max(1, length[0] + 1 - plan['back'])]

            def handler(point):
                left[0] -= 1
                if left[0] == 0:
                    loader.CONTROL.armed = False
                    what = [loader.POINTS[point], plan['kind']]
                    fired.append(what)
                    if plan['kind'] in ('kill', 'power'):
                        self.note(work, what)
                        seams.die(plan['kind'], plan['fraction'])
                    raise {'KeyboardInterrupt': KeyboardInterrupt,
                           'MemoryError': MemoryError}[plan['kind']]('sim')

            loader.CONTROL.handler = handler
            loader.CONTROL.armed = True
        try:
            self.call(work, op)
            if 'after' in op:
                self.note(work, ['return', 'power'])
                seams.die('power', op['after'])
            got = {'ok': True}
        except (Exception, KeyboardInterrupt) as err:
            got = {'error': type(err).__name__, 'message': loader.message(err)}
        loader.CONTROL.armed = False
        seams.SEAM.disk = None
        seams.SEAM.disarm()
        got['fired'] = fired + [[f[0], f[2]] for f in seams.SEAM.fired]
        return got

    def defaults(self):
        """What a new process sees of the package's database."""
        from goats.eprem import runtime
        try:
            types = runtime.BaseTypesH()
            params = runtime.ConfigurationC()
            return {'ok': True, 'types': dict(types.definitions),
                    'params': {
                        k: {a: (b.__name__ if a == 'type' else b)
                            for a, b in v.items()}
                        for k, v in params.definitions.items()}}
        except Exception as err:
            return {'error': type(err).__name__, 'message': loader.message(err)}

    MODES = {'readInt': 'int', 'readDouble': 'float', 'readString': 'str',
             'readDoubleArray': 'list'}

    def agrees(self, record, db):
        """Does a new process see exactly this database?"""
        if 'error' in record:
            return False
        params = {
            k: {('type' if a == 'mode' else a): (
                self.MODES[b] if a == 'mode' else b) for a, b in v.items()}
            for k, v in db['_CONFIGURATION_C'].items()}
        same = (record['types'] == db['_BASETYPES_H']
                and record['params'] == params)
        record['types'] = record['params'] = None
        return same

    def race(self, work, op, specs, state):
        out = op['tasks'][-1]['out']
        valid = [state[out].get('json')]
        for t in op['tasks']:
            if t['op'] == 'generate' and t.get('action') != 'replace':
                valid.append(specs[t['source']])
        seen = []

        def task(t):
            def generate():
                try:
                    self.call(work, t)
                    return 'ok'
                except Exception as err:
                    return f'{type(err).__name__}: {err}'[:200]

            def watch():
                from goats.eprem import runtime
                for _ in range(3):
                    if out is None:
                        try:
                            value = dict(runtime.BaseTypesH().definitions)
                        except Exception as err:
                            seen.append(f'{type(err).__name__}: {err}'[:200])
                            continue
                        good = any(v and v['_BASETYPES_H'] == value
                                   for v in valid)
                    else:
                        # what another program would see at this moment
                        seams.SEAM.yield_hook('watch')
                        now = self.content(work, out)
                        good = now.get('json') in valid and (
                            'broken' not in now)
                    seen.append(True if good else 'not a database')
                return 'ok'

            return generate if t['op'] == 'generate' else watch

        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 2)
        focus = op.get('focus')
        baton = sched.Baton(random.Random(op['schedule']),
                            0.001 if focus else op['rate'], focus)
        results, errors = baton.run([task(t) for t in op['tasks']])
        return {'ok': True, 'results': results, 'seen': seen,
                'errors': [repr(e) for e in errors if e is not None],
                'schedule': engine.digest(baton.trace),
                'switches': baton.switches}

    # -- verdict ---------------------------------------------------------------

    def judge(self, env, scenario, outcome, work):
        _, history = outcome
        base = eprem_src.template()
        stats = {'ops': {}, 'faults': {}, 'outcomes': {}, 'switches': 0}
        violation, seen = None, set()

        def count(group, key):
            stats[group][key] = stats[group].get(key, 0) + 1

        def bad(i, kind, *detail):
            nonlocal violation
            violation = violation or {'kind': kind, 'op': i,
                                      'detail': list(detail)}

        usable = {None: True, 'db0': True, 'link': True}
        flat = []
        for i, (op, rec) in enumerate(zip(scenario['ops'], history)):
            if op['op'] == 'session':
                count('ops', 'session')
                flat += [(i, a, b) for a, b in zip(op['steps'], rec['steps'])]
            else:
                flat.append((i, op, rec))
        for i, op, rec in flat:
            kind = op['op']
            count('ops', kind)
            if kind == 'edit':
                continue
            if kind == 'damage':
                out = op['out']
                if op['how'] == 'missing' and out == 'link':
                    continue
                if op['how'] == 'missing' or usable.get(out):
                    usable[out] = False
                continue
            if rec.get('broken'):
                bad(i, 'incomplete-database', rec['broken'], rec)
            if kind == 'defaults':
                if usable.get(None) and rec.get('agrees') is not True:
                    bad(i, 'defaults-unreadable', rec.get('error'),
                        rec.get('message'))
                continue
            if kind == 'race':
                stats['switches'] += rec['switches']
                seen.add(rec['schedule'])
                out = op['tasks'][-1]['out']
                if rec['errors']:
                    bad(i, 'thread-died', rec['errors'])
                if usable.get(out) and any(s is not True for s in rec['seen']):
                    bad(i, 'seen-incomplete', rec['seen'])
                for t, result in zip(op['tasks'], rec['results']):
                    if t['op'] == 'generate' and (
                            t.get('action') != 'replace' and result != 'ok'):
                        bad(i, 'race-failed', result)
                if rec['changed'].get(str(out), 'new') != 'new':
                    bad(i, 'wrong-database', rec['changed'])
                others = set(rec['changed']) - {str(out)}
                if others:
                    bad(i, 'touched-another', sorted(others))
                if any(t['op'] == 'generate' for t in op['tasks']):
                    usable[out] = True
                continue
            # generate
            out = op['out']
            fired = rec.get('fired') or ([rec['where']] if rec.get('where')
                                         else [])
            for f in fired:
                count('faults', f'{f[1]}@{f[0]}' if ':' not in f[0]
                      else f'{f[1]}@statement')
                seen.add(engine.digest([op.get('out'), op.get('action'), f]))
            count('outcomes', 'died' if rec.get('died') else
                  'error' if 'error' in rec else 'ok')
            others = set(rec['changed']) - {str(out)}
            if others:
                bad(i, 'touched-another', sorted(others), rec)
            if rec['changed'].get(str(out), 'new') != 'new':
                bad(i, 'wrong-database', rec['changed'], rec)
            refuse = op.get('action') == 'replace' or (
                op.get('action') == 'append' and not usable.get(out))
            if 'ok' in rec and refuse:
                bad(i, 'accepted', op)
            if 'ok' in rec and not refuse:
                if not rec.get('expected'):
                    bad(i, 'not-visible', op, rec)
                usable[out] = True
            if 'error' in rec:
                if not fired and not refuse:
                    bad(i, 'refused', rec)
                if refuse and rec['changed']:
                    bad(i, 'refused-but-changed', rec)
            if rec['changed'].get(str(out)) == 'new':
                usable[out] = True
        return {
            'stats': stats, 'digest': engine.digest(history),
            'nontrivial': sorted(seen), 'violation': violation,
            'sample': {'ops': scenario['ops'][:3]},
        }

    def shrink(self, scenario):
        yield from super().shrink(scenario)
        ops = scenario['ops']
        for i, op in enumerate(ops):
            steps = op.get('steps', [])
            for j, step in enumerate(steps):
                yield dict(scenario, ops=ops[:i] + [dict(
                    op, steps=steps[:j] + steps[j+1:])] + ops[i+1:])
                for key in ('disk', 'stop', 'read'):
                    if key in step:
                        new = {k: v for k, v in step.items() if k != key}
                        yield dict(scenario, ops=ops[:i] + [dict(
                            op, steps=steps[:j] + [new] + steps[j+1:])]
                            + ops[i+1:])
            for key in ('disk', 'stop', 'read', 'action', 'after'):
                if key in op:
                    new = {k: v for k, v in op.items() if k != key}
                    yield dict(scenario, ops=ops[:i] + [new] + ops[i+1:])
