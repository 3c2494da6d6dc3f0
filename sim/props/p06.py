"""P06: updating an observer equals building a new one, or changes nothing."""

import os
import random

from .. import engine, loader, seams, session, workload, world
from . import common, p03, p04

FAMILIES = [
    ('Stream', 0, ['A', 'B', 'C', 'D'], ['A', 'B', 'N']),
    ('Stream', 1, ['A', 'B', 'C', 'D'], ['A', 'D', 'N']),
    ('Point', 0, ['A', 'B', 'C'], ['A', 'C', 'D', 'N']),
    ('Point', 0, ['A', 'B', 'C'], ['B', 'C', 'N']),
    ('Stream', 0, ['A', 'B', 'C', 'D'], ['B', 'C', 'D', 'N']),
]
CONFIGS = ['run.cfg', 'alt.cfg', 'empty.cfg', 'only-b.cfg', 'missing.cfg',
           'broken.cfg', ['X', 'outside.cfg'], ['X', 'run.cfg'],
           ['A', 'alt.cfg'], ['B', 'run.cfg'], ['B', 'only-b.cfg'],
           ['X', 'broken.cfg']]
SOURCES = ['nowhere', 'A/run.cfg']


class State:
    """What an observer is supposed to look at."""

    def __init__(self, cat, cls, ident, system):
        self.cat, self.cls, self.ident, self.system = cat, cls, ident, system
        self.dir = self.cfg = self.conf = None
        self.local = None       # the kind of data that is in L now

    def real(self, d):
        return self.local if d == 'L' else d

    def copy(self):
        new = State(self.cat, self.cls, self.ident, self.system)
        new.local = self.local
        new.dir, new.cfg, new.conf = self.dir, self.cfg, self.conf
        return new

    @property
    def data(self):
        if self.dir is None:
            return None
        return world.locate(
            self.cat, self.cls, self.ident, self.real(self.dir))

    def exists(self, d, name):
        return name == 'broken.cfg' or (
            name in self.cat['configs'].get(self.real(d), {}))

    def apply(self, source=None, config=None):
        """The state after an update, or None if it must be refused."""
        new = self.copy()
        if config is not None:
            new.cfg, new.conf = config, None
        if source is not None:
            if self.real(source) not in self.cat['files']:
                return None
            new.dir = source
        if not new.data or new.cfg is None:
            return new
        if new.conf is None:
            if isinstance(new.cfg, str):
                place = [new.dir, new.cfg]
            else:
                place = list(new.cfg)
            if not self.exists(*place):
                return None
            if place[1] == 'broken.cfg':
                return None
            new.conf = place
        return new

    def spec(self):
        """The equivalent new observer (None: it cannot observe)."""
        if not self.data or self.conf is None:
            return None
        return {'cls': self.cls, 'id': self.ident,
                'dir': self.real(self.dir),
                'cfg': [self.real(self.conf[0]), self.conf[1]],
                'system': self.system}


class P06(common.ObserverProperty):

    ID = 'P06'
    RUNS = (160, 8000)
    BUDGET = (300, 2400)
    RULE = ('distinct sequences of (update, fault) pairs between judged '
            'requests')
    REAL = ['goats (all of it)', 'netCDF4/HDF5', 'numpy', 'scipy',
            'file system (scratch directory)']
    STUBBED = ['I/O errors are raised at the netCDF4.Dataset, netCDF4 '
               'variable and open seams', 'aborts are raised at instrumented '
               'statements']

    def menu(self, env, index):
        label = f'{self.ID}:{env.seed}:{index//400}'
        key = (label, 'p06')
        if key not in common._MENUS:
            rng = random.Random(f'menu:{label}')
            requests = {}
            for cls, ident, dirs, _ in FAMILIES:
                for d in dirs:
                    data = env.cat['files'][d][world.locate(
                        env.cat, cls, ident, d)]
                    found = []
                    while len(found) < 6:
                        op = common.Menu.request(rng, data)
                        if op['op'] == 'observe':
                            workload.sensitise(rng, op)
                        if rng.random() < 0.3:
                            name = rng.choice(['mfp', 'mean free path'])
                            op = {'op': 'observe', 'name': name,
                                  'cons': {'species': 0, 'shell': 0}}
                        found.append(op)
                    requests[cls, ident, d] = found
            common._MENUS[key] = requests
        return common._MENUS[key]

    def scenario(self, rng, env, tier, index):
        menu = self.menu(env, index)
        cls, ident, good, more = rng.choice(FAMILIES)
        dirs = rng.sample(good, 2) + [rng.choice(more)]
        local = rng.choice(good) if rng.random() < 0.6 else None
        if local:
            dirs[rng.choice([0, 2])] = 'L'
        cfgs = [rng.choice(CONFIGS[:3])] + rng.sample(CONFIGS, 3)
        state = State(env.cat, cls, ident, rng.choice(
            ['mks', 'cgs', 'cgs', None]))
        state.local = now = local
        start = {'dir': rng.choice(dirs), 'cfg': rng.choice(cfgs)}
        if rng.random() < 0.15:
            start['cfg'] = None
        new = state.apply(start['dir'], start['cfg'])
        if new is None:
            start['cfg'] = 'run.cfg'
        ops = [{'op': 'new', 'o': 's0', 'cls': cls, 'id': ident,
                'system': state.system, 'how': rng.choice(
                    ['path', 'str', 'rel', 'relpath']), **start}]
        n = rng.randint(4, 14 if tier == 'quick' else 30)
        held = 0
        hostile = rng.random() < 0.7
        while len(ops) < n:
            x = rng.random()
            if local and rng.random() < 0.12:
                # a new run takes the place of the one in L
                now = rng.choice(good)
                ops.append({'op': 'replace', 'kind': now,
                            'quiet': rng.random() < 0.5})
                if rng.random() < 0.8:
                    ops.append({'op': 'update', 'o': 's0', 'how': 'str',
                                'dir': 'L', 'cfg': rng.choice(CONFIGS[:3])})
                    ops.append(dict(rng.choice(menu[cls, ident, now]),
                                    o='s0'))
                continue
            if x < 0.45:
                op = {'op': 'update', 'o': 's0',
                      'how': rng.choice(['path', 'str', 'rel', 'relpath'])}
                kind = rng.randrange(8)
                if kind in (0, 1, 2, 3, 7):
                    op['dir'] = rng.choice(dirs)
                if kind in (2, 3, 4, 5):
                    op['cfg'] = rng.choice(cfgs)
                if rng.random() < 0.08:
                    op['dir'] = rng.choice(SOURCES)
                if hostile and rng.random() < 0.3:
                    op['fault'] = {
                        'call': rng.choice(['ncopen', 'open', 'ncread']),
                        'n': rng.randint(1, 3), 'count': 1,
                        'exc': rng.choice(p03.FAULTS)}
                elif hostile and rng.random() < 0.2:
                    op['abort'] = {
                        'at': rng.randint(1, rng.choice([10, 100, 1000])),
                        'exc': rng.choice(sorted(p04.KINDS))}
                ops.append(op)
                if rng.random() < 0.3:
                    ops.append({'op': 'paths', 'o': 's0'})
                continue
            d = rng.choice(dirs)
            d = now if d == 'L' else d
            pool = menu.get((cls, ident, d))
            if not pool:
                continue
            request = dict(rng.choice(pool), o='s0')
            if held and x > 0.85:
                h = rng.randrange(held)
                ops.append({'op': 'hobserve', 'h': f'h{h}',
                            'cons': request.get('cons', {})})
                continue
            if request['op'] == 'observe' and x > 0.7:
                ops.append({'op': 'hold', 'o': 's0', 'h': f'h{held}',
                            'name': request['name'],
                            'units': request.get('units', [])})
                held += 1
                continue
            ops.append(request)
        ops.append({'op': 'update', 'o': 's0', 'how': 'path',
                    'dir': dirs[0], 'cfg': 'run.cfg'})
        ops.append({'op': 'paths', 'o': 's0'})
        for d in dirs[:2]:
            d = now if d == 'L' else d
            ops.append(dict(rng.choice(menu[cls, ident, d]), o='s0'))
        return {'ops': ops, 'local': local}

    def put(self, env, work, kind, quiet=False):
        """Put (new) files of this kind in L."""
        folder, aside = os.path.join(work, 'L'), os.path.join(work, 'aside')
        base = os.path.join(env.base, kind)
        os.makedirs(folder, exist_ok=True)
        os.makedirs(aside, exist_ok=True)
        for name in sorted(os.listdir(folder)):
            # kept elsewhere, so that no new file gets its inode number
            seams.REAL['os_rename'](os.path.join(folder, name), os.path.join(
                aside, str(len(os.listdir(aside)))))
        for name in sorted(os.listdir(base)):
            path = os.path.join(folder, name)
            with seams.REAL['open'](os.path.join(base, name), 'rb') as a:
                with seams.REAL['open'](path, 'wb') as b:
                    b.write(a.read())
            if quiet:
                os.utime(path, (10**9, 10**9))

    def prepare(self, env, scenario, work):
        work = os.path.realpath(work)
        if scenario.get('local'):
            self.put(env, work, scenario['local'], True)
        return work

    def execute(self, env, scenario, work, prepared):
        os.chdir(env.base)
        for d in list(env.cat['files']) + ['X']:
            path = os.path.join(env.base, d, 'broken.cfg')
            if not os.path.exists(path):
                raise RuntimeError('world without broken.cfg')
        s = session.Session(env.base)
        s.places = {'L': os.path.join(prepared, 'L')}
        out = []
        for op in scenario['ops']:
            if op['op'] == 'replace':
                self.put(env, prepared, op['kind'], op['quiet'])
                out.append({'ok': True, 'fired': [], 'aborted': []})
                continue
            seams.SEAM.fired = []
            aborted = []
            if op.get('fault'):
                seams.SEAM.arm([op['fault']])
            if op.get('abort'):
                self.arm(op['abort'], aborted)
            try:
                got = s.run(op)
            except KeyboardInterrupt:
                got = {'error': 'KeyboardInterrupt'}
            loader.CONTROL.armed = False
            seams.SEAM.disarm()
            got['fired'] = [list(f) for f in seams.SEAM.fired]
            got['aborted'] = aborted
            out.append(got)
        return out

    def arm(self, plan, aborted):
        left = [plan['at']]

        def handler(point):
            left[0] -= 1
            if left[0] == 0:
                loader.CONTROL.armed = False
                aborted.append(loader.POINTS[point])
                raise p04.KINDS[plan['exc']]('simulated')

        loader.CONTROL.handler = handler
        loader.CONTROL.armed = True

    def ready(self, env):
        for d in list(env.cat['files']):
            with seams.REAL['open'](
                    os.path.join(env.base, d, 'broken.cfg'), 'w') as fp:
                fp.write('lamo=0.5\nthis line is broken\n')

    def judge(self, env, scenario, outcome, work):
        _, history = outcome
        stats = {'ops': {}, 'compared': 0, 'updates': {}, 'faults': {}}
        violation = None
        state, held = None, {}
        unknown = False     # an aborted update: only a new update settles it
        todo = []
        log = []

        def count(group, key):
            stats[group][key] = stats[group].get(key, 0) + 1

        def bad(i, kind, *detail):
            nonlocal violation
            violation = violation or {'kind': kind, 'op': i,
                                      'detail': list(detail)}

        for i, (op, rec) in enumerate(zip(scenario['ops'], history)):
            kind = op['op']
            got = {k: v for k, v in rec.items()
                   if k not in ('fired', 'aborted')}
            count('ops', kind)
            for f in rec['fired']:
                count('faults', f'{f[0]}:{f[2]}')
            if rec['aborted']:
                count('faults', f"abort:{op['abort']['exc']}")
            if kind == 'new':
                state = State(env.cat, op['cls'], op['id'], op['system'])
                state.local = scenario.get('local')
                state = state.apply(op['dir'], op['cfg'])
                if state is None or 'error' in got:
                    bad(i, 'cannot-build', got)
                    break
                continue
            if state is None:
                break
            if kind == 'replace':
                # what used L may have read it or not
                if 'L' in (state.dir, (state.conf or [None])[0]):
                    unknown = True
                for h, (_, _, places) in list(held.items()):
                    if 'L' in places:
                        del held[h]
                state.local = op['kind']
                continue
            if kind == 'update':
                log.append([op.get('dir'), op.get('cfg'), op.get('fault'),
                            op.get('abort')])
                new = state.apply(op.get('dir'), op.get('cfg'))
                if rec['aborted']:
                    unknown = True
                    count('updates', 'aborted')
                    continue
                if rec['fired'] and 'error' in got:
                    count('updates', 'failed')
                    continue
                if unknown:
                    full = (new is not None and op.get('dir') is not None
                            and op.get('cfg') is not None and new.spec())
                    if not full:
                        # what it starts from is not known
                        count('updates', 'after abort')
                        continue
                if new is None:
                    count('updates', 'refused')
                    if 'ok' in got:
                        bad(i, 'bad-update-accepted', op)
                else:
                    count('updates', 'done')
                    if got.get('ok') is not True:
                        bad(i, 'good-update-refused', got)
                    else:
                        state, unknown = new, False
                continue
            if kind == 'hobserve':
                base = held.get(op['h'])
                if base is None:
                    continue
                spec, first, _ = base
                todo.append((i, got, spec, {
                    'op': 'observe', 'name': first['name'],
                    'units': first.get('units', []), 'cons': op['cons']}))
                continue
            if unknown:
                continue
            spec = state.spec()
            if kind == 'paths':
                if not state.data:
                    continue
                want = {'data': f'{state.dir}/{state.data}'}
                if state.conf:
                    want['conf'] = '/'.join(state.conf)
                for k, v in want.items():
                    if got.get('ok', {}).get(k) != v:
                        bad(i, 'paths', got, want)
                continue
            if spec is None:
                if 'ok' in got:
                    bad(i, 'answer-without-data', got)
                continue
            if kind == 'hold' and 'ok' in got:
                held[op['h']] = (spec, op, (state.dir, state.conf[0]))
            todo.append((i, got, spec, op))
        common.fresh_answers(env, [(s, r) for _, _, s, r in todo])
        for i, got, spec, request in todo:
            stats['compared'] += 1
            want = common.fresh_answer(env, spec, request)
            found = session.differ(got, want)
            if found:
                bad(i, f"stale:{scenario['ops'][i]['op']}", found,
                    got.get('message'), want.get('message'), spec)
        return {
            'stats': stats,
            'digest': engine.digest(history),
            'nontrivial': engine.digest(log),
            'violation': violation,
            'sample': {'ops': scenario['ops'][:4]},
        }
