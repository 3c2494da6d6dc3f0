"""P03: a failing read fails the request, never falsifies it, and heals."""

import os
import shutil

from .. import engine, seams, session, world
from . import common, p01

FAULTS = ['EIO', 'HDF', 'ENOENT', 'EACCES', 'EMFILE', 'MemoryError', 'EINTR']
SPOILS = ['missing', 'garbage', 'truncated', 'empty', 'directory', 'dangling']


def spoil(root, d, name, how):
    """Damage one file; open handles keep the undamaged inode."""
    path = os.path.join(root, d, name)
    save = os.path.join(root, '.saved', d, name)
    os.makedirs(os.path.dirname(save), exist_ok=True)
    if os.path.exists(save):
        return False
    os.rename(path, save)
    if how == 'garbage':
        with seams.REAL['open'](path, 'wb') as fp:
            fp.write(bytes((i*37 + 11) % 256 for i in range(2048)))
    elif how == 'empty':
        seams.REAL['open'](path, 'wb').close()
    elif how == 'truncated':
        with seams.REAL['open'](save, 'rb') as fp:
            data = fp.read()
        with seams.REAL['open'](path, 'wb') as fp:
            fp.write(data[:len(data)//2])
    elif how == 'directory':
        os.mkdir(path)
    elif how == 'dangling':
        os.symlink(path + '.nowhere', path)
    return True


def heal(root, d, name):
    path = os.path.join(root, d, name)
    save = os.path.join(root, '.saved', d, name)
    if not os.path.exists(save):
        return False
    if os.path.islink(path) or os.path.isfile(path):
        os.unlink(path)
    elif os.path.isdir(path):
        os.rmdir(path)
    os.rename(save, path)
    return True


class P03(p01.P01):

    ID = 'P03'
    RUNS = (120, 6000)
    BUDGET = (300, 2400)
    RULE = ('distinct (request, fault plan, damage in force) triples whose '
            'answer was judged')
    STUBBED = ['I/O errors are raised at the netCDF4.Dataset, netCDF4 '
               'variable and open seams; damaged files are real files']

    def scenario(self, rng, env, tier, index):
        label = f'{self.ID}:{env.seed}:{index//400}'
        menu = common.menu(env, label, 8, 26)
        nobs = rng.choice([1, 2, 2, 3])
        picks = [rng.randrange(len(menu.specs)) for _ in range(nobs)]
        specs = {f's{i}': k for i, k in enumerate(picks)}
        new = {s: {'op': 'new', 'o': s, 'how': rng.choice(['path', 'str']),
                   **menu.specs[k]} for s, k in specs.items()}
        ops, live, damage = [], [], {}
        faulty = rng.random() < 0.85
        damaging = rng.random() < 0.6
        n = rng.randint(8, 40 if tier != 'quick' else 26)
        pending = sorted(specs)
        held = []

        def fault(new=False):
            return {'call': rng.choice(
                        ['ncread', 'ncopen', 'open'] if new else
                        ['ncread']*9 + ['ncopen']),
                    'n': rng.randint(1, rng.choice([1, 2, 4, 12])),
                    'count': rng.choice([1, 1, 1, 3, 99]),
                    'exc': rng.choice(FAULTS)}

        def request(slot):
            return dict(rng.choice(menu.requests[specs[slot]]), o=slot)

        while len(ops) < n or pending:
            x = rng.random()
            if damaging and x < 0.10:
                slot = rng.choice(sorted(specs))
                spec = menu.specs[specs[slot]]
                if rng.random() < 0.75:
                    target = [spec['dir'], world.locate(
                        env.cat, spec['cls'], spec['id'], spec['dir'])]
                    how = rng.choice(SPOILS)
                else:
                    cfg = spec['cfg']
                    target = ([spec['dir'], cfg] if isinstance(cfg, str)
                              else list(cfg))
                    how = rng.choice(['missing', 'directory', 'dangling'])
                if tuple(target) not in damage:
                    damage[tuple(target)] = how
                    ops.append({'op': 'spoil', 'dir': target[0],
                                'name': target[1], 'with': how})
                continue
            if damage and x < 0.30:
                target = rng.choice(sorted(damage))
                del damage[target]
                ops.append({'op': 'heal', 'dir': target[0],
                            'name': target[1]})
                continue
            if pending and (not live or x < 0.5):
                op = dict(new[pending[0]])
                if faulty and rng.random() < 0.4:
                    op['fault'] = fault(True)
                    ops.append(op)
                    if rng.random() < 0.5:
                        # sometimes try the same again before going on
                        ops.append(dict(op, fault=fault(True)))
                    op = dict(new[pending[0]])
                ops.append(op)
                live.append(pending.pop(0))
                continue
            slot = rng.choice(live)
            if held and x > 0.85:
                h, slot, base = rng.choice(held)
                op = common.revisit(rng, menu, specs[slot], h, base)
            elif x > 0.80:
                base = request(slot)
                if base['op'] != 'observe':
                    continue
                op = {'op': 'hold', 'o': slot, 'name': base['name'],
                      'h': f'h{len(held)}', 'units': base.get('units', [])}
                held.append((op['h'], slot, op))
            else:
                op = request(slot)
            if faulty and rng.random() < 0.45:
                bad = dict(op, fault=fault())
                ops.append(bad)
                if rng.random() < 0.6:
                    ops.append(op)
                elif op['op'] == 'hold':
                    held.pop()
            else:
                ops.append(op)
        for target in sorted(damage):
            ops.append({'op': 'heal', 'dir': target[0], 'name': target[1]})
        for slot in sorted(specs):
            ops.append(dict(new[slot], o=slot + 'x'))
            for _ in range(2):
                op = request(slot)
                ops.append(op)
                ops.append(dict(op, o=slot + 'x'))
        return {'ops': ops}

    def prepare(self, env, scenario, work):
        world.clone(env.base, work)

    def execute(self, env, scenario, work, prepared, s=None):
        os.chdir(work)
        s = s or session.Session(work)
        out = []
        for op in scenario['ops']:
            if op['op'] == 'spoil':
                out.append({'ok': spoil(work, op['dir'], op['name'],
                                        op['with']), 'fired': []})
                continue
            if op['op'] == 'heal':
                out.append({'ok': heal(work, op['dir'], op['name']),
                            'fired': []})
                continue
            self.before(op)
            got = self.perform(s, op)
            got['fired'] = self.after(op)
            if op['op'] == 'new' and 'ok' in got:
                # an observer without data exists but cannot observe
                # (and obsN.nc may be missing where fluxN.nc exists)
                this = s.observers[op['o']]
                try:
                    this.context
                except NotImplementedError:
                    got['ok'] = 'no context'
                else:
                    got['ok'] = os.path.basename(str(this.datapath))
            out.append(got)
        return out

    def perform(self, s, op):
        return s.run(op)

    def before(self, op):
        seams.SEAM.fired = []
        if op.get('fault'):
            seams.SEAM.arm([op['fault']])

    def after(self, op):
        seams.SEAM.disarm()
        return [list(f) for f in seams.SEAM.fired]

    def files(self, env, spec):
        """What an observer reads."""
        cfg = spec['cfg']
        return {
            (spec['dir'], world.locate(
                env.cat, spec['cls'], spec['id'], spec['dir'])),
            (spec['dir'], cfg) if isinstance(cfg, str) else tuple(cfg),
        }

    def judge(self, env, scenario, outcome, work):
        _, history = outcome
        ops = scenario['ops']
        stats = {'ops': {}, 'compared': 0, 'excused_errors': 0, 'faults': {},
                 'damage': {}, 'answers_despite_faults': 0}
        plain = [{k: v for k, v in h.items() if k != 'fired'}
                 for h in history]
        steps = {i: (spec, req)
                 for i, spec, req in self.pairs(scenario, plain)}
        common.fresh_answers(env, list(steps.values()))
        damage, violation, seen = {}, None, set()
        alive = set()
        for i, (op, got, rec) in enumerate(zip(ops, plain, history)):
            kind = op['op']
            stats['ops'][kind] = stats['ops'].get(kind, 0) + 1
            for f in rec['fired']:
                label = f'{f[0]}:{f[2]}'
                stats['faults'][label] = stats['faults'].get(label, 0) + 1
            if kind == 'spoil':
                damage[op['dir'], op['name']] = op['with']
                stats['damage'][op['with']] = stats['damage'].get(
                    op['with'], 0) + 1
                continue
            if kind == 'heal':
                damage.pop((op['dir'], op['name']), None)
                continue
            if kind == 'new':
                alive.discard(op['o'])
                spec = common.spec_of(op)
                if got.get('ok') == world.locate(
                        env.cat, spec['cls'], spec['id'], spec['dir']):
                    alive.add(op['o'])
                hurt = self.files(env, spec) & set(damage)
                if op['o'] not in alive and not rec['fired'] and not hurt:
                    violation = violation or {
                        'kind': 'cannot-build', 'op': i, 'detail': [got]}
                stats['compared'] += 1
                continue
            if i not in steps:
                continue
            spec, request = steps[i]
            slot = op.get('o')
            if slot is not None and slot not in alive:
                continue
            hurt = self.files(env, spec) & set(damage)
            if 'error' in got and (rec['fired'] or hurt):
                stats['excused_errors'] += 1
                continue
            want = common.fresh_answer(env, spec, request)
            stats['compared'] += 1
            stats['answers_despite_faults'] += bool(rec['fired'] or hurt)
            seen.add(engine.digest([request, op.get('fault'),
                                    sorted(damage[h] for h in hurt)]))
            found = session.differ(got, want)
            if found and violation is None:
                violation = {
                    'kind': f"{'wrong' if 'ok' in got else 'refused'}:{kind}",
                    'op': i,
                    'detail': [found, got.get('message'),
                               want.get('message'), rec['fired']]}
        return {
            'stats': stats,
            'digest': engine.digest(history),
            'nontrivial': sorted(seen),
            'violation': violation,
            'sample': {'ops': scenario['ops'][:5]},
        }
