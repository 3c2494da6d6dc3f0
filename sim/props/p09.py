"""P09: a dataset is the one that its path referred to when it was named."""

import os
import pathlib

from .. import engine, eprem_src, loader, seams, session, world
from . import common, p03, p04, p08

PLACES = ['one/run', 'one/alt', 'two/run', 'two/alt', 'run', 'one/run/run']
KINDS = ['A', 'B', 'C', 'D']
LINKS = ['current', 'one/latest', 'two/latest', 'one/run/link']
HERE = ['one', 'two', '.']
KEYS = ['lamo', 'kperxkpar', 'mfpRadialPower', 'rigidityPower']


class P09(common.ObserverProperty):

    ID = 'P09'
    RUNS = (300, 12000)
    BUDGET = (300, 2400)
    RULE = ('distinct histories of (operation, place, spelling, fault) of one '
            'session')
    REAL = ['goats (all of it)', 'netCDF4/HDF5', 'numpy', 'scipy',
            'file system, links and working directory (scratch directory)']
    STUBBED = ['I/O errors are raised at the netCDF4.Dataset, netCDF4 '
               'variable and open seams', 'aborts are raised at instrumented '
               'statements']

    # -- scenario -----------------------------------------------------------

    def scenario(self, rng, env, tier, index):
        places = {}
        for p in PLACES:
            if rng.random() < 0.75:
                places[p] = rng.choice(KINDS)
        places.setdefault('one/run', 'A')
        places.setdefault('two/run', 'B')
        names = sorted(places)
        links = {n: rng.choice(names) for n in LINKS
                 if rng.random() < 0.6 and os.path.dirname(n) in (
                     '', 'one', 'two', *names)}

        def spot():
            """A place, perhaps through a link, and how it is spelled."""
            if links and rng.random() < 0.35:
                where = {'link': rng.choice(sorted(links))}
            else:
                where = {'place': rng.choice(names)}
            where['how'] = rng.choice(
                ['str', 'path', 'rel', 'rel', 'rel', 'home', 'dots',
                 'relpath', 'reldots'])
            return where

        def hurt(op):
            x = rng.random()
            if x < 0.08:
                op['fault'] = {'call': rng.choice(['ncopen', 'open']),
                               'n': rng.randint(1, 2),
                               'exc': rng.choice(p03.FAULTS)}
            elif x < 0.16:
                op['abort'] = {'at': rng.randint(1, rng.choice(
                    [10, 100, 1000])), 'exc': rng.choice(sorted(p04.KINDS))}
            return op

        def config():
            x = rng.random()
            if x < 0.5:
                return rng.choice(['run.cfg', 'alt.cfg', 'empty.cfg'])
            if x < 0.65:
                return 'here.cfg'
            return {**spot(), 'file': rng.choice(['run.cfg', 'alt.cfg'])}

        ops = []
        nobs = nfile = 0
        n = rng.randint(6, 16 if tier == 'quick' else 32)
        while len(ops) < n:
            x = rng.random()
            if x < 0.2:
                ops.append({'op': 'cd', 'to': rng.choice(
                    HERE + names + ['one', 'two'])})
            elif x < 0.28 and links:
                ops.append({'op': 'link', 'name': rng.choice(sorted(links)),
                            'to': rng.choice(names)})
            elif x < 0.34:
                # a new run of the simulation takes the place of the old one
                ops.append({'op': 'replace', 'place': rng.choice(names),
                            'kind': rng.choice(KINDS),
                            'quiet': rng.random() < 0.5})
            elif x < 0.48:
                op = {'op': 'new', 'o': nobs,
                      'cls': rng.choice(['Stream', 'Stream', 'Point']),
                      'id': rng.choice([0, 0, 1]), 'cfg': config()}
                if rng.random() < 0.85:
                    op['at'] = spot()
                ops.append(hurt(op))
                nobs += 1
            elif x < 0.6:
                ops.append(hurt({
                    'op': 'file', 'f': nfile, 'at': spot(),
                    'file': rng.choice(['obs000000.nc', 'obs000000.nc',
                                        'flux000000.nc', 'obs000001.nc',
                                        'p_obs000.nc', 'same.nc'])}))
                nfile += 1
            elif x < 0.64:
                ops.append({'op': 'bad', 'at': spot(), 'file': rng.choice(
                    ['run.cfg', 'missing.nc', 'data.h5', 'noname'])})
            elif x < 0.70 and nfile:
                ops.append({'op': 'use', 'f': rng.randrange(nfile),
                            'group': rng.choice(
                                ['variables', 'axes', 'notes'])})
            elif x < 0.86 and nobs:
                ops.append(hurt({'op': 'ask', 'o': rng.randrange(nobs)}))
            elif nfile:
                ops.append(hurt({'op': 'look', 'f': rng.randrange(nfile)}))
        ops += [{'op': 'ask', 'o': i} for i in range(nobs)]
        ops += [{'op': 'look', 'f': i} for i in range(nfile)]
        return {'places': places, 'links': links, 'ops': ops}

    def prepare(self, env, scenario, work):
        for p in HERE:
            os.makedirs(os.path.join(work, p), exist_ok=True)
        aside = os.path.join(work, '.aside')
        os.makedirs(aside)
        for p, kind in sorted(scenario['places'].items()):
            self.fill(env, os.path.join(work, p), kind, aside)
        for i, p in enumerate(HERE):
            with seams.REAL['open'](
                    os.path.join(work, p, 'here.cfg'), 'w') as fp:
                fp.write(f'lamo=0.{i + 5}\n')
        for name, to in scenario['links'].items():
            os.symlink(os.path.join(work, to), os.path.join(work, name))

    def fill(self, env, folder, kind, aside, quiet=False):
        """Put (new) files of this kind in a directory."""
        os.makedirs(folder, exist_ok=True)
        base = os.path.join(env.base, kind)
        new = {name: os.path.join(base, name) for name in os.listdir(base)}
        for name in sorted(os.listdir(folder)):
            path = os.path.join(folder, name)
            if name.endswith(('.nc', '.cfg')) and not (
                    name == 'here.cfg' or os.path.isdir(path)):
                # kept elsewhere, so that no new file gets its inode number
                seams.REAL['os_rename'](path, os.path.join(
                    aside, str(len(os.listdir(aside)))))
        for name, path in sorted(new.items()):
            with seams.REAL['open'](path, 'rb') as a:
                content = a.read()
            path = os.path.join(folder, name)
            with seams.REAL['open'](path, 'wb') as b:
                b.write(content)
            if quiet:
                os.utime(path, (10**9, 10**9))
        for name in ('data.h5', 'noname'):
            with seams.REAL['open'](os.path.join(folder, name), 'w') as fp:
                fp.write('nothing\n')
        first = sorted(env.cat['files'][kind])[0]
        seams.REAL['os_symlink'](first, os.path.join(folder, 'same.nc'))

    # -- the session -----------------------------------------------------------

    def execute(self, env, scenario, work, prepared):
        from goats import eprem
        from goats.core import datafile
        work = os.path.realpath(work)
        os.environ['HOME'] = work
        os.chdir(work)
        observers, files = {}, {}

        class Custom(datafile.NetCDFAxes):
            """Another viewer."""

        def spell(where, file=None):
            full = os.path.join(work, where.get('link') or where['place'])
            how = where['how']
            tail = [] if file is None else [file]
            if how in ('str', 'path'):
                full = os.path.join(full, *tail)
                return pathlib.Path(full) if how == 'path' else full
            if how in ('rel', 'relpath'):
                full = os.path.join(os.path.relpath(full), *tail)
                return pathlib.Path(full) if how == 'relpath' else full
            if how == 'home':
                return os.path.join('~', os.path.relpath(full, work), *tail)
            if how == 'dots':
                return os.path.join(os.path.dirname(full), '.',
                                    os.path.basename(full), '', *tail)
            return os.path.join('.', os.path.relpath(full), '.', *tail)

        def shown(path):
            return None if path is None else os.path.relpath(
                os.path.realpath(str(path)), work)

        def look(this):
            variables = {}
            for name in ('time', 'Vr', 'R'):
                v = this.variables[name]
                variables[name] = {
                    'data': session.numbers(v.data[...]), 'unit': v.unit,
                    'dims': list(v.dimensions), 'name': v.name}
            return {
                'path': shown(this.path), 'variables': variables,
                'units': {k: this.units[k] for k in ('time', 'Vr', 'R')},
                'axes': {k: this.axes[k].size
                         for k in ('time', 'shell', 'species', 'energy')},
                'names': sorted(this.available('variables').canonical),
                'dims': sorted(this.available('axes').canonical),
            }

        def perform(op):
            kind = op['op']
            if kind == 'cd':
                os.chdir(os.path.join(work, op['to']))
                return True
            if kind == 'link':
                path = os.path.join(work, op['name'])
                seams.REAL['os_unlink'](path)
                seams.REAL['os_symlink'](os.path.join(work, op['to']), path)
                return True
            if kind == 'replace':
                self.fill(env, os.path.join(work, op['place']), op['kind'],
                          os.path.join(work, '.aside'), op['quiet'])
                return True
            if kind == 'new':
                kwargs = {}
                if 'at' in op:
                    kwargs['source'] = spell(op['at'])
                cfg = op['cfg']
                kwargs['config'] = (cfg if isinstance(cfg, str)
                                    else spell(cfg, cfg['file']))
                observers[op['o']] = getattr(eprem, op['cls'])(
                    op['id'], **kwargs)
                return True
            if kind == 'file':
                this = datafile.Interface(spell(op['at'], op['file']))
                files[op['f']] = this
                others = [f for f, that in files.items() if that is this]
                return {'same': sorted(others), 'path': shown(this.path)}
            if kind == 'bad':
                datafile.Interface(spell(op['at'], op['file']))
                return True
            if kind == 'use':
                this = files[op['f']]
                return this.use(**{op['group']: Custom}) is this
            if kind == 'ask':
                this = observers[op['o']]
                out = {'data': shown(this.datapath),
                       'conf': shown(this.confpath)}
                out['time'] = session.numbers(this.time)
                out['Vr'] = session.numbers(this['Vr'].observe().array)
                out['R'] = session.numbers(this.radius)
                out['keys'] = {k: float(this[k].data) for k in KEYS}
                return out
            if kind == 'look':
                return look(files[op['f']])
            raise ValueError(kind)

        out = []
        for op in scenario['ops']:
            seams.SEAM.fired = []
            aborted = []
            if op.get('fault'):
                seams.SEAM.arm([op['fault']])
            if op.get('abort'):
                common.arm(op['abort'], aborted, p04.KINDS)
            try:
                got = {'ok': perform(op)}
            except (Exception, KeyboardInterrupt) as err:
                got = {'error': type(err).__name__, 'message': loader.message(err)}
            loader.CONTROL.armed = False
            seams.SEAM.disarm()
            got['fired'] = [f'{f[0]}:{f[2]}' for f in seams.SEAM.fired]
            got['aborted'] = aborted
            out.append(got)
        return out

    # -- verdict --------------------------------------------------------------

    def judge(self, env, scenario, outcome, work):
        _, history = outcome
        cat, places = env.cat, dict(scenario['places'])
        defaults = eprem_src.template()
        links = dict(scenario['links'])
        stats = {'ops': {}, 'faults': {}, 'spellings': {}, 'compared': 0,
                 'refusals': 0}
        violation, cwd, log = None, '.', []
        observers, files, custom = {}, {}, {}

        def bad(i, kind, *detail):
            nonlocal violation
            violation = violation or {'kind': kind, 'op': i,
                                      'detail': list(detail)}

        def count(group, key):
            stats[group][key] = stats[group].get(key, 0) + 1

        def target(where):
            count('spellings', where['how'])
            return links[where['link']] if 'link' in where else where['place']

        def values(data, name, factor=1.0):
            array = data['vars'][name][1]*factor
            return {'shape': list(array.shape),
                    'values': [float(x) for x in array.ravel()]}

        def same(i, kind, got, want):
            stats['compared'] += 1
            found = session.differ(got, want)
            if found:
                bad(i, kind, found, scenario['ops'][i])

        for i, (op, rec) in enumerate(zip(scenario['ops'], history)):
            kind = op['op']
            count('ops', kind)
            for f in rec['fired']:
                count('faults', f)
            if rec['aborted']:
                count('faults', f"abort:{op['abort']['exc']}")
            failed = 'error' in rec
            excused = failed and bool(rec['fired'] or rec['aborted'])
            log.append([op, rec['fired'], rec['aborted']])
            if kind == 'cd':
                cwd = op['to']
            elif kind == 'link':
                links[op['name']] = op['to']
            elif kind == 'replace':
                place = op['place']
                places[place] = op['kind']
                # these may have read the former files, or not yet
                for o, it in observers.items():
                    if it == 'blind' or (isinstance(it, list) and place in (
                            it[0], it[2][0])):
                        observers[o] = None
                for f, it in list(files.items()):
                    if it[0] == place:
                        del files[f]
                for it in [it for it in custom if it[0] == place]:
                    custom.pop(it)
            elif kind == 'new':
                place = target(op['at']) if 'at' in op else cwd
                cfg, conf = op['cfg'], None
                name = (world.locate(cat, op['cls'], op['id'], places[place])
                        if place in places else None)
                if isinstance(cfg, dict):
                    conf = [target(cfg), cfg['file']]
                elif name is None:
                    if not failed:
                        # nothing to observe, with or without an error
                        observers[op['o']] = 'blind'
                    continue
                elif cfg in cat['configs'][places[place]]:
                    conf = [place, cfg]
                elif cwd in HERE and cfg == 'here.cfg':
                    conf = [cwd, cfg]
                if excused:
                    continue
                if conf is None or name is None:
                    stats['refusals'] += 1
                    if not failed:
                        if name is not None:
                            bad(i, 'built-without-config', op)
                        observers[op['o']] = 'blind'
                    continue
                if custom.get((place, name)):
                    continue        # other viewers were asked for
                if failed:
                    bad(i, 'cannot-build', rec, op)
                    continue
                observers[op['o']] = [place, name, conf]
            elif kind == 'file':
                place = target(op['at'])
                there = cat['files'][places[place]]
                name = op['file']
                if name == 'same.nc':
                    name = sorted(there)[0]
                if excused:
                    continue
                if name not in there:
                    stats['refusals'] += 1
                    if not failed:
                        bad(i, 'opened-nothing', op)
                    continue
                if failed:
                    bad(i, 'cannot-open', rec, op)
                    continue
                files[op['f']] = [place, name]
                rec['ok']['same'] = [
                    f for f in rec['ok']['same'] if f in files]
                same(i, 'wrong-file', rec['ok'], {
                    'same': sorted(f for f, that in files.items()
                                   if that == [place, name]),
                    'path': os.path.normpath(f'{place}/{name}')})
            elif kind == 'bad':
                stats['refusals'] += 1
                if not failed:
                    bad(i, 'bad-file-accepted', op)
                elif op['file'] != 'missing.nc' and (
                        rec['error'] != 'TypeError'):
                    bad(i, 'wrong-refusal', rec, op)
            elif kind == 'use':
                if op['f'] not in files:
                    continue
                if failed:
                    bad(i, 'use-failed', rec)
                custom.setdefault(tuple(files[op['f']]), set()).add(
                    op['group'])
                for o, it in observers.items():
                    if isinstance(it, list) and it[:2] == files[op['f']]:
                        observers[o] = None
            elif kind == 'ask':
                state = observers.get(op['o'])
                if state is None or excused:
                    continue
                if state == 'blind':
                    stats['refusals'] += 1
                    if not failed:
                        bad(i, 'answer-without-data', rec)
                    continue
                if failed:
                    bad(i, 'no-answer', rec, state)
                    continue
                place, name, conf = state
                data = cat['files'][places[place]][name]
                if conf[1] == 'here.cfg':
                    user = {'lamo': f'0.{HERE.index(conf[0]) + 5}'}
                else:
                    user = cat['configs'][places[conf[0]]][conf[1]]
                same(i, 'wrong-dataset', rec['ok'], {
                    'data': os.path.normpath(f'{place}/{name}'),
                    'conf': os.path.normpath('/'.join(conf)),
                    'time': values(data, 'time', 86400.0),
                    'Vr': values(data, 'Vr', 1e3),
                    'R': values(data, 'R', 149597870700.0),
                    'keys': {k: float(p08.Model(defaults, user).value(k))
                             for k in KEYS},
                })
            elif kind == 'look':
                state = files.get(op['f'])
                if state is None or excused or custom.get(tuple(state)):
                    continue        # other viewers were asked for
                if failed:
                    bad(i, 'no-answer', rec, state)
                    continue
                place, name = state
                data = cat['files'][places[place]][name]
                same(i, 'wrong-content', rec['ok'], {
                    'path': os.path.normpath(f'{place}/{name}'),
                    'variables': {k: {
                        'data': values(data, k), 'unit': world.UNITS[k],
                        'dims': list(data['vars'][k][0]), 'name': k,
                    } for k in ('time', 'Vr', 'R')},
                    'units': {k: world.UNITS[k] for k in ('time', 'Vr', 'R')},
                    'axes': {k: data['dims'][k] for k in (
                        'time', 'shell', 'species', 'energy')},
                    'names': sorted(data['vars']),
                    'dims': sorted(data['dims']),
                })
        return {
            'stats': stats, 'digest': engine.digest(history),
            'nontrivial': engine.digest(log), 'violation': violation,
            'sample': {'places': places, 'ops': scenario['ops'][:4]},
        }
