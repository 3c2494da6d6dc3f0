"""P10: goats only reads: inputs, arguments and the process stay untouched."""

import contextlib
import copy
import gc
import hashlib
import io
import locale
import os
import pathlib
import random
import signal
import sys
import warnings

import numpy

from .. import engine, eprem_src, loader, seams, session, workload, world
from . import common, p03, p04

DIRS = ['A', 'B', 'C', 'D', 'N', 'X']


def listing(root):
    """Everything a user could see change below a directory."""
    out = {}
    for folder, dirs, files in os.walk(root):
        for name in dirs + files:
            path = os.path.join(folder, name)
            info = os.lstat(path)
            link = os.readlink(path) if os.path.islink(path) else None
            out[os.path.relpath(path, root)] = [
                info.st_mode, info.st_size if link is None else 0, link,
                info.st_mtime_ns, info.st_ino, info.st_nlink]
    return out


def contents(root):
    out = {}
    for folder, _, files in os.walk(root):
        for name in files:
            path = os.path.join(folder, name)
            if os.path.islink(path):
                continue
            with io.FileIO(path) as fp:
                out[os.path.relpath(path, root)] = hashlib.sha256(
                    fp.readall()).hexdigest()[:16]
    return out


def settings():
    """Process-wide settings that belong to the user."""
    mask = os.umask(0o22)
    os.umask(mask)
    return {
        'cwd': os.getcwd(),
        'environ': engine.digest(dict(os.environ)),
        'umask': mask,
        'numpy errors': numpy.geterr(),
        'numpy print options': str(sorted(
            (k, str(v)) for k, v in numpy.get_printoptions().items())),
        'warning filters': str(warnings.filters),
        'sys.path': list(sys.path),
        'recursion limit': sys.getrecursionlimit(),
        'random': engine.digest(str(random.getstate())),
        'numpy random': engine.digest(str(numpy.random.get_state())),
        'locale': locale.setlocale(locale.LC_ALL),
        'SIGINT': str(signal.getsignal(signal.SIGINT)),
        'stdout': sys.stdout is sys.__stdout__,
    }


def changed(old, new):
    return sorted(k for k in set(old) | set(new) if old.get(k) != new.get(k))


def plain(value):
    """An argument as data that can be compared."""
    if isinstance(value, numpy.ndarray):
        return ['ndarray', str(value.dtype), value.shape, value.tolist()]
    if isinstance(value, dict):
        return ['dict', [[k, plain(v)] for k, v in value.items()]]
    if isinstance(value, (list, tuple)):
        return [type(value).__name__, [plain(v) for v in value]]
    return repr(value)


def spoil(value):
    """The caller reuses its own objects."""
    if isinstance(value, list):
        value[:] = [0]
    elif isinstance(value, numpy.ndarray):
        value[...] = 0


class P10(common.ObserverProperty):

    ID = 'P10'
    RUNS = (240, 9000)
    BUDGET = (300, 2400)
    RULE = ('distinct (operation, fault or line of the abort) pairs after '
            'which files, arguments and settings were inspected')
    REAL = ['goats (all of it)', 'netCDF4/HDF5', 'numpy', 'scipy',
            'file system (scratch directory)']
    STUBBED = ['I/O errors are raised at the netCDF4.Dataset, netCDF4 '
               'variable and open seams', 'aborts are raised at instrumented '
               'statements']

    # -- scenario -----------------------------------------------------------

    def scenario(self, rng, env, tier, index):
        label = f'{self.ID}:{env.seed}:{index//400}'
        menu = common.menu(env, label, 8, 40)
        faulty = rng.random() < 0.7

        def hurt(op):
            x = rng.random()
            if not faulty:
                return op
            if x < 0.15:
                op['fault'] = {'call': rng.choice(
                                   ['ncread', 'ncread', 'ncopen', 'open']),
                               'n': rng.randint(1, rng.choice([1, 2, 6])),
                               'count': rng.choice([1, 1, 99]),
                               'exc': rng.choice(p03.FAULTS)}
            elif x < 0.35:
                op['abort'] = {'at': rng.randint(1, rng.choice(
                    [10, 100, 1000, 10000])),
                    'exc': rng.choice(sorted(p04.KINDS))}
            return op

        def config():
            return rng.choice(['run.cfg', 'alt.cfg', 'empty.cfg',
                               'missing.cfg', ['X', 'outside.cfg']])

        ops, live = [], {}
        n = rng.randint(8, 20 if tier == 'quick' else 40)
        while len(ops) < n:
            x = rng.random()
            if not live or x < 0.12:
                k = rng.randrange(len(menu.specs))
                slot = f's{len(live)}'
                live[slot] = k
                ops.append(hurt({'op': 'new', 'o': slot, 'how': rng.choice(
                    ['path', 'str', 'rel']), **menu.specs[k]}))
            elif x < 0.62:
                slot = rng.choice(sorted(live))
                op = dict(rng.choice(menu.requests[live[slot]]), o=slot)
                if op['op'] == 'observe':
                    op['forms'] = workload.forms(rng, op['cons'], 0.8)
                ops.append(hurt(op))
            elif x < 0.70:
                op = {'op': 'update', 'o': rng.choice(sorted(live)),
                      'how': 'path'}
                if rng.random() < 0.7:
                    op['dir'] = rng.choice(DIRS + ['nowhere'])
                if rng.random() < 0.6:
                    op['cfg'] = config()
                ops.append(hurt(op))
            elif x < 0.74 and live:
                slot = rng.choice(sorted(live))
                op = {'op': 'print', 'o': slot, 'what': rng.choice(
                    ['observer', 'quantity', 'result', 'axis', 'axis'])}
                if op['what'] == 'axis':
                    op['name'] = rng.choice(['time', 'shell', 'species',
                                             'energy', 'mu', 'radius'])
                else:
                    op['name'] = rng.choice(
                        [r['name'] for r in menu.requests[live[slot]]
                         if r['op'] == 'observe'] or ['flux'])
                if faulty and rng.random() < 0.6:
                    op['abort'] = {'at': rng.randint(1, rng.choice(
                        [4, 12, 40])), 'exc': rng.choice(sorted(p04.KINDS))}
                ops.append(op)
            elif x < 0.78:
                ops.append({'op': 'chdir', 'dir': rng.choice(
                    DIRS + ['.', 'src'])})
            elif x < 0.83:
                ops.append(hurt({
                    'op': 'file', 'dir': rng.choice(DIRS),
                    'file': rng.choice(['obs000000.nc', 'flux000000.nc',
                                        'run.cfg', 'missing.nc'])}))
            elif x < 0.93:
                ops.append(hurt({
                    'op': 'runtime', 'dir': rng.choice(DIRS), 'cfg': config(),
                    'source': rng.random() < 0.5,
                    'rel': rng.random() < 0.5, 'what': rng.choice(
                        ['all', 'interface', 'compare', 'diff'])}))
            else:
                ops.append(hurt({
                    'op': 'text', 'dir': rng.choice(DIRS), 'what': rng.choice(
                        ['lines', 'count', 'search', 'template'])}))
        return {'ops': ops, 'src': rng.randrange(1000)}

    def prepare(self, env, scenario, work):
        world.clone(env.base, work)
        folder = os.path.join(work, 'src')
        os.makedirs(folder)
        eprem_src.write(folder, eprem_src.variant(
            eprem_src.template(), f"P10:{scenario['src']}"), scenario['src'])
        os.makedirs(os.path.join(work, 'home'))

    # -- the session --------------------------------------------------------

    def execute(self, env, scenario, work, prepared):
        from goats.core import datafile, iotools
        from goats.eprem import runtime
        work = os.path.realpath(work)
        os.chdir(work)
        os.environ['HOME'] = os.path.join(work, 'home')
        s = session.Session(work)
        kept = []

        def observe(op):
            cons = session.arguments(copy.deepcopy(op))
            units = list(op.get('units', ()))
            before = plain(cons), plain(units)

            def once(cons):
                this = s.observers[op['o']][op['name']]
                for unit in units:
                    this = this[unit]
                return this.observe(**cons)

            try:
                result = once(cons)
            finally:
                loader.CONTROL.armed = False
                if (plain(cons), plain(units)) != before:
                    kept.append(['argument changed', str(before[0])[:200],
                                 str(plain(cons))[:200]])
            seams.SEAM.disarm()
            for value in cons.values():
                spoil(value)
            found = session.differ(
                session.canon_observation(result), session.canon_observation(
                    once(session.arguments(copy.deepcopy(op)))))
            if found:
                kept.append(['result follows the argument', found])
            return True

        def perform(op):
            kind = op['op']
            if kind == 'observe':
                return observe(op)
            if kind == 'print':
                # only the writing down is interrupted
                armed, loader.CONTROL.armed = loader.CONTROL.armed, False
                this = s.observers[op['o']]
                if op['what'] == 'axis':
                    this = getattr(this, op['name'])
                elif op['what'] != 'observer':
                    this = this[op['name']]
                if op['what'] == 'result':
                    this = this.observe()
                loader.CONTROL.armed = armed
                return bool(str(this)) and bool(repr(this))
            where = os.path.join(work, op.get('dir') or '.')
            if kind == 'file':
                this = datafile.Interface(os.path.join(where, op['file']))
                return [len(this.variables), len(this.axes),
                        len(str(this.units)), this.variables['time'].data[0]
                        is not None]
            if kind == 'text':
                cfg = os.path.join(where, 'run.cfg')
                if op['what'] == 'lines':
                    text = iotools.TextFile(cfg)
                    return [len(text.lines), len(text.extract(
                        lambda x: x.split('=') if '=' in x else None,
                        lambda x: (x[0], x[1])))]
                if op['what'] == 'count':
                    return iotools.file_lines(cfg)
                if op['what'] == 'search':
                    return iotools.search([where, work], 'run.cfg') is not None
                return iotools.find_file_by_template(
                    [lambda n: f'obs{n:06}.nc', lambda n: f'flux{n:06}.nc'],
                    0, where) is not None
            if kind == 'runtime':
                cfg = op['cfg']
                cfg = (os.path.join(where, cfg) if isinstance(cfg, str)
                       else os.path.join(work, *cfg))
                cfg = os.path.relpath(cfg) if op['rel'] else pathlib.Path(cfg)
                src = os.path.join(work, 'src') if op['source'] else None
                if op['what'] == 'all':
                    return len(dict(runtime.Runtime(src, cfg).items()))
                if op['what'] == 'interface':
                    return float(runtime.Interface(cfg)['lamo'].data)
                other = os.path.join(work, 'A', 'alt.cfg')
                if op['what'] == 'diff':
                    return len(runtime.ConfigFile(cfg).compare(other))
                files = [cfg, other]
                with contextlib.redirect_stdout(io.StringIO()):
                    runtime.compare_arguments(files, action='diff')
                if files != [cfg, other]:
                    kept.append(['argument changed', 'list of files'])
                return True
            if kind == 'update':
                return s.op_update(op)
            got = s.run(op)
            return got.get('ok') is not None

        # settings that differ from whatever goats could choose for itself
        numpy.seterr(all='warn')
        warnings.resetwarnings()
        for kind in (RuntimeWarning, DeprecationWarning, UserWarning,
                     FutureWarning, ImportWarning, ResourceWarning):
            warnings.simplefilter('ignore', kind)
        seams.SEAM.protect = (work,)
        seams.SEAM.forbid = (os.path.realpath(loader.ROOT),)
        protected = os.path.realpath(loader.ROOT)
        files, package = listing(work), listing(protected)
        hashes = contents(work)
        process = settings()
        out = []
        for op in scenario['ops']:
            if op['op'] == 'chdir':
                s.op_chdir(op)
                process['cwd'] = os.getcwd()
                out.append({'ok': True, 'fired': [], 'aborted': [],
                            'found': []})
                continue
            seams.SEAM.fired = []
            aborted = []
            del kept[:]
            if op.get('fault'):
                seams.SEAM.arm([op['fault']])
            if op.get('abort'):
                common.arm(op['abort'], aborted, p04.KINDS)
            try:
                got = {'ok': perform(op)}
            except (Exception, KeyboardInterrupt) as err:
                got = {'error': type(err).__name__, 'message': loader.message(err)}
            loader.CONTROL.armed = False
            seams.SEAM.disarm()
            got['fired'] = [f'{f[0]}:{f[2]}' for f in seams.SEAM.fired]
            got['aborted'] = aborted
            found = list(kept)
            now = listing(work)
            if now != files:
                found.append(['files changed', changed(files, now)[:5]])
                files = now
            if seams.SEAM.writes:
                found.append(['written', seams.SEAM.writes[:5]])
                seams.SEAM.writes = []
            new = settings()
            if new != process:
                found.append(['settings changed', changed(process, new)])
                process = new
            got['found'] = found
            out.append(got)
        last = []
        if contents(work) != hashes:
            last.append(['contents changed', changed(
                hashes, contents(work))[:5]])
        now = listing(protected)
        if now != package:
            last.append(['package changed', changed(package, now)[:5]])
        seams.SEAM.protect = seams.SEAM.forbid = ()
        gc.collect()
        gc.collect()
        still = {}
        for fd in os.listdir('/proc/self/fd'):
            try:
                path = os.readlink(f'/proc/self/fd/{fd}')
            except OSError:
                continue
            if path.startswith(work + os.sep):
                name = os.path.relpath(path, work)
                still[name] = still.get(name, 0) + 1
        loose = sorted(n for n in still if not n.endswith('.nc')
                       or still[n] > 2)
        if loose:
            last.append(['left open', loose[:5]])
        out.append({'op': 'end', 'found': last, '_open': sorted(still)})
        return out

    # -- verdict ------------------------------------------------------------

    def judge(self, env, scenario, outcome, work):
        _, history = outcome
        stats = {'ops': {}, 'faults': {}, 'failed': 0, 'inspections': 0}
        seen, violation = set(), None
        ops = scenario['ops'] + [{'op': 'end'}]
        for i, (op, rec) in enumerate(zip(ops, history)):
            stats['ops'][op['op']] = stats['ops'].get(op['op'], 0) + 1
            stats['inspections'] += 1
            for f in rec.get('fired', ()):
                stats['faults'][f] = stats['faults'].get(f, 0) + 1
            for f in rec.get('aborted', ()):
                kind = f"abort:{op['abort']['exc']}"
                stats['faults'][kind] = stats['faults'].get(kind, 0) + 1
            stats['failed'] += 'error' in rec
            seen.add(engine.digest([
                {k: v for k, v in op.items() if k not in ('o', 'abort')},
                rec.get('fired'), rec.get('aborted')]))
            for found in rec['found']:
                violation = violation or {
                    'kind': found[0].replace(' ', '-'), 'op': i,
                    'detail': [found, op]}
        return {
            'stats': stats, 'digest': engine.digest(history),
            'nontrivial': sorted(seen), 'violation': violation,
            'sample': {'ops': scenario['ops'][:4]},
        }
