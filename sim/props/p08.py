"""P08: runtime parameters come from the files in force, and from no others."""

import contextlib
import io
import math
import os
import random
import re

from .. import engine, eprem_src, loader, seams, session
from . import p03, p04

DIRS = ['one', 'two', 'two/deep', 'elsewhere']


class Config:
    """Attribute access to parameters (for evaluating definitions)."""

    def __init__(self, model):
        self._model = model

    def __getattr__(self, name):
        return self._model.value(name)


class Names(dict):

    def __init__(self, model):
        self.model = model

    def __missing__(self, name):
        if name == 'third':
            return 1/3
        if name in self.model.params:
            return self.model.value(name)
        return self.model.constant(name)


class Model:
    """What the parameters of one run are worth."""

    def __init__(self, source, user):
        self.types = source['_BASETYPES_H']
        self.params = source['_CONFIGURATION_C']
        self.user = user

    def evaluate(self, text):
        return eval(text, {'sqrt': math.sqrt, 'config': Config(self)},
                    Names(self))

    def constant(self, name):
        return self.evaluate(self.types[name])

    def value(self, name):
        info = self.params[name]
        text = self.user.get(name) or info['default']
        kind = info['mode']
        if kind == 'readString':
            return text
        if kind == 'readDoubleArray' and text.startswith('['):
            return [float(x) for x in text.strip('[]').split(',')]
        if text == 'N_PROCS':
            return None
        return float(self.evaluate(text))


def canon(value):
    """JSON form of a parameter value."""
    if value is None or isinstance(value, str):
        return value
    if isinstance(value, (list, tuple)):
        return [float(v) for v in value]
    return float(value)


def user_values(rng, source):
    """Arguments that a user may put in a configuration file."""
    params = {k: v for k, v in source['_CONFIGURATION_C'].items()
              if 'alias' not in v}
    plain = ['eMin', 'eMax', 'tDel', 'simStartTime', 'lamo', 'rScale']
    plain = [p for p in plain if p in params]
    chosen = rng.sample(sorted(params), rng.randint(0, 12))
    for name in ('lamo', 'tDel', 'simStartTime', 'mass', 'rigidityPower'):
        if name in params and rng.random() < 0.3:
            chosen.append(name)
    out = {}

    def simple():
        return rng.choice([
            '0.0', '0', repr(round(rng.uniform(0, 9), 3)), '-0.25', '1e-3',
            '2.5E4', '.5', '7.', repr(rng.randint(1, 99))])

    for name in chosen:
        kind = params[name]['mode']
        if kind == 'readInt':
            value = str(rng.randrange(12))
        elif kind == 'readString':
            value = rng.choice(['', 'abc', '/data/mas/run 1', 'x=y',
                                "'quoted'"])
        elif kind == 'readDoubleArray':
            n = rng.randint(1, 3)
            sep = rng.choice([',', ', '])
            value = '[' + sep.join(
                repr(round(rng.uniform(0, 9), 3)) for _ in range(n)) + ']'
        elif name in plain or not plain:
            value = simple()
        else:
            a, b = rng.choice(plain), rng.choice(plain)
            value = rng.choice([
                simple(), simple(), simple(), f'config.{a}',
                f'config.{a} + config.{b}', f'config.{a} - config.{b}',
                f'config.{a} + 1.5', '2.0*PI', 'PI/4', 'AU/RSUN', 'VERYSMALL',
                '(AU/C)', 'third'])
        out[name] = value
    return out


def opts(op):
    """What starts a comment (nothing but '#' comes first in a line)."""
    return {'comments': op['marks']} if op.get('marks') else {}


def render(rng, values):
    """A configuration file with these arguments."""
    lines = []
    items = list(values.items())
    rng.shuffle(items)
    for name, value in items:
        if rng.random() < 0.15:
            lines.append(rng.choice([
                '', '   ', '\t', '# a comment', '  # indented = comment',
                '#lamo=77', '#', '#! x', '# a ! b # c']))
        if rng.random() < 0.08:
            lines.append(f'{name}=1')       # superseded below
        eq = rng.choice(['=', '=', '=', ' = ', '= ', ' =', '\t=\t'])
        tail = rng.choice(['', '', '', '  ', '  # inline = comment', '# x',
                           ' # x ! y', '#!', ' # a # b'])
        head = rng.choice(['', '', '', '', '  '])
        lines.append(f'{head}{name}{eq}{value}{tail}')
    end = rng.choice(['\n', '\n', '\r\n'])
    return end.join(lines) + rng.choice(['', end])


class P08(engine.Base):

    ID = 'P08'
    RUNS = (500, 20000)
    BUDGET = (300, 2400)
    MODULES = ('goats.eprem.runtime',)
    RULE = ('distinct histories of (operation, files in force, fault) of one '
            'session')
    REAL = ['goats.eprem.runtime and all it imports',
            'file system (scratch directory)']
    STUBBED = ['I/O errors are raised at the open seam', 'aborts are raised '
               'at instrumented statements']

    def warm(self, env):
        from goats.eprem import runtime
        base = eprem_src.template()
        folder = os.path.join(env.scratch, 'warm')
        os.makedirs(folder)
        for i in range(4):
            rng = random.Random(i)
            spec = eprem_src.variant(base, i)
            eprem_src.write(folder, spec, i)
            path = os.path.join(folder, 'a.cfg')
            with seams.REAL['open'](path, 'w') as fp:
                fp.write(render(rng, user_values(rng, spec)))
            for source in (folder, None):
                try:
                    dict(runtime.Runtime(source, path))
                    dict(runtime.Interface(path))
                except Exception:
                    pass

    def scenario(self, rng, env, tier, index):
        seed = rng.randrange(10**6)
        nsrc, ncfg = rng.choice([1, 2, 2]), rng.choice([2, 3, 4])
        cfgs = []
        for i in range(ncfg):
            # several files share a name in different directories
            cfgs.append([rng.choice(DIRS), rng.choice(
                ['run.cfg', 'run.cfg', 'alt.cfg', 'in put.txt'])])
        cfgs = [c for i, c in enumerate(cfgs) if c not in cfgs[:i]]
        ncfg = len(cfgs)

        def source():
            return rng.choice([None, *range(nsrc)])

        def config():
            x = rng.random()
            if x < 0.12:
                return None
            if x < 0.18:
                return 'missing'
            return rng.randrange(ncfg)

        base = eprem_src.template()
        names = sorted(base['_CONFIGURATION_C'])
        hot = ['lamo', 'tDel', 'simStopTime', 'simStartTime', 'omegaSun',
               'mass', 'rigidityPower', 'eMin']

        def name():
            x = rng.random()
            if x < 0.4:
                return rng.choice(hot)
            if x < 0.9:
                return rng.choice(names)
            return rng.choice(['nope', 'extra1', '', 'lam0'])

        def hurt(op):
            x = rng.random()
            if x < 0.12:
                op['fault'] = {'call': 'open', 'n': rng.randint(1, 3),
                               'exc': rng.choice(p03.FAULTS)}
            elif x < 0.2:
                op['abort'] = {'at': rng.randint(
                    1, rng.choice([5, 50, 500])),
                    'exc': rng.choice(sorted(p04.KINDS))}
            return op

        def marks():
            return rng.choice([None, None, ['#'], ['!', '#'], ['#', '!'],
                               ['%', '!', '#']])

        slots = ['a', 'b'][:rng.choice([1, 2])]
        ops = []
        how = lambda: rng.choice(['str', 'path', 'rel', 'rel'])
        for s in slots:
            ops.append({'op': 'runtime', 's': s, 'source': source(),
                        'config': config(), 'how': how()})
        n = len(ops) + rng.randint(3, 12 if tier == 'quick' else 24)
        while len(ops) < n:
            x = rng.random()
            s = rng.choice(slots)
            if x < 0.1:
                ops.append(hurt({'op': 'runtime', 's': s, 'source': source(),
                                 'config': config(), 'how': how()}))
            elif x < 0.3:
                op = {'op': 'path_to', 's': s, 'how': how()}
                kind = rng.randrange(3)
                if kind != 0:
                    op['config'] = config()
                if kind != 1:
                    op['source'] = source()
                ops.append(hurt(op))
            elif x < 0.55:
                ops.append(hurt({'op': 'get', 's': s, 'name': name()}))
            elif x < 0.68:
                ops.append(hurt({'op': 'all', 's': s}))
            elif x < 0.74:
                ops.append({'op': 'cd', 'dir': rng.choice(DIRS + ['.'])})
            elif x < 0.79:
                # the file (or source code) is rewritten in place; nothing
                # but its content tells, when 'quiet'
                what = rng.choice(['config', 'config', 'source'])
                ops.append({'op': 'edit', 'what': what, 'i': rng.randrange(
                    ncfg if what == 'config' else nsrc),
                    'version': rng.randint(0, 2),
                    'quiet': rng.random() < 0.7})
                again = {'op': 'runtime', 's': s, 'source': source(),
                         'config': config(), 'how': how()}
                again[what] = ops[-1]['i']
                ops.extend([again, {'op': 'all', 's': s}])
            elif x < 0.88:
                ops.append(hurt({'op': 'interface', 'config': config(),
                                 'how': how(), 'marks': marks(),
                                 'names': [name() for _ in range(5)]}))
            elif x < 0.94:
                picks = rng.sample(range(ncfg), rng.randint(
                    1, min(3, ncfg)))
                ops.append(hurt({'op': 'compare', 'files': picks,
                                 'how': how(), 'action': rng.choice(
                                     [None, 'show', 'diff', 'diff'])}))
            else:
                ops.append(hurt({'op': 'diff', 'how': how(),
                                 'marks': marks(),
                                 'files': [rng.randrange(ncfg),
                                           rng.randrange(ncfg)]}))
        for s in slots:
            ops.append({'op': 'all', 's': s})
        return {'seed0': seed, 'nsrc': nsrc, 'cfgs': cfgs, 'ops': ops}

    def build(self, scenario):
        """The logical content of the files of this run.

        Of each file there are three versions; edits change between them,
        and the first one (0) is there at the beginning.
        """
        base = eprem_src.template()
        kept = {('config', i, v) for v in range(3)
                for i in range(len(scenario['cfgs']))}
        kept |= {('source', i, v) for v in range(3)
                 for i in range(scenario['nsrc'])}
        sources = {}
        for what, i, v in sorted(kept):
            if what == 'source':
                key = f"{scenario['seed0']}:{i}" + (f':{v}' if v else '')
                sources[i, v] = eprem_src.variant(base, key)
        common = {k: v for k, v in base['_CONFIGURATION_C'].items()
                  if all(k in s['_CONFIGURATION_C']
                         and 'alias' not in s['_CONFIGURATION_C'][k]
                         for s in sources.values())}
        users, texts = {}, {}
        for what, i, v in sorted(kept):
            if what == 'config':
                key = f"cfg:{scenario['seed0']}:{i}" + (f':{v}' if v else '')
                rng = random.Random(key)
                users[i, v] = user_values(rng, {'_CONFIGURATION_C': common})
                text = render(rng, users[i, v])
                # all versions have the same size
                texts[i, v] = text + '\n#' + 'x'*(1500 - len(text.encode()))
        return base, sources, users, texts

    @staticmethod
    def put_source(folder, spec, key):
        os.makedirs(folder, exist_ok=True)
        eprem_src.write(folder, spec, key)

    @staticmethod
    def put_config(path, text):
        with seams.REAL['open'](path, 'w', newline='') as fp:
            fp.write(text)

    @staticmethod
    def hush(path):
        """Give the file(s) at `path` a modification time of long ago."""
        for top, _, names in os.walk(path):
            for name in names:
                os.utime(os.path.join(top, name), (10**9, 10**9))
        os.utime(path, (10**9, 10**9))

    def prepare(self, env, scenario, work):
        base, sources, users, texts = self.build(scenario)
        for d in DIRS:
            os.makedirs(os.path.join(work, d), exist_ok=True)
        for i in range(scenario['nsrc']):
            folder = os.path.join(work, f'src{i}')
            self.put_source(folder, sources[i, 0], f"{scenario['seed0']}:{i}")
            self.hush(folder)
        for i, (d, name) in enumerate(scenario['cfgs']):
            path = os.path.join(work, d, name)
            self.put_config(path, texts[i, 0])
            self.hush(path)
        return sources, texts

    # -- the session ------------------------------------------------------

    def execute(self, env, scenario, work, prepared):
        from goats.eprem import runtime
        import pathlib
        os.chdir(work)
        objects = {}
        sources, texts = prepared

        def spell(full, how):
            if how == 'rel':
                return os.path.relpath(full)
            return pathlib.Path(full) if how == 'path' else full

        def source(op):
            i = op['source']
            return None if i is None else spell(
                os.path.join(work, f'src{i}'), op['how'])

        def config(i, how):
            if i is None:
                return None
            if i == 'missing':
                return spell(os.path.join(work, 'missing.cfg'), how)
            return spell(os.path.join(work, *scenario['cfgs'][i]), how)

        def perform(op):
            kind = op['op']
            if kind == 'cd':
                os.chdir(os.path.join(work, op['dir']))
                return True
            if kind == 'edit':
                i, v = op['i'], op['version']
                if op['what'] == 'source':
                    path = os.path.join(work, f'src{i}')
                    self.put_source(path, sources[i, v],
                                    f"{scenario['seed0']}:{i}")
                else:
                    path = os.path.join(work, *scenario['cfgs'][i])
                    self.put_config(path, texts[i, v])
                if op['quiet']:
                    self.hush(path)
                return True
            if kind == 'runtime':
                objects[op['s']] = runtime.Runtime(
                    source(op), config(op['config'], op['how']))
                return True
            if kind == 'interface':
                this = runtime.Interface(
                    config(op['config'], op['how']), **opts(op))
                out = {}
                for name in op['names']:
                    try:
                        arg = this[name]
                    except KeyError:
                        out[name] = 'KeyError'
                        continue
                    out[name] = {'value': self.argument(arg),
                                 'user': name in this.user}
                return out
            if kind == 'compare':
                files = [config(i, op['how']) for i in op['files']]
                stream = io.StringIO()
                with contextlib.redirect_stdout(stream):
                    runtime.compare_arguments(files, action=op['action'])
                return stream.getvalue()
            if kind == 'diff':
                a, b = (config(i, op['how']) for i in op['files'])
                return {k: list(v) for k, v in
                        runtime.ConfigFile(a, **opts(op)).compare(
                            b, **opts(op)).items()}
            this = objects[op['s']]
            if kind == 'path_to':
                new = {}
                if 'config' in op:
                    new['config'] = config(op['config'], op['how'])
                if 'source' in op:
                    new['source'] = source(op)
                return this.path_to(**new) is this
            if kind == 'get':
                try:
                    return canon(this[op['name']])
                except KeyError:
                    return 'KeyError'
            if kind == 'all':
                out = {k: canon(v) for k, v in this.items()}
                if len(this) != len(out) or set(this) != set(out):
                    return 'inconsistent mapping'
                return out
            raise ValueError(kind)

        out = []
        for op in scenario['ops']:
            seams.SEAM.fired = []
            aborted = []
            if op.get('fault'):
                seams.SEAM.arm([op['fault']])
            if op.get('abort'):
                left = [op['abort']['at']]

                def handler(point):
                    left[0] -= 1
                    if left[0] == 0:
                        loader.CONTROL.armed = False
                        aborted.append(loader.POINTS[point])
                        raise p04.KINDS[op['abort']['exc']]('simulated')

                loader.CONTROL.handler = handler
                loader.CONTROL.armed = True
            try:
                got = {'ok': perform(op)}
            except (Exception, KeyboardInterrupt) as err:
                got = {'error': type(err).__name__,
                       'message': loader.message(err)}
            loader.CONTROL.armed = False
            seams.SEAM.disarm()
            got['fired'] = [f'{f[0]}:{f[2]}' for f in seams.SEAM.fired]
            got['aborted'] = aborted
            out.append(got)
        return out

    @staticmethod
    def argument(arg):
        data = arg.data
        if data is None or isinstance(data, str):
            return data
        try:
            return [float(x) for x in data]
        except TypeError:
            return float(data)

    # -- verdict ------------------------------------------------------------

    def judge(self, env, scenario, outcome, work):
        _, history = outcome
        base, allsources, allusers, _ = self.build(scenario)
        # what the files hold at this time
        sources = {i: v for (i, n), v in allsources.items() if n == 0}
        users = {i: v for (i, n), v in allusers.items() if n == 0}
        stats = {'ops': {}, 'faults': {}, 'compared': 0, 'refusals': 0,
                 'excused_errors': 0}
        violation = None
        state, log = {}, []

        def bad(i, kind, *detail):
            nonlocal violation
            violation = violation or {'kind': kind, 'op': i,
                                      'detail': list(detail)}

        def model(src, cfg):
            return Model(base if src is None else sources[src],
                         {} if cfg is None else users[cfg])

        def same(i, kind, got, want):
            stats['compared'] += 1
            found = session.differ(got, want)
            if found:
                bad(i, kind, found)

        for i, (op, rec) in enumerate(zip(scenario['ops'], history)):
            kind = op['op']
            stats['ops'][kind] = stats['ops'].get(kind, 0) + 1
            for f in rec['fired']:
                stats['faults'][f] = stats['faults'].get(f, 0) + 1
            for f in rec['aborted']:
                label = f"abort:{op['abort']['exc']}"
                stats['faults'][label] = stats['faults'].get(label, 0) + 1
            hurt = bool(rec['fired'] or rec['aborted'])
            failed = 'error' in rec
            log.append([{k: v for k, v in op.items() if k != 'how'},
                        rec['fired'], rec['aborted']])
            if kind == 'cd':
                continue
            if kind == 'edit':
                k = op['i'], op['version']
                n, now, then = ((0, sources, allsources)
                                if op['what'] == 'source'
                                else (1, users, allusers))
                now[op['i']] = then[k]
                for s, it in state.items():
                    if it is not None and it[n] == op['i']:
                        state[s] = None     # it may have read it or not
                continue
            if failed and hurt:
                stats['excused_errors'] += 1
                if kind == 'path_to':
                    state[op['s']] = None       # not settled
                continue
            if kind == 'runtime':
                if failed:
                    bad(i, 'cannot-build', rec)
                else:
                    state[op['s']] = [op['source'], op['config']]
                continue
            if kind == 'path_to':
                if failed:
                    bad(i, 'path_to-failed', rec)
                    continue
                now = state.get(op['s'])
                if now is None and not ('config' in op and 'source' in op):
                    continue
                now = list(now or [None, None])
                if 'source' in op:
                    now[0] = op['source']
                if 'config' in op:
                    now[1] = op['config']
                state[op['s']] = now
                continue
            if kind in ('get', 'all'):
                now = state.get(op['s'])
                if now is None:
                    continue
                if now[1] == 'missing':
                    # there is no such file: only an unknown name is certain
                    if not failed and rec['ok'] != 'KeyError':
                        bad(i, 'values-from-nowhere', rec)
                    stats['refusals'] += 1
                    continue
                m = model(*now)
                if failed:
                    bad(i, 'refused', rec, now)
                elif kind == 'get':
                    want = (m.value(op['name']) if op['name'] in m.params
                            else 'KeyError')
                    same(i, 'wrong-value', rec['ok'], want)
                else:
                    same(i, 'wrong-values', rec['ok'],
                         {k: m.value(k) for k in m.params})
                continue
            if kind == 'interface':
                if op['config'] == 'missing':
                    if not failed:
                        bad(i, 'values-from-nowhere', rec)
                    stats['refusals'] += 1
                    continue
                if failed:
                    bad(i, 'refused', rec)
                    continue
                m = model(None, op['config'])
                for name, value in rec['ok'].items():
                    if name not in m.params:
                        continue        # an alias or an unknown name
                    if value == 'KeyError':
                        bad(i, 'parameter-missing', name)
                        continue
                    want = {'value': m.value(name),
                            'user': name in m.user}
                    same(i, 'wrong-argument', self.unwrap(value),
                         self.unwrap(want))
                continue
            if failed:
                bad(i, 'refused', rec)
                continue
            if kind == 'diff':
                a, b = (users[k] for k in op['files'])
                want = {k: [a.get(k), b.get(k)] for k in set(a) | set(b)}
                same(i, 'wrong-diff', rec['ok'], want)
            elif kind == 'compare':
                self.compare(i, op, rec['ok'], scenario, base, users, bad,
                             stats)
        return {
            'stats': stats, 'digest': engine.digest(history),
            'nontrivial': engine.digest(log), 'violation': violation,
            'sample': {'ops': scenario['ops'][:4]},
        }

    @staticmethod
    def unwrap(item):
        """A list of one value and the value itself are the same."""
        value = item['value']
        if isinstance(value, list) and len(value) == 1:
            value = value[0]
        return {**item, 'value': value}

    def compare(self, i, op, text, scenario, base, users, bad, stats):
        """The printed table against the files."""
        blocks, lines = {}, text.split('\n')
        for n, line in enumerate(lines):
            if line and not line.strip('-'):
                rows = {}
                for row in lines[n+1:]:
                    if not row.strip():
                        break
                    rows[row] = True
                blocks[lines[n-1].strip()] = list(rows)
        files = op['files']
        models = {k: Model(base, users[k]) for k in files}
        want = {}
        for name in base['_CONFIGURATION_C']:
            values = {k: (models[k].value(name) if name in users[k] else None)
                      for k in files}
            first = values[files[0]]
            if op['action'] == 'diff' and all(
                    v == first for v in values.values()):
                continue
            want[name] = values
        stats['compared'] += len(want) + 1
        if set(blocks) != set(want):
            bad(i, 'wrong-table', sorted(set(blocks) ^ set(want))[:5])
            return
        places = {k: '/'.join(scenario['cfgs'][k]) for k in files}
        for name, values in want.items():
            left = list(blocks[name])
            left = [r for r in left if not r.startswith('default')]
            if len(left) != len(values):
                bad(i, 'wrong-table', name, blocks[name])
                return
            deepest = sorted(values, key=lambda k: -places[k].count('/'))
            for k in deepest:
                value = values[k]
                row = self.find(left, places[k])
                if row is None:
                    bad(i, 'file-not-listed', name, places[k], blocks[name])
                    return
                if not self.shows(row, value):
                    bad(i, 'wrong-row', name, row, value)
                    return

    @staticmethod
    def find(rows, place):
        """The row that is labelled with (the longest end of) this path."""
        parts = place.split('/')
        for n in range(len(parts)):
            label = '/'.join(parts[n:])
            found = [r for r in rows if r.startswith(label + ' ')]
            if found:
                rows.remove(found[0])
                return found[0][len(label):].strip()
        return None

    @staticmethod
    def shows(text, value):
        if value is None:
            return text == 'None'
        if isinstance(value, str):
            return text.strip('"\'') == value.strip('"\'')
        if isinstance(value, list):
            got = [float(x) for x in re.findall(
                r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?',
                text.split(']')[0])]
            return len(got) == len(value) and all(
                session.close(a, b, 1e-6) for a, b in zip(got, value))
        try:
            head = text.split()[0].strip('[](),')
            if '/' in head:
                a, b = head.split('/')
                return session.close(float(a)/float(b), value)
            return session.close(float(head), value)
        except (ValueError, IndexError):
            return False
