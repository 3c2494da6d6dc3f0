"""Seeded search over simulated runs; minimisation; replay; evidence.

One run = one forked child of a pristine, warm process.  The scenario (a JSON
document drawn from one PRNG seeded with property + seed + index) decides every
operation, every scheduling decision and every fault of that run.
"""

import hashlib
import io
import json
import os
import pickle
import random
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _quiet(obj):
    """Drop error messages (they may show memory addresses)."""
    if isinstance(obj, dict):
        return {k: _quiet(v) for k, v in obj.items()
                if k != 'message' and not str(k).startswith('_')}
    if isinstance(obj, (list, tuple)):
        return [_quiet(v) for v in obj]
    return obj


def digest(obj):
    text = json.dumps(_quiet(obj), sort_keys=True, default=str)
    return hashlib.sha256(text.encode()).hexdigest()[:16]


# ---------------------------------------------------------------- children

def in_child(function, timeout=120.0):
    """Run `function()` in a fork; return ('ok', value) or ('fail', why)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            try:
                payload = ('ok', function())
            except BaseException:
                payload = ('fail', traceback.format_exc())
            data = pickle.dumps(payload, protocol=4)
            view = memoryview(data)
            while view:
                n = os.write(w, view[:65536])
                view = view[n:]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = time.monotonic() + timeout
    result = None
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            result = ('timeout', None)
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            continue
        chunk = os.read(r, 1 << 20)
        if not chunk:
            break
        chunks.append(chunk)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if result is not None:
        return result
    if not chunks:
        return ('died', status)
    return pickle.loads(b''.join(chunks))


# ---------------------------------------------------------------- environment

class Env:
    """What a property sees of the machinery."""

    def __init__(self, cat, base, scratch):
        self.cat = cat              # logical world
        self.base = base            # pristine materialised world (read only)
        self.scratch = scratch      # per-worker scratch directory
        self._oracle = {}
        self.oracle_calls = 0
        self._n = 0

    def workdir(self):
        """A new empty directory for one run (called in the parent)."""
        self._n += 1
        path = os.path.join(self.scratch, f'r{os.getpid()}-{self._n}')
        os.makedirs(path)
        return path

    def _cached(self, name):
        return os.path.join(self.scratch, 'oracle', digest(name))

    def recall(self, key):
        """A remembered answer (shared by all workers of this check)."""
        name = json.dumps(key, sort_keys=True)
        if name not in self._oracle:
            try:
                with io.FileIO(self._cached(name)) as fp:
                    self._oracle[name] = pickle.loads(fp.readall())
            except FileNotFoundError:
                return None
        return self._oracle[name]

    def remember(self, key, value):
        name = json.dumps(key, sort_keys=True)
        self._oracle[name] = value
        path = self._cached(name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        temp = f'{path}.{os.getpid()}'
        with io.FileIO(temp, 'w') as fp:
            fp.write(pickle.dumps(value, protocol=4))
        os.replace(temp, path)
        return value

    def oracle(self, key, function):
        """Answer computed once by a pristine process, then remembered."""
        value = self.recall(key)
        if value is None:
            self.oracle_calls += 1
            value = self.remember(key, in_child(function, 300.0))
        return value


def run_once(prop, env, scenario):
    """One simulated run: execute in a fork, then judge the history."""
    work = env.workdir()
    try:
        prepared = prop.prepare(env, scenario, work)
        status, record = in_child(
            lambda: prop.execute(env, scenario, work, prepared),
            timeout=prop.TIMEOUT,
        )
        if status == 'fail' and getattr(prop, 'CHILD_FAILURE', True):
            return {'harness': record}
        if status == 'timeout':
            return {'violation': {'kind': 'no-answer', 'detail': [
                f'no end within {prop.TIMEOUT} s of real time']}}
        if status == 'died' and not getattr(prop, 'MAY_DIE', False):
            return {'violation': {'kind': 'process-died', 'detail': [
                f'the process died: wait status {record}']}}
        verdict = prop.judge(env, scenario, (status, record), work)
        return verdict
    finally:
        shutil.rmtree(work, ignore_errors=True)


class Base:
    """Defaults for properties."""

    LEVEL = 'exploration'
    TIMEOUT = 240.0

    def prepare(self, env, scenario, work):
        return None

    def warm(self, env):
        pass

    def shrink(self, scenario):
        """Candidate simplifications (coarse to fine)."""
        ops = scenario['ops']
        n = len(ops)
        size = n
        while size >= 1:
            for start in range(0, n, size):
                cand = dict(scenario)
                cand['ops'] = ops[:start] + ops[start + size:]
                if len(cand['ops']) < n:
                    yield cand
            size //= 2
        for i, op in enumerate(ops):
            for key in ('cons',):
                if isinstance(op.get(key), dict):
                    for k in op[key]:
                        new = dict(op)
                        new[key] = {a: b for a, b in op[key].items() if a != k}
                        cand = dict(scenario)
                        cand['ops'] = ops[:i] + [new] + ops[i+1:]
                        yield cand
            for key in ('units', 'post', 'faults', 'fault'):
                if op.get(key):
                    new = {a: b for a, b in op.items() if a != key}
                    cand = dict(scenario)
                    cand['ops'] = ops[:i] + [new] + ops[i+1:]
                    yield cand


def minimise(prop, env, scenario, budget=45.0):
    """Greedy delta debugging, bounded in time."""
    deadline = time.monotonic() + budget
    best = scenario
    kind = None
    verdict = run_once(prop, env, best)
    if not verdict.get('violation'):
        return scenario, verdict
    kind = verdict['violation']['kind']
    improved = True
    while improved and time.monotonic() < deadline:
        improved = False
        for cand in prop.shrink(best):
            if time.monotonic() > deadline:
                break
            try:
                new = run_once(prop, env, cand)
            except Exception:
                continue
            got = new.get('violation')
            if got and got['kind'] == kind:
                best, verdict = cand, new
                improved = True
                break
    return best, verdict


# ---------------------------------------------------------------- workers

def scenario_for(prop, env, seed, index, tier):
    env.seed = seed
    rng = random.Random(f'{prop.ID}:{seed}:{index}')
    scenario = prop.scenario(rng, env, tier, index)
    scenario['seed'] = seed
    scenario['index'] = index
    scenario['property'] = prop.ID
    return scenario


def worker(prop, env, seed, tier, indices, out, deadline):
    """Run the given indices, one JSON line of summary per run."""
    for index in indices:
        if time.monotonic() > deadline:
            break
        t0 = time.monotonic()
        try:
            scenario = scenario_for(prop, env, seed, index, tier)
            verdict = run_once(prop, env, scenario)
        except BaseException:
            verdict = {'harness': traceback.format_exc()}
            scenario = None
        line = {
            'index': index,
            'wall': time.monotonic() - t0,
            'stats': verdict.get('stats', {}),
            'digest': verdict.get('digest'),
            'nontrivial': verdict.get('nontrivial'),
            'harness': verdict.get('harness'),
            'violation': verdict.get('violation'),
            'scenario': scenario if verdict.get('violation') else None,
            'sample': verdict.get('sample') if index < 3 else None,
        }
        data = (json.dumps(line, default=str) + '\n').encode()
        view = memoryview(data)
        while view:
            n = os.write(out, view)
            view = view[n:]


def explore(prop, env, seed, tier, runs, workers, budget, first=0):
    """Fan the runs out over forked workers."""
    t0 = time.monotonic()
    deadline = t0 + budget
    pipes = {}
    for w in range(workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                for other in pipes:
                    os.close(other)
                os.close(r)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                os.setpgid(0, 0)
                worker(prop, env, seed, tier,
                       range(first + w, first + runs, workers), wr, deadline)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(wr)
        pipes[r] = pid
    buffers = {r: b'' for r in pipes}
    open_ = set(pipes)
    lines = []
    stop = False
    while open_:
        ready, _, _ = select.select(list(open_), [], [], 1.0)
        for r in ready:
            chunk = os.read(r, 1 << 20)
            if not chunk:
                open_.discard(r)
                continue
            buffers[r] += chunk
            *full, buffers[r] = buffers[r].split(b'\n')
            for text in full:
                line = json.loads(text)
                lines.append(line)
                if line['violation']:
                    stop = True
        if stop or time.monotonic() > deadline + 240:
            for r in list(open_):
                for kill in (os.killpg, os.kill):
                    try:
                        kill(pipes[r], signal.SIGKILL)
                    except (ProcessLookupError, PermissionError):
                        pass
            break
    for r, pid in pipes.items():
        os.close(r)
        os.waitpid(pid, 0)
    lines.sort(key=lambda x: x['index'])
    return lines, time.monotonic() - t0


def merge_stats(total, stats):
    for k, v in stats.items():
        if isinstance(v, dict):
            merge_stats(total.setdefault(k, {}), v)
        elif isinstance(v, (int, float)) and not isinstance(v, bool):
            total[k] = total.get(k, 0) + v
        elif isinstance(v, list):
            total.setdefault(k, [])
            for item in v:
                if item not in total[k]:
                    total[k].append(item)
    return total


class Scratch:
    """A scratch directory that always goes away."""

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='goats-sim-')
        return self.path

    def __exit__(self, *exc):
        os.chdir('/')
        shutil.rmtree(self.path, ignore_errors=True)
