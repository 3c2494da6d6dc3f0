#!/usr/bin/env python
"""Entry point of every check.

    check.py run P01 [--tier quick|thorough] [--seed N] [--runs N] [--workers N]
    check.py replay FILE
    check.py determinism P01 [--runs N]
"""

import argparse
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
if os.environ.get('PYTHONHASHSEED') != '0' and __name__ == '__main__':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, *sys.argv])
for name in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS'):
    os.environ.setdefault(name, '1')

import warnings
warnings.simplefilter('ignore')

import numpy  # noqa: E402
numpy.seterr(all='ignore')

from sim import engine, loader, sched, seams, world  # noqa: E402

TIERS = {'quick': 0, 'thorough': 1}


def load(ident):
    module = importlib.import_module(f'sim.props.{ident.lower()}')
    return getattr(module, ident)()


def setup(prop, root):
    """Pristine, warm process with a materialised world."""
    seams.install()
    loader.install()
    cat = world.catalogue(getattr(prop, 'CATALOGUE', 0))
    base = os.path.join(root, 'base')
    os.makedirs(base)
    world.materialise(base, cat)
    scratch = os.path.join(root, 'scratch')
    os.makedirs(scratch)
    env = engine.Env(cat, base, scratch)
    if getattr(prop, 'IMPORT', True):
        loader.fresh(*getattr(prop, 'MODULES', ()))
        cwd = os.getcwd()
        os.chdir(base)
        prop.warm(env)
        loader.CONTROL.armed = False
        seams.SEAM.reset()
        import gc
        gc.collect()
        with sched.patched():
            loader.fresh(*getattr(prop, 'MODULES', ()))
        os.chdir(cwd)
    if hasattr(prop, 'ready'):
        prop.ready(env)
    return env


def replay_path(prop, verdict):
    folder = os.path.join(HERE, 'replays')
    os.makedirs(folder, exist_ok=True)
    return os.path.join(folder, f'{prop.ID}-{verdict}.json')


def known_findings(ident):
    path = os.path.join(HERE, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        with open(path) as fp:
            for line in fp:
                line = line.strip()
                if line and not line.startswith('fixed:'):
                    entry = json.loads(line)
                    if entry['property'] == ident:
                        out.append(entry)
    return out


def cmd_run(args):
    t0 = time.monotonic()
    prop = load(args.property)
    tier = args.tier
    seed = args.seed
    runs = args.runs or prop.RUNS[TIERS[tier]]
    budget = args.budget or prop.BUDGET[TIERS[tier]]
    workers = args.workers or min(8, os.cpu_count() or 1)
    code = 0
    with engine.Scratch() as root:
        env = setup(prop, root)
        boot = time.monotonic() - t0
        lines, wall = engine.explore(
            prop, env, seed, tier, runs, workers, budget)
        bad = [x for x in lines if x['violation']]
        harness = [x for x in lines if x['harness']]
        for entry in known_findings(prop.ID):
            print(f"KNOWN-FINDING: property={prop.ID} {entry['what']}")
        # determinism: the first runs again, one worker, compared by digest
        again = 0
        if not bad:
            first = {x['index']: x['digest'] for x in lines if x['digest']}
            sample = min(runs, prop.RECHECK[TIERS[tier]]) if hasattr(
                prop, 'RECHECK') else min(runs, 6)
            second, _ = engine.explore(
                prop, env, seed, tier, sample, max(1, workers - 3), 60)
            mismatched = [
                x['index'] for x in second
                if x['digest'] and x['index'] in first
                and x['digest'] != first[x['index']]
            ]
            again = len(second)
        else:
            mismatched = []
        violation = None
        if bad:
            hung = [x for x in bad if x['violation']['kind'] == 'no-answer']
            line = [x for x in bad if x not in hung][:1] or bad
            line = line[0]
            original = line['scenario']
            if line in hung:
                # every further attempt would take as long as a run may take
                best, verdict = original, {}
            else:
                best, verdict = engine.minimise(prop, env, original)
            for cand in ((original,) if best is original
                         else (best, original)):
                path = replay_path(prop, f"{seed}-{line['index']}")
                final = (verdict.get('violation') or line['violation']
                         if cand is best else line['violation'])
                with open(path, 'w') as fp:
                    json.dump({'property': prop.ID, 'seed': seed,
                               'index': line['index'], 'scenario': cand,
                               'violation': final}, fp,
                              indent=1, default=str)
                try:
                    again = subprocess.run(
                        [sys.executable, os.path.abspath(__file__), 'replay',
                         path], stdout=subprocess.DEVNULL,
                        stderr=subprocess.DEVNULL, timeout=150).returncode
                except subprocess.TimeoutExpired:
                    again = None
                if again == 1:
                    break
            violation = {'replay': path, 'detail': line['violation'],
                         'reproduced_in_fresh_process': again == 1}
            again = 0
            code = 1
        total = {}
        for x in lines:
            engine.merge_stats(total, x['stats'])
        distinct = len(set().union(*({x['nontrivial']} if isinstance(x['nontrivial'], str) else set(x['nontrivial'] or ()) for x in lines)))
        evidence = {
            'property': prop.ID,
            'tier': tier,
            'seed': seed,
            'level': prop.LEVEL,
            'wall_s': round(time.monotonic() - t0, 2),
            'coverage': {
                'evaluations': len([x for x in lines if not x['harness']]),
                'distinct_nontrivial': distinct,
                'rule': prop.RULE,
                'samples': [x['sample'] for x in lines if x['sample']][:3]
                or ['none'],
                'simulated_runs': len(lines),
                'seeds_per_hour': round(len(lines)/max(wall, 1e-9)*3600),
                'exploration_wall_s': round(wall, 2),
                'boot_wall_s': round(boot, 2),
                'workers': workers,
                'simulated_time': 'no clock in this system: time is the '
                                  'number of operations and of '
                                  'instrumented statements executed',
                'totals': total,
                'distinct_schedules': distinct,
                'real_components': prop.REAL,
                'stubbed_components': prop.STUBBED,
                'determinism_recheck': {
                    'runs': again, 'mismatches': mismatched},
                'harness_problems': [
                    {'index': x['index'], 'why': str(x['harness'])[-600:]}
                    for x in harness][:5],
                'harness_problem_count': len(harness),
            },
        }
        if violation:
            evidence['violation'] = violation
        folder = os.path.join(HERE, 'evidence')
        os.makedirs(folder, exist_ok=True)
        with open(os.path.join(folder, f'{prop.ID}.json'), 'w') as fp:
            json.dump(evidence, fp, indent=1, default=str)
        if harness:
            print(f'note: {len(harness)} runs gave no verdict '
                  f"(first: {str(harness[0]['harness'])[-300:]})",
                  file=sys.stderr)
        if (harness or mismatched) and not violation:
            # neither "held" nor "violated": the machinery gave no answer
            print(f'{prop.ID}: no verdict ({len(harness)} harness problems, '
                  f'{len(mismatched)} runs not repeatable)')
            code = 2
        elif violation:
            print(json.dumps(violation['detail'], default=str)[:1500])
            print(f"VIOLATION property={prop.ID} replay={violation['replay']}")
        else:
            print(f'{prop.ID}: held on {len(lines)} simulated runs, '
                  f'{distinct} distinct, {wall:.1f} s')
    sys.stdout.flush()
    return code


def cmd_replay(args):
    with open(args.file) as fp:
        saved = json.load(fp)
    prop = load(saved['property'])
    with engine.Scratch() as root:
        env = setup(prop, root)
        verdict = engine.run_once(prop, env, saved['scenario'])
    if verdict.get('violation'):
        print(json.dumps(verdict['violation'], default=str)[:2000])
        print(f"VIOLATION property={prop.ID} replay={args.file}")
        return 1
    print('no violation', verdict.get('harness') or '')
    return 0


def cmd_digests(args):
    """Print run digests (used to prove determinism across processes)."""
    prop = load(args.property)
    with engine.Scratch() as root:
        env = setup(prop, root)
        lines, _ = engine.explore(prop, env, args.seed, args.tier, args.runs,
                                  args.workers or 8, 3600)
    for x in lines:
        print(x['index'], x['digest'], 'V' if x['violation'] else '-',
              'H' if x['harness'] else '-')
    return 0


def main():
    parser = argparse.ArgumentParser()
    sub = parser.add_subparsers(dest='command', required=True)
    run = sub.add_parser('run')
    run.add_argument('property')
    dig = sub.add_parser('digests')
    dig.add_argument('property')
    for p in (run, dig):
        p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
                       choices=sorted(TIERS))
        p.add_argument('--seed', type=int,
                       default=int(os.environ.get('VERIF_SEED', '1')))
        p.add_argument('--runs', type=int)
        p.add_argument('--workers', type=int)
        p.add_argument('--budget', type=float)
    rep = sub.add_parser('replay')
    rep.add_argument('file')
    args = parser.parse_args()
    return {'run': cmd_run, 'replay': cmd_replay,
            'digests': cmd_digests}[args.command](args)


if __name__ == '__main__':
    sys.exit(main())
