#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json (the text lives here)."""

import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def prop(ident, title, statement, over, text, why, files, mechanism,
         observe_at, claimed=True, note='', hook=None, state=()):
    return {
        'id': ident, 'claimed': claimed, 'note': note,
        'line': {
            'id': ident, 'title': title, 'statement': statement,
            'quantifier': {'over': over, 'text': text},
            'why_tests_cant': why,
            'anchors': {
                'files': files,
                'state': [
                    {'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                'mechanism': [
                    {'name': n, 'where': w} for n, w in mechanism],
                'observe_at': observe_at,
                'hook_needed': hook,
            },
        },
    }


E_ = 'src/goats/eprem/__init__.py'
OBS = 'src/goats/core/observing.py'

PROPS = [
    prop(
        'P01', 'Answers do not depend on what happened earlier in the session',
        'Any request put to an observer (observing a quantity under '
        'constraints, converting a unit, asking for metadata, axes or an '
        'unknown name) gives the same result or the same refusal as it would '
        'give in a brand-new process, whatever was observed, converted, '
        'refused or created before it, on this or on other observers. '
        'Observables that were obtained earlier and kept keep working the '
        'same way, and an observation that was already returned never '
        'changes afterwards.',
        ['histories', 'inputs'],
        'every sequence of requests to any number of observers in one '
        'process, including requests that fail',
        'The tests put one or two requests to a fresh observer; stale caches, '
        'leaked constraints and mutated shared objects only show in long '
        'mixed histories.',
        [E_, OBS, 'src/goats/core/observer.py', 'src/goats/core/metadata.py',
         'src/goats/core/metric.py', 'src/goats/core/aliased.py'],
        [('constraints replaced and cache dropped for every observation',
          OBS + ' Context.constrain'),
         ('per-context caches of indices, values, dimensions',
          E_ + ' Context, Functions'),
         ('instance registries of units and systems',
          'src/goats/core/metric.py')],
        ['results, units, axes, assumptions and error types of every request'],
        note='Seeded sessions over one to three observers against fresh-'
             'process answers; trusts that a pristine fork equals a new '
             'process.'),
    prop(
        'P02', 'Every observation has the values, unit, dimensions and axes '
        'of its definition',
        'Observing a simulated or derived quantity under any combination of '
        'constraints (indices, slices and measured values of time, shell, '
        'species, energy and pitch angle; a radius; runtime parameters) '
        'gives exactly the values that the definition of the quantity gives '
        'on the dataset, selected by index or linearly interpolated as the '
        'constraints say, in the requested unit, with matching dimensions, '
        'shape, axis values and listed parameters; for MKS and CGS '
        'observers, one or several species, and after any earlier request, '
        'including requests that failed because of an I/O error.',
        ['inputs', 'histories', 'fault_sequences'],
        'every dataset shape, quantity, alias, constraint combination and '
        'unit, in sessions with failing reads',
        'The tests check a few quantities for type and shape; values, axes '
        'and units of derived and interpolated quantities are not compared '
        'with anything.',
        [E_, OBS, 'src/goats/core/computed.py', 'src/goats/core/interpolation.py',
         'src/goats/core/variable.py', 'src/goats/core/observed.py',
         'src/goats/core/axis.py', 'src/goats/core/index.py'],
        [('observing context: indices, interpolation, computed quantities',
          E_ + ' Context'),
         ('definitions of the derived quantities', E_ + ' Functions'),
         ('interpolation', 'src/goats/core/interpolation.py')],
        ['values, unit, dimensions, axes and parameters of observations; '
         'metadata of observables; axes of observers'],
        note='Random datasets and sessions with I/O faults against an '
             'independent reference model in SI units (relative tolerance '
             '1e-6); the model has no opinion on a few combinations, which '
             'are counted.'),
    prop(
        'P03', 'A failed read is reported, never turned into a wrong answer, '
        'and is forgotten',
        'If opening or reading a dataset or configuration file fails '
        '(missing, empty, truncated or garbage file, directory or dangling '
        'link in its place, I/O error, permission error, interrupted call, '
        'too many open files, failed allocation), the request or the '
        'construction that needed it either raises an error or gives exactly '
        'the right answer; it never gives a wrong or partial one. Once the '
        'fault is gone, the same observer, a new observer and observables '
        'that were obtained before all answer like a brand-new process.',
        ['fault_sequences', 'histories', 'inputs'],
        'every sequence of I/O failures at any read or open, and damage to '
        'any input file between requests, followed by recovery',
        'The tests never see a failing read; half-filled caches, swallowed '
        'exceptions and retained failures need a fault at a particular call.',
        [E_, 'src/goats/core/variable.py', 'src/goats/core/iotools.py',
         'src/goats/core/datafile.py', 'src/goats/eprem/runtime.py'],
        [('cached variables and axes', 'src/goats/core/variable.py Interface'),
         ('viewers of dataset files', 'src/goats/core/datafile.py'),
         ('configuration file parsing', 'src/goats/eprem/runtime.py')],
        ['results and errors of requests during and after the faults'],
        note='Seam faults and real file damage in seeded sessions; answers '
             'compared with a brand-new process on intact files. Damage is '
             'never applied to bytes HDF5 has already mapped.'),
    prop(
        'P04', 'An aborted request leaves no trace',
        'If a request (building an observer, observing, converting units, '
        'asking for metadata) is aborted by KeyboardInterrupt or MemoryError '
        'at any point of goats code, everything asked afterwards in that '
        'process, of the same or another observer, is answered as in a '
        'brand-new process.',
        ['crash_points', 'histories', 'inputs'],
        'every point of execution inside goats at which a request can be '
        'aborted',
        'No test interrupts a request; registries and caches that are '
        'filled in two steps only go wrong for an abort between the steps.',
        [E_, OBS, 'src/goats/core/metric.py', 'src/goats/core/aliased.py',
         'src/goats/core/symbolic.py', 'src/goats/core/variable.py'],
        [('unit registries', 'src/goats/core/metric.py'),
         ('per-context caches', E_ + ' Context'),
         ('observing constraints', OBS + ' Context.constrain')],
        ['results and errors of the requests after the abort'],
        note='The abort is raised at a seeded instrumented statement of '
             'goats; aborts inside numpy, scipy or netCDF4 are not '
             'simulated.'),
    prop(
        'P05', 'Units mean the same thing at any time',
        'Parsing, printing, normalising, comparing, multiplying and '
        'converting units, and converting or combining quantities that '
        'carry them, gives the physically right factor, value and unit '
        '(however the unit is spelled: order of terms, powers, fractions) '
        'and refuses inconsistent and unknown units; the answer is the same '
        'as in a brand-new process whatever units were used, refused, '
        'interrupted (at any statement) or are being used by other threads.',
        ['histories', 'crash_points', 'schedules', 'inputs'],
        'every sequence of requests about units in one process, every point '
        'at which one can be aborted, every interleaving of threads',
        'The tests convert units one at a time; registries of units and '
        'conversions that are shared by the whole process only go wrong for '
        'particular orders, aborts or interleavings.',
        ['src/goats/core/metric.py', 'src/goats/core/symbolic.py',
         'src/goats/core/metadata.py', 'src/goats/core/aliased.py',
         'src/goats/core/physical.py', 'src/goats/core/measurable.py'],
        [('instances of units, named units, conversions and systems',
          'src/goats/core/metric.py'),
         ('table of conversions', 'src/goats/core/metric.py CONVERSIONS')],
        ['factors, values, printed units and refusals'],
        note='Judged by fresh processes and by an independent table of units '
             '(sim/units.py, EM units by their CGS definitions). Expressions '
             'that repeat a physical quantity in different units (min h) and '
             'products of electromagnetic units of two systems are only '
             'compared with fresh processes.'),
    prop(
        'P06', 'Updating an observer equals building a new one, or changes '
        'nothing',
        'After observer.update(source=..., config=...) succeeds, the observer '
        'answers every request like a newly built observer of the same '
        'system on those files; if the update is refused or fails (no such '
        'directory or file, no data there, unreadable configuration, I/O '
        'error), the observer goes on answering as before the update. '
        'Observables and observations that were obtained before the update '
        'keep describing the old data, and a later complete update always '
        'succeeds, even after an update was aborted half-way.',
        ['histories', 'fault_sequences', 'crash_points', 'inputs'],
        'every sequence of updates and requests with failing or aborted '
        'updates in between',
        'The tests never update an observer that was already used, nor let '
        'an update fail; mixtures of old and new files need both.',
        [OBS, 'src/goats/core/observer.py', E_, 'src/goats/core/datafile.py'],
        [('source and configuration of an observer', E_ + ' Observer'),
         ('update', OBS + ' / observer.py')],
        ['answers of the observer and of held observables after updates'],
        note='Seeded histories of updates on two observer classes with '
             'failures and aborts; answers compared with a fresh process '
             'that builds the observer directly.'),
    prop(
        'P07', 'The database of runtime parameters is always a complete one',
        'Whenever generate_defaults() runs into a crash, a power loss, a '
        'full disk, an I/O error or an interrupt, at whatever point, the '
        'output file holds either exactly what it held before or exactly '
        'the complete new database, never a part; a call that returned has '
        'written it durably; appending keeps every other entry; readers '
        'that run at the same time always see a complete database; and a '
        'later undisturbed call succeeds.',
        ['crash_points', 'fault_sequences', 'schedules', 'inputs'],
        'every point of execution at which writing can be cut off, every '
        'disk error, every interleaving with readers and writers',
        'The tests write a database once, with nothing going wrong.',
        ['src/goats/eprem/runtime.py'],
        [('writing the database', 'src/goats/eprem/runtime.py '
          'generate_defaults'),
         ('reading the database', 'src/goats/eprem/runtime.py '
          'SourceFile.load_from_package')],
        ['content of the output file and the parameters a new process reads'],
        note='Crashes, power losses and disk errors are simulated at every '
             'mutating call of the disk seam and at instrumented '
             'statements; durability assumes that data that was not '
             'synchronised before a rename may be lost.'),
    prop(
        'P08', 'Runtime parameters come from the files in force, and from no '
        'others',
        'The names and values of runtime parameters (Runtime, Interface, '
        'ConfigFile, compare_arguments) are those of the configuration file '
        'and EPREM source in force at that time (user value, else the '
        'default of the source; definitions evaluated with the values in '
        'force), whatever was loaded, switched (path_to), interrupted or '
        'failed before, wherever the process has changed directory, and for '
        'every layout of the configuration file (blank lines, comments, '
        'white space, repeated names, zero values, sums and products of '
        'other parameters, lists).',
        ['histories', 'inputs', 'fault_sequences', 'crash_points'],
        'every sequence of loading, switching and asking with failing reads '
        'and aborts, every configuration file and source variant',
        'The tests read one fixed configuration file once.',
        ['src/goats/eprem/runtime.py', 'src/goats/core/symbolic.py',
         'src/goats/core/iotools.py'],
        [('paths and lazily loaded files', 'src/goats/eprem/runtime.py '
          'Runtime'),
         ('parsing of configuration files', 'src/goats/eprem/runtime.py '
          'ConfigFile'),
         ('parsing of C sources', 'src/goats/eprem/runtime.py BaseTypesH, '
          'ConfigurationC')],
        ['values, names, errors; printed tables of compare_arguments'],
        note='Seeded histories over generated C sources and configuration '
             'files with open faults and aborts, against an independent '
             'evaluator.'),
    prop(
        'P09', 'A dataset is the one its path referred to when it was named',
        'An observer or dataset interface that is built from any spelling of '
        'a path (absolute, relative, with ~, with dots, through links, or the '
        'working directory by default) shows the data and parameters of what '
        'that path refers to at that moment, and goes on showing them after '
        'changes of directory and of links, whatever else was opened before '
        'under the same name (also if a new file has replaced a former one, '
        'whatever its size and times); the same file is represented by one '
        'interface object; viewers chosen for one dataset do not affect others; files '
        'of unknown type and missing files are refused.',
        ['histories', 'inputs', 'fault_sequences', 'crash_points'],
        'every sequence of opening, asking, changing directory and '
        'redirecting links, with failing and aborted opens',
        'The tests open each dataset once, from one directory.',
        ['src/goats/core/iotools.py', 'src/goats/core/datafile.py',
         'src/goats/core/iterables.py', E_],
        [('registry of path-based instances',
          'src/goats/core/iotools.py PathSet'),
         ('viewers of a dataset', 'src/goats/core/datafile.py ViewerFactory'),
         ('paths of an observer', E_ + ' Observer.datapath, confpath')],
        ['paths, data and parameters that observers and interfaces show'],
        note='Seeded histories over directories with equal names and '
             'different content, links and changes of directory. Replacing '
             'the content of a file that is already open is outside the '
             'property.'),
    prop(
        'P10', 'goats only reads: inputs, arguments and settings stay as they '
        'are',
        'Building and using observers, dataset interfaces, runtime parameters '
        'and text files never changes, creates, removes or opens for writing '
        'any file or directory of the user (the exception is an explicit '
        'request to write a database of parameters), never changes an object '
        'that was passed in, gives results that do not follow later changes '
        'of such an object, closes every text file it opened, and leaves '
        'process-wide settings (working directory, environment, umask, '
        'numpy error handling and print options, warning filters, import '
        'path, random state, locale, signal handlers, standard output) as '
        'they were, for every sequence of requests, also when a request '
        'fails, is interrupted at any statement or hits a read error.',
        ['histories', 'crash_points', 'fault_sequences', 'inputs'],
        'every sequence of requests with failing reads and aborts in between',
        'The tests compare results; none looks at the data directory, the '
        'arguments or the process afterwards, least of all after a failure.',
        [E_, 'src/goats/core/datafile.py', 'src/goats/core/iotools.py',
         'src/goats/eprem/runtime.py', OBS],
        [('opens datasets for reading only',
          'src/goats/core/datafile.py NetCDFViewers'),
         ('opens and closes text files', 'src/goats/core/iotools.py TextFile'),
         ('evaluates constraints', E_ + ' Context.compute_index')],
        ['directory listing, file contents and open files of the scratch '
         'directory', 'argument objects after the call',
         'process-wide settings after every request'],
        note='Real files in a scratch directory; every open is seen at the '
             'open and netCDF4 seams and the whole directory is compared '
             'after every request.'),
    prop(
        'P11', 'Threads that use their own observers do not disturb each '
        'other',
        'When several threads of one process each build and use their own '
        'observer, on the same or on different datasets, every request is '
        'answered exactly as in a process with only that thread, under every '
        'interleaving of the threads\' goats code, and every thread finishes.',
        ['schedules', 'inputs'],
        'every interleaving of two or three threads, switched at any '
        'statement or I/O call of goats',
        'The tests are single-threaded; the shared registries of units, '
        'conversions and paths only fail under particular interleavings.',
        ['src/goats/core/metric.py', 'src/goats/core/metadata.py',
         'src/goats/core/aliased.py', 'src/goats/core/iterables.py', E_],
        [('registries of units and conversions', 'src/goats/core/metric.py'),
         ('singletons', 'src/goats/core/iterables.py Singleton')],
        ['results and errors of every request in every thread'],
        note='Seeded cooperative scheduler at statements and I/O calls; '
             'calls into numpy, scipy and netCDF4 are atomic (HDF5 is not '
             'thread-safe itself).'),
    prop(
        'P12', 'Quantities are values: deriving one never changes another',
        'Converting, subscripting, copying, combining (+, -, *, /, powers, '
        'negation, in-place operators on a copy), squeezing or averaging '
        'scalars, vectors, arrays and dataset variables gives the right '
        'values, unit, shape and axis names (variables are combined axis by '
        'axis), for any chain of such steps, in memory or read from file on '
        'demand; the operands and everything made from them before keep '
        'their values, unit and axes, also when a step is refused, aborted '
        'at any statement or hit by a read error, and also when the caller '
        'writes into an array that was handed out.',
        ['histories', 'crash_points', 'fault_sequences', 'inputs'],
        'every chain of operations on a pool of quantities with aborts and '
        'failing reads in between',
        'The tests apply one operation to a new quantity; scale factors and '
        'cached arrays that are shared between quantities only go wrong for '
        'particular chains.',
        ['src/goats/core/physical.py', 'src/goats/core/variable.py',
         'src/goats/core/measurable.py', 'src/goats/core/metadata.py'],
        [('scale factor and cached array of an array or variable',
          'src/goats/core/variable.py Array._load_array'),
         ('alignment of axes', 'src/goats/core/variable.py '
          'Quantity._ufunc_hook')],
        ['values, unit, shape, axis names and refusals of every quantity in '
         'the pool after every step'],
        note='Reference model: numpy arrays in SI units with physical '
             'dimensions and axis names. Calls into numpy and netCDF4 are '
             'atomic; subscripts that mix integers and lists are outside '
             '(refused by goats).'),
    prop(
        'P13', 'The names of one thing are interchangeable',
        'Whichever of its aliases a quantity is asked for by, an observer '
        'gives the same answer, also after failed and interrupted requests. '
        'In every aliased mapping, collection of alias groups and name map, '
        'an alias belongs to exactly one group; looking up, changing, '
        'deleting and extending through one alias applies to all of its '
        'group and to no other; length, keys, values, items and the flat '
        'and the grouped view agree; the order in which aliases were listed '
        'does not matter; merging joins all groups that share an alias; '
        'copies, merges and other derived objects are independent of their '
        'origin; an operation that is refused changes nothing, and one that '
        'is interrupted at any statement leaves a consistent object (as '
        'before, or with a part of the single steps of the call done).',
        ['histories', 'crash_points', 'fault_sequences', 'inputs'],
        'every history of building, looking up, changing, copying and '
        'merging aliased objects, with aborts at any statement; every alias '
        'of every observable quantity under any constraints',
        'The tests look at a few fixed mappings once; the two internal '
        'tables of a mapping and shared groups only disagree after '
        'particular histories and interrupts.',
        ['src/goats/core/aliased.py', 'src/goats/core/observer.py',
         'src/goats/core/reference.py'],
        [('grouped and flat tables of a mapping',
          'src/goats/core/aliased.py MutableMapping._refresh'),
         ('merging groups', 'src/goats/core/aliased.py Groups._merge'),
         ('aliases of an observer', 'src/goats/core/observer.py '
          'Interface.observables')],
        ['contents of every object in the pool, through every view, after '
         'every step; answers of an observer to every alias'],
        note='Reference model: a dictionary from sets of names to values. '
             'Outside: assigning to a tuple that overlaps an existing group '
             'and merging mappings whose groups overlap without being equal '
             '(the code does not lay down what this means).'),
]


def manifest(props):
    fixes = subprocess.run(
        ['git', '-C', '/repo', 'log', '--format=%h %s'],
        capture_output=True, text=True).stdout
    del fixes
    checks, absent = [], []
    for p in props:
        ident = p['id']
        if not p['claimed']:
            absent.append({'property': ident, 'reason': p['note']})
            continue
        checks.append({
            'property': ident,
            'quick_cmd': f'{PY} check.py run {ident} --tier quick',
            'thorough_cmd': f'{PY} check.py run {ident} --tier thorough',
            'evidence_file': f'evidence/{ident}.json',
            'technique': 'deterministic simulation with fault injection '
                         '(seeded search, fork per run)',
            'level': 'exploration',
            'level_note': p['note'],
        })
    return {
        'version': 1,
        'setup_cmd': f'{PY} -c "import numpy, scipy, netCDF4"',
        'hooks': {
            'guard': 'GOATS_SIM (not read by the package: no hook was added '
                     'to /repo)',
            'enable': 'the checks import /repo/src through an instrumenting '
                      'importer (sim/loader.py); nothing is switched on in '
                      '/repo itself',
            'source_commits': [],
        },
        'checks': checks,
        'not_applicable': absent,
    }


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fp:
        for p in PROPS:
            fp.write(json.dumps(p['line'], ensure_ascii=False) + '\n')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fp:
        json.dump(manifest(PROPS), fp, indent=1, ensure_ascii=False)
        fp.write('\n')


if __name__ == '__main__':
    main()
