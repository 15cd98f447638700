"""Runs one check: python runner.py ID TIER [--replay FILE]. Started by run.sh after the build."""

import hashlib
import importlib.util
import json
import multiprocessing
import multiprocessing.connection
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'lib'))

import numpy

from monitor import Inconclusive, Monitor, Violation

WORKERS = 8
CPU_LIMIT = 150.0     # seconds of processor time in one case: cases take a few seconds at most
WALL_LIMIT = 600.0    # only ever inconclusive


def seed_of(seed, prop, scenario, index):
    text = '%d/%s/%s/%d' % (seed, prop, scenario, index)
    return int(hashlib.sha256(text.encode()).hexdigest()[:8], 16)


def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return {}
    with open(path) as stream:
        entries = json.load(stream)['findings']
    return {e['key']: e['what'] for e in entries if e['property'] == prop and e['status'] == 'known'}


def judge(check, scenario, seed, index, known, scratch):
    """One case: (outcome, message, key, events, cases, found)."""
    mon = Monitor(known, scratch)
    rng = numpy.random.RandomState(seed)
    mon.index = index
    mon.tier = os.environ['VERIF_TIER']
    numpy.random.seed(seed % 2**32)
    outcome, message, key = 'held', '', None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            scenario(rng, mon)
    except Violation as problem:
        outcome, message, key = 'violated', problem.what, problem.key
    except Inconclusive as problem:
        outcome, message = 'inconclusive', str(problem)
    except MemoryError:
        outcome, message = 'inconclusive', traceback.format_exc()
    except BaseException:
        outcome, message = 'violated', 'unexpected exception\n' + traceback.format_exc()
    return outcome, message, key, mon.events, mon.cases, mon.found


def worker(check, tasks, pipe, known, scratch, prop, seed):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    log = os.open(os.path.join(scratch, 'log'), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(log, 1)
    os.dup2(log, 2)
    os.chdir(scratch)
    scenarios = {s[0].__name__: s[0] for s in check.SCENARIOS}
    while True:
        task = pipe.recv()
        if task is None:
            break
        name, index = task
        os.ftruncate(log, 0)
        os.lseek(log, 0, os.SEEK_SET)
        before = time.process_time()
        result = judge(check, scenarios[name], seed_of(seed, prop, name, index), index, known, scratch)
        pipe.send(result + (time.process_time() - before,))
        for left in os.listdir(scratch):
            if left != 'log':
                path = os.path.join(scratch, left)
                shutil.rmtree(path, ignore_errors=True) if os.path.isdir(path) else os.remove(path)
    os._exit(0)


def cpu_seconds(pid):
    try:
        with open('/proc/%d/stat' % pid) as stream:
            fields = stream.read().rsplit(')', 1)[1].split()
        return (int(fields[11]) + int(fields[12]) + int(fields[13]) + int(fields[14])) / os.sysconf('SC_CLK_TCK')
    except (OSError, ValueError, IndexError):
        return 0.0


class Child(object):
    def __init__(self, check, number, root, known, prop, seed):
        self.scratch = os.path.join(root, 'w%d' % number)
        os.makedirs(self.scratch, exist_ok=True)
        self.pipe, other = multiprocessing.Pipe()
        self.process = multiprocessing.get_context('fork').Process(
            target=worker, args=(check, None, other, known, self.scratch, prop, seed))
        self.process.start()
        other.close()
        self.task = None

    def give(self, task):
        self.task = task
        self.started = time.time()
        self.cpu = cpu_seconds(self.process.pid)
        self.pipe.send(task)

    def log(self):
        try:
            with open(os.path.join(self.scratch, 'log'), 'rb') as stream:
                return stream.read()[-6000:].decode('utf-8', 'replace')
        except OSError:
            return ''


def run_tasks(check, tasks, root, known, prop, seed, report):
    """report(task, result) for each; stops at the first violation."""
    pending = list(reversed(tasks))
    children = [Child(check, n, root, known, prop, seed) for n in range(min(WORKERS, len(tasks)))]
    stop = False
    while True:
        for child in children:
            if child.task is None and pending and not stop:
                child.give(pending.pop())
        busy = [c for c in children if c.task is not None]
        if not busy:
            break
        ready = multiprocessing.connection.wait([c.pipe for c in busy], timeout=2.0)
        for child in busy:
            result = None
            if child.pipe in ready:
                try:
                    result = child.pipe.recv()
                except EOFError:
                    child.process.join()
                    code = child.process.exitcode
                    if code == -signal.SIGKILL:
                        result = ('inconclusive', 'killed', None, {}, [], {}, 0)
                    else:
                        result = ('violated', 'the process died (exit code %s)\n%s' % (code, child.log()), 'crash', {}, [], {}, 0)
            elif cpu_seconds(child.process.pid) - child.cpu > CPU_LIMIT:
                child.process.kill()
                result = ('violated', 'no end after %d s of processor time\n%s' % (CPU_LIMIT, child.log()), 'hang', {}, [], {}, 0)
            elif time.time() - child.started > WALL_LIMIT:
                child.process.kill()
                result = ('inconclusive', 'no end after %d s' % WALL_LIMIT, None, {}, [], {}, 0)
            if result is None:
                continue
            report(child.task, result)
            child.task = None
            if result[0] == 'violated':
                stop = True
            if not child.process.is_alive() or result[1].startswith(('the process died', 'no end', 'killed')):
                child.process.kill()
                child.process.join()
                child.__init__(check, children.index(child), root, known, prop, seed)
        if stop and not any(c.task for c in children):
            break
        if stop:
            for child in children:
                child.process.kill()
            break
    for child in children:
        if child.process.is_alive():
            try:
                child.pipe.send(None)
            except OSError:
                pass
        child.process.join(10)
        if child.process.is_alive():
            child.process.kill()


def load(prop):
    spec = importlib.util.spec_from_file_location('check_' + prop, os.path.join(VERIF, 'checks', prop + '.py'))
    module = importlib.util.module_from_spec(spec)
    sys.modules[spec.name] = module
    spec.loader.exec_module(module)
    return module


def load_failed(prop, tier, seed, message):
    """The code under test raised while its modules were being loaded: none of what the property promises is to be had."""
    replays = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(replays, exist_ok=True)
    path = os.path.join(replays, '%s-load.json' % prop)
    with open(path, 'w') as stream:
        json.dump({'property': prop, 'what': message, 'how': 'bash run.sh %s %s' % (prop, tier)}, stream, indent=1)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as stream:
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'assumptions': [], 'violations': 1, 'wall_s': 0.0,
                   'coverage': {'evaluations': 1, 'distinct_nontrivial': 0, 'rule': 'loading the modules of the code under test',
                                'samples': [], 'observed': {}}}, stream, indent=1)
    print('the modules of the code under test could not be loaded')
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1


def main():
    prop, tier = sys.argv[1:3]
    replay = sys.argv[sys.argv.index('--replay') + 1] if '--replay' in sys.argv else None
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.environ['VERIF_TIER'] = tier
    started = time.time()
    started0 = float(os.environ.get('VERIF_STARTED', started))
    try:
        check = load(prop)
    except Exception as problem:
        traceback.print_exc()
        frames = [f.filename for f in traceback.extract_tb(problem.__traceback__)]
        tree = os.environ.get('VERIF_TREE', '')
        if tree and any(os.path.realpath(f).startswith(os.path.realpath(tree) + os.sep) for f in frames):
            return load_failed(prop, tier, seed, traceback.format_exc())
        print('no answer: the check could not be loaded')
        return 2
    known = known_findings(prop)
    tasks = []
    for entry in check.SCENARIOS:
        function, quick, thorough = entry
        number = quick if tier == 'quick' else thorough
        tasks += [(function.__name__, i) for i in range(number)]
    if replay:
        with open(replay) as stream:
            case = json.load(stream)
        seed = case['verif_seed']
        os.environ['VERIF_TIER'] = tier = case['tier']
        tasks = [(case['scenario'], case['index'])]
    if only:
        tasks = [t for t in tasks if t[0] == only or '%s:%d' % t == only]
    order = {f[0].__name__: n for n, f in enumerate(check.SCENARIOS)}
    tasks.sort(key=lambda t: (t[1], order[t[0]]))

    root = tempfile.mkdtemp(prefix='verif-%s-' % prop, dir='/tmp')
    state = dict(done=0, events={}, cases=[], distinct=set(), violations=[], inconclusive=[], found={}, per={}, cpu={})

    def report(task, result):
        outcome, message, key, events, cases, found, cpu = result
        state['done'] += 1
        state['per'][task[0]] = state['per'].get(task[0], 0) + 1
        state['cpu'][task[0]] = max(cpu, state['cpu'].get(task[0], 0))
        state['cpu']['sum ' + task[0]] = cpu + state['cpu'].get('sum ' + task[0], 0)
        for name, number in events.items():
            state['events'][name] = state['events'].get(name, 0) + number
        for signature, nontrivial in cases:
            if nontrivial:
                state['distinct'].add(hashlib.sha256((task[0] + signature).encode()).digest()[:12])
            if len(state['cases']) < 400:
                state['cases'].append({'scenario': task[0], 'case': signature})
        for k, what in found.items():
            state['found'].setdefault(k, what)
        if outcome == 'violated':
            state['violations'].append((task, message, key))
        elif outcome == 'inconclusive':
            state['inconclusive'].append((task, message))

    try:
        run_tasks(check, tasks, root, known, prop, seed, report)
    finally:
        shutil.rmtree(root, ignore_errors=True)

    lines = []
    replays = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(replays, exist_ok=True)
    for (name, index), message, key in state['violations']:
        path = os.path.join(replays, '%s-%s-%d-%d.json' % (prop, name, seed, index))
        with open(path, 'w') as stream:
            json.dump({'property': prop, 'scenario': name, 'index': index, 'verif_seed': seed, 'tier': tier, 'key': key,
                       'what': message, 'how': 'bash run.sh %s %s --replay %s' % (prop, tier, path)}, stream, indent=1)
        print('%s case %d of %s: %s' % (name, index, prop, message))
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))

    missing = [] if replay or only or state['violations'] else [
        '%s: %d observed, at least %d needed' % (name, state['events'].get(name, 0), least)
        for name, least in sorted(getattr(check, 'REQUIRED', {}).items()) if state['events'].get(name, 0) < least]

    samples, seen = [], {}
    for case in state['cases']:
        if seen.get(case['scenario'], 0) < 2:
            seen[case['scenario']] = seen.get(case['scenario'], 0) + 1
            samples.append(case)
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(check, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': state['done'],
            'distinct_nontrivial': len(state['distinct']),
            'rule': ' '.join(check.RULE.split()),
            'samples': samples[:24],
            'observed': dict(sorted(state['events'].items())),
            'executions_per_scenario': state['per'],
        },
        'assumptions': list(getattr(check, 'ASSUMPTIONS', [])),
        'violations': len(state['violations']),
        'known_findings': sorted(state['found']),
        'inconclusive': ['%s %d: %s' % (t[0], t[1], m[-400:]) for t, m in state['inconclusive']] + missing,
        'wall_s': round(time.time() - started0, 2),
    }
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as stream:
        json.dump(evidence, stream, indent=1)
    if '-v' in sys.argv:
        for name in state['per']:
            print('%-40s %5d cases, cpu max %.2f sum %.1f' % (name, state['per'][name], state['cpu'][name], state['cpu']['sum ' + name]))
        print(json.dumps(evidence['coverage']['observed'], indent=1))
    for k in sorted(state['found']):
        print('KNOWN-FINDING: property=%s %s (%s)' % (prop, known.get(k, k), k))
    print('%s %s: %d executions, %d distinct non-trivial cases, %d observations judged, %.1f s' % (
        prop, tier, state['done'], len(state['distinct']), sum(state['events'].values()), time.time() - started0))
    if lines:
        print('\n'.join(lines))
        return 1
    if state['inconclusive'] or missing:
        for text in evidence['inconclusive']:
            print('INCONCLUSIVE: ' + text)
        return 3
    return 0


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    os._exit(code)
