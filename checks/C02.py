"""Every operation step runs exactly once, with the files of its own time."""

import datetime
import json
import io
import os
import re
import subprocess
import sys

from eumopps.catalogue import build, commandcount, commandrun, multiplecommandsrun
from eumopps.catalogue import placeholder
from eumopps.catalogue.catalogue import Catalogue
from eumopps.catalogue.dataset import CatalogueDataSet, CatalogueDataSubset
from eumopps.catalogue.fileio.formatjson import CatalogueWriterJSON
from eumopps.catalogue.fileio.formatnetcdf import CatalogueReaderNetCDF
from eumopps.catalogue.jinja import eumopps_cylc
from eumopps.catalogue.operation import Operation
from eumopps.catalogue.operationparameters import OperationTimeStamp, OperationCatalogueID
from eumopps.catalogue.step import StepDaily, StepOnce
from eumopps.catalogue.storage import DataStorageFiles
from eumopps.version.svn import set_allow_unversioned_code
from roses.fullstace.advanced_standard import lsf_submission, lsf_submission_group
import vmodule.record
import vmodule.toolchain
from vmodule.record import Holder, RunRecord

set_allow_unversioned_code(True)

RULE = """A scratch directory tree with random files (several per day, gaps, files outside the period, yearly and fixed
files) is catalogued with the real build, and the operations are run one task at a time, in batches, through
the multiple command runner or from a command line, in random task order, with a run module that only records its
parameters. The monitor checks the recorded history offline: every step exactly once, each with the inputs, outputs
and time computed independently from the names. Submissions go to a stand-in for the scheduler, which keeps them, and
the monitor carries out their scripts and judges what each job waits for. Non-trivial: at least two steps or a missing file."""
REQUIRED = {'steps run': 500, 'input files judged': 700, 'missing inputs judged': 50, 'runs past the end': 30, 'refusals': 100, 'chained steps run': 200, 'suites': 5, 'submitted operations': 40}
ASSUMPTIONS = ['Task indices are not negative', 'A task past the end of a batch may be refused or ignored, but never runs anything']

DAY = datetime.timedelta(days=1)


def stamp(t, form):
    return t.isoformat(' ').replace('-', '').replace(':', '').replace(' ', '')[:form]


def touch(base, name):
    path = os.path.join(base, name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as stream:
        stream.write(name)


class Source(object):
    """One input data set: its files, its description, and the oracle's idea of what belongs to which step."""

    def __init__(self, rng, number, where, start, steps, once):
        self.name = 'source%d' % number
        self.base = os.path.join(where, self.name)
        os.makedirs(self.base)
        self.kind = ['daily', 'several', 'yearly', 'fixed', 'nested', 'monthly', 'split'][rng.randint(7)] if not once else ['several', 'fixed'][rng.randint(2)]
        self.policy = ['allowed', 'skip', 'not_allowed'][rng.choice(3, p=[0.5, 0.35, 0.15])]
        self.subset = int(rng.randint(2))
        density = rng.choice([0.5, 0.85, 1.0])
        self.steps = [[] for _ in range(steps)]
        names = []   # (name, time)
        period = [start + DAY * i for i in range(-3, steps + 4)]
        midnight = start.replace(hour=0, minute=0, second=0)
        if self.kind in ('daily', 'nested'):
            pattern = ['a_%Y%m%d_x.dat'] if self.kind == 'daily' else ['%Y/', 'a_%Y%m%d_x.dat']
            for i in range(-3, steps + 5):
                t = midnight + DAY * i
                if rng.rand() < density:
                    name = 'a_%s_x.dat' % stamp(t, 8)
                    names.append(((t.isoformat()[:4] + '/' if self.kind == 'nested' else '') + name, t))
        elif self.kind in ('several', 'split'):
            pattern = ['m/%Y%m%d%H%M_b.dat'] if self.kind == 'several' else ['%Y/%m/b%d/', '%H%M.dat']
            for t in period:
                for _ in range(rng.choice([0, 1, 1, 2, 3])):
                    u = t.replace(hour=0, minute=0) + datetime.timedelta(minutes=int(rng.randint(1440)))
                    text = stamp(u, 12)
                    names.append(('m/%s_b.dat' % text if self.kind == 'several' else '%s/%s/b%s/%s.dat' % (text[:4], text[4:6], text[6:8], text[8:]), u))
            names = sorted(set(names))
        elif self.kind == 'yearly':
            pattern = ['year_%Y.dat']
            names = [('year_%04d.dat' % y, datetime.datetime(y, 1, 1)) for y in range(period[0].year, period[-1].year + 1) if rng.rand() < density]
        elif self.kind == 'monthly':
            pattern = [['month_%Y%m.dat'], ['%m/', 'm_%Y.dat']][rng.randint(2)]
            months = sorted(set((t.year, t.month) for t in period))
            names = [(('month_%04d%02d.dat' if len(pattern) == 1 else '%s/m_%s.dat') % (m if len(pattern) == 1 else ('%02d' % m[1], '%04d' % m[0])), datetime.datetime(m[0], m[1], 1))
                     for m in months if rng.rand() < density]
        else:
            pattern = ['only.dat']
            names = [('only.dat', None)] if rng.rand() < 0.85 else []
        for name, _ in names:
            touch(self.base, name)
        # noise that fits no pattern
        touch(self.base, 'zz/noise%d.txt' % rng.randint(9))
        self.pattern = pattern
        self.files = names
        # the oracle
        for name, t in names:
            if once:
                self.steps[0].append(name)
            elif self.kind == 'fixed':
                for s in self.steps:
                    s.append(name)
            elif self.kind in ('yearly', 'monthly'):
                for i, s in enumerate(self.steps):
                    day = start + DAY * i
                    if (day.year, day.month if self.kind == 'monthly' else 1) == (t.year, t.month):
                        s.append(name)
            else:
                i = (t - start) // DAY
                if 0 <= i < steps:
                    self.steps[i].append(name)
        self.many = rng.rand() < 0.8 if any(len(s) > 1 for s in self.steps) else rng.rand() < 0.3
        if once and self.kind == 'fixed':
            self.many = bool(rng.rand() < 0.5)

    def dataset(self):
        subset = CatalogueDataSubset(layout=DataStorageFiles(self.pattern))
        other = CatalogueDataSubset(layout=DataStorageFiles(['other_%Y.dat']))
        return CatalogueDataSet(name=self.name, path=self.base, subsets=[subset] if self.subset == 0 else [other, subset])

    def parameter(self):
        make = placeholder.InputFileList if self.many else placeholder.InputFile
        return make(self.name, self.subset, self.policy)

    def expected(self, step):
        """(as the run module gets it, missing)"""
        paths = [os.path.join(self.base, n) for n in self.steps[step]]
        if not paths:
            return ([None] if self.many else None)
        return sorted(paths) if self.many else paths[0]

    def missing(self, step):
        return not self.steps[step]


def workload(rng, mon, classmodule, runner):
    once = rng.rand() < 0.1
    steps = 1 if once else int(rng.randint(1, 15))
    start = datetime.datetime(1850, 1, 1) + DAY * int(rng.randint(0, 70000))
    if rng.rand() < 0.3:
        start = datetime.datetime(start.year, 12, 31) - DAY * int(rng.randint(0, 5))
    if not once and rng.rand() < 0.15:
        start = start + datetime.timedelta(hours=int(rng.randint(24)))
    end = start + DAY * (steps - 1)
    if not once and rng.rand() < 0.2:
        end = end + datetime.timedelta(hours=int(rng.randint(23)), minutes=3) if (end.hour, end.minute) == (0, 0) else end
    with mon.scratch() as where:
        sources = [Source(rng, i, where, start, steps, once) for i in range(rng.randint(1, 4))]
        if classmodule:
            sources = sources[:1]
        log = os.path.join(where, 'log')
        out = os.path.join(where, 'out')
        step = StepOnce() if once else StepDaily(stamp(start, 14), end)
        outpattern = ['res.out'] if once else [['res_%Y%m%d.out'], ['%Y/', 'r_%m%d_%Y.out'], ['res_%Y.out']][rng.choice(3, p=[0.5, 0.3, 0.2])]
        needed = {} if once else {'time': placeholder.StepTime(), 'index': placeholder.StepIndex()}
        if classmodule:
            module = RunRecord(log=log, inputs=sources[0].parameter(), output=placeholder.OutputFile('result'), **needed)
        else:
            parameters = {'in%d' % i: s.parameter() for i, s in enumerate(sources)}
            parameters['deep'] = [{'x': Holder(first=sources[-1].parameter(), number=4)}, {'y': 'text'}]
            parameters['several'] = [sources[0].parameter(), sources[-1].parameter()]
            parameters['single'] = [sources[-1].parameter()]
            if not once:
                parameters['inside'] = {'of': [Holder(first=placeholder.StepTime(), second=[placeholder.StepIndex()])]}
            parameters.update(needed, output=placeholder.OutputFile('result'), fixed=[1, 2, 3], log=log, stamp=OperationTimeStamp(), catalogue=OperationCatalogueID())
            parameters['python_function'] = 'vmodule.record.inner' if runner == 'multiple' else 'vmodule.record.run'
            module = parameters
        operation = Operation(module, step, name='work', newdatasets=[CatalogueDataSet(
            name='result', path=None if rng.rand() < 0.5 else out, subsets=[CatalogueDataSubset(DataStorageFiles(outpattern))])])
        path = os.path.join(where, 'catalogue.nc')
        inputs = Catalogue(datasets=[s.dataset() for s in sources])
        operations = Catalogue(operations=[operation])

        def make():
            if rng.rand() < 0.4:
                # all from one description file
                inputs.operations = [operation]
                CatalogueWriterJSON().save(os.path.join(where, 'all.json'), inputs)
                build.main(['--allow_unversioned_code', '--nochecksum', '--pathdefault', out, os.path.join(where, 'all.json'), path])
            else:
                build.build(inputs, path, nochecksum=True)
                build.build(operations, path, update=True, pathdefault=out, nochecksum=True)

        # is it to be refused?
        required = [s for s in sources if s.policy == 'not_allowed' and any(s.missing(i) for i in range(steps))]
        several = [s for s in sources if not s.many and any(len(n) > 1 for n in s.steps)]
        if required or several:
            mon.raises(make, 'operation with a required input missing')
            mon.case(('refused', [s.kind for s in required], steps))
            return
        make()
        kept = [i for i in range(steps) if not any(s.policy == 'skip' and s.missing(i) for s in sources)]
        mon.case((runner, classmodule, steps, len(kept), [(s.kind, s.policy, s.many, len(s.files)) for s in sources]), steps > 1 or len(kept) < steps)
        reader = CatalogueReaderNetCDF()
        mon.equal(int(reader.operationcount(path, 'work')), len(kept), 'number of operations')
        run(rng, mon, path, len(kept), runner)
        with open(log if os.path.exists(log) else os.devnull) as stream:
            history = [json.loads(line) for line in stream]
        mon.count('steps run', len(history))
        identifier = str(reader.load_identifier(path))
        mon.equal(len(history), len(kept), 'number of runs')

        def outname(i):
            if once:
                return os.path.join(out, 'res.out')
            t = start + DAY * i
            name = os.path.join(*outpattern)
            for key, text in (('%Y', stamp(t, 14)[:4]), ('%m', stamp(t, 14)[4:6]), ('%d', stamp(t, 14)[6:8])):
                name = name.replace(key, text)
            return os.path.join(out, name)

        def entry(i):
            expected = {'output': outname(i)}
            if not once:
                expected.update(time=(start + DAY * i).isoformat(), index=i)
            elif classmodule:
                expected.update(time=None, index=None)
            if classmodule:
                expected['inputs'] = sources[0].expected(i)
            else:
                expected.update({'in%d' % n: s.expected(i) for n, s in enumerate(sources)})
                expected['deep'] = [{'x': {'first': sources[-1].expected(i), 'second': None, 'number': 4}}, {'y': 'text'}]
                expected['several'] = [sources[0].expected(i), sources[-1].expected(i)]
                expected['single'] = [sources[-1].expected(i)]
                if not once:
                    expected['inside'] = {'of': [{'first': (start + DAY * i).isoformat(), 'second': [i], 'number': None}]}
                expected.update(fixed=[1, 2, 3], stamp='the time', catalogue=identifier)
            return expected

        def settle(value):
            if isinstance(value, dict):
                return {k: settle(v) for k, v in value.items()}
            if isinstance(value, list):
                value = [settle(v) for v in value]
                return sorted(value) if all(isinstance(v, str) for v in value) else value
            return value

        got = sorted(json.dumps(settle(h), sort_keys=True) for h in history)
        expected = sorted(json.dumps(entry(i), sort_keys=True) for i in kept)
        for i in kept:
            for s in sources:
                mon.count('input files judged', len(s.steps[i]))
                mon.count('missing inputs judged', s.missing(i))
        for g, e in zip(got, expected):
            mon.equal(json.loads(g), json.loads(e), 'recorded run', event='runs judged')
        # the results stand in the catalogue, each once, with their times
        cat = reader.load(path)
        results = cat.dataset('result').subsets[0].matches
        names = []
        for i in kept:
            name = os.path.relpath(outname(i), out)
            if name not in names:
                names.append(name)
        mon.equal([m.name for m in results], names, 'outputs listed in the catalogue')


def run(rng, mon, path, count, runner):
    stamped = 'the time'
    if runner == 'single':
        for i in rng.permutation(count):
            commandrun.commandrun(stamped, path, 'work', int(i), allow_toolchain_mismatch=True)
        mon.raises(lambda: commandrun.commandrun(stamped, path, 'work', count + int(rng.randint(3)), allow_toolchain_mismatch=True), 'index past the end')
        mon.count('runs past the end')
        return
    size = int(rng.randint(1, 7))
    batches = int(CatalogueReaderNetCDF().operationcount(path, 'work', size))
    mon.equal(batches, -(-count // size), 'number of batches')
    spec = {'work': dict(catalogue=path, batchsize=size)}
    if count:
        mon.equal(int(eumopps_cylc.eumopps_cylc(spec, 'cycle_points_required')), batches, 'cycle points')
        mon.equal(int(eumopps_cylc.eumopps_cylc(spec, 'final_cycle_point')), batches - 1, 'final cycle point')
        mon.equal(eumopps_cylc.eumopps_cylc(spec, 'module_scheduling', 'work'), 'R/P1/%d' % (batches - 1), 'scheduling')
        mon.check('= 0..%d' % (size - 1) in eumopps_cylc.eumopps_cylc(spec, 'parameters'), 'subtask parameters')
    if runner == 'batch':
        tasks = [(b, i) for b in range(batches) for i in range(size)]
        for n in rng.permutation(len(tasks)):
            b, i = tasks[n]
            try:
                commandrun.commandrun(stamped, path, 'work', i, use_batch_size=size, batch=b, allow_toolchain_mismatch=True)
                if b * size + i >= count:
                    mon.count('runs past the end')
            except ValueError:
                mon.check(False, 'batch %d task %d of %d operations refused' % (b, i, count))
        mon.raises(lambda: commandrun.commandrun(stamped, path, 'work', 0, use_batch_size=size, batch=None, allow_toolchain_mismatch=True), 'batch size without batch')
        mon.raises(lambda: commandrun.commandrun(stamped, path, 'work', 0, batch=1, allow_toolchain_mismatch=True), 'batch without batch size')
    else:
        for b in rng.permutation(batches):
            multiplecommandsrun.multiple_commands_run(stamped, path, 'vmodule.record.outer', 'work', size, int(b), True)
        if count % size:
            mon.count('runs past the end')
        got = []
        vmodule.record.heard = got.append
        try:
            multiplecommandsrun.multiple_commands_run(stamped, path, 'vmodule.record.hear', 'work', size, batches + int(rng.randint(3)), True)
        finally:
            del vmodule.record.heard
        mon.equal([entry for entries in got for entry in entries], [], 'operations of a batch past the end')


def single_tasks(rng, mon):
    workload(rng, mon, False, 'single')


def batches(rng, mon):
    workload(rng, mon, False, 'batch')


def multiple_commands(rng, mon):
    workload(rng, mon, False, 'multiple')


def class_modules(rng, mon):
    workload(rng, mon, True, ['single', 'batch'][rng.randint(2)])


def toolchain_and_listing(rng, mon):
    """A catalogue made with another version is refused; listing runs nothing."""
    with mon.scratch() as where:
        log = os.path.join(where, 'log')
        steps = int(rng.randint(1, 5))
        start = datetime.datetime(2000, 1, 1) + DAY * int(rng.randint(5000))
        operation = Operation({'python_function': 'vmodule.record.run', 'log': log, 'index': placeholder.StepIndex()}, StepDaily(start, start + DAY * (steps - 1)), name='work')
        path = os.path.join(where, 'c.nc')
        build.build(Catalogue(datasets=[], operations=[operation]), path)
        original = vmodule.toolchain.versionlist
        for i in range(steps):
            commandrun.commandrun('t', path, 'work', i, justlist=True)
        mon.raises(lambda: commandrun.commandrun('t', path, 'work', steps + int(rng.randint(3)), justlist=True), 'listing of an index past the end')
        mon.check(not os.path.exists(log), 'listing ran the operation')
        commandrun.commandrun('t', path, 'work', 0)
        mon.check(os.path.exists(log), 'the operation did not run with the same toolchain')
        try:
            vmodule.toolchain.versionlist = lambda: ['vmodule-R000002']
            mon.raises(lambda: commandrun.commandrun('t', path, 'work', 0), 'run with another toolchain')
            before = open(log).read()
            commandrun.commandrun('t', path, 'work', 0, allow_toolchain_mismatch=True)
            mon.check(len(open(log).read()) > len(before), 'the operation did not run with the mismatch allowed')
        finally:
            vmodule.toolchain.versionlist = original
        mon.case(('toolchain', steps))


def run_by(rng, mon, path, name, count, size, order=None):
    """Run the tasks of one operation in one of the ways a user does."""
    common = ['--allow_unversioned_code']
    way = rng.randint(4)
    if way == 0:
        for i in rng.permutation(count) if order is None else order:
            commandrun.main([path, name, str(i)] + common)
    elif way == 1:
        tasks = range(-(-count // size) * size) if order is None else order
        for n in rng.permutation(tasks):
            commandrun.main([path, name, str(n % size), '--use_batch_size', str(size), '--batch', str(n // size)] + common)
    elif way == 2:
        for i in rng.permutation(count) if order is None else order:
            commandrun.commandrun('t', path, name, int(i), allow_toolchain_mismatch=True)
    else:
        tasks = range(-(-count // size) * size) if order is None else order
        for n in rng.permutation(tasks):
            commandrun.commandrun('t', path, name, int(n % size), use_batch_size=size, batch=int(n // size), allow_toolchain_mismatch=True)


def suite(rng, mon, path, counts, sizes):
    """Tasks by name of the suite which runs several operations: as the templates give them to the scheduler."""
    spec = {name: dict(catalogue=path, batchsize=sizes[name], options='--allow_unversioned_code') for name in rng.permutation(sorted(counts))}
    batches = {name: -(-counts[name] // sizes[name]) for name in counts}
    mon.equal(int(eumopps_cylc.eumopps_cylc(spec, 'initial_cycle_point')), 0, 'initial cycle point')
    mon.equal(int(eumopps_cylc.eumopps_cylc(spec, 'cycle_points_required')), max(batches.values()), 'cycle points of %s' % batches, event='suites')
    mon.equal(int(eumopps_cylc.eumopps_cylc(spec, 'final_cycle_point')), max(batches.values()) - 1, 'final cycle point of %s' % batches)
    ranges = dict(re.findall(r'(\S+) *= *0\.\.(\d+)', eumopps_cylc.eumopps_cylc(spec, 'parameters')))
    sections = re.findall(r'\[\[(\S+?)<(\S+?)>\]\]\s*script *= *python -m eumopps.catalogue.commandrun (.*)', eumopps_cylc.eumopps_cylc(spec, 'subtasks'))
    mon.equal(sorted(name for name, _, _ in sections), sorted(counts), 'tasks of a suite')
    tasks = {}
    for name, index, script in sections:
        mon.equal(str(eumopps_cylc.eumopps_cylc(spec, 'module_subtask_name', name)), '%s<%s>' % (name, index), 'name of a task')
        mon.check(script.strip() in eumopps_cylc.eumopps_cylc(spec, 'module_subtask', name), lambda: 'task of %s alone' % name)
        mon.equal(int(ranges[index]) + 1, sizes[name], 'tasks in a batch of ' + name)
        last, = re.findall(r'^R/P1/(-?\d+)$', eumopps_cylc.eumopps_cylc(spec, 'module_scheduling', name))
        mon.equal(int(last) + 1, batches[name], 'cycle points of ' + name)
        tasks[name] = [script.replace('$CYLC_TASK_PARAM_' + index, str(i)).replace('$CYLC_TASK_CYCLE_POINT', str(b)).split()
                       for b in range(int(last) + 1) for i in range(int(ranges[index]) + 1)]
    return tasks


def lines(path):
    with open(path if os.path.exists(path) else os.devnull) as stream:
        return len(list(stream))


def dated(pattern, t):
    return os.path.join(*pattern).replace('%Y', '%04d' % t.year).replace('%m', '%02d' % t.month).replace('%d', '%02d' % t.day)


def chains(rng, mon, long=False):
    """Operations which read what other operations of the catalogue write."""
    base = datetime.datetime(1850, 1, 1) + DAY * int(rng.randint(0, 3000 if long else 70000))
    lengths = rng.choice([200, 300, 700, 1500] if mon.index else [33500]) if long else rng.randint(1, 12)
    with mon.scratch() as where:
        log = {n: os.path.join(where, 'log_' + n) for n in ('first', 'second', 'all')}
        # the first makes files on the days on which its own input is there
        available = []
        source = os.path.join(where, 'in')
        os.makedirs(source)
        days = [base + DAY * i for i in range(lengths)]
        policy = 'allowed' if long else ['allowed', 'skip'][rng.randint(2)]
        for day in days:
            if rng.rand() < (0.01 if lengths > 9999 else 0.3 if long else 0.7):
                touch(source, 'x_%s.dat' % stamp(day, 8))
                available.append(day)
        kept = [d for d in days if policy == 'allowed' or d in available]
        pattern = [['one_%Y%m%d.nc'], ['%Y/', '%m/', 'one_%d.nc']][rng.randint(2)]
        pattern2 = ['extra/', 'e_%Y%m%d.bin']
        yearly = ['t_%Y.nc', 't_%m%d.nc', 't_%d.nc'][rng.randint(3)]
        outputs = CatalogueDataSet(name='made', path=os.path.join(where, 'made'), subsets=[CatalogueDataSubset(DataStorageFiles(pattern)), CatalogueDataSubset(DataStorageFiles(pattern2))])
        first = Operation({'python_function': 'vmodule.record.run', 'log': log['first'], 'time': placeholder.StepTime(), 'index': placeholder.StepIndex(),
                           'given': placeholder.InputFile('source', missing_data=policy), 'a': placeholder.OutputFile('made'), 'b': placeholder.OutputFile('made', 1)},
                          StepDaily(days[0], days[-1]), name='first', newdatasets=[outputs])
        # the second covers a period of its own
        shift = int(rng.randint(-5, 6))
        days2 = [base + DAY * (shift + i) for i in range(max(1, lengths + int(rng.randint(-4, 5))))]
        policy2 = ['allowed', 'skip'][rng.randint(2)]
        which = int(rng.randint(2))
        make = [placeholder.InputFile, placeholder.InputFileList][rng.randint(2)]
        second = Operation({'python_function': 'vmodule.record.run', 'log': log['second'], 'time': placeholder.StepTime(), 'given': make('made', which, policy2),
                            'other': placeholder.InputFileList('source', 0, 'allowed'), 'out': placeholder.OutputFile('twice')},
                           StepDaily(stamp(days2[0], 14), stamp(days2[-1], 14)), name='second', newdatasets=[CatalogueDataSet(name='twice', subsets=[CatalogueDataSubset(DataStorageFiles([yearly]))])])
        # and the last takes all of them at once
        last = Operation({'python_function': 'vmodule.record.run', 'log': log['all'], 'given': placeholder.InputFileList('made', 1 - which, 'allowed'), 'yearly': placeholder.InputFileList('twice', 0, 'allowed'),
                          'out': placeholder.OutputFile('final')}, StepOnce(), name='all',
                         newdatasets=[CatalogueDataSet(name='final', path=os.path.join(where, 'final'), subsets=[CatalogueDataSubset(DataStorageFiles(['final.nc']))])])
        inputs = [CatalogueDataSet(name='source', path=source, subsets=[CatalogueDataSubset(DataStorageFiles(['x_%Y%m%d.dat']))])]
        path = os.path.join(where, 'c.nc')
        default = os.path.join(where, 'default')
        if rng.rand() < 0.5:
            build.build(Catalogue(datasets=inputs, operations=[first, second, last]), path, pathdefault=default, nochecksum=True)
        else:
            build.build(Catalogue(datasets=inputs, operations=[first]), path, nochecksum=True)
            build.build(Catalogue(operations=[second]), path, update=True, pathdefault=default)
            build.build(Catalogue(operations=[last]), path, update=True)
        mon.case(('chain', long, lengths, shift, policy, policy2, len(kept), make.__name__), True)
        names = {d: [os.path.join(where, 'made', dated(pattern, d)), os.path.join(where, 'made', dated(pattern2, d))] for d in kept}
        kept2 = [d for d in days2 if policy2 == 'allowed' or d in names]
        expected = {'first': [], 'second': [], 'all': []}
        there = {d: os.path.join(source, 'x_%s.dat' % stamp(d, 8)) for d in available}
        for d in kept:
            expected['first'].append(dict(time=d.isoformat(), index=(d - days[0]).days, given=there.get(d), a=names[d][0], b=names[d][1]))
        years = []
        for d in kept2:
            given = names[d][which] if d in names else None
            out = os.path.join(default, dated([yearly], d))
            years.append(out)
            expected['second'].append(dict(time=d.isoformat(), given=given if make is placeholder.InputFile else [given], other=[there.get(d)], out=out))
        expected['all'].append(dict(given=sorted(names[d][1 - which] for d in kept) or [None], out=os.path.join(where, 'final', 'final.nc')))
        # several steps may name one file
        expected['all'][0]['yearly'] = sorted(set(years)) or [None]
        reader = CatalogueReaderNetCDF()
        sizes = {name: int(rng.randint(1, 9)) for name in sorted(expected)}
        planned = None if long or rng.rand() < 0.5 else suite(rng, mon, path, {name: len(expected[name]) for name in expected}, sizes)
        for name in rng.permutation(['first', 'second', 'all']):
            count = len(expected[name])
            mon.equal(int(reader.operationcount(path, name)), count, 'number of operations of ' + name)
            size = sizes[name]
            mon.equal(int(reader.operationcount(path, name, size)), -(-count // size), 'number of batches of ' + name)
            order = sorted(set(int(i) for i in rng.randint(0, count, 9)) | {0, count - 1}) if long and count else None
            if planned is not None:
                for n in rng.permutation(len(planned[name])):
                    commandrun.main(planned[name][n])
            else:
                run_by(rng, mon, path, name, count, size, order)
            with open(log[name] if os.path.exists(log[name]) else os.devnull) as stream:
                history = [json.loads(line) for line in stream]
            for entry in history:
                for key in ('given', 'yearly'):
                    if isinstance(entry.get(key), list) and None not in entry[key]:
                        entry[key] = sorted(entry[key])
            text = lambda entries: sorted(json.dumps(e, sort_keys=True) for e in entries)
            wanted = expected[name] if order is None else [expected[name][i] for i in order]
            mon.count('chained steps run', len(history))
            mon.equal(len(history), len(wanted), 'number of runs of ' + name)
            for g, e in zip(text(history), text(wanted)):
                mon.equal(json.loads(g), json.loads(e), 'recorded run of %s' % name, event='runs judged')
        # what the catalogue does not know is not run
        before = lines(log['first'])
        for args in ([path, 'nothing', '0'], [path, 'first', str(len(kept) + int(rng.randint(3)))], [path, 'first', '0', '--use_batch_size', '2'], [path, 'first', '0', '--batch', '2']):
            mon.raises(lambda: commandrun.main(args + ['--allow_unversioned_code']), 'run of %s' % args[1:])
        mon.equal(lines(log['first']), before, 'number of runs after refused runs')
        mon.raises(lambda: multiplecommandsrun.main([path, 'vmodule.record.outer', 'first', '0', '0', '--allow_unversioned_code']), 'batches of no operations')


def long_chains(rng, mon):
    chains(rng, mon, True)


def refused_descriptions(rng, mon):
    """Descriptions which name nothing, or the same output twice, make no catalogue."""
    with mon.scratch() as where:
        os.makedirs(os.path.join(where, 'in'))
        touch(os.path.join(where, 'in'), 'x_20000101.dat')
        day = datetime.datetime(2000, 1, 1)
        path = os.path.join(where, 'c.nc')

        def source():
            return CatalogueDataSet(name='source', path=os.path.join(where, 'in'), subsets=[CatalogueDataSubset(DataStorageFiles(['x_%Y%m%d.dat']))])

        def operation(name='work', given=None, out=None, where_to='/nowhere', count=1, log=None):
            return Operation({'python_function': 'vmodule.record.run', 'log': log or os.path.join(where, 'log'), 'name': name, 'given': given or placeholder.InputFile('source'), 'out': out or placeholder.OutputFile(name)},
                             StepDaily(day, day + DAY * (count - 1)), name=name, newdatasets=[CatalogueDataSet(name=name, path=where_to, subsets=[CatalogueDataSubset(DataStorageFiles(['o_%Y%m%d.dat']))])])

        cases = [
            ('unknown input', [operation(given=placeholder.InputFile('sources'))]),
            ('unknown subset', [operation(given=placeholder.InputFile('source', 1))]),
            ('negative subset', [operation(given=placeholder.InputFileList('source', -1))]),
            ('unknown output', [operation(out=placeholder.OutputFile('works'))]),
            ('unknown output subset', [operation(out=placeholder.OutputFile('work', 1))]),
            ('output which has files', [operation(out=placeholder.OutputFile('source'))]),
            ('output of two operations', [operation('one'), operation('two', out=placeholder.OutputFile('one'))]),
            ('no path', [operation(where_to=None)]),
            ('missing input', [operation(count=2)]),
        ]
        for what, operations in cases:
            mon.raises(lambda: build.build(Catalogue(datasets=[source()], operations=operations), path, nochecksum=True), what)
            mon.check(not os.path.exists(path), 'a catalogue was written for: ' + what)
        # an existing catalogue is only replaced on request
        description = os.path.join(where, 'd.json')
        CatalogueWriterJSON().save(description, Catalogue(datasets=[source()], operations=[operation()]))
        arguments = ['--allow_unversioned_code', '--nochecksum', description, path]
        build.main(arguments)
        content = open(path, 'rb').read()
        mon.raises(lambda: build.main(arguments), 'existing catalogue')
        mon.check(open(path, 'rb').read() == content, 'the refused build changed the catalogue')
        mon.raises(lambda: build.main(['--allow_unversioned_code', description + 'x', os.path.join(where, 'new.nc')]), 'missing description')
        reader = CatalogueReaderNetCDF()
        before = str(reader.load_identifier(path))
        build.main(['--overwrite'] + arguments)
        mon.equal([d.name for d in reader.load(path).datasets], ['source', 'work'], 'data sets of the overwritten catalogue')
        mon.check(str(reader.load_identifier(path)) != before, 'the overwritten catalogue has the identifier of the old one')
        extra = os.path.join(where, 'more.json')
        CatalogueWriterJSON().save(extra, Catalogue(operations=[operation('more', given=placeholder.InputFile('work'))]))
        before = str(reader.load_identifier(path))
        build.main(['--update', '--allow_unversioned_code', '--nochecksum', extra, path])
        cat = reader.load(path)
        mon.equal([d.name for d in cat.datasets], ['source', 'work', 'more'], 'data sets of the updated catalogue')
        mon.equal([o.name for o in cat.operations], ['work', 'more'], 'operations of the updated catalogue')
        mon.check(str(reader.load_identifier(path)) != before, 'the updated catalogue has the identifier of the old one')
        # operations of one function are told apart by their names only
        mon.raises(lambda: commandrun.commandrun('t', path, 'vmodule.record.run', 0, allow_toolchain_mismatch=True), 'ambiguous name')
        log = os.path.join(where, 'log')
        mon.check(not os.path.exists(log), 'an ambiguous name was run')
        name = ['work', 'more'][rng.randint(2)]
        commandrun.commandrun('t', path, name, 0, allow_toolchain_mismatch=True)
        mon.equal([json.loads(line)['name'] for line in open(log)], [name], 'operation run')
        mon.case(('refused descriptions', name))


PYTHON = """#!/bin/bash
case "$*" in
  *eumopps.catalogue.commandcount*) cat "$VERIF_COUNTS/$4" ;;
  *) printf '%s\\n' "$*" >> "$VERIF_COMMANDS" ;;
esac
"""
BSUB = """#!/bin/bash
PATH=/usr/bin:/bin
count=`ls %(spool)s | wc -l`
if [ $count -ge `cat %(limit)s` ] ; then echo 'Request aborted' >&2 ; exit 255 ; fi
id=$((%(first)d + 7 * count))
mkdir %(spool)s/$id
printf '%%s\\0' "$@" > %(spool)s/$id/arguments
env -0 > %(spool)s/$id/environment
cat > %(spool)s/$id/script
echo "Job <$id> is submitted to queue <short-serial>."
"""


class Scheduler(object):
    """Takes the place of LSF: keeps what is submitted, and carries it out when asked."""

    def __init__(self, rng, where):
        self.where = where
        self.spool, self.limit, self.tools = [os.path.join(where, name) for name in ('spool', 'limit', 'tools')]
        os.makedirs(self.spool)
        os.makedirs(self.tools)
        self.fail_after(10 ** 6)
        for name, text in (('python', PYTHON), ('module', '#!/bin/bash\n'), ('bsub', BSUB % dict(spool=self.spool, limit=self.limit, first=rng.randint(100, 10 ** 6)))):
            with open(os.path.join(self.tools, name), 'w') as stream:
                stream.write(text)
            os.chmod(os.path.join(self.tools, name), 0o755)

    @property
    def jobs(self):
        found = []
        for folder in sorted(os.listdir(self.spool), key=int):
            read = lambda name: open(os.path.join(self.spool, folder, name), 'rb').read().decode()
            arguments = read('arguments').split('\0')
            name, first, last = re.match(r'(.*)\[(\d+)-(\d+)\]$', arguments[arguments.index('-J') + 1]).groups()
            waits = arguments[arguments.index('-w') + 1] if '-w' in arguments else ''
            environment = dict(e.split('=', 1) for e in read('environment').split('\0') if '=' in e)
            found.append((int(folder), name, int(first), int(last), waits, environment, read('script')))
        return found

    def fail_after(self, count):
        with open(self.limit, 'w') as stream:
            stream.write('%d\n' % count)

    def __enter__(self):
        self.path = os.environ['PATH']
        os.environ['PATH'] = self.tools + ':' + self.path

    def __exit__(self, *_):
        os.environ['PATH'] = self.path

    def before(self, job):
        """All that has ended when a job starts."""
        found, todo = set(), [job]
        known = {str(j[0]): j for j in self.jobs}
        while todo:
            condition = todo.pop()[4]
            for part in [p.strip() for p in condition.split('&&')] if condition.strip() else []:
                identifier = re.match(r'done\((\w+)\)$', part).group(1)
                if identifier not in found:
                    found.add(identifier)
                    if identifier in known:
                        todo.append(known[identifier])
        return found

    def commands(self, job, counts):
        """What a job runs: arguments of commandrun, by way of the script it was submitted with."""
        identifier, name, first, last, waits, environment, script = job
        recorded = os.path.join(self.where, 'commands')
        if os.path.exists(recorded):
            os.remove(recorded)
        script = script.replace('/work/scratch/', os.path.join(self.where, 'work') + '/')
        for index in range(first, last + 1):
            settings = {k: v for k, v in environment.items() if k.startswith('EUMOPPS_') or k == 'OUTDIR'}
            settings.update(PATH=self.tools + ':/usr/bin:/bin', USER='someone', LSB_JOBINDEX=str(index), VERIF_COUNTS=counts, VERIF_COMMANDS=recorded)
            subprocess.run(['/bin/bash'], input=script.encode(), env=settings, cwd=self.where, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        return [line.split()[2:] for line in lines_of(recorded) if line.split()[:2] == ['-m', 'eumopps.catalogue.commandrun']]


def lines_of(path):
    if not os.path.exists(path):
        return []
    with open(path) as stream:
        return stream.read().splitlines()


def submissions(rng, mon):
    """The tasks of a catalogue as they are given to the scheduler of the cluster, which runs them by its scripts."""
    module = [lsf_submission, lsf_submission_group][rng.randint(2)]
    scripts = os.path.dirname(os.path.abspath(module.__file__))
    with mon.scratch() as where:
        first = datetime.datetime(1850, 1, 1) + DAY * int(rng.randint(0, 60000))
        iterations = int(rng.randint(1, 4))
        parts = ['climatology_input', 'climatology_solve', 'climatology_solve_prior_sample', 'large_scale_input', 'large_scale_solve', 'large_scale_solve_prior_sample',
                 'local_input_and_solve', 'nonstationary_local_input_and_solve', 'output_grid']
        names = ['%s_%d' % (part, i) for i in range(iterations) for part in parts]
        sizes = {name: int(rng.choice([1, 1, 2, 3, 5])) for name in names}
        names.append('long')
        sizes['long'] = int(rng.randint(1, 40))
        operations = [Operation({'python_function': 'vmodule.record.run', 'log': os.path.join(where, name), 'index': placeholder.StepIndex()},
                                StepDaily(first, first + DAY * (sizes[name] - 1)), name=name) for name in names]
        path = os.path.join(where, 'catalogue.nc')
        build.build(Catalogue(datasets=[], operations=operations), path, nochecksum=True)
        counts = os.path.join(where, 'counts')
        os.makedirs(counts)
        for name in names:
            out = io.StringIO()
            commandcount.main([path, name], out)
            with open(os.path.join(counts, name), 'w') as stream:
                stream.write(out.getvalue())
        given = 'done(77)' if rng.randint(2) else ''
        scheduler = Scheduler(rng, where)
        here, argv = os.getcwd(), sys.argv
        os.chdir(scripts)
        scheduler.__enter__()
        try:
            if mon.index % 2:
                # one operation, in batches of any size
                stages = ['long']
                size, tasks = int(rng.randint(1, 15)), int(rng.randint(1, 6))
                if module is lsf_submission_group and rng.randint(3):
                    given_to = module.submit_eumopps_jobs_grouped(path, 'long', given, module.LSF_BATCH_SCRIPT_GROUPED, size, tasks)
                else:
                    script = [module.LSF_BATCH_SCRIPT, module.LSF_BATCH_SCRIPT_TALL, module.LSF_SOLVE_SCRIPT_LARGESCALE, module.LSF_SOLVE_SCRIPT_CLIMATOLOGY][rng.randint(4)]
                    given_to = module.submit_eumopps_jobs(path, 'long', given, script, size)
                mon.equal([str(i) for i in given_to], [str(j[0]) for j in scheduler.jobs], 'identifiers of submitted jobs')
                # then another, when all of them are done
                stages.append(names[int(rng.randint(len(names) - 1))])
                module.submit_eumopps_jobs(path, stages[1], module.done_conditon(given_to), module.LSF_BATCH_SCRIPT)
                mon.equal(module.done_conditon([]), '', 'condition of nothing')
            else:
                flags = [int(rng.rand() < 0.75) for _ in range(5)]
                lowest = int(rng.randint(iterations))
                final = int(rng.choice([iterations - 1, iterations, 0]))
                gridded = int(rng.randint(2))
                local = 'local_input_and_solve'
                if rng.randint(4) == 0:
                    local = 'nonstationary_' + local
                    wait = given
                    for i in range(lowest, iterations):
                        wait = module.eustace_iteration(i, path, wait, *(flags + [gridded and i == final, i == final, True]))
                elif rng.randint(2):
                    module.eustace_multi_iteration(lowest, iterations - 1, final, *(flags + [gridded, path, given]))
                else:
                    options = ['climatology_input', 'climatology_solve', 'large_scale_input', 'large_scale_solve', 'local_input_and_solve']
                    sys.argv = ['lsf_submission', path, '--first_iteration', str(lowest), '--last_iteration', str(iterations - 1), '--final_iteration', str(final), '--output_grid', str(gridded),
                                '--wait_options', given] + sum([['--' + o, str(f)] for o, f in zip(options, flags)], [])
                    module.main()
                stages = []
                for i in range(lowest, iterations):
                    last = i == final
                    chosen = [('climatology_input', flags[0]), ('climatology_solve', flags[1]), ('climatology_solve_prior_sample', flags[1] and last), ('large_scale_input', flags[2]),
                              ('large_scale_solve', flags[3]), ('large_scale_solve_prior_sample', flags[3] and last), (local, flags[4]), ('output_grid', gridded and last)]
                    stages += ['%s_%d' % (part, i) for part, wanted in chosen if wanted]
        finally:
            scheduler.__exit__()
            os.chdir(here)
            sys.argv = argv
        # run all of it, stage by stage as the conditions allow
        by_stage = {}
        submitted = scheduler.jobs
        for job in submitted:
            tasks = scheduler.commands(job, counts)
            mon.check(tasks and len(set(t[1] for t in tasks)) == 1, lambda: 'job %s runs %s' % (job[1], tasks))
            by_stage.setdefault(tasks[0][1] if tasks else job[1], []).append((job, tasks))
        mon.equal(sorted(by_stage), sorted(stages), 'operations submitted')
        earlier = set(['77'] if given else [])
        for stage in stages:
            ids = set()
            for job, tasks in by_stage.get(stage, []):
                mon.check(earlier <= scheduler.before(job), lambda: '%s may start before %s are done (it waits for %r)' % (job[1], sorted(earlier - scheduler.before(job)), job[4]))
                ids.add(str(job[0]))
                for task in tasks:
                    commandrun.main(task)
            earlier |= ids
            done = sorted(json.loads(line)['index'] for line in lines_of(os.path.join(where, stage)))
            mon.equal(done, list(range(sizes[stage])), 'steps of %s carried out by the jobs' % stage, event='submitted operations')
        for name in set(names) - set(stages):
            mon.check(not os.path.exists(os.path.join(where, name)), lambda: '%s was run' % name)
        # a submission which fails, or an operation which is not there, is no success
        count = len(scheduler.jobs)
        with scheduler:
            script = os.path.join(scripts, module.LSF_BATCH_SCRIPT)
            mon.raises(lambda: module.submit_eumopps_jobs(path, 'nothing', lsf_script=script), 'submission of an unknown operation')
            size = int(rng.randint(1, 15))
            allowed = count + int(rng.randint(-(-sizes['long'] // size)))
            scheduler.fail_after(allowed)
            mon.raises(lambda: module.submit_eumopps_jobs(path, 'long', lsf_script=script, eumopps_batchsize=size), 'submission which fails')
            mon.equal(len(scheduler.jobs), allowed, 'submissions before the one which fails')
        mon.case(('submitted', module.__name__, mon.index % 2, len(scheduler.jobs), len(stages)), len(scheduler.jobs) > 1)


SCENARIOS = [(single_tasks, 60, 700), (batches, 60, 700), (multiple_commands, 40, 500), (class_modules, 30, 300), (toolchain_and_listing, 8, 30),
             (chains, 30, 300), (long_chains, 4, 30), (refused_descriptions, 4, 30), (submissions, 24, 200)]
