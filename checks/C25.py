"""Generated analysis descriptors carry out the whole iteration, every stage on the results it needs."""

import contextlib
import datetime
import importlib
import inspect
import json
import os

import netCDF4
import numpy

from eumopps.catalogue import build, commandrun
from eumopps.catalogue.catalogue import Catalogue
from eumopps.catalogue.dataset import CatalogueDataSet, CatalogueDataSubset
from eumopps.catalogue.fileio.formatnetcdf import CatalogueReaderNetCDF
from eumopps.catalogue.jsonfiller import FullstaceJsonFiller
from eumopps.catalogue.storage import DataStorageFiles
from eumopps.netcdfobjects import netcdfobjects
from eumopps.version.svn import set_allow_unversioned_code
from eustace.analysis.advanced_standard.analysissystem import AnalysisSystem
from eustace.analysis.advanced_standard.components.spacetime import SpaceTimeComponent
from eustace.analysis.advanced_standard.components.spatial import SpatialComponent
from eustace.analysis.advanced_standard.components.storage_inmemory import (
    ComponentStorage_InMemory, SpaceTimeComponentSolutionStorage_InMemory, SpatialComponentSolutionStorage_InMemory)
from eustace import toolchain as eustace_toolchain
from models import EPOCH, grandmean, harmonics, local, seasonal
from posterior import observed

set_allow_unversioned_code(True)
eustace_toolchain.versionlist = lambda: ['the same everywhere']    # asks rpm otherwise
climatology_module = importlib.import_module('eustace.analysis.advanced_standard.examples.moving_climatology')

RULE = """Descriptors are generated from the suite's own templates for random numbers of iterations, periods and names.
Each is judged as a data flow (every file read was declared and written by an earlier operation, of the right component and
iteration; nothing written twice) and then carried out: the catalogue is built from it over a scratch tree of input files and
every operation is run, in order, with the real storage classes and analysis system on a small model. The monitor records
every load and compares the states that the gridding step reads with those of the same iteration done in memory.
Non-trivial: two or more iterations."""
REQUIRED = {'operations judged': 300, 'reads judged': 500, 'writes judged': 400, 'operations run': 300, 'states compared': 12, 'daily states compared': 20,
            'samples judged': 30, 'inputs loaded': 300, 'refusals': 5, 'sources kept': 30}
ASSUMPTIONS = ['Every day of the period has at least one observation', 'The gridding step itself is replaced by one that reads all it is given (gridding is C17)',
               'Names given for data sets and commands differ from each other']

TEMPLATES = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'src/roses/fullstace/advanced_standard/templates')
STORES = ['storage_climatology', 'storage_large_scale', 'storage_local']
DAY = datetime.timedelta(days=1)
SOURCES = {'insitu_land': ['Tmin', 'Tmax'], 'insitu_ocean': ['Tmean'], 'surfaceairmodel_land': ['Tmin', 'Tmax'], 'surfaceairmodel_ocean': ['Tmean'],
           'surfaceairmodel_ice': ['Tmin', 'Tmean', 'Tmax']}
NAMES = ['measurement_climatology_command', 'measurement_climatology_name', 'solution_climatology_command', 'solution_climatology_name',
         'measurement_large_scale_command', 'measurement_large_scale_name', 'solution_large_scale_command', 'solution_large_scale_name',
         'local_scale_command', 'solution_local_scale_name', 'output_grid_command', 'output_grid_name',
         'output_climatology_name', 'output_large_scale_name', 'output_local_name']


class Plan(object):
    """What was asked for."""

    def __init__(self, rng, folder, start, end, iterations):
        self.start, self.end, self.n = start, end, iterations
        marks = rng.permutation(90)[:len(NAMES)] + 10
        self.names = {key: '%s%d%s' % ('abcdefgh'[rng.randint(8)], mark, 'xyz'[rng.randint(3)]) for key, mark in zip(NAMES, marks)}
        if rng.rand() < 0.3:
            self.names = {key: key for key in NAMES}
        self.biases = [int(rng.randint(2)), int(rng.randint(2))]
        text = lambda t: t.isoformat()[:10].replace('-', '')
        self.filler = FullstaceJsonFiller(
            n_iterations=iterations, inpath=TEMPLATES, outpath=folder, operation_template='advstd_operation_template.json',
            batch_operation_template='advstd_batch_operation_template.json', output_grid_template='advstd_outputgrid_template.json',
            start_date=text(start), end_date=text(end), land_biases=self.biases[0], global_biases=self.biases[1], **self.names)
        self.measured = [self.names['measurement_climatology_name'], self.names['measurement_large_scale_name']]
        self.solved = [self.names[k] for k in ('solution_climatology_name', 'solution_large_scale_name', 'solution_local_scale_name')]
        self.commands = [(self.names['measurement_%s_command' % k], self.names['solution_%s_command' % k]) for k in ('climatology', 'large_scale')]

    def stage(self, name):
        """(kind, component, iteration) of a command or a data set name."""
        for i in range(self.n):
            for k in range(2):
                if name == '%s_%d' % (self.commands[k][0], i):
                    return 'measure', k, i
                if name == '%s_%d' % (self.commands[k][1], i):
                    return 'solve', k, i
                if name == '%s_prior_sample_%d' % (self.commands[k][1], i):
                    return 'prior', k, i
            if name == '%s_%d' % (self.names['local_scale_command'], i):
                return 'local', 2, i
        if name == self.names['output_grid_command']:
            return 'grid', None, self.n - 1
        return None

    def make(self, folder, batch):
        create = self.filler.create_batch_descriptor if batch else self.filler.create_descriptor
        create('descriptor.json', check_none=True)
        path = os.path.join(folder, 'descriptor.json')
        with open(path) as stream:
            return path, json.load(stream)


def nothing_left(mon, value, where):
    if isinstance(value, dict):
        for key in value:
            nothing_left(mon, value[key], where + '/' + key)
    elif isinstance(value, list):
        for element in value:
            nothing_left(mon, element, where)
    else:
        mon.check(value is not None, '%s was left empty' % where)


def references(value):
    """Data sets of a run module: (name, keyword) of those read and of those written."""
    read, written = [], []

    def walk(v, key):
        if isinstance(v, dict):
            if 'datasetname' in v:
                kind = v['python_class'].rsplit('.', 1)[1]
                (written if kind in ('OutputFile', 'AnnualBatchDaysOutput') else read).append((v['datasetname'], key))
            else:
                for k in v:
                    walk(v[k], k)
        elif isinstance(v, list):
            for element in v:
                walk(element, key)
    walk(value, None)
    return read, written


def judge_flow(mon, plan, descriptor, batch):
    operations = descriptor['operations']
    made = {}
    last = plan.n - 1
    expected = []
    for i in range(plan.n):
        for k in range(2):
            expected += [('measure', k, i), ('solve', k, i)]
        expected += [('local', 2, i)]
    expected += [('grid', None, last)]
    stages = [plan.stage(o['name']) for o in operations]
    mon.equal([s for s in stages if s is None or s[0] != 'prior'], expected, 'operations in order')
    produced = {}
    for o, stage in zip(operations, stages):
        if stage is None:
            continue
        mon.count('operations judged')
        kind, k, i = stage
        what = '%s of %d iterations' % (o['name'], plan.n)
        nothing_left(mon, o, what)
        module = o['runmodule']
        mon.equal([module['insitu_biases'], module['global_biases']], plan.biases, 'bias switches of ' + what)
        if kind in ('solve', 'prior'):
            mon.check(o['step']['python_class'].endswith('StepOnce'), 'solution more than once: ' + what)
        else:
            text = [plan.start.isoformat()[:10].replace('-', '') + '000000', plan.end.isoformat()[:10].replace('-', '') + '000000']
            mon.equal([o['step']['start'], o['step']['end']], text, 'period of ' + what)
        if kind != 'grid':
            mon.equal(module['component_index'], k, 'component of ' + what)
        declared = [d['name'] for d in o['newdatasets']]
        mon.equal(len(set(declared)), len(declared), 'data sets declared by ' + what)
        read, written = references(module)
        mon.equal(sorted(name for name, _ in written), sorted(declared), 'data sets written and declared by ' + what)
        for name, key in written:
            mon.count('writes judged')
            mon.check(name not in made, '%s written again by %s' % (name, what))
        for d in o['newdatasets']:
            pattern = d['subsets'][0]['layout']['patterns']
            mon.check(all(p not in produced.values() for p in ['/'.join(pattern)]), 'files of %s shared with another data set' % d['name'])
            produced[d['name']] = '/'.join(pattern)
        for name, key in read:
            if name.startswith(('rawbinary_', 'locationlookup_')):
                continue
            mon.count('reads judged')
            mon.check(name in made, '%s read by %s before any operation writes it' % (name, what))
        # which results each storage is given
        for index, store in enumerate(STORES):
            entry = module[store]
            given = {key: v['datasetname'] for key, v in entry.items() if isinstance(v, dict) and 'datasetname' in v and '_read' in key}
            states = [v for key, v in given.items() if key.startswith('state')]
            if kind in ('measure', 'local') and index != k:
                previous = i if index < k else i - 1
                mon.equal(states, ['%s_%d' % (plan.solved[index], previous)] if previous >= 0 else [], 'state of %s for %s' % (store, what))
            if kind == 'grid':
                mon.equal(states, ['%s_%d' % (plan.solved[index], last)], 'state of %s for %s' % (store, what))
                samples = sorted(v for key, v in given.items() if 'sample' in key)
                mon.equal(samples, sorted(['%s_sample_%d' % (plan.solved[index], last), '%s_prior_sample_%d' % (plan.solved[index], last)]), 'samples of %s for %s' % (store, what))
            if kind == 'solve' and index == k:
                mon.equal(given.get('measurementfilelist_read'), '%s_%d' % (plan.measured[k], i), 'measurements for ' + what)
        for name in declared:
            made[name] = stage
        if kind in ('solve', 'local'):
            mon.check('%s_%d' % (plan.solved[k], i) in declared, 'the state is not written by ' + what)
            mon.equal(bool(module['compute_sample']), i == last, 'sampling in ' + what)
            mon.equal('%s_sample_%d' % (plan.solved[k], i) in declared, i == last, 'sample files of ' + what)
    for k in range(3):
        mon.check('%s_prior_sample_%d' % (plan.solved[k], last) in made, 'no prior sample of component %d' % k)


def flow(rng, mon):
    """The data flow of a descriptor, read as a whole."""
    with mon.scratch() as folder:
        n = int(rng.choice([1, 2, 3, 5, 12, 13]))
        start = EPOCH + DAY * int(rng.randint(0, 62000))
        end = start + DAY * int(rng.choice([0, 1, 30, 400, 20000]))
        plan = Plan(rng, folder, start, end, n)
        for batch in (False, True):
            path, descriptor = plan.make(folder, batch)
            judge_flow(mon, plan, descriptor, batch)
        none = Plan(rng, folder, start, end, 0)
        mon.raises(lambda: none.make(folder, bool(rng.randint(2))), 'no iterations', ValueError)
        mon.case((n, plan.biases, (end - start).days), n > 1)


def sources(rng, mon):
    """Only the sources listed are used; a field left empty is refused."""
    with mon.scratch() as folder:
        plan = Plan(rng, folder, EPOCH, EPOCH + DAY, 1)
        names = sorted(SOURCES)
        keep = [names[i] for i in rng.permutation(5)[:rng.randint(0, 6)]]
        before = FullstaceJsonFiller.INPUTSOURCE_LIST
        FullstaceJsonFiller.INPUTSOURCE_LIST = keep
        try:
            for batch in (False, True):
                path, descriptor = plan.make(folder, batch)
                for o in descriptor['operations']:
                    if plan.stage(o['name'])[0] in ('measure', 'local'):
                        mon.equal(sorted(s['name'] for s in o['runmodule']['inputsources']), sorted(keep), 'input sources of ' + o['name'], event='sources kept')
                    elif plan.stage(o['name'])[0] != 'grid':
                        mon.check('inputsources' not in o['runmodule'], 'observations given to ' + o['name'])
        finally:
            FullstaceJsonFiller.INPUTSOURCE_LIST = before
        nested = {'a': 1, 'b': [{'c': 'x', 'd': [1, {'e': 0}]}, {'f': False, 'g': ''}]}
        FullstaceJsonFiller.check_none(nested)
        target = [nested, nested['b'][0]['d'][1], nested['b'][1]][rng.randint(3)]
        target['empty'] = None
        mon.raises(lambda: FullstaceJsonFiller.check_none([nested] if rng.randint(2) else nested), 'a field left empty', ValueError)
        mon.case(tuple(keep), len(keep) not in (0, 5))


class Loader(object):
    """Observations of one day from one source, known by the files it was given."""
    table, log = {}, []

    def __init__(self, time_index, **source):
        source.pop('name', None)
        self.index = int(time_index)
        Loader.log.append((self.index, source))
        present = sorted(os.path.basename(f) for f in source['observable_filenames'].values() if f)
        self.key = present[0] if present else None

    def datetime_at_time_index(self, index):
        return EPOCH + DAY * int(index)

    def load_observation_structure(self, observable, index, log=None):
        assert int(index) == self.index
        return Loader.table[self.key] if self.key else Loader.empty[self.index]


class World(object):
    """Input files, and which observations they stand for."""

    def __init__(self, rng, folder, days, chosen):
        self.names = chosen
        self.base = os.path.join(folder, 'in')
        self.days = days
        self.datasets, self.expected = [], {}
        Loader.table, Loader.log, Loader.empty = {}, [], {}
        fixed = lambda name, kind: self.dataset(name, [[kind + '.bin']], [kind + '.bin'])
        fixed('locationlookup_insitu_land', 'lookup_land')
        fixed('locationlookup_satellite', 'lookup_satellite')
        for i, day in enumerate(days):
            o = observed(rng, day, {})
            Loader.empty[(day - EPOCH).days] = o.rows(numpy.arange(0))
        gaps = rng.choice([0.0, 0.3, 0.7])
        present = {}
        for name in self.names:
            for day in days:
                present[name, day] = rng.rand() >= gaps
        for day in days:
            if not any(present[name, day] for name in self.names):
                present[self.names[rng.randint(len(self.names))], day] = True
        for name in self.names:
            kinds = SOURCES[name]
            for kind in kinds:
                base = 'rawbinary_%s_%s' % (name, kind)
                fixed(base + '_correlationranges', base + '_ranges')
                files = ['%s_%s.bin' % (base, d.isoformat()[:10].replace('-', '')) for d in days if present[name, d]]
                extra = ['%s_%s.bin' % (base, (d).isoformat()[:10].replace('-', '')) for d in (days[0] - DAY, days[-1] + DAY, days[-1] + 40 * DAY) if rng.rand() < 0.5]
                patterns = [[base + '_%Y%m%d.bin']]
                if name == 'insitu_ocean':
                    patterns.append(['mobile_%Y%m%d.bin'])
                    files = files + ['mobile_%s.bin' % f.rsplit('_', 1)[1][:-4] for f in files]
                self.dataset(base, patterns, files + extra)
            for day in days:
                if present[name, day]:
                    stamp = day.isoformat()[:10].replace('-', '')
                    key = sorted('rawbinary_%s_%s_%s.bin' % (name, kind, stamp) for kind in kinds)[0]
                    Loader.table[key] = observed(rng, day, {}, bool(rng.randint(2)))
        self.present = present

    def dataset(self, name, patterns, files):
        base = os.path.join(self.base, name)
        os.makedirs(base)
        for f in files:
            with open(os.path.join(base, f), 'w') as stream:
                stream.write(f)
        self.datasets.append(CatalogueDataSet(name=name, path=base, subsets=[CatalogueDataSubset(DataStorageFiles(p)) for p in patterns]))

    def source(self, name, day):
        """As a loader is to be given it."""
        stamp = day.isoformat()[:10].replace('-', '')
        there = self.present[name, day]
        where = lambda data, f: os.path.join(self.base, data, f)
        result = {}
        if name != 'insitu_ocean':
            data = 'locationlookup_insitu_land' if name == 'insitu_land' else 'locationlookup_satellite'
            result['fixed_location_lookup_filename'] = where(data, 'lookup_land.bin' if name == 'insitu_land' else 'lookup_satellite.bin')
        else:
            result['mobile_location_lookup_filenames'] = {'Tmean': where('rawbinary_insitu_ocean_Tmean', 'mobile_%s.bin' % stamp) if there else None}
        base = lambda kind: 'rawbinary_%s_%s' % (name, kind)
        result['local_correlation_ranges_filenames'] = {kind: where(base(kind) + '_correlationranges', base(kind) + '_ranges.bin') for kind in SOURCES[name]}
        result['observable_filenames'] = {kind: where(base(kind), '%s_%s.bin' % (base(kind), stamp)) if there else None for kind in SOURCES[name]}
        return result

    def loaders(self):
        """For the analysis in memory."""
        result = []
        for name in self.names:
            kinds = SOURCES[name]
            table = {}
            for day in self.days:
                stamp = day.isoformat()[:10].replace('-', '')
                key = sorted('rawbinary_%s_%s_%s.bin' % (name, kind, stamp) for kind in kinds)[0]
                index = (day - EPOCH).days
                table[index] = Loader.table[key] if self.present[name, day] else Loader.empty[index]
            result.append(Memory(table))
        return result


class Memory(object):
    def __init__(self, table):
        self.table = table

    def datetime_at_time_index(self, index):
        return EPOCH + DAY * int(index)

    def load_observation_structure(self, observable, index, log=None):
        return self.table[index]


@contextlib.contextmanager
def small_model(cases, grid):
    """The analysis modules with small components and with a gridding step that only reads."""
    replaced = {'ClimatologyDefinition': lambda *a, **k: ComponentStorage_InMemory(cases[0].element, cases[0].hyperparameters),
                'LargeScaleDefinition': lambda *a, **k: ComponentStorage_InMemory(cases[1].element, cases[1].hyperparameters),
                'LocalDefinition': lambda *a, **k: ComponentStorage_InMemory(cases[2].element, cases[2].hyperparameters),
                'AnalysisSystemInputLoaderRawBinary_OneDay': Loader, 'output_grid': None, 'output_grid_batch': None}
    before = {name: getattr(climatology_module, name) for name in replaced}

    def reading(real):
        signature = inspect.signature(real)

        def stand_in(*args, **parameters):
            return grid(**signature.bind(*args, **parameters).arguments)    # as the real one is called
        return stand_in
    for name in ('output_grid', 'output_grid_batch'):
        replaced[name] = reading(before[name])
    for name, value in replaced.items():
        setattr(climatology_module, name, value)
    try:
        yield
    finally:
        for name, value in before.items():
            setattr(climatology_module, name, value)


class KeptOpen(netCDF4.Dataset):
    def close(self):
        pass


@contextlib.contextmanager
def kept_open(path):
    """Opening the finished catalogue once is much faster than for each of its references."""
    original = getattr(netcdfobjects, 'Dataset', None)
    if original is None:
        yield
        return
    handle = KeptOpen(path, 'r')

    def opened(pathname, mode='r', *args, **kwargs):
        return handle if (pathname, mode) == (path, 'r') else original(pathname, mode, *args, **kwargs)
    netcdfobjects.Dataset = opened
    try:
        yield
    finally:
        netcdfobjects.Dataset = original
        netCDF4.Dataset.close(handle)


def carry_out(rng, mon, batch):
    n = int(rng.choice([1, 2, 2, 3]))
    count = int(rng.choice([1, 2, 2, 3, 4]))
    names = sorted(SOURCES)
    chosen = [names[i] for i in rng.permutation(5)[:rng.choice([1, 1, 2])]]
    start = EPOCH + DAY * int(rng.randint(100, 62000))
    if rng.rand() < 0.6:
        start = datetime.datetime(start.year, rng.randint(1, 13), 1) - DAY * int(rng.randint(0, count + 1))
    days = [start + DAY * i for i in range(count)]
    indices = [(d - EPOCH).days for d in days]
    cases = [[harmonics, seasonal, local][rng.randint(3)](rng), [grandmean, local, seasonal][rng.randint(3)](rng), [local, harmonics][rng.randint(2)](rng)]
    with mon.scratch() as folder:
        plan = Plan(rng, folder, days[0], days[-1], n)
        world = World(rng, folder, days, chosen)
        before = FullstaceJsonFiller.INPUTSOURCE_LIST
        FullstaceJsonFiller.INPUTSOURCE_LIST = chosen
        try:
            path, descriptor = plan.make(folder, batch)
        finally:
            FullstaceJsonFiller.INPUTSOURCE_LIST = before
        catalogue = os.path.join(folder, 'catalogue.nc')
        build.build(Catalogue(datasets=world.datasets), catalogue, nochecksum=True)
        out = os.path.join(folder, 'out')
        build.main(['--allow_unversioned_code', '--update', '--nochecksum', '--pathdefault', out, path, catalogue])
        read = []

        def grid(storage_climatology, storage_large_scale, storage_local, **parameters):
            when = [int(t) for t in (parameters['time_indices'] if batch else [parameters['time_index']])]
            outputs = [parameters[k + ('s' if batch else '')] for k in ('outputfile', 'climatologyfile', 'largescalefile', 'localfile')]
            for position, t in enumerate(when):
                record = {'time': t, 'states': [], 'size': parameters['sample_size']}
                record['out'] = [o[position] if batch else o for o in outputs]
                if not batch:
                    record['date'] = parameters['processdate']
                for store in (storage_climatology, storage_large_scale):
                    record['states'].append((store.state_read(), store.state_sample_read(), store.state_prior_sample_read()))
                local_store = storage_local
                record['states'].append((local_store.partial_state_read(t), local_store.partial_state_sample_read(t), local_store.partial_state_prior_sample_read(t)))
                read.append(record)

        with small_model(cases, grid), kept_open(catalogue):
            for o in descriptor['operations']:
                Loader.log = []
                total = int(CatalogueReaderNetCDF().operationcount(catalogue, o['name']))
                for position in rng.permutation(total):
                    commandrun.commandrun('now', catalogue, o['name'], int(position), allow_toolchain_mismatch=True)
                    mon.count('operations run')
                if plan.stage(o['name'])[0] in ('measure', 'local'):
                    got = sorted(json.dumps([i, s], sort_keys=True) for i, s in Loader.log)
                    expected = sorted(json.dumps([(d - EPOCH).days, world.source(name, d)], sort_keys=True) for d in days for name in world.names)
                    mon.equal(got, expected, 'inputs loaded by ' + o['name'])
                    mon.count('inputs loaded', len(got))
                else:
                    mon.equal(Loader.log, [], 'inputs loaded by ' + o['name'])
        # the same in memory
        stores = [SpaceTimeComponentSolutionStorage_InMemory(), SpaceTimeComponentSolutionStorage_InMemory(), SpatialComponentSolutionStorage_InMemory()]
        makers = [SpaceTimeComponent, SpaceTimeComponent, SpatialComponent]
        system = AnalysisSystem([make(ComponentStorage_InMemory(c.element, c.hyperparameters), s) for make, c, s in zip(makers, cases, stores)], 'Tmean', log=open(os.devnull, 'w'))
        loaders = world.loaders()
        for _ in range(n):
            system.update(loaders, indices)
        mon.equal(sorted(r['time'] for r in read), indices, 'days gridded')
        mon.equal(sorted({r['size'] for r in read}), [FullstaceJsonFiller.OUTPUT_SAMPLE_SIZE], 'size of the sample gridded')
        wanted = FullstaceJsonFiller.STATE_SAMPLE_SIZE
        for record in read:
            t = record['time']
            day = EPOCH + DAY * t
            names = [plan.names[k] for k in ('output_grid_name', 'output_climatology_name', 'output_large_scale_name', 'output_local_name')]
            stamp = day.isoformat()[:10].replace('-', '')
            mon.equal(record['out'], [os.path.join(out, name, stamp[:4], '%s_%s.nc' % (name, stamp)) for name in names], 'gridded output files')
            if 'date' in record:
                mon.equal(record['date'], day, 'date gridded')
            for k, (state, sample, prior) in enumerate(record['states']):
                direct = stores[k].state_read() if k < 2 else stores[k].partial_state_read(t)
                scale = float(numpy.abs(numpy.asarray(direct)).max())
                mon.close(numpy.asarray(state).ravel(), numpy.asarray(direct).ravel(), 'state of component %d after %d iterations' % (k, n), rtol=1e-7, atol=1e-7 * max(scale, 1e-6))
                mon.count('daily states compared' if k == 2 else 'states compared')
                for values, what in ((sample, 'sample'), (prior, 'prior sample')):
                    mon.check(values is not None, 'no %s of component %d' % (what, k))
                    if values is not None:
                        # a squeezed single parameter may have lost its dimension
                        mon.equal(numpy.asarray(values).size, numpy.asarray(direct).size * wanted, 'size of the %s of component %d' % (what, k))
                        mon.check(bool(numpy.all(numpy.isfinite(numpy.asarray(values)))), '%s of component %d not finite' % (what, k))
                        mon.count('samples judged')
        mon.case((batch, n, count, [c.name for c in cases], len({d.month for d in days})), n > 1)


def single_run(rng, mon):
    carry_out(rng, mon, False)


def batch_run(rng, mon):
    carry_out(rng, mon, True)


SCENARIOS = [(flow, 24, 200), (sources, 12, 100), (single_run, 20, 120), (batch_run, 16, 120)]
NEEDS = {'extension': True}
LEVEL = 'exploration'
