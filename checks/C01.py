"""Saved catalogues load back unchanged."""

import datetime
import io
import json
import os

from eumopps.catalogue import placeholder
from eumopps.catalogue.catalogue import Catalogue
from eumopps.catalogue.dataset import CatalogueDataSet, CatalogueDataSubset, CatalogueFileEntry
from eumopps.catalogue.fileio.formatjson import CatalogueReaderJSON, CatalogueWriterJSON
from eumopps.catalogue.fileio.formatnetcdf import CatalogueReaderNetCDF, CatalogueWriterNetCDF
from eumopps.catalogue.operation import Operation
from eumopps.catalogue.step import StepDaily, StepOnce
from eumopps.catalogue.storage import DataStorageFiles, DataStorageTar, DataStorageTarGZip
from eumopps.catalogue import commandcount
from eumopps.version.svn import set_allow_unversioned_code
from vmodule.record import Holder, RunRecord

set_allow_unversioned_code(True)

RULE = """Random catalogues (0-4 data sets, 0-3 subsets, 0-8 file matches with any mix of absent time, tags, size and
checksum, operations with daily or single steps and nested parameters, resolved against the catalogue or not) are
saved and loaded with the real reader and writer; the monitor compares the structures member by member. Non-trivial:
at least one file match or operation."""
REQUIRED = {'entries compared': 200, 'operations compared': 50, 'reduced reads': 50, 'lookups': 30, 'members compared': 1000}
ASSUMPTIONS = ['An absent member, an empty list and (in text lists) an empty text are the same thing to the formats',
               'Names are ASCII; times have whole seconds; the catalogue has an operation when operations are counted']

WORDS = ['alpha', 'b', 'Some Data', 'x_y-z', 'eustace.analysis', '%Y%m%d', 'long' * 12, '7', '0', 'a/b/c.nc', 'None', ' lead', 'q?']


def word(rng):
    if rng.rand() < 0.04:
        return 'w' * int(rng.choice([62, 63, 64, 65, 127, 200, 300])) + str(rng.randint(10))
    return WORDS[rng.randint(len(WORDS))] + str(rng.randint(1000))


def moment(rng):
    if rng.rand() < 0.1:
        return datetime.datetime(1850, 1, 1)
    return datetime.datetime(1850, 1, 1) + datetime.timedelta(days=int(rng.randint(-40000, 100000)), seconds=int(rng.randint(86400)))


def made(kind, **members):
    """An object whose members are the given ones, whatever its constructor makes of them."""
    item = kind(**members)
    for key, member in members.items():
        setattr(item, key, member)
    return item


def entry(rng, style):
    # members that may be absent in the whole list, in some of it or in none of it
    def maybe(key, value):
        mode = style[key]
        return value if mode == 2 or (mode == 1 and rng.rand() < 0.6) else None
    return made(
        CatalogueFileEntry,
        name=word(rng) + '.nc',
        time=maybe('time', moment(rng)),
        tags=maybe('tags', [word(rng) for _ in range(rng.randint(1, 4))]),
        checksum=maybe('checksum', str(rng.randint(0, 2**31 - 1) * 2)),
        size=maybe('size', int(rng.choice([0, 1, 1024, 2**31, 2**40])) + int(rng.randint(5))))


def dataset(rng, name):
    subsets = []
    for _ in range(rng.randint(1, 4)):
        style = {key: int(rng.randint(3)) for key in ('time', 'tags', 'checksum', 'size')}
        kind = rng.randint(4)
        nested = rng.rand() < 0.6
        if kind < 2:
            layout = made(DataStorageFiles, patterns=[word(rng) for _ in range(rng.randint(1, 3))])
        elif kind == 2:
            layout = made([DataStorageTar, DataStorageTarGZip][rng.randint(2)], archivepathname=word(rng), internalpathname=word(rng))
        else:
            layout = made(DataStorageFiles, patterns=['%Y/', 'f_%Y%m%d.nc'])
        subsets.append(made(
            CatalogueDataSubset,
            layout=layout,
            matches=[entry(rng, style) for _ in range(rng.randint(0, 9))],
            value_errors=[word(rng) for _ in range(rng.randint(0, 3) if rng.rand() < 0.95 else 300)],
            archive_unused=[[word(rng) for _ in range(rng.randint(1, 5))] if nested else word(rng) for _ in range(rng.randint(0, 3) if rng.rand() < 0.95 else 300)]))
    return made(CatalogueDataSet, name=name, path='/' + word(rng), toolchain=[word(rng)] if rng.rand() < 0.7 else None,
                            subsets=subsets, non_matching=[word(rng) for _ in range(rng.randint(0, 4))])


def value(rng, depth=0):
    kind = rng.randint(9 if depth < 2 else 6)
    if kind == 0:
        return word(rng)
    if kind == 1:
        return [int(rng.randint(-5, 10**6)), 2**53 + 1, -2**62 - 3, 0, 2**31][rng.randint(5)]
    if kind == 2:
        return [float(rng.randn()), 0.0, 1e300, 5e-324, -1.0 / 3, 7.0][rng.randint(6)]
    if kind == 3:
        if depth and rng.rand() < 0.3:
            return [[int(v) * 2**40 for v in rng.randint(-99, 99, rng.randint(1, 6))] for _ in range(rng.randint(1, 5))]
        return [int(v) for v in rng.randint(0, 99, rng.randint(1, 6))] + ([2**60 + 1] if rng.rand() < 0.2 else [])
    if kind == 4:
        if depth and rng.rand() < 0.3:
            return [[float(v) for v in rng.randn(rng.randint(1, 6))] for _ in range(rng.randint(1, 5))]
        return [float(v) for v in rng.randn(rng.randint(1, 6))] + ([1e-310] if rng.rand() < 0.2 else [])
    if kind == 5:
        return [word(rng) for _ in range(rng.randint(1, 5))]
    if kind == 6:
        return {'k%d' % i: value(rng, depth + 1) for i in range(rng.randint(1, 4))}
    if kind == 7:
        return Holder(first=value(rng, depth + 1), second=value(rng, depth + 1), number=int(rng.randint(100)))
    return [dict(a=value(rng, depth + 1), b=dict(c=value(rng, depth + 1), d=Holder(number=i))) for i in range(rng.randint(1, 3))]


def operation(rng, number, datasets, forjson):
    """Parameters with lists per step, as after resolving, or plain ones."""
    long = rng.rand() < 0.05
    steps = int(rng.choice([130, 300, 1100]) if long else rng.randint(1, 7))
    start = moment(rng).replace(hour=0, minute=0, second=0)
    step = StepDaily(start, start + datetime.timedelta(days=steps - 1)) if rng.rand() < 0.8 else StepOnce()
    count = step.count()
    parameters = {'p%d' % i: value(rng) for i in range(rng.randint(1, 5))}
    from eumopps.catalogue.operationparameters import OperationFileListReference, OperationFileReference, OperationParameterList
    rows = [[int(v) for v in rng.randint(0, 3, 3)] for _ in range(count)]
    parameters['one'] = OperationFileReference(rows)
    ragged = [[int(v) for v in rng.randint(-1, 3, 3 * rng.randint(1, 4))] for _ in range(count)]
    if long:
        ragged[-1] = [int(v) for v in rng.randint(-1, 3, 3 * rng.randint(4, 9))]
    parameters['many'] = OperationFileListReference(ragged)
    if isinstance(step, StepDaily):
        parameters['time'] = OperationParameterList([step.time_at_index(i) for i in range(count)])
    parameters['index'] = OperationParameterList(list(range(count)))
    if rng.rand() < 0.4:
        parameters['nested'] = Holder(first=OperationFileReference([list(r) for r in rows]), second=word(rng), number=int(rng.randint(50)))
    if rng.rand() < 0.4:
        parameters['dated'] = Holder(first=moment(rng), second=word(rng), number=int(rng.randint(50)))
    if rng.rand() < 0.3:
        for extra in ('items', 'items_more', 'items_00000000_x')[:rng.randint(2, 4)]:
            parameters[extra] = [dict(b=dict(c=value(rng, 2), d=Holder(number=i))) for i in range(rng.randint(1, 12))]
    name = 'op %d' % number
    if rng.rand() < 0.3:
        module = RunRecord(log=word(rng), inputs=parameters['many'], index=parameters['index'])
    else:
        module = dict(parameters, python_function='vmodule.record.run%d' % number)
    if rng.rand() < 0.05:                       # only plain parameters, at many steps
        count = int(rng.choice([32768, 65535, 65536, 70001, 10**6]))
        module = dict(text=word(rng), python_function='vmodule.record.run%d' % number)
        step = StepDaily(start, start + datetime.timedelta(days=count - 1)) if start.year < 1900 and count < 80000 else step
    return made(Operation, runmodule=module, step=step, name=name, toolchain=[word(rng)], count=count)


def catalogue(rng, forjson=False):
    # operations need a data set; a catalogue may also be empty
    many = rng.rand() < 0.06
    names = ['set%d' % i for i in range(rng.randint(9, 14) if many else rng.randint(0, 5))]
    datasets = [dataset(rng, n) for n in names]
    operations = [operation(rng, i, datasets, forjson) for i in range(rng.randint(9, 13) if many else rng.randint(0, 4))] if datasets else []
    if datasets and rng.rand() < 0.1:
        style = {key: int(rng.randint(3)) for key in ('time', 'tags', 'checksum', 'size')}
        datasets[0].subsets[0].matches = [entry(rng, style) for _ in range(rng.choice([100, 257, 1030, 5000], p=[0.2, 0.2, 0.2, 0.4]))]
    if rng.rand() < 0.3:
        return Catalogue(datasets=datasets, operations=operations)
    return made(Catalogue, datasets=datasets, operations=operations, identifier=word(rng))


def normal(item, counter=None):
    """Members without the absent ones; lists of texts without trailing empty ones."""
    if item is None or isinstance(item, (str, bytes)):
        return item or None
    if isinstance(item, datetime.datetime):
        return item
    if hasattr(item, 'item') and getattr(item, 'ndim', None) == 0:
        item = item.item()
    if isinstance(item, (bool, int, float)):
        return float(item) if isinstance(item, float) else item
    if hasattr(item, '__dict__'):
        result = {'CLASS': type(item).__module__ + '.' + type(item).__name__}
        result.update({k: v for k, v in ((k, normal(v, counter)) for k, v in item.__dict__.items()) if v is not None})
        if counter is not None:
            counter['objects'] = counter.get('objects', 0) + 1
            counter['members'] = counter.get('members', 0) + len(result)
        return result
    if isinstance(item, dict):
        return {k: v for k, v in ((k, normal(v, counter)) for k, v in item.items()) if v is not None}
    elements = [normal(v, counter) for v in item]
    while elements and elements[-1] is None:
        elements.pop()
    return elements or None


def difference(a, b, path=''):
    """First difference of two normal forms, or None."""
    if isinstance(a, dict) and isinstance(b, dict):
        for key in sorted(set(a) | set(b)):
            if key not in a or key not in b:
                return '%s/%s: %r, expected %r' % (path, key, b.get(key), a.get(key))
            found = difference(a[key], b[key], path + '/' + key)
            if found:
                return found
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return '%s: %d elements %r, expected %d %r' % (path, len(b), b, len(a), a)
        for i, (x, y) in enumerate(zip(a, b)):
            found = difference(x, y, '%s[%d]' % (path, i))
            if found:
                return found
        return None
    if type(a) != type(b) or a != b:
        return '%s: %r, expected %r' % (path, b, a)
    return None


def compare(mon, before, after, what):
    counter = {}
    found = difference(normal(before, counter), normal(after))
    entries = sum(len(s.matches) for d in before.datasets for s in d.subsets)
    mon.count('entries compared', entries)
    mon.count('operations compared', len(before.operations))
    mon.count('members compared', counter.get('members', 0))
    mon.check(found is None, lambda: '%s: %s' % (what, found), event='catalogues compared')
    return entries


def lookups(rng, mon, cat):
    """Data sets by name."""
    for i, d in enumerate(cat.datasets):
        mon.equal(cat.datasetindex(d.name), i, 'index of data set ' + d.name, event='lookups')
        mon.check(cat.dataset(d.name) is d, 'data set by name')
        mon.equal(cat.number_of_subsets(d.name), len(d.subsets), 'number of subsets of ' + d.name)
        for k in range(-2, len(d.subsets) + 2):
            mon.check(cat.datasubset(d.name, k) is (d.subsets[k] if 0 <= k < len(d.subsets) else None), lambda: 'subset %d of %d of %s' % (k, len(d.subsets), d.name))
    for name in ('', 'set', 'Set0', 'set00', 'unknown'):
        mon.equal([cat.datasetindex(name), cat.dataset(name), cat.datasubset(name, 0), cat.number_of_subsets(name)], [None, None, None, 0], 'data set "%s" that does not exist' % name)


def netcdf_round_trip(rng, mon):
    cat = catalogue(rng)
    with mon.scratch() as where:
        path = os.path.join(where, 'c.nc')
        CatalogueWriterNetCDF().save(path, cat)
        loaded = CatalogueReaderNetCDF().load(path)
        entries = compare(mon, cat, loaded, 'NetCDF')
        lookups(rng, mon, loaded)
        mon.case(('netcdf', len(cat.datasets), entries, len(cat.operations), cat.identifier), entries or cat.operations)
        reduced(rng, mon, path, cat)
        # a second generation is the same again
        path2 = os.path.join(where, 'c2.nc')
        CatalogueWriterNetCDF().save(path2, loaded)
        compare(mon, cat, CatalogueReaderNetCDF().load(path2), 'NetCDF, second generation')
        # saving over an existing, larger or smaller catalogue leaves nothing of it
        other = catalogue(rng)
        CatalogueWriterNetCDF().save(path2, other)
        compare(mon, other, CatalogueReaderNetCDF().load(path2), 'NetCDF, overwritten')


def reduced(rng, mon, path, cat):
    reader = CatalogueReaderNetCDF()
    mon.equal(str(reader.load_identifier(path)), str(cat.identifier), 'identifier by itself', event='reduced reads')
    for op in cat.operations:
        size = int(rng.randint(1, 9))
        names = [op.name]
        if isinstance(op.runmodule, dict):
            names.append(op.runmodule['python_function'])
        for name in names:
            mon.equal(int(reader.operationcount(path, name)), op.count, 'operation count', event='reduced reads')
            mon.equal(int(reader.operationcount(path, name, size)), -(-op.count // size), 'batches of %d for %d' % (size, op.count), event='reduced reads')
            found = difference(normal(op), normal(reader.load_operation(path, name)))
            mon.check(found is None, lambda: 'operation %s by itself: %s' % (name, found), event='reduced reads')
        stream = io.StringIO()
        commandcount.main([path, op.name, '--batchsize', str(size)], outputstream=stream)
        mon.equal(int(stream.getvalue()), -(-op.count // size), 'command count', event='reduced reads')
    if cat.operations:
        mon.equal(int(reader.operationcount(path, 'no such operation')), 0, 'count of an unknown operation', event='reduced reads')
    from eumopps.catalogue.datareference import DataReference
    references, expected = [], []
    for di, d in enumerate(cat.datasets):
        for si, s in enumerate(d.subsets):
            for ei, e in enumerate(s.matches):
                if rng.rand() < 0.5:
                    references.append(DataReference(di, si, ei))
                    expected.append(os.path.join(d.path, e.name))
            if s.matches and rng.rand() < 0.3:
                references.append(DataReference(di, si, -1))
                expected.append(None)
    order = rng.permutation(len(references))
    mon.equal(reader.load_data_pathnames(path, [references[i] for i in order]), [expected[i] for i in order], 'path names', event='reduced reads')
    # one operation of a name given twice is never chosen silently
    if len(cat.operations) > 1:
        twice = Catalogue(datasets=cat.datasets, operations=[cat.operations[0], cat.operations[0]])
        CatalogueWriterNetCDF().save(path + '2', twice)
        mon.raises(lambda: reader.load_operation(path + '2', cat.operations[0].name), 'ambiguous operation name')


def json_round_trip(rng, mon):
    cat = catalogue(rng, True)
    with mon.scratch() as where:
        path = os.path.join(where, 'c.json')
        CatalogueWriterJSON().save(path, cat)
        with open(path) as stream:
            json.load(stream)
        loaded = CatalogueReaderJSON().load(path)
        entries = compare(mon, cat, loaded, 'JSON')
        mon.case(('json', len(cat.datasets), entries, len(cat.operations), cat.identifier), entries or cat.operations)
        # across the formats
        CatalogueWriterNetCDF().save(os.path.join(where, 'c.nc'), loaded)
        compare(mon, cat, CatalogueReaderNetCDF().load(os.path.join(where, 'c.nc')), 'JSON, then NetCDF')


def resolved_round_trip(rng, mon):
    """Operations resolved by the library itself, before and after storage."""
    days = int(rng.randint(1, 9))
    start = moment(rng).replace(hour=0, minute=0, second=0)
    times = [start + datetime.timedelta(days=i) for i in range(days)]
    keep = [t for t in times if rng.rand() < 0.7] or times[:1]
    entries = [CatalogueFileEntry(name='d_%s.nc' % t.isoformat()[:10].replace('-', ''), time=t, tags=[], size=int(rng.randint(9)), checksum='7') for t in keep]
    rng.shuffle(entries)
    policy = ['allowed', 'skip'][rng.randint(2)]
    cat = Catalogue(datasets=[CatalogueDataSet(name='daily', path='/in', subsets=[CatalogueDataSubset(DataStorageFiles(['d_%Y%m%d.nc']), matches=entries)])])
    op = Operation({'python_function': 'vmodule.record.run', 'daily': placeholder.InputFile('daily', 0, policy),
                    'list': placeholder.InputFileList('daily', 0, policy), 'time': placeholder.StepTime(), 'index': placeholder.StepIndex(),
                    'out': placeholder.OutputFile('result'), 'fixed': word(rng)},
                   StepDaily(times[0], times[-1]), name='work',
                   newdatasets=[CatalogueDataSet(name='result', path='/out', subsets=[CatalogueDataSubset(DataStorageFiles(['r_%Y%m%d.nc']))])])
    cat.operations.append(op)
    op.resolve_operation_references(cat)
    with mon.scratch() as where:
        path = os.path.join(where, 'c.nc')
        CatalogueWriterNetCDF().save(path, cat)
        compare(mon, cat, CatalogueReaderNetCDF().load(path), 'resolved catalogue')
        mon.case(('resolved', days, len(keep), policy))
        reduced(rng, mon, path, cat)


SCENARIOS = [(netcdf_round_trip, 110, 1500), (json_round_trip, 80, 1500), (resolved_round_trip, 50, 600)]
