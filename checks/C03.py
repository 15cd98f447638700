"""File search, times, tags, sizes and checksums."""

import datetime
import os
import random
import stat
import tarfile

from eumopps.catalogue import build
from eumopps.catalogue import dataset as datasetmodule
from eumopps.catalogue.catalogue import Catalogue
from eumopps.catalogue.checksum import Checksum
from eumopps.catalogue.dataset import CatalogueDataSet, CatalogueDataSubset
from eumopps.catalogue.fileio.formatnetcdf import CatalogueReaderNetCDF
from eumopps.catalogue.search import find_all_files
from eumopps.catalogue.storage import DataStorageFiles, DataStorageTar, DataStorageTarGZip
from eumopps.version.svn import set_allow_unversioned_code

set_allow_unversioned_code(True)

RULE = """A scratch tree is made of files generated from the patterns with known fields, near misses (wrong digit count,
wrong folder, wrong case, another character for a dot), impossible dates and noise; search, build and checksum run on
it with the directory listing in random order, 1 to 64 threads, cksum slowed down at random and files changed or
removed between search and checksum. The monitor knows for each file what its record has to be. Non-trivial: at least
one match and one non-match."""
REQUIRED = {'files listed': 800, 'near misses': 150, 'impossible dates': 40, 'checksums': 300, 'unreadable files': 10, 'slowed checksums': 100,
            'archive members': 20}
ASSUMPTIONS = ['Patterns hold no regular expression operators, and no other name continues after a full match (names are matched from their start)']

TABLE = []
for _i in range(256):
    _c = _i << 24
    for _ in range(8):
        _c = ((_c << 1) ^ 0x04C11DB7 if _c & 0x80000000 else _c << 1) & 0xFFFFFFFF
    TABLE.append(_c)


def posix_cksum(data):
    crc = 0
    for byte in data:
        crc = ((crc << 8) ^ TABLE[(crc >> 24) ^ byte]) & 0xFFFFFFFF
    n = len(data)
    while n:
        crc = ((crc << 8) ^ TABLE[(crc >> 24) ^ (n & 255)]) & 0xFFFFFFFF
        n >>= 8
    return ~crc & 0xFFFFFFFF


def text(rng, n=None):
    letters = 'abcdefghijkXYZ0123456789'
    return ''.join(letters[i] for i in rng.randint(0, len(letters), n or rng.randint(1, 5)))


# pattern lists, and for each what a name is made of
STYLES = [
    ['P_%Y%m%d.nc'], ['P_%Y%m%d%H%M%S.dat'], ['P.%Y.%m.nc'], ['P_%Y.txt'], ['P_%A_%Y%m%d.nc'], ['P_%A-%B_%Y%m%d%H.nc'],
    ['P/%Y/%m/%d/f.bin'], ['P%Y/', 'g_%Y%m%d.nc'], ['P_%A/%B/', '%a_%b_%Y%m%d.nc'], ['P%A/%Y/', '%A_%Y%m%d_%B.nc'],
    ['P_%A_%B_%C.x'], ['P?Q_%Y%m%d.nc'], ['P%Y/%m/', 'k%Y%m%d%H%M.h5'], ['Pfixed.txt'], ['P%A/', 'fixed_%Y%m.nc'], ['P_%B_%Y.q'],
    ['P_%B/', '%b_%Y.nc'], ['P_%C/', 'h%c_%Y%m%d.nc'], ['P%A/%C/', '%a_%c_%A%Y%m.nc'],
    ['P%A/', '%a-%a_%Y.nc'], ['P%Y', '/q_%Y%m.nc'], ['P%A/%B/%C/', '%a%b_%c_%Y.nc'], ['P_%A/%B=', '%C_%a_%Y%m%d.nc'], ['P?_%Y?%m.?c'],
]


def fill(rng, patterns, fields, wild):
    name = ''.join(patterns)
    for key, value in (('%Y', '%04d' % fields['Y']), ('%m', '%02d' % fields['m']), ('%d', '%02d' % fields['d']), ('%H', '%02d' % fields['H']),
                       ('%M', '%02d' % fields['M']), ('%S', '%02d' % fields['S']), ('%A', fields['A']), ('%B', fields['B']), ('%C', fields['C']),
                       ('%a', fields['A'].lower()), ('%b', fields['B'].lower()), ('%c', fields['C'].lower())):
        name = name.replace(key, value)
    return name.replace('?', wild)


def record(patterns, fields):
    """(time, tags) that the name gives, or None if the date is impossible."""
    whole = ''.join(patterns)
    parts = {}
    for key, member in (('Y', 'year'), ('m', 'month'), ('d', 'day'), ('H', 'hour'), ('M', 'minute'), ('S', 'second')):
        if '%' + key in whole:
            parts[member] = fields[key]
    time = None
    if parts:
        parts.setdefault('month', 1)
        parts.setdefault('day', 1)
        try:
            time = datetime.datetime(**parts)
        except ValueError:
            return None
    tags = []
    for key in 'ABC':
        if '%' + key not in whole:
            break
        tags.append(fields[key])
    return time, tags


def random_fields(rng):
    return dict(Y=int(rng.randint(1850, 2020)), m=int(rng.randint(1, 13)), d=int(rng.randint(1, 29)), H=int(rng.randint(24)), M=int(rng.randint(60)),
                S=int(rng.randint(60)), A=text(rng), B=text(rng), C=text(rng))


class Tree(object):
    """Files on disk and what is known about them."""

    def __init__(self, rng, where):
        self.rng, self.where = rng, where
        self.subsets = []         # (patterns, {name: (time, tags)}, set of value errors)
        self.contents = {}

    def add(self, name, kind='random'):
        path = os.path.join(self.where, name)
        if os.path.lexists(path) or any(name.startswith(other + '/') for other in self.contents):
            return False
        if os.path.isdir(path):
            return False
        os.makedirs(os.path.dirname(path), exist_ok=True)
        size = int(self.rng.choice([0, 1, 3, 255, 256, 257, 4096, 70000], p=[.1, .2, .2, .15, .1, .1, .13, .02]))
        data = self.rng.bytes(size)
        with open(path, 'wb') as stream:
            stream.write(data)
        self.contents[name] = data
        return True


def make_tree(rng, mon, where, per_subset):
    tree = Tree(rng, where)
    styles = [STYLES[i] for i in rng.choice(len(STYLES), rng.randint(1, 5), replace=False)]
    for number, style in enumerate(styles):
        prefix = 'n%d' % number
        patterns = [style[0].replace('P', prefix)] + style[1:]
        matches, errors = {}, set()
        base = [random_fields(rng) for _ in range(max(1, per_subset // 3))]
        for _ in range(rng.randint(1, per_subset + 1)):
            # related files: share some of the fields
            fields = dict(base[rng.randint(len(base))])
            other = random_fields(rng)
            for key in fields:
                if rng.rand() < 0.4:
                    fields[key] = other[key]
            if rng.rand() < 0.15 and fields['A'] and len(fields['B']) > 1:
                # values that run together to the same text as another file's
                fields['A'], fields['B'] = fields['A'] + fields['B'][0], fields['B'][1:]
            if rng.rand() < 0.12 and any('%m' in p for p in patterns):
                if rng.rand() < 0.5:
                    fields['m'] = int(rng.choice([0, 13, 99]))
                else:
                    fields['m'], fields['d'] = 2, int(rng.choice([0, 30, 31]))
            if rng.rand() < 0.1:
                key = 'HMS'[rng.randint(3)]
                fields[key] = int(rng.choice([{'H': 24}.get(key, 60), 73, 99]))
            if rng.rand() < 0.05:
                fields['ABC'[rng.randint(3)]] = ''
            elif rng.rand() < 0.1 and len(patterns) == 1 and '/' not in patterns[0]:
                fields['ABC'[rng.randint(3)]] += '/' + text(rng)
            name = fill(rng, patterns, fields, '.-_,~'[rng.randint(5)] if rng.rand() < 0.5 else text(rng, 1))
            expected = record(patterns, fields)
            if '//' in name or not tree.add(name):
                continue
            if expected is None:
                errors.add(name)
                mon.count('impossible dates')
            else:
                matches[name] = expected
        # near misses
        for _ in range(rng.randint(0, per_subset)):
            fields = random_fields(rng)
            name = fill(rng, patterns, fields, 'x')
            how = rng.randint(5)
            year = '%04d' % fields['Y']
            if how == 0 and '.' in patterns[-1]:
                name = name[:name.rindex('.')] + ',' + name[name.rindex('.') + 1:]
            elif how == 1 and '%Y' in patterns[-1]:
                name = name.replace(year, year[:3] + 'o')
            elif how == 2 and len(patterns) == 2 and '%Y' in patterns[0] and '%Y' in patterns[1]:
                name = name.replace(year, '%04d' % (fields['Y'] + 1), 1)
            elif how == 3:
                name = 'z' + name
            elif how == 4 and len(patterns) == 2 and '%a' in patterns[1] and fields['A'].lower() != fields['A']:
                name = fill(rng, [patterns[0], patterns[1].replace('%a', '%A')], fields, 'x')
            else:
                name = name[:-1]
                if patterns[-1].endswith('%C') or '%' in patterns[-1][-2:]:
                    continue
            if tree.add(name):
                mon.count('near misses')
        tree.subsets.append((patterns, matches, errors))
    if rng.rand() < 0.25:
        # a file may belong to several subsets
        tree.subsets.append(tree.subsets[rng.randint(len(tree.subsets))])
        mon.count('subsets in common')
    for _ in range(rng.randint(0, 4)):
        tree.add('noise/%s' % text(rng, 6))
    return tree


def shuffled_walk(rng):
    """os.walk with the listing order of another file system."""
    original = os.walk
    order = random.Random(int(rng.randint(2**31)))

    def walk(top, topdown=True, onerror=None, followlinks=False):
        for directory, subdirs, names in original(top, topdown, onerror, followlinks):
            order.shuffle(subdirs)
            order.shuffle(names)
            yield directory, subdirs, names
    return original, walk


def stripped(tags):
    """Catalogue files do not tell empty tags at the end from absent ones."""
    tags = list(tags)
    while tags and not tags[-1]:
        tags.pop()
    return tags


def judge(mon, tree, data, where):
    every = set()
    for (patterns, matches, errors), subset in zip(tree.subsets, data.subsets):
        got = {}
        for m in subset.matches:
            mon.check(m.name not in got, 'listed twice: %s' % m.name)
            got[m.name] = m
        mon.check(set(got) == set(matches), lambda: 'files listed for %s: extra %s, missing %s' % (
            patterns, sorted(set(got) - set(matches))[:5], sorted(set(matches) - set(got))[:5]))
        for name, (time, tags) in matches.items():
            mon.equal((got[name].time, stripped(got[name].tags or [])), (time, stripped(tags)), 'time and tags of %s by %s' % (name, patterns), event='files listed')
        mon.equal(sorted(subset.value_errors or []), sorted(errors), 'impossible dates of %s' % patterns)
        every |= set(matches) | errors
    mon.equal(sorted(data.non_matching or []), sorted(set(tree.contents) - every), 'files without match')


def expected_checksum(content):
    return None if content is None else (str(posix_cksum(content)), len(content))


def slow_cksum(where, rng, mon):
    """A directory for the front of PATH in which cksum takes a while, differently for each file."""
    os.makedirs(where)
    path = os.path.join(where, 'cksum')
    with open(path, 'w') as stream:
        stream.write('#!/bin/sh\ncase "$*" in %s) sleep 0.%02d;; %s) sleep 0.1;; esac\nexec /usr/bin/cksum "$@"\n' % (
            '*%s*' % 'abcdefgh'[rng.randint(8)], rng.randint(1, 30), '*%d*' % rng.randint(10)))
    os.chmod(path, stat.S_IRWXU)
    return where


def search(rng, mon):
    with mon.scratch() as where:
        base = os.path.join(where, 'data')
        os.makedirs(base)
        tree = make_tree(rng, mon, base, 12)
        data = CatalogueDataSet(name='d', path=base, subsets=[CatalogueDataSubset(DataStorageFiles(p)) for p, _, _ in tree.subsets])
        original, walk = shuffled_walk(rng)
        try:
            os.walk = walk
            mon.equal(sorted(find_all_files(base)), sorted(tree.contents), 'all files')
            for _ in range(rng.randint(1, 3)):
                data.search()
                judge(mon, tree, data, where)
            for wrong in ([], ['a%Y/', '%m/', '%d.nc']):
                refused = CatalogueDataSet(name='d', path=base, subsets=[CatalogueDataSubset(DataStorageFiles(wrong))])
                mon.raises(refused.search, 'search with %d patterns' % len(wrong))
            # searching again gives the same, after more files too
            if rng.rand() < 0.5:
                tree.add('noise/later')
                data.search()
                judge(mon, tree, data, where)
        finally:
            os.walk = original
        mon.case(('search', [s[0] for s in tree.subsets], len(tree.contents)), any(s[1] for s in tree.subsets))


def checksums(rng, mon):
    with mon.scratch() as where:
        base = os.path.join(where, 'data')
        os.makedirs(base)
        tree = make_tree(rng, mon, base, int(rng.choice([2, 8, 30])))
        data = CatalogueDataSet(name='d', path=base, subsets=[CatalogueDataSubset(DataStorageFiles(p)) for p, _, _ in tree.subsets])
        data.search()
        judge(mon, tree, data, where)
        listed = [(s, m) for s in data.subsets for m in s.matches]
        # the files change between search and checksum
        known = {}
        for _, m in listed:
            if m.name in known:
                continue
            path = os.path.join(base, m.name)
            content = tree.contents[m.name]
            chance = rng.rand()
            if chance < 0.08:
                os.remove(path)
                content = None
                mon.count('unreadable files')
            elif chance < 0.12:
                os.remove(path)
                os.symlink('nowhere', path)
                content = None
                mon.count('unreadable files')
            elif chance < 0.2:
                content = content + b'!'
                with open(path, 'wb') as stream:
                    stream.write(content)
            known[m.name] = expected_checksum(content)
        threads = int(rng.choice([1, 2, 3, 5, 7, 16, 63, 64, 65, 200]))
        before, path_before = datasetmodule.CHECKSUM_NUM_THREADS, os.environ['PATH']
        slow = rng.rand() < 0.5
        try:
            datasetmodule.CHECKSUM_NUM_THREADS = threads
            if slow:
                os.environ['PATH'] = slow_cksum(os.path.join(where, 'bin'), rng, mon) + ':' + path_before
            data.checksum()
            result = [(m.name, m.checksum, m.size) for _, m in listed]
        finally:
            datasetmodule.CHECKSUM_NUM_THREADS = before
            os.environ['PATH'] = path_before
        for name, checksum, size in result:
            expected = known[name]
            got = None if checksum is None and size is None else (str(checksum), None if size is None else int(size))
            mon.equal(got, expected, 'checksum and size of %s with %d threads' % (name, threads), event='checksums')
        if slow:
            mon.count('slowed checksums', len(known))
        # a later change shows
        if known:
            name = sorted(known)[rng.randint(len(known))]
            path = os.path.join(base, name)
            if known[name] is not None:
                with open(path, 'rb') as stream:
                    data_bytes = bytearray(stream.read() or b'x')
                data_bytes[rng.randint(len(data_bytes))] ^= 1 << int(rng.randint(8))
                with open(path, 'wb') as stream:
                    stream.write(bytes(data_bytes))
                again = Checksum(path)
                mon.check((str(again.checksum), int(again.size)) == expected_checksum(bytes(data_bytes)), 'checksum of a changed file', event='checksums')
                mon.check((str(again.checksum), int(again.size)) != known[name], 'a changed file has the old record', event='checksums')
        mon.case(('checksum', threads, len(known), slow), len(known) > 1)


def built(rng, mon):
    """Search and checksum through the catalogue build, read back from the catalogue."""
    with mon.scratch() as where:
        base = os.path.join(where, 'data')
        os.makedirs(base)
        tree = make_tree(rng, mon, base, 6)
        other = os.path.join(where, 'other')
        os.makedirs(other)
        with open(os.path.join(other, 'only_2001.nc'), 'w') as stream:
            stream.write('two')
        cat = Catalogue(datasets=[
            CatalogueDataSet(name='x', path=other, subsets=[CatalogueDataSubset(DataStorageFiles(['only_%Y.nc']))]),
            CatalogueDataSet(name='d', path=base, subsets=[CatalogueDataSubset(DataStorageFiles(p)) for p, _, _ in tree.subsets])])
        path = os.path.join(where, 'c.nc')
        chosen = rng.rand() < 0.4
        build.build(cat, path, dataset_filter='d' if chosen else None)
        loaded = CatalogueReaderNetCDF().load(path)
        mon.equal([d.name for d in loaded.datasets], ['d'] if chosen else ['x', 'd'], 'data sets built')
        data = loaded.dataset('d')
        judge(mon, tree, data, where)
        for s in data.subsets:
            for m in s.matches:
                mon.equal((m.checksum, int(m.size)), expected_checksum(tree.contents[m.name]), 'checksum of %s' % m.name, event='checksums')
        mon.case(('built', len(tree.contents), chosen), len(tree.contents) > 1)


def archives(rng, mon):
    with mon.scratch() as where:
        base = os.path.join(where, 'data')
        os.makedirs(base)
        zipped = rng.rand() < 0.5
        expected, unused, impossible = {}, set(), []
        names = set()
        for _ in range(rng.randint(1, 5)):
            fields = random_fields(rng)
            archive = 'arch_%04d.tar' % fields['Y'] + ('.gz' if zipped else '')
            if archive in names:
                continue
            names.add(archive)
            with tarfile.open(os.path.join(base, archive), 'w:gz' if zipped else 'w') as tar:
                inside = set()
                for _ in range(rng.randint(0, 7)):
                    f = random_fields(rng)
                    good = rng.rand() < 0.7
                    wrong = good and rng.rand() < 0.15
                    if wrong:
                        f['m'] = 13
                    name = ('in_%s_%04d%02d%02d.nc' if good else 'out_%s_%04d%02d%02d.nc') % (f['A'], f['Y'], f['m'], f['d'])
                    if name in inside:
                        continue
                    inside.add(name)
                    source = os.path.join(where, 'member')
                    open(source, 'w').close()
                    tar.add(source, name)
                    if wrong:
                        impossible.append(name)
                    elif good:
                        expected[archive + ':' + name] = (datetime.datetime(f['Y'], f['m'], f['d']), [f['A']])
                    else:
                        unused.add(archive + ':' + name)
        open(os.path.join(base, 'other.txt'), 'w').close()
        layout = (DataStorageTarGZip if zipped else DataStorageTar)('arch_%Y.tar' + ('.gz' if zipped else ''), 'in_%A_%Y%m%d.nc')
        data = CatalogueDataSet(name='d', path=base, subsets=[CatalogueDataSubset(layout)])
        for _ in range(rng.randint(1, 3)):
            data.search()
        mon.equal(sorted(name.split(':')[-1] for name in data.subsets[0].value_errors), sorted(impossible), 'impossible dates in archives')
        got = {m.name: (m.time, list(m.tags)) for m in data.subsets[0].matches}
        mon.equal(len(data.subsets[0].matches), len(got), 'entries listed twice')
        mon.equal(got, expected, 'archive members', event='archive members')
        mon.count('archive members', len(expected))
        flat = []
        for element in data.subsets[0].archive_unused:
            flat.extend([element] if isinstance(element, str) else element)
        mon.equal(sorted(flat), sorted(unused), 'unused archive members')
        mon.equal(sorted(data.non_matching), ['other.txt'], 'files without match')
        build.build(Catalogue(datasets=[CatalogueDataSet(name='d', path=base, subsets=[CatalogueDataSubset(layout)])]), os.path.join(where, 'c.nc'), nochecksum=True)
        stored = CatalogueReaderNetCDF().load(os.path.join(where, 'c.nc')).datasets[0]
        mon.equal({m.name: (m.time, [str(t) for t in m.tags]) for m in stored.subsets[0].matches}, expected, 'archive members in a catalogue')
        mon.equal(sorted(name for element in stored.subsets[0].archive_unused for name in ([element] if isinstance(element, str) else element) if name), sorted(unused),
                  'unused archive members in a catalogue')
        mon.case(('archive', zipped, len(names), len(expected), len(unused)), expected)


SCENARIOS = [(search, 400, 3000), (checksums, 200, 1500), (built, 100, 700), (archives, 100, 700)]
