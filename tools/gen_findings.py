"""Writes known_findings.json from the list below and the fix commits of /repo (run by hand, never by a check)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# genuine defects recorded, not repaired: the check reports KNOWN-FINDING for exactly these
KNOWN = [
 {'property': 'C04', 'key': 'mid-month-epoch-month', 'status': 'known',
  'what': 'StepMidMonth.time_at_index with an epoch after January counts months from January of the epoch year, so the time of step i is not in the month that step i is assigned (examples/stepmidmonth.py; files under examples may not be changed here)'},
 {'property': 'C06', 'key': 'north-pole-in-south-row', 'status': 'known',
  'what': 'satgrid_iris command with -wrapcoords (always on from the command line): pixels at exactly 90 degrees north are counted in the southernmost row, because the latitude axis is circular like the longitude axis (GridBinPipelineSatellite.from_command_arguments)'},
 {'property': 'C05', 'key': 'north-pole-in-south-row', 'status': 'known',
  'what': 'satgrid command with -wrapcoords (always on from the command line): pixels at exactly 90 degrees north are counted in the southernmost row, because the latitude axis wraps like the longitude axis (SatelliteFileAggregator.from_command_arguments; a test requires the latitude axis to wrap)'},
]
# property of each fix commit, by the beginning of its subject
PROPERTY = [
 ('Operation.run with', 'C02'), ('building a catalogue with dataset_filter', 'C03'), ('cylc batch', 'C02'), ('times up to a day before the first', 'C04'),
 ('microseconds were', 'C04'), ('missing elements were dropped', 'C01'), ('zero, False', 'C01'), ('tasks past the end', 'C02'), ('running a last batch', 'C02'),
 ('tables without', 'C01'), ('catalogues with tar', 'C01'), ('catalogues with unused', 'C01'), ('an optional input', 'C02'), ('a catalogue in which all', 'C01'), ('parent folders', 'C03'),
 ('C++ day numbers', 'C04'), ('the last seconds', 'C04'), ('mid-month', None), ('times up to a day before the epoch', 'C04'),
 ('break point and mesh readers', 'C07'), ('truncated or missing binary', 'C07'), ('the number of steps since', 'C04'),
 ('satellite pixels up to one cell below the start of an axis were counted in its first cell by the iris', 'C06'),
 ('satellite pixels up to one cell below the start of an axis were counted in its first cell\0', 'C05'), ('missing satellite pixels', 'C05'), ('satellite files without missing', 'C06'), ('only the first value of inputs', 'C06'), ('the random uncertainty of cells', 'C05'),
 ('binary files ending within', 'C08'), ('daily observations of another location', 'C08'), ('the location pointer reader', 'C09'), ('the source of missing', 'C08'),
 ('break points of files without', 'C10'), ('the kernel deciding', 'C10'), ('observations were given bias terms', 'C10'),
 ('the altitude adjustment of in-situ land data without', 'C08'), ('days without observations could', 'C08'),
 ('the smallest uncertainty of a diagnostic', 'C11'), ('diagnostics of a day', 'C11'), ('inspectinput took', 'C11'), ('points located with spherical', 'C12'), ('the partial inverse was', 'C13'), ('the error for matrices', 'C13'), ('traces and marginal', 'C13'),
 ('lattices with different', 'C14'), ('precision matrices of lattices', 'C14'), ('derivatives of precision', 'C14'), ('precision matrices did not', 'C14'), ('precision matrices of orders', 'C14'),
 ('observation matrices failed', 'C14'), ('the factor element', 'C15'), ('general hyperparameters were', 'C18'), ('general hyperparameters could', 'C18'), ('covariates on grids', 'C15'),
 ('samples of delayed spatial', 'C16'), ('delayed spatial components never', 'C16'), ('delayed spatial components with nonlinear', 'C16'), ('samples could not be stored', 'C16'),
 ('a time step without observations', 'C16'), ('merging measurement updates', 'C16'), ('the updated state of a nonlinear', 'C16'), ('grid cell averages on grids', 'C17'),
 ('samples could not be projected', 'C17'), ('processing several days at once', 'C17'),
 ('samples at one time on either', 'C19'), ('zeros in station names', 'C19'), ('a sample of a station without', 'C19'), ('verification stopped', 'C19'), ('the latitude axis of global fields', 'C11'),
 ('lists of files to merge', 'C20'), ('files of different sources were merged', 'C20'), ('sources could not be merged', 'C20'), ('merged files went astray', 'C20'),
 ('saved quality flags', 'C21'), ('names of flags in flag', 'C21'), ('regional statistics', 'C21'), ('running means of images', 'C21'), ('window and calendar checks', 'C21'),
 ('quality control of station data', 'C22'), ('station data without missing', 'C22'), ('files with a single ship', 'C22'), ('files with a single lake', 'C22'), ('lakes at different latitude', 'C22'), ('ice model stopped', 'C23'), ('ice model accepted', 'C23'), ('command line of the ice model', 'C23'), ('land cells with minimum', 'C24'), ('observations of fields without', 'C24'), ('command lines of the land', 'C24'), ('C++ location lookup', 'C07'), ('descriptors', 'C25'),
]
if os.path.exists(os.path.join(HERE, 'tools', 'more_fixes.json')):
    PROPERTY += [tuple(x) for x in json.load(open(os.path.join(HERE, 'tools', 'more_fixes.json')))]
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], stdout=subprocess.PIPE, universal_newlines=True, check=True).stdout
fixed = []
for line in log.splitlines():
    commit, subject = line.split(' ', 1)
    if subject.startswith('fix: '):
        what = subject[5:]
        found = [p for start, p in PROPERTY if (what + '\0').startswith(start)]
        assert len(found) == 1, (what, found)
        if found[0]:
            fixed.append('fixed: property=%s %s %s' % (found[0], commit, what))
json.dump({'findings': KNOWN, 'fixed': fixed}, open(os.path.join(HERE, 'known_findings.json'), 'w'), indent=1)
print(len(KNOWN), 'known,', len(fixed), 'fixed')
