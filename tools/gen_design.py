#!/usr/bin/env python3
"""Write DESIGN.md from the properties, the checks, the findings and the planted bugs, with the text below."""

import ast
import glob
import json
import os

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = """# Verification of eustace-advanced by runtime monitoring

Generated by `tools/gen_design.py` (edit that, not this file).

## How a check works

`run.sh ID quick|thorough` does three things, all from /repo's current working tree:

1. `lib/prepare.py` and `lib/build.py` translate the Python 2 sources to Python 3 with the same translator `/opt/vp/build.sh` uses (into
   `build/`, keyed by the contents of the tree, so that an edit is always seen), compile the C and Cython modules and the C++ library with the
   driver `lib/harness.cpp`, and, where a check asks for it, compile both again with AddressSanitizer and UndefinedBehaviorSanitizer (and checked
   containers for C++).
2. `lib/runner.py` runs the scenarios of `checks/ID.py` in eight processes. A scenario makes random, hostile inputs from VERIF_SEED, drives the real
   code with them and reports each observation to a `Monitor` (`lib/monitor.py`), which judges it against a model of the scenario's own: dense
   algebra, lists of records, exact calendar arithmetic, an independent parser of the files. Nothing is compared with stored output of the code,
   and nothing looks at how the code is written.
3. An unexpected exception, a crash, a sanitizer report, or no end after 240 s of processor time is a violation too. `REQUIRED` counters (cells
   compared, refusals seen, days run, ...) make a run that observed too little inconclusive (exit 3) rather than passing. Evidence files hold these
   counters, the number of distinct non-trivial cases and one example of each scenario.

A violation prints `VIOLATION property=ID replay=PATH`; `run.sh ID quick --replay PATH` runs that one case again. The thorough command runs the same
scenarios with ten to fifty times as many cases. Every scenario works in a scratch folder that it makes and removes; programs of the package that
delete or overwrite files are only given paths inside it.

The guarantees that hold "for every input, division, order or history" are stated in `properties.jsonl`; sampling cannot prove them, and the level
claimed for every property is exploration by monitored execution. What makes the sample reach further than the tests of the repository is that the
oracle is a model and not a table, so that any input can be judged, and that inputs are chosen at the places where such code goes wrong: values on
thresholds, cell edges and poles, empty and single and very many elements, all and none masked, dates before the epoch and at month ends, names
and fields longer than their neighbours, repeated use of one object, many objects alive at once, every division into parts and order of parts,
damaged and absent files, failing and slow subprocesses.

## What was not attempted, and why

* No hooks were added to /repo: every monitored quantity is visible through the public interfaces, through files, or through stand-ins for functions
  the code calls (recorded run modules, a replacement for the IDL program, a slowed `cksum`, a gridding step that only reads).
* The programs below `examples/` count as test files here and may not be changed; they are used (moving_climatology, placeholders, step classes)
  but their own defects are only recorded.
* IDL is not installed; the land and ocean models themselves are outside. Only what is asked of the program and done with its output is checked.
* Python's own threads are used in one place only (checksums); the race there is explored with injected delays. The C++ library has no threads, so
  a race detector has nothing to watch.
* Statistical guarantees (samples) are judged at seven to eight standard errors, so that a false alarm has negligible probability for any seed.
* `not_applicable` is empty: every property is decided by monitored execution.

## Properties

"""

REACH = {
    'C01': 'The formats store strings as fixed-width arrays, references as paths and absent members as fill values: whether they survive depends on combinations (a long tag after a short one, a single match, no match, nesting) that the two or three catalogues of the tests do not have.',
    'C02': 'Off-by-one errors in batches and time keys show only for particular counts, gaps and orders; the recorded history makes exactly-once a fact to be checked instead of a return code.',
    'C03': 'Search depends on directory order and on names that almost fit; checksums on thread timing and on files that change while they are read.',
    'C04': 'Calendar arithmetic fails at particular dates (leap days, centuries, before the epoch) and time zones.',
    'C05': 'Single pixels, crowded cells, edges, and orders of files; sums are made exact by choosing values on a binary grid, so equality can be asked for.',
    'C06': 'As C05 for the general operations: every mask pattern and succession of inputs.',
    'C07': 'Reading one element beyond an array changes no result in a test; sanitizers and guard values see it. Damaged files reach error paths no test opens.',
    'C08': 'The writer is judged by bytes and not by its own reader, so errors made twice are seen.',
    'C09': 'Retrieval by location runs through pointer files made by Python and followed by C++; every value is compared bit for bit under sanitizers, with objects reused in random order.',
    'C10': 'Pairing of fields and searches at equal times need many stations and tied times.',
    'C11': 'Appending, averaging and accumulating in parts is compared with lists, for any overlap.',
    'C12': 'Points a rounding error beside an edge, at poles, at deep levels where indices exceed 32 bits.',
    'C13': 'Libraries reorder, cache and share; several factorisations alive at once, exact cancellation in factors, and refusal of singular matrices are beyond examples with one matrix.',
    'C14': 'A matrix is rebuilt node by node from the definition for any dimension, order, wrap and hyperparameter, and derivatives are compared with differences.',
    'C15': 'Rows of a design must not depend on other rows: subsets and permutations show it; formulas are evaluated at poles, date line and year ends.',
    'C16': 'The posterior is computed densely, so every division of the same observations among days, sources, files and objects has one right answer.',
    'C17': 'Invariants of the iteration (residuals, joint misfit, additivity) are observed after every update.',
    'C18': 'The likelihood is computed from dense covariance matrices: cost and gradient are compared in any model, not at one minimum.',
    'C19': 'Packing limits, masks and name lengths; and verification is tested by altering one thing at a time.',
    'C20': 'All mask patterns of up to five sources, absent files, interrupted merges.',
    'C21': 'Flags are bits of one number: any pattern of other bits, absent days and years and threshold values are generated, and every cell of the result judged.',
    'C22': 'Text and NetCDF reports with every kind of gap, flag, duplicate and convention.',
    'C23': 'Every quality test at, above and below its threshold, with each field missing on its own; all 21 output fields judged in every cell.',
    'C24': 'Every field with its own missing cells; command lines and failing programs.',
    'C25': 'The generated descriptor is both read as a data flow and carried out by the real catalogue, commands and storage classes; no test runs one.',
}

TAIL = """## Defects of the repository

%(nfixed)d defects were repaired in separate `fix:` commits (`known_findings.json`, "fixed"); each was first shown by a check on the
original code. %(nknown)d genuine defects are recorded and not repaired, because the place may not be changed or a test of the repository requires the
behaviour; their checks print KNOWN-FINDING for exactly that input and report anything else:

%(known)s

Seen while reading or monitoring, kept outside the stated properties (their inputs are excluded by the assumptions above), and not repaired:

* `aggregate.c` trusts the lengths and indices its callers pass (they are right in the package).
* The diagnostic mean is weighted by the reciprocal of the uncertainty, not of the variance.
* `night_bin_comparison_mask` compares an absolute value with a negative limit, so it never removes a cell (as in the published Matlab code).
* `latent_variable_check.py` asks for a flag that does not exist.
* Below `examples/`: `AnalysisSystemInputLoaderRawBinary` needs a name that may be None; its own `jsonfiller.py` leaves fields empty.
* `preparedailyfixed` calls the lake source with arguments it does not take.
* A copied C++ `AnalysisInputRetrieval` keeps a pointer into the original.
* The default basis function of `LatticeMesh` is shared between meshes, and `overlap_factor` changes it.
* Wrapped lattices with fewer than three nodes, the conjugate gradient solver, `optimize_component_time` and `merge_local_parameterisations`
  (dead or broken code without callers).

## False alarms met and what was done

* Fields with all sixteen flags set look like missing data in flag files: such flags are not generated (assumption of C21).
* Sub-second times at day numbers of 150 years cannot be represented: C04 uses whole milliseconds.
* The total of weights was at first compared with a tolerance that single precision sums exceed: values are now on a binary grid where sums are exact.
* The optimiser is allowed the options the package gives it; a check that wanted the global minimum was too strong.
* Samples were judged at four standard errors at first; with thousands of comparisons per run that alarms by chance.
* Points within rounding of a triangle edge may be located in either triangle; a single triangle was demanded at first.

## How the checks were tested

**Planted bugs** (`seeded/`, each builds, passes the tests of the repository, and has a demonstration):

%(table)s

All are caught by the quick check of their property.

**Batches of hand-written bugs.** For each property, ten to forty subtle changes were written from the text of the property and the code (special
values, caching across calls, sizes beyond a block, wrong bit, order of members, refusals dropped, arguments exchanged in `main()`), run against the
quick check, and the checks extended for each one missed: about 870 bugs in all. Those still missed change nothing observable (an equivalent
algorithm, precision within the tolerance, code without callers) or lie outside the assumptions.

**Edits that keep the behaviour.** 29 refactorings (helpers extracted, loops rewritten, statements reordered, other containers) across the
properties were run against the quick checks: none raised an alarm.

**Mutation testing.** 1042 random mutants of the Python sources (operators, constants, conditions, deleted statements) were run against the check
of the property their file belongs to; about one in ten survived, most of them in messages, dead code, defaults that are always overridden, or
refusals of inputs nothing else depends on; the others led to further scenarios.

**Behaviour-preserving edits** (extracted helpers, reordered statements, rewritten loops, vectorised code, renamed locals) and several seeds were
run to look for false alarms; none remained.

## Cost

A quick check takes 10 to 90 s on eight cores after the build (about 60 s for the first check in a fresh sandbox, `setup.sh` prepares it). Thorough
checks take 10 to 90 minutes each.
"""


def assignments(path):
    found = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            name = node.targets[0].id
            if name in ('RULE', 'ASSUMPTIONS', 'NEEDS'):
                found[name] = ast.literal_eval(node.value)
            elif name == 'SCENARIOS':
                found[name] = [(e.elts[0].id, ast.unparse(e.elts[1]), ast.unparse(e.elts[2])) for e in node.value.elts]
    return found


def main():
    manifest = {c['property']: c for c in json.load(open(os.path.join(HOME, 'MANIFEST.json')))['checks']}
    text = HEAD
    for line in open(os.path.join(HOME, 'properties.jsonl')):
        p = json.loads(line)
        i = p['id']
        a = assignments(os.path.join(HOME, 'checks', i + '.py'))
        text += '### %s %s\n\n' % (i, p['title'])
        text += '*Technique:* %s. *Level:* %s.\n\n' % (manifest[i]['technique'], manifest[i]['level'])
        text += ' '.join(a['RULE'].split()) + '\n\n'
        text += '*Why tests cannot settle it:* %s\n\n' % REACH[i]
        text += '*Scenarios (quick / thorough cases):* %s.\n\n' % ', '.join('%s (%s / %s)' % s for s in a['SCENARIOS'])
        text += '*Bounds and assumptions:* %s.\n\n' % '; '.join(a['ASSUMPTIONS'])
        if a.get('NEEDS', {}).get('sanitize') or a.get('NEEDS', {}).get('sanitize_extension'):
            text += '*Sanitizers:* AddressSanitizer and UndefinedBehaviorSanitizer on the %s.\n\n' % ('C++ library, C and Cython modules' if a['NEEDS'].get('sanitize_extension') else 'C++ library')
    findings = json.load(open(os.path.join(HOME, 'known_findings.json')))
    known = '\n'.join('* %s: %s' % (f['property'], f['what']) for f in findings['findings'])
    rows = ['| change | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
    for folder in sorted(glob.glob(os.path.join(HOME, 'seeded', '*', 'meta.json'))):
        m = json.load(open(folder))
        rows.append('| %s | %s | %s | %s | %s quick |' % (os.path.basename(os.path.dirname(folder)), m['property'], m['what_it_breaks'], m['needs'], m['property']))
    text += TAIL % dict(nfixed=len(findings['fixed']), nknown=len(findings['findings']), known=known, table='\n'.join(rows))
    open(os.path.join(HOME, 'DESIGN.md'), 'w').write(text)


if __name__ == '__main__':
    main()
