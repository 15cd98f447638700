"""Time bases, steps and calendar days."""

import datetime
import os
from datetime import timedelta
from fractions import Fraction

import netCDF4
import numpy

import cpp
from eumopps.catalogue.step import StepDaily, StepOnce
from eumopps.timeutils import datetime_dictionary, datetime_numeric
from eumopps.timeutils.timebase import TimeBaseAnnual, TimeBaseDays, TimeBaseMonthly, TimeBaseSeconds
from eustace.analysis.advanced_standard.elements import seasonal
from eustace.analysis.advanced_standard.examples.placeholder import (AnalysisAnnualBatchDayIndices, AnalysisAnnualBatchDayTimes,
                                                                     AnalysisStepIndex)
from eustace.analysis.advanced_standard.examples.step import StepAnnual, StepMonthly
from eustace.analysis.advanced_standard.examples.stepmidmonth import StepMidMonth
from eustace.analysis.advanced_standard.fileio.step import StepDailyEpoch
from eustace.timeutils import decimaltime, epoch

NEEDS = {'extension': True, 'cpp_harness': ['harness.cpp'], 'sanitize': False}
RULE = """Random epochs and times (leap days, century years, ends of months and years, dates before the epoch, times of day)
go through every time base, step class, day number list and text form of the library, and through the C++ calendar
classes run under several time zones; the monitor compares with exact integer arithmetic on Python datetimes.
Non-trivial: the case covers times before and after the epoch, or more than one step."""
REQUIRED = {'round trips': 3000, 'order': 1500, 'step starts': 3000, 'times in steps': 5000, 'C++ days': 5000, 'time zones': 20, 'leap days': 100,
            'before epoch': 500}
ASSUMPTIONS = ['Times of day are multiples of a millisecond: a day number of a century and a half holds microseconds only to one unit',
               'datetime of the Python standard library is correct']

DAY = timedelta(days=1)
FIRST, LAST = datetime.datetime(1582, 10, 15), datetime.datetime(2300, 1, 1)
SPECIAL = [datetime.datetime(*v) for v in (
    (1850, 1, 1), (1849, 12, 31, 23, 59, 59), (1850, 1, 1, 0, 0, 1), (1900, 2, 28, 23, 59, 59), (1900, 3, 1), (2000, 2, 29), (2000, 2, 29, 23, 59, 59),
    (2000, 12, 31), (1999, 12, 31, 23, 59, 59), (2004, 2, 29, 12), (1896, 2, 29), (1904, 2, 29), (1970, 1, 1), (1969, 12, 31, 23, 59, 59), (2038, 1, 19, 3, 14, 8),
    (1901, 12, 13), (2015, 12, 31, 23, 59, 59), (1700, 2, 28), (1700, 3, 1), (2100, 2, 28, 23), (2100, 3, 1))]


def a_time(rng, whole_days=False, near=None):
    kind = rng.randint(6)
    if kind == 0:
        t = SPECIAL[rng.randint(len(SPECIAL))]
    elif kind == 1 and near is not None:
        t = near + timedelta(days=int(rng.randint(-3, 4)), seconds=int(rng.randint(-2, 3)))
    else:
        low, high = (datetime.datetime(1840, 1, 1), datetime.datetime(2025, 1, 1)) if kind < 5 else (FIRST, LAST)
        t = low + timedelta(days=int(rng.randint((high - low).days)))
        if kind == 2:
            t = t.replace(day=1) - timedelta(seconds=int(rng.randint(0, 3)))
        if kind == 3:
            t = datetime.datetime(t.year, 1, 1) + timedelta(seconds=int(rng.choice([-1, 0, 1])))
        elif kind == 4:
            t += timedelta(seconds=int(rng.randint(86400)), milliseconds=int(rng.choice([0, 0, 0, 1, 500, 999])))
    if whole_days:
        t = datetime.datetime(t.year, t.month, t.day)
    return t


def year_number(t, epoch_year):
    start, end = datetime.datetime(t.year, 1, 1), datetime.datetime(t.year + 1, 1, 1)
    return t.year - epoch_year + (t - start) / (end - start)


def next_month(t):
    return datetime.datetime(t.year + t.month // 12, t.month % 12 + 1, 1)


def month_number(t, e):
    start = datetime.datetime(t.year, t.month, 1)
    return 12 * (t.year - e.year) + t.month - e.month + (t - start) / (next_month(t) - start)


def time_bases(rng, mon):
    for _ in range(6):
        e = a_time(rng, whole_days=bool(rng.randint(2)))
        e = e.replace(microsecond=0)
        days, seconds = TimeBaseDays(e), TimeBaseSeconds(e)
        years, months = TimeBaseAnnual(datetime.datetime(e.year, 1, 1)), TimeBaseMonthly(datetime.datetime(e.year, e.month, 1))
        times = sorted(a_time(rng, near=e) for _ in range(8))
        previous = None
        for t in times:
            mon.count('leap days', (t.month, t.day) == (2, 29))
            mon.count('before epoch', t < e)
            exact = Fraction(t - e >= timedelta(0) and 1 or -1) * Fraction(abs(t - e) // timedelta(microseconds=1), 86400 * 10**6)
            n = days.datetime_to_number(t)
            mon.close(n, float(exact), 'days from %s to %s' % (e, t), rtol=1e-13, atol=1e-11, event='round trips')
            if exact.denominator == 1:
                mon.equal(float(n), float(exact), 'whole days from %s to %s' % (e, t), event='whole days')
            mon.check(abs(days.number_to_datetime(n) - t) < timedelta(microseconds=100), lambda: 'days since %s: %s gives %r, back %s' % (
                e, t, n, days.number_to_datetime(n)), 'round trips')
            whole = t.replace(microsecond=0)
            s = seconds.datetime_to_number(whole)
            mon.equal(int(s), int((whole - e) / timedelta(seconds=1)), 'seconds from %s to %s' % (e, whole), event='round trips')
            mon.equal(seconds.number_to_datetime(s), whole, 'seconds since %s of %s and back' % (e, whole), event='round trips')
            back = seconds.number_to_datetime(seconds.datetime_to_number(t))
            mon.check(timedelta(0) <= t - back < timedelta(seconds=1), lambda: 'seconds since %s of %s and back: %s' % (e, t, back), 'round trips')
            y = years.datetime_to_number(t)
            mon.close(y, year_number(t, e.year), 'years from %s to %s' % (e.year, t), rtol=1e-12, atol=1e-10, event='round trips')
            mon.check(abs(years.number_to_datetime(y) - t) < timedelta(milliseconds=5), lambda: 'years since %d: %s gives %r, back %s' % (
                e.year, t, y, years.number_to_datetime(y)), 'round trips')
            m = months.datetime_to_number(t)
            mon.close(m, month_number(t, e), 'months from %s to %s' % (e, t), rtol=1e-12, atol=1e-10, event='round trips')
            mon.check(abs(months.number_to_datetime(m) - t) < timedelta(milliseconds=5), lambda: 'months since %s: %s gives %r, back %s' % (
                e, t, m, months.number_to_datetime(m)), 'round trips')
            mon.equal(datetime_numeric.parse(datetime_numeric.build(whole)), whole, 'text of %s and back' % whole, event='round trips')
            mon.equal(datetime_numeric.build(t), '%04d%02d%02d%02d%02d%02d' % whole.timetuple()[:6], 'text of %s' % whole, event='round trips')
            mon.equal(datetime_numeric.build_from_pattern('a%d_%Y-%m/%H.%M%S%Y/%S%M%H%d%m', t), 'a%02d_%04d-%02d/%02d.%02d%02d%04d/%02d%02d%02d%02d%02d' % (
                whole.day, whole.year, whole.month, whole.hour, whole.minute, whole.second, whole.year, whole.second, whole.minute, whole.hour, whole.day, whole.month), 'pattern of %s' % t, event='round trips')
            names = ['year', 'month', 'day', 'hour', 'minute', 'second']
            depth = rng.randint(1, 7)
            full = list(whole.timetuple()[:6])
            given = {names[i]: ('%02d' % full[i]) for i in range(depth)}
            expected = datetime.datetime(full[0], full[1] if depth > 1 else 1, full[2] if depth > 2 else 1, *(full[3:depth] if depth > 3 else []))
            mon.equal(datetime_dictionary.parse(dict(given, other='x')), expected, 'fields %s' % given, event='round trips')
            for module in (decimaltime, seasonal):
                d = module.datetime_to_decimal_year(t)
                mon.close(d, year_number(t, 0), 'decimal year of %s' % t, rtol=1e-14, atol=1e-10, event='round trips')
                mon.equal(int(numpy.floor(d)), t.year, 'year of decimal year of %s' % t, event='round trips')
            if t >= datetime.datetime(1600, 1, 1):
                mon.close(epoch.days_since_epoch(t), (t - datetime.datetime(1850, 1, 1)) / DAY, 'days since epoch of %s' % t, rtol=1e-13, atol=1e-11, event='round trips')
                mon.equal(int(epoch.seconds_since_epoch(whole)), int((whole - datetime.datetime(1850, 1, 1)).total_seconds()), 'seconds since epoch of %s' % whole,
                          event='round trips')
                mon.equal(epoch.epoch_plus_seconds(epoch.seconds_since_epoch(whole)), whole, 'seconds since epoch and back, %s' % whole, event='round trips')
                mon.check(abs(epoch.epoch_plus_days(epoch.days_since_epoch(t)) - t) < timedelta(microseconds=100), 'days since epoch and back, %s' % t, 'round trips')
            if previous is not None and t > previous[0]:
                for name, before, after in (('days', previous[1], n), ('years', previous[2], y), ('months', previous[3], m)):
                    mon.check(after > before, lambda: '%s: %s gives %r but %s gives %r' % (name, previous[0], before, t, after), 'order')
            previous = (t, n, y, m)
        for number in [int(v) for v in rng.randint(-90000, 90000, 4)]:
            if FIRST < e + number * DAY < LAST:
                mon.equal(days.number_to_datetime(number), e + number * DAY, '%d days after %s' % (number, e), event='round trips')
                mon.equal(int(days.datetime_to_number(e + number * DAY)), number, 'days to %s' % (e + number * DAY), event='round trips')
                mon.equal(float(days.datetime_to_number(e + number * DAY)) % 1.0, 0.0, 'whole day', event='whole days')
                if e.year >= 1600:
                    got = netCDF4.num2date(number, days.units(), only_use_cftime_datetimes=False, only_use_python_datetimes=True)
                    mon.equal(got, e + number * DAY, 'units %s' % days.units(), event='units')
                    got = netCDF4.num2date(number * 86400 + 1, seconds.units(), only_use_cftime_datetimes=False, only_use_python_datetimes=True)
                    mon.equal(got, e + number * DAY + timedelta(seconds=1), 'units %s' % seconds.units(), event='units')
        early = datetime.datetime(int(rng.randint(1, 1000)), int(rng.randint(1, 13)), 5, 6, 7, 8)
        mon.equal(datetime_numeric.build(early), '%04d%02d05060708' % (early.year, early.month), 'text of %s' % early, event='round trips')
        mon.equal(datetime_numeric.parse(datetime_numeric.build(early)), early, 'text of %s and back' % early, event='round trips')
        for offset in (timedelta(seconds=1), timedelta(milliseconds=1), timedelta(hours=int(rng.randint(1, 24))), timedelta(days=int(rng.randint(1, 28)))):
            late = datetime.datetime(e.year, 1, 1) + offset
            mon.raises(lambda: TimeBaseAnnual(late), 'annual base starting %s' % late)
            later = datetime.datetime(e.year, e.month, 1) + offset
            mon.raises(lambda: TimeBaseMonthly(later), 'monthly base starting %s' % later)
        mon.case((str(e), [str(t) for t in times[:3]]), times[0] < e < times[-1])


def moments(rng, start, end):
    """Times within [start, end), the first and the last second included."""
    length = int((end - start).total_seconds())
    yield start
    yield end - timedelta(seconds=1)
    yield start + timedelta(seconds=int(rng.randint(length)))
    if rng.randint(2):
        yield start + timedelta(seconds=1)


def judge_steps(rng, mon, step, name, starts, first, text):
    """starts: beginning of each step, and of the one after the last."""
    number = len(starts) - 1
    if first is not None:
        mon.equal(step.count(), number, '%s: number of steps' % name)
    some = sorted(set([0, number - 1] + [int(i) for i in rng.randint(number, size=min(number, 25))]))
    for i in some:
        index = i + (first or 0)
        mon.equal(step.time_at_index(index), starts[i], '%s: start of step %d' % (name, index), event='step starts')
        mon.equal(step.index_at_time(starts[i]), index, '%s: step of its start %s' % (name, starts[i]), event='step starts')
        for t in moments(rng, starts[i], starts[i + 1]):
            mon.equal(step.index_at_time(t), index, '%s: step of %s' % (name, t), event='times in steps')
        entry = step.create_output_entry(['%Y/', 'x_%Y%m%d%H%M%S.nc'], index)
        mon.equal(entry.time, starts[i], '%s: time of output %d' % (name, index), event='step starts')
        mon.equal(entry.name, starts[i].strftime('%Y/x_%Y%m%d%H%M%S.nc') if starts[i].year >= 1000 else '', '%s: name of output %d' % (name, index), event='step starts')
    mon.check(step.index_at_time(starts[0] - timedelta(seconds=1)) < (first or 0), '%s: time before the first step' % name, 'times in steps')
    mon.check(step.index_at_time(starts[-1]) == number + (first or 0), '%s: time after the last step' % name, 'times in steps')


def steps(rng, mon):
    base = max(a_time(rng), datetime.datetime(1600, 1, 1)).replace(microsecond=0)
    # daily
    start = base if rng.randint(2) else datetime.datetime(base.year, base.month, base.day)
    length = int(rng.choice([0, 1, 2, 10, 366, 800, 20000]))
    end = start + timedelta(days=length, seconds=int(rng.choice([0, 1, 43200, 86399])))
    as_text = bool(rng.randint(2))
    give = (lambda t: t.strftime('%Y%m%d%H%M%S')) if as_text else (lambda t: t)
    judge_steps(rng, mon, StepDaily(give(start), give(end)), 'daily %s to %s' % (start, end), [start + i * DAY for i in range(length + 2)], 0, as_text)
    # daily since the epoch
    origin = datetime.datetime(1850, 1, 1)
    first = (start - origin).days
    last = (end - origin).days
    step = StepDailyEpoch(give(start), give(end))
    judge_steps(rng, mon, step, 'daily since epoch %s to %s' % (start, end), [origin + i * DAY for i in range(first, last + 2)], first, as_text)
    # annual
    years = int(rng.choice([0, 1, 3, 100]))
    finish = datetime.datetime(start.year + years, 1, 1) + timedelta(seconds=int(rng.choice([0, 1, 10000, 31535999])))
    if finish >= start:
        judge_steps(rng, mon, StepAnnual(give(start), give(finish)), 'annual %s to %s' % (start, finish),
                    [datetime.datetime(start.year + i, 1, 1) for i in range(years + 2)], 0, as_text)
        annual = StepAnnual(give(start), give(finish))
        numbers = AnalysisAnnualBatchDayIndices().operation_input_resolve([False] * annual.count(), None, annual)
        times = AnalysisAnnualBatchDayTimes().operation_input_resolve([False] * annual.count(), None, annual)
        mon.equal(numbers.count(), years + 1, 'annual day lists')
        seen = []
        for i in range(years + 1):
            here = [int(n) for n in numbers.resolve_single_operation(None, i)]
            expected = [n for n in range((datetime.datetime(start.year + i, 1, 1) - origin).days, (datetime.datetime(start.year + i + 1, 1, 1) - origin).days)
                        if (start - origin).days <= n <= (finish - origin).days]
            mon.equal(here, expected, 'days of year %d within %s to %s' % (start.year + i, start, finish), event='day lists')
            mon.equal(list(times.resolve_single_operation(None, i)), [origin + n * DAY for n in expected], 'times of year %d' % (start.year + i), event='day lists')
            seen += here
        mon.equal(seen, list(range((start - origin).days, (finish - origin).days + 1)), 'all days once', event='day lists')
    # monthly
    months = int(rng.choice([0, 1, 5, 30, 1000]))
    starts = [datetime.datetime(start.year, start.month, 1)]
    for _ in range(months + 1):
        starts.append(next_month(starts[-1]))
    finish = starts[-2] + timedelta(seconds=int(rng.choice([0, 1, 10000, 28 * 86400 - 1])))
    if finish >= start:
        judge_steps(rng, mon, StepMonthly(give(start), give(finish)), 'monthly %s to %s' % (start, finish), starts, 0, as_text)
    # middle of months
    step = StepMidMonth(starts[0].strftime('%Y%m%d%H%M%S'), months + 1)
    mon.equal(step.count(), months + 1, 'middle of months: number')
    for i in set([0, months] + [int(v) for v in rng.randint(months + 1, size=5)]):
        middle = starts[i] + (starts[i + 1] - starts[i]) / 2
        got = step.time_at_index(i)
        january = datetime.datetime(starts[0].year + i // 12, i % 12 + 1, 1)
        mon.equal(got, middle, 'middle of month %d from %s' % (i, starts[0]), event='step starts',
                  key='mid-month-epoch-month' if starts[0].month > 1 and got == january + (next_month(january) - january) / 2 else None)

        class Entry(object):
            time = middle
        mon.equal(list(step.operation_indices_for_input_entry(Entry)), [i], 'step of the middle of month %d from %s' % (i, starts[0]), event='times in steps')
    # day numbers as step parameters
    whole = StepDaily(datetime.datetime(start.year, start.month, start.day), datetime.datetime(start.year, start.month, start.day) + min(length, 400) * DAY)
    got = AnalysisStepIndex().operation_input_resolve([False] * whole.count(), None, whole)
    mon.equal([int(got.resolve_single_operation(None, i)) for i in range(got.count())], [(whole.start - origin).days + i for i in range(whole.count())],
              'day numbers of steps from %s' % whole.start, event='day lists')
    once = StepOnce()
    mon.equal((once.count(), once.index_at_time(start), once.index_at_time(end)), (1, 0, 0), 'single step')
    mon.case((str(start), length, years, months, as_text), length > 0)


ZONES = ['UTC', 'CET-1CEST,M3.5.0,M10.5.0/3', 'EST5EDT,M3.2.0,M11.1.0', 'IST-5:30', 'NZST-12NZDT,M9.5.0,M4.1.0/3', 'HST10', 'Europe/Paris', 'America/New_York',
         'Asia/Kolkata', 'Pacific/Apia', 'Africa/Cairo', 'Europe/London', '']


def cpp_days(rng, mon):
    zone = ZONES[mon.index % len(ZONES)]
    commands, expected = [], []
    origin = datetime.datetime(1850, 1, 1)
    for _ in range(150):
        t, e = a_time(rng, True), a_time(rng, True)
        if min(t, e) < datetime.datetime(1600, 1, 1):
            continue
        mon.count('leap days', (t.month, t.day) == (2, 29))
        mon.count('before epoch', t < e)
        parts = '%d %d %d 0 0 0' % (t.year, t.month, t.day)
        commands.append('calendar %d %d %d' % (t.year, t.month, t.day))
        expected.append([parts, t.strftime('%Y%m%d'), str((t - origin).days)])
        commands.append('text ' + t.strftime('%Y%m%d'))
        expected.append([parts, t.strftime('%Y%m%d')])
        commands.append('number %s %s' % (e.strftime('%Y%m%d'), t.strftime('%Y%m%d')))
        expected.append([str((t - e).days)])
        commands.append('time %s %d' % (e.strftime('%Y%m%d'), (t - e).days))
        expected.append([parts, str((t - e).days)])
    for command, want, got in zip(commands, expected, cpp.run(commands, {'TZ': zone})):
        mon.equal(got, want, 'C++ %s with time zone %r' % (command, zone), event='C++ days')
    mon.count('time zones')
    mon.case((zone, commands[:4]))


SCENARIOS = [(time_bases, 120, 2000), (steps, 240, 4000), (cpp_days, 78, 520)]
