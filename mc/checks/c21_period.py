"""C21: the periods used to merge time series behave as sets of instants."""
from __future__ import annotations

import copy
import itertools
import pickle

import numpy

from mc.kit import check
from zcollection.merging.period import RESOLUTION, Period, PeriodRelation

PROPERTY = 'C21'
LEVEL = 'model_checking'
RULE = ('every pair of periods, every period and instant, every shift and '
        'expansion over a grid of instants, for every unit, around several '
        'origins, compared with sets of instants')
ASSUMPTIONS = ['the two periods that are compared have the same unit (the '
               'bounds of a period, and an instant, can have another one); '
               'the operands of intersects, merge, span and relation are not '
               'empty']
#: units of the two bounds, and how many of the second make the first
MIXED = (('D', 'h', 24), ('h', 'm', 60), ('m', 's', 60), ('s', 'ms', 1000),
         ('ms', 'us', 1000), ('us', 'ns', 1000), ('D', 's', 86400),
         ('W', 'D', 7), ('Y', 'M', 12), ('s', 'ns', 10**9))

#: around the epoch, before it, across it, far from it
ORIGINS = (0, -3, -50, 12345)


def scenarios(tier):
    size = 7 if tier == 'quick' else 12
    for unit in RESOLUTION:
        for origin in ORIGINS:
            for begin in range(size):
                yield (unit, origin, size, begin)
    for coarse, fine, _ in MIXED:
        for origin in ORIGINS:
            yield (coarse, origin, fine, None)


class Model:
    """A set of consecutive instants."""

    def __init__(self, begin, end, points=True):
        self.begin, self.end = begin, end
        if points:
            self.points = set(range(begin, end))


def make(unit, model, how):
    begin = numpy.datetime64(model.begin, unit)
    end = numpy.datetime64(model.end, unit)
    if how == 'open':
        return Period(begin, end)
    if how == 'closed':
        return Period(begin, numpy.datetime64(model.end - 1, unit),
                      within=True)
    if how == 'duration':
        return Period.from_duration(
            begin, numpy.timedelta64(model.end - model.begin, unit))
    if how == 'pickle':
        return pickle.loads(pickle.dumps(Period(begin, end)))
    return copy.deepcopy(Period(begin, end))


HOW = ('open', 'closed', 'duration', 'pickle', 'copy')


def same(period, model, unit, what):
    """The period is the one of the model."""
    check(isinstance(period, Period), f'{what}: {period!r}')
    values = (period.begin, period.last, period.end())
    wanted = tuple(
        numpy.datetime64(x, unit)
        for x in (model.begin, model.end - 1, model.end))
    check(all(isinstance(x, numpy.datetime64) for x in values)
          and values == wanted, f'{what}: {values} instead of {wanted}')
    check(period.length() == numpy.timedelta64(model.end - model.begin, unit),
          f'{what}: length {period.length()}')
    check(bool(period.is_null()) is (model.end <= model.begin),
          f'{what}: is_null {period.is_null()}')


def relation_of(one, two):
    """The relations whose definition holds."""
    first, last = one.begin, one.end - 1
    begin, end = two.begin, two.end - 1
    rel = PeriodRelation
    out = set()
    for name, value in {
            rel.AFTER: end < first,
            rel.BEFORE: last < begin,
            rel.START_TOUCHING: first == end,
            rel.END_TOUCHING: last == begin,
            rel.EXACT_MATCH: (first, last) == (begin, end),
            rel.START_INSIDE: begin < first < end < last,
            rel.END_INSIDE: first < begin < last < end,
            rel.ENCLOSING: first < begin and end < last,
            rel.ENCLOSING_START_TOUCHING: first == begin and end < last,
            rel.ENCLOSING_END_TOUCHING: first < begin and end == last,
            rel.INSIDE: begin < first and last < end,
            rel.INSIDE_START_TOUCHING: first == begin and last < end,
            rel.INSIDE_END_TOUCHING: begin < first and last == end,
    }.items():
        if value:
            out.add(name)
    return out


def run(scenario, ctx):
    if scenario[-1] is None:
        mixed(scenario, ctx)
        return
    unit, origin, size, start = scenario
    instants = [numpy.datetime64(origin + x, unit) for x in range(-2,
                                                                  size + 3)]
    begin = origin + start
    for end in range(begin - 2, origin + size + 1):
        one = Model(begin, end)
        kinds = [make(unit, one, how) for how in HOW]
        for how, period in zip(HOW, kinds):
            what = f'{how} [{begin}, {end}[ {unit}'
            same(period, one, unit, what)
            check(str(one_date(begin, unit)) in repr(period), repr(period))
            for other in kinds:
                check(period == other and not period != other,
                      f'{what}: differs from {other!r}')
            for instant in instants:
                at = int(instant.astype('int64'))
                check(bool(period.contains(instant)) is (at in one.points),
                      f'{what}: contains {instant}')
                check(bool(period.is_after(instant)) is bool(
                    one.points and at < min(one.points)),
                      f'{what}: is_after {instant}')
                check(bool(period.is_before(instant)) is bool(
                    one.points and at > max(one.points)),
                      f'{what}: is_before {instant}')
                ctx.step()
            same(period, one, unit, f'{what} after the queries')
        for delta in range(-3, 4):
            step = numpy.timedelta64(delta, unit)
            period = make(unit, one, 'open')
            period.shift(step)
            same(period, Model(begin + delta, end + delta), unit,
                 f'[{begin}, {end}[ {unit} shifted by {delta}')
            period = make(unit, one, 'open')
            period.expand(step)
            same(period, Model(begin - delta, end + delta), unit,
                 f'[{begin}, {end}[ {unit} expanded by {delta}')
            ctx.step(2)
        if end <= begin:
            ctx.outcome('empty')
            continue
        ctx.outcome('period')
        for low, high in itertools.combinations(
                range(origin, origin + size + 1), 2):
            pair(unit, one, Model(low, high), ctx)
    ctx.state(scenario)


def mixed(scenario, ctx):
    """The bounds have different units: the period is the one of the finest
    instants."""
    coarse, origin, fine, _ = scenario
    ratio = next(i[2] for i in MIXED if i[:2] == (coarse, fine))
    offset = {'W': -3}.get(coarse, 0)  # (1970-01-01 is a Thursday)

    def date(value, unit):
        return numpy.datetime64(value, unit)

    first = int(date(origin, coarse).astype(f'datetime64[{fine}]').astype(
        'int64'))
    check(abs(first - origin * ratio) <= abs(offset) + 4, 'the ratio')
    deltas = sorted({
        i + j
        for i in (0, 1, ratio, 2 * ratio) for j in (-2, -1, 0, 1, 2)
    })
    for delta in deltas:
        end = first + delta
        for what, period in {
                'coarse and fine': Period(date(origin, coarse),
                                          date(end, fine)),
                'coarse and fine, within': Period(date(origin, coarse),
                                                  date(end - 1, fine),
                                                  within=True),
                'duration': Period.from_duration(
                    date(origin, coarse), numpy.timedelta64(delta, fine)),
        }.items():
            same(period, Model(first, end, False), fine,
                 f'{what}: [{origin} {coarse}, {end} {fine}[')
            instants(period, first, end, deltas, fine, ctx,
                     f'{what}: [{origin} {coarse}, {end} {fine}[')
        # [first + delta, origin[
        begin = first - delta
        period = Period(date(begin, fine), date(origin, coarse))
        what = f'[{begin} {fine}, {origin} {coarse}['
        same(period, Model(begin, first, False), fine, what)
        instants(period, begin, first, [-i for i in deltas], fine, ctx, what,
                 first)
        for step in (-2, 1):
            period = Period(date(begin, fine), date(origin, coarse))
            period.shift(numpy.timedelta64(step, coarse))
            moved = [
                int((date(i, fine) + numpy.timedelta64(step, coarse)).astype(
                    'int64')) for i in (begin, first)
            ] if coarse != 'Y' else None
            if moved:
                same(period, Model(*moved, False), fine,
                     f'{what} shifted by {step} {coarse}')
            ctx.step()
    ctx.outcome('mixed')
    ctx.state(scenario)


def instants(period, begin, end, deltas, unit, ctx, what, origin=None):
    for delta in deltas:
        at = (begin if origin is None else origin) + delta
        point = numpy.datetime64(at, unit)
        check(bool(period.contains(point)) is (begin <= at < end),
              f'{what}: contains {point}')
        check(bool(period.is_after(point)) is (begin < end and at < begin),
              f'{what}: is_after {point}')
        check(bool(period.is_before(point)) is (begin < end and at >= end),
              f'{what}: is_before {point}')
        ctx.step()


def one_date(value, unit):
    return numpy.datetime64(value, unit)


def pair(unit, one, two, ctx):
    left, right = make(unit, one, 'open'), make(unit, two, 'closed')
    what = f'[{one.begin}, {one.end}[ and [{two.begin}, {two.end}[ {unit}'
    common = one.points & two.points
    check(bool(left == right) is (one.points == two.points), f'{what}: ==')
    check(bool(left != right) is (one.points != two.points), f'{what}: !=')
    check(bool(left < right) is (max(one.points) < min(two.points)), f'{what}: <')
    check(bool(left.contains(right)) is (one.points >= two.points),
          f'{what}: contains')
    check(bool(left.intersects(right)) is bool(common), f'{what}: intersects')
    check(bool(left.is_adjacent(right)) is bool(
        one.end == two.begin or two.end == one.begin),
          f'{what}: is_adjacent')
    got = left.intersection(right)
    if common:
        same(got, Model(min(common), max(common) + 1), unit,
             f'{what}: intersection')
    else:
        check(got.is_null(), f'{what}: intersection {got!r}')
    got = left.merge(right)
    both = Model(min(one.begin, two.begin), max(one.end, two.end))
    if common:
        same(got, both, unit, f'{what}: merge')
    else:
        check(got.is_null(), f'{what}: merge {got!r}')
    same(left.span(right), both, unit, f'{what}: span')

    got = left.get_relation(right)
    wanted = relation_of(one, two)
    check(got in wanted, f'{what}: {got!r}, not one of {wanted}')
    if len(one.points) > 1 and len(two.points) > 1:
        check(wanted == {got}, f'{what}: {got!r} {wanted}')
    for name, value in {
            'is_after': not common and one.begin > two.begin,
            'is_before': not common and one.begin < two.begin,
            'contains': one.points >= two.points,
            'is_inside': one.begin > two.begin and one.end < two.end,
            'is_before_overlapping': common and one.begin <= two.begin
            and one.end < two.end,
            'is_after_overlapping': common and one.begin > two.begin
            and one.end >= two.end,
    }.items():
        if len(one.points) > 1 and len(two.points) > 1:
            check(bool(getattr(got, name)()) is bool(value), f'{what}: {got!r}.'
                  f'{name}()')
    # nothing was modified
    same(left, one, unit, f'{what}: the first afterwards')
    same(right, two, unit, f'{what}: the second afterwards')
    ctx.step(8)
    ctx.outcome(got.name)
